# ------------------------------------------------------------------ helpers and figures
ORIG_CUT = "    image = image.copy()\n    image[ymin:ymax, xmin:xmax] -= target["
B("hl-cut-early", "P37", (UT, ORIG_CUT, "    if ymax - ymin < 2:\n        return image\n" + ORIG_CUT))
B("hl-cut-inside-only", "P37", (UT, ORIG_CUT, "    if y0 < 0 or x0 < 0:\n        return image.copy()\n" + ORIG_CUT))
B("hl-cut-center", "P37", (UT, "y0, x0 = y - dy // 2, x - dx // 2", "y0, x0 = y - (dy + 1) // 2, x - dx // 2"))
B("hl-cut-clip", "P37", (UT, "np.clip([x0, x0 + dx], 0, image.shape[1])", "np.clip([x0, x0 + dx], 0, image.shape[0])"))
B("hl-cut-target", "P37", (UT, "xmin - x0 : xmax - x0]", "0 : xmax - xmin]"))
B("hl-match-swap", "P37", (UT, "return cat1_coords.match_to_catalog_sky(cat2_coords)", "return cat2_coords.match_to_catalog_sky(cat1_coords)"))
B("hl-poly", "P37", (MO, "c4=-0.00046837,\n            c5", "c4=-0.00046873,\n            c5"))
B("fg-title", "P38", (CO, "        ax.set_title(title, fontsize=ax_fontsize)\n        ax.set_xlabel(\n            \"Aperture Radius\" + (\" [{}]\".format(radius_unit) if radius_unit else \"\"),\n            fontsize=ax_fontsize,\n        )\n        ax.set_ylabel(\n", "        ax.set_title('Curve of Growth', fontsize=ax_fontsize)\n        ax.set_xlabel(\n            \"Aperture Radius\" + (\" [{}]\".format(radius_unit) if radius_unit else \"\"),\n            fontsize=ax_fontsize,\n        )\n        ax.set_ylabel(\n"))
B("fg-half-radius", "P38", (CO, "                    r_half_light, half_flux, zorder=6", "                    r_half_light, total_flux / 2, zorder=6"))
B("fg-total-label", "P38", (CO, "                        total_flux_fraction, r_total_flux, radius_unit\n", "                        total_flux_fraction, total_flux, radius_unit\n"))
B("fg-nan-guard", "P38", (CO, "            if not np.isnan(r_total_flux) and not np.isnan(total_flux):\n", "            if not np.isnan(r_total_flux):\n"))
B("fg-band-sign", "P38", (CO, "                self.petrosian_list - self.petrosian_err,\n", "                self.petrosian_list,\n"))
B("fg-band-cog", "P38", (CO, "                self.flux_list + self.flux_err,\n", "                self.flux_list + self.petrosian_err,\n"))
B("fg-imshow-theta", "P38", (CO, "radial_elliptical_aperture(position, r, elong, theta).plot(", "radial_elliptical_aperture(position, r, elong).plot("))
B("fg-imshow-zero", "P38", (CO, "            if not np.isnan(r) and r > 0:\n", "            if not np.isnan(r):\n"))
B("fg-imshow-80", "P38", (CO, "            self._calculate_fraction_to_r(0.8)[0],\n        ]", "            self._calculate_fraction_to_r(0.9)[0],\n        ]"))
B("fg-current-axes", "P38", (CO, "        ax.set_xlim(0, None)\n        if show_legend:\n            ax.legend(fontsize=legend_fontsize)\n\n        return ax\n\n    def plot_cog", "        ax.set_xlim(0, None)\n        if show_legend:\n            plt.legend(fontsize=legend_fontsize)\n\n        return ax\n\n    def plot_cog"))
B("fg-fit-residual", "P38", (FI, "    axs[2].imshow(residual_image,", "    axs[2].imshow(-residual_image,"))
B("fg-fit-vmin", "P38", (FI, "    if vmin is None:\n        vmin = -vmax\n", "    if not vmin:\n        vmin = -vmax\n"))
B("fg-segments-order", "P38", (SG, "    if image is not None:\n        plt.imshow(image, vmin=vmin, vmax=vmax, cmap=\"gist_gray\")\n", "    if image is not None and vmax is not None:\n        plt.imshow(image, vmin=vmin, vmax=vmax, cmap=\"gist_gray\")\n"))
B("fg-residual", "P38", (SG, "temp[np.where(segm.data != 0)] = 0.0", "temp[np.where(segm.data > 1)] = 0.0"))
B("fg-residual-inplace", "P32", (SG, "    temp = image.copy()\n    temp[", "    temp = image\n    temp["))
B("fg-target-ylim", "P38", (UT, "    plt.ylim(y - (size / 2.0), y + (size / 2.0))\n", "    plt.ylim(y + (size / 2.0), y - (size / 2.0))\n"))
B("fg-fwhm-half", "P38", (FI, "    hm = fitted_line(x_mean, y_mean) / 2.0\n", "    hm = fitted_line(y_mean, x_mean) / 2.0\n"))
