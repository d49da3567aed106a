# ------------------------------------------------------------------ figures
R("fig-cog-loop", (CO, "Petrosian.plot_cog", '''
def plot_cog(self, plot_r=True, title="Curve of Growth", radius_unit="pix", flux_unit="", ax=None, color="tab:blue", err_alpha=0.2, err_capsize=3,
             show_legend=True, legend_fontsize=None, ax_fontsize=None, tick_fontsize=None):
    """Plots the curve of growth."""
    unit = str(radius_unit) if radius_unit is not None else ""
    ax = ax if ax is not None else plt.gca()
    ax.errorbar(self.r_list, self.flux_list, yerr=self.flux_err, marker="o", capsize=err_capsize, c=color, label="Data")
    band = self.flux_err is not None and err_alpha is not None and err_alpha > 0
    if band:
        lower, upper = self.flux_list - self.flux_err, self.flux_list + self.flux_err
        ax.fill_between(self.r_list, lower, upper, alpha=err_alpha, color=color)
    if plot_r:
        lines = (
            (self.r_half_light, self.half_flux, "--", "$R_{{50}}(L_{{50}}) = {:0.4f}$ {}", ()),
            (self.r_total_flux, self.total_flux, "-", "$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}", (int(self.total_flux_fraction * 100),)),
        )
        for r, flux, style, label, extra in lines:
            if np.isnan(r) or np.isnan(flux):
                continue
            look = dict(linestyle=style, c="black", alpha=self._r_plot_alpha)
            ax.axvline(r, label=label.format(*extra, r, unit), **look)
            ax.axhline(flux, **look)
            ax.scatter(r, flux, zorder=6, marker="o", color="tab:orange")
    xlabel, ylabel = "Aperture Radius", r"$L(\\leq r)$"
    if unit:
        xlabel += f" [{unit}]"
    if flux_unit:
        ylabel = ylabel + " [%s]" % flux_unit
    ax.set_title(title, fontsize=ax_fontsize)
    ax.set_xlabel(xlabel, fontsize=ax_fontsize)
    ax.set_ylabel(ylabel, fontsize=ax_fontsize)
    mpl_tick_frame(ax, True, tick_fontsize)
    ax.set_xlim(0, None)
    ax.set_ylim(0, None)
    if show_legend:
        ax.legend(fontsize=legend_fontsize)
    return ax
'''))

R("fig-profile-helpers", (CO, "Petrosian.plot", '''
def _draw_band(self, ax, values, errors, alpha, color):
    if alpha is None or errors is None or not alpha > 0:
        return
    ax.fill_between(self.r_list, values - errors, values + errors, alpha=alpha, color=color)

def _draw_r_petrosian(self, ax, unit):
    style = {"linestyle": "--", "color": "black", "alpha": self._r_plot_alpha}
    ax.axhline(self.eta, **style)
    r, err = self.r_petrosian, self.r_petrosian_err
    if np.isnan(r):
        return
    ax.axvline(r, label=r"$R_{{p}}(\\eta_{{{}}})={:0.4f}$ {}".format(self.eta, r, unit), **style)
    if np.isnan(err):
        ax.scatter(r, self.eta, zorder=6, marker="o", color="tab:orange")
    else:
        ax.errorbar(r, self.eta, xerr=err, zorder=6, marker="o", capsize=5, lw=3, color="tab:orange")

def plot(self, plot_r=True, title="Petrosian Profile", radius_unit="pix", ax=None, color="tab:blue", err_alpha=0.2, err_capsize=3,
         show_legend=True, legend_fontsize=None, ax_fontsize=None, tick_fontsize=None):
    """Plots the profile."""
    unit = "" if radius_unit is None else "{}".format(radius_unit)
    if ax is None:
        ax = plt.gca()
    eta, err = self.petrosian_list, self.petrosian_err
    ax.errorbar(self.r_list, eta, yerr=err, marker="o", capsize=err_capsize, label="Data", color=color)
    self._draw_band(ax, eta, err, err_alpha, color)
    if plot_r:
        self._draw_r_petrosian(ax, unit)
    ax.axhline(0, c="black")
    for setter, text in ((ax.set_title, title), (ax.set_xlabel, "Aperture Radius" if not unit else "Aperture Radius [" + unit + "]"),
                         (ax.set_ylabel, r"Petrosian Index $\\eta(r)$")):
        setter(text, fontsize=ax_fontsize)
    mpl_tick_frame(ax=ax, minorticks=True, tick_fontsize=tick_fontsize)
    ax.set_xlim(0, None)
    if show_legend:
        ax.legend(fontsize=legend_fontsize)
    return ax
'''))

R("fig-imshow-table", (CO, "Petrosian.imshow", '''
def imshow(self, position=(0, 0), elong=1.0, theta=0.0, color=None, lw=None):
    """Plots the apertures."""
    table = {
        "r_half_light": (self.r_half_light, "r", "dashed"),
        "r_total_flux": (self.r_total_flux, "r", "solid"),
        "r_20": (self._calculate_fraction_to_r(0.2)[0], "b", "dotted"),
        "r_80": (self._calculate_fraction_to_r(0.8)[0], "b", "dashdot"),
    }
    for name, (radius, own, style) in table.items():
        if np.isnan(radius) or radius <= 0:
            continue
        aperture = radial_elliptical_aperture(position, radius, elong=elong, theta=theta)
        aperture.plot(label=name, linestyle=style, color=color or own, lw=lw)
    x, y = position
    plt.scatter(x, y, marker="+", color=color or "red")
'''))

R("fig-plot-fit-loop", (FI, "plot_fit", '''
def _panel(ax, data, title, fontsize, vmin, vmax):
    artist = ax.imshow(data, vmin=vmin, vmax=vmax)
    ax.set_title(title, fontsize=fontsize)
    ax.set_xlabel("Pixels", fontsize=fontsize)
    ax.tick_params(axis="both", labelsize=fontsize)
    mpl_tick_frame(ax=ax)
    return artist


def plot_fit(model, image, mode="center", center=None, vmin=None, vmax=None, cbar=True, fontsize=18, figsize=[18, 6], flux_label="Pixel Value"):
    """Plots data, model and residual."""
    if isinstance(image, (CCDData, Cutout2D)):
        image = image.data
    ny, nx = image.shape
    model_image = model_to_image(model, (nx, ny), mode=mode, center=center)
    residual_image = image - model_image
    fig, axs = plt.subplots(1, 3, figsize=figsize)
    vmax = 3 * max(np.nanstd(image), np.nanstd(model_image)) if vmax is None else vmax
    vmin = -vmax if vmin is None else vmin
    panels = [_panel(ax, d, t, fontsize, vmin, vmax) for ax, d, t in zip(axs, (image, model_image, residual_image), ("Data", "Model", "Residual"))]
    axs[0].set_ylabel("Pixels", fontsize=fontsize)
    fig.subplots_adjust(bottom=0.1, top=0.9, left=0.1, right=0.8, wspace=0.04, hspace=0.04)
    for ax in axs[1:]:
        ax.set_yticklabels([])
    if not cbar:
        return axs, None, model_image, residual_image
    cbar_ax = fig.add_axes([0.1, 0.08, 0.7, 0.05])
    fig_cbar = fig.colorbar(panels[0], cax=cbar_ax, aspect=40, orientation="horizontal")
    fig.subplots_adjust(bottom=0.23)
    fig_cbar.ax.set_xlabel(flux_label, fontsize=fontsize)
    return axs, fig_cbar, model_image, residual_image
'''))

R("fig-plot-segments-ax", (SG, "plot_segments", '''
def plot_segments(segm, image=None, vmin=None, vmax=None, alpha=0.5, title=None):
    """Plots segments."""
    seed = np.random.randint(1000000)
    ax = plt.gca()
    if image is not None:
        ax.imshow(image, cmap="gist_gray", vmin=vmin, vmax=vmax)
    ax.imshow(segm, alpha=alpha, cmap=segm.make_cmap(seed=seed))
    if title is not None:
        ax.set_title(title)
    ax.set_xlabel("Pixels")
    ax.set_ylabel("Pixels")
'''), (SG, "plot_segment_residual", '''
def plot_segment_residual(segm, image, vmin=None, vmax=None):
    """Plots what is left."""
    background = np.where(segm.data != 0, 0.0, image)
    plt.imshow(background, vmin=vmin, vmax=vmax)
'''))

R("fig-residual-mask", (SG, "plot_segment_residual", '''
def plot_segment_residual(segm, image, vmin=None, vmax=None):
    """Plots what is left."""
    remaining = image.copy()
    remaining[segm.data != 0] = 0.0
    plt.gca().imshow(remaining, vmin=vmin, vmax=vmax)
'''))

R("fig-plot-target", (UT, "        size = max(image.shape)\n    x, y = position\n", "        rows, columns = image.shape\n        size = max(rows, columns)\n    x, y = position\n    half = size / 2.0\n", "text"),
  (UT, "    plt.xlim(x - (size / 2.0), x + (size / 2.0))\n    plt.ylim(y - (size / 2.0), y + (size / 2.0))\n", "    for limit, c0 in ((plt.xlim, x), (plt.ylim, y)):\n        limit(c0 - half, c0 + half)\n", "text"))

R("fig-fwhm-markers", (FI, '''        ax0.axvline(x_mean - x_fwhm / 2, c="c", linestyle="--", label="X FWHM")
        ax0.axvline(x_mean + x_fwhm / 2, c="c", linestyle="--")
''', '''        left, right = x_mean - x_fwhm / 2, x_mean + x_fwhm / 2
        ax0.axvline(left, c="c", linestyle="--", label="X FWHM")
        ax0.axvline(right, linestyle="--", c="c")
''', "text"), (FI, '''        ax2.plot(image[int(np.round(y_mean)), :], label="Data")
''', '''        row = int(np.round(y_mean))
        ax2.plot(image[row], label="Data")
''', "text"))

R("hlp-cutout-slices", (UT, "cutout_subtract", '''
def _overlap(start, length, size):
    low, high = max(start, 0), min(start + length, size)
    return low, max(high, low)


def cutout_subtract(image, target, x, y):
    """Subtract cutout from image"""
    h, w = target.shape
    out = image.copy()
    ny, nx = image.shape
    y0, x0 = y - h // 2, x - w // 2
    y1, x1 = max(y0, 0), max(x0, 0)
    y2, x2 = min(y0 + h, ny), min(x0 + w, nx)
    if y2 <= y1 or x2 <= x1:
        return out
    out[y1:y2, x1:x2] = out[y1:y2, x1:x2] - target[y1 - y0 : y2 - y0, x1 - x0 : x2 - x0]
    return out
'''))

R("hlp-match", (UT, "match_catalogs", '''
def match_catalogs(ra_1, dec_1, ra_2, dec_2, unit="deg"):
    """Wrapper for `SkyCoord.match_to_catalog_sky`"""
    first, second = (SkyCoord(ra, dec, unit=unit) for ra, dec in ((ra_1, dec_1), (ra_2, dec_2)))
    index, separation, distance = first.match_to_catalog_sky(second)
    return index, separation, distance
'''))

R("hlp-approx", (MO, "PetroApprox.n_to_epsilon", '''
@staticmethod
def n_to_epsilon(n):
    """Sersic index to epsilon"""
    coefficients = dict(c0=-6.54870813, c1=-2.15040843, c2=-0.28993623, c3=-0.04099376, c4=-0.00046837, c5=-0.00022305)
    return models.Polynomial1D(5, **coefficients)(n) + models.Exponential1D(amplitude=7.48787292, tau=2.6876055)(n)
'''))
