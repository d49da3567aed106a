# ------------------------------------------------------------------ fifth round
B("r5-sub-pix-round", "P22", (MO, "np.round(sub_grid_x0 - x.min()) - sub_grid_size // 2 + x.min()", "np.round(sub_grid_x0) - sub_grid_size // 2"))
B("r5-err-nan-order", "P07", (CO, "if np.isnan(r_frac) or flux_err is None:", "if flux_err is None:"))
B("r5-perr-none", "P06", (CO, "    if petrosian_err is None or np.isnan(r_petro):\n", "    if petrosian_err is None or not r_petro:\n"))
B("r5-halfflux-range", "P10", (CO, "        r_half_flux = self.r_half_light\n", "        r_half_flux = self.r_total_flux / 2\n"))
B("r5-dr-std", "P14", (CR, "std_z = np.std(self.z)", "std_z = np.std(self.z[self.z > 0])"))
B("r5-read-enforce", "P14", (CR, "return cls(grid)", "return cls(grid, False)"))
B("r5-eta-key", "P13", (CR, "r_p = row[self.eta_keys[eta]]", "r_p = row['p02']"))
B("r5-eps-99", "P13", (CR, "epsilon = r_ep / r_p", "epsilon = row['c_epsilon'] if epsilon_fraction == 0.99 else r_ep / r_p"))
B("r5-psf-warn", "P35", (CR, "psf.sum() != 1", "psf.sum() > 1"))
B("r5-j-max", "P22", (MO, "if j_sub_max > j.max():", "if j_sub_max > i.max():"))
B("r5-writes-format", "P36", (CR, "self.grid.write(grid_file, format=file_format)", "self.grid.write(grid_file)"))
B("r5-filter", "P14", (CR, "idx = np.where(self.grid[key] == value)", "idx = np.where(self.grid[key] >= value)"))
B("r5-rot-reshape", "P21", (MO, "reshape=False", "reshape=False, order=1"))
B("r5-conv-mode", "P21", (MO, 'mode="same"', 'mode="full"'))
B("r5-psfp-eq", "P21", (MO, "if psf_p != 0:", "if psf_p > 0:"))
B("r5-grid-square", "P21", (MO, "grid_size = max([i.max(), j.max()]) + 1", "grid_size = i.max() + 1"))
B("r5-cache-always-return", "P24", (MO, "            and grid_range == self._cache_grid_range\n", ""))
B("r5-reduce-mean", "P21", (MO, "model_image = block_reduce(model_image, psf_factor) / psf_factor**2", "model_image = block_reduce(model_image, psf_factor) / psf_factor"))
B("r5-int-index", "P22", (MO, "isinstance(sub_grid_y0, str)", "isinstance(sub_grid_x0, str)"))
B("r5-enc-ellip", "P18", (MO, "* (1 - ellip)\n    )\n\n\ndef", "\n    )\n\n\ndef"))
B("r5-petro-closest", "P16", (UT, "growing=False", "growing=True"))
B("r5-nlist-order", "P11", (CR, "n_list = np.round(np.array(n_list), 6)", "n_list = np.unique(np.round(np.array(n_list), 6))"))
