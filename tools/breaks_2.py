# models
B("se-ellip-inverse", "P18", (MO, "        * g\n        * (1 - ellip)\n", "        * g\n        * np.sqrt(1 - ellip)\n"))
B("i0-bn", "P18", (MO, "    return I_0 / np.exp(gammaincinv(2.0 * n, 0.5))", "    return I_0 / np.exp(2. * n - 1 / 3)"))
B("gs-pow", "P19", (MO, "            1 / (c_0 + 2)\n", "            1 / 2\n"))
B("nuker-rot", "P19", (MO, "x_min = -(x - x_0) + (y - y_0)", "x_min = -(x - x_0) + (y + y_0)"))
B("grid-same-origin", "P20", (MO, "y_arange += origin[1]", "y_arange += origin[0]"))
B("grid-int-cast", "P20", (MO, "    assert isinstance(factor, int)\n", "    factor = int(factor)\n"))
B("grid-origin-round", "P20", (MO, "x_arange += origin[0]", "x_arange += np.round(origin[0])"))
B("ev-int-round", "P21", (MO, "i = (x - x.min()).astype(int)", "i = x.astype(int)"))
B("ev-psf-sign", "P21", (MO, "rotate(psf, psf_p, reshape=False)", "rotate(psf, -psf_p, reshape=False)"))
B("ev-reduce-order", "P21", (MO, "        if not is_subgrid_oversample and grid_to_psf_factor > 1:", "        if not is_subgrid_oversample and grid_factor > 1:"))
B("ev-sub-even", "P22", (MO, "np.round(sub_grid_y0 - y.min()) - sub_grid_size // 2 + y.min()", "np.round(sub_grid_x0 - y.min()) - sub_grid_size // 2 + y.min()"))
B("ev-sub-top", "P22", (MO, "if j_sub_max > j.max():", "if j_sub_max >= j.max():"))
B("ev-str-idx", "P22", (MO, "if isinstance(sub_grid_y0, str):", "if isinstance(self.oversample[0], str):"))
B("os-order", "P23", (MO, "            if grid_factor <= 0:\n", "            if grid_factor < 0:\n"))
B("os-bool", "P23", (MO, "if len(oversample) != 4:", "if len(oversample) < 4:"))
B("pos-set-first", "P23", (MO, "        grid_factor = self._get_oversample_factor()\n        if psf_oversample is not None:", "        grid_factor = self._get_oversample_factor()\n        self._psf_oversample = psf_oversample\n        if psf_oversample is not None:"))
B("cache-range-x", "P24", (MO, "grid_range = (x.min(), x.max(), y.min(), y.max())", "grid_range = (x.min(), x.max(), x.min(), x.max())"))
B("cache-noclear", "P24", (MO, "            self._cache_grid = False\n            self.clear_cached_grid()", "            self._cache_grid = False"))
B("cache-always", "P24", (MO, "            if self.cache_grid:\n", "            if self._cached_grid is None or self.cache_grid:\n"))
B("wrap-fixed", "P25", (MO, 'if "bounds" not in kwargs:', 'if "fixed" not in kwargs:'))
B("unwrap-alias", "P25", (MO, "model = self._model.copy()", "model = self._model"))
B("unwrap-default", "P25", (MO, "setattr(model, param, getattr(self, param).value)", "setattr(model, param, getattr(self, param).default)"))
# fitting
B("fit-swap", "P26", (FI, "y_arange, x_arange = np.where(~(np.isnan(image)))", "y_arange, x_arange = np.where(np.isfinite(image))"))
B("fit-w-shape", "P26", (FI, "weights.shape == image.shape", "weights.size == image.size"))
B("fit-calc", "P26", (FI, "fitter(calc_uncertainties=calc_uncertainties)", "fitter(calc_uncertainties=bool(weights is not None) or calc_uncertainties)"))
B("fit-maxiter", "P26", (FI, "in [TRFLSQFitter, LevMarLSQFitter, LMLSQFitter]", "in [TRFLSQFitter, LevMarLSQFitter]"))
B("img-round", "P27", (FI, "np.floor_divide(np.array([x_size, y_size]), 2)", "np.floor_divide(np.array([y_size, x_size]), 2)"))
B("img-size-trunc", "P27", (FI, "    assert not x_size % 1 and not y_size % 1, error_message\n", "    assert x_size > 0 and y_size > 0, error_message\n"))
B("img-center-half", "P27", (FI, "np.floor_divide(np.array([x_size, y_size]), 2)", "np.array([x_size, y_size]) / 2"))
B("bg-sigma-falsy", "P28", (FI, "        fit_bg_image = sigma_clip(image, sigma)", "        fit_bg_image = sigma_clip(image, 3)"))
B("plotfit-size", "P28", (FI, "fitted_image_size = (image.shape[1], image.shape[0])", "fitted_image_size = image.shape"))
B("fwhm-mean", "P28", (FI, "return np.array([x_fwhm, y_fwhm])", "return np.array([y_fwhm, x_fwhm])"))
# segmentation
B("mask-zero", "P29", (SG, "    if not mask_background:\n        sources.append(0)", "    if not mask_background or len(sources) > 1:\n        sources.append(0)"))
B("mask-last", "P29", (SG, "mask = (segm.data == source) | mask", "mask = (segm.data == source) ^ mask"))
B("masked-fill", "P29", (SG, "fill = np.nan if fill is None else fill", "fill = fill or np.nan"))
B("sp-odd", "P30", (SG, "    if cutout_size % 2 == 1:\n        cutout_size += 1", "    if cutout_size % 2 == 1:\n        cutout_size -= 1"))
B("sp-bg-deblend", "P30", (SG, "        0, image, segm_deblend, fill", "        [0, source], image, segm_deblend, fill"))
B("sp-min", "P30", (SG, "np.ceil(max(r_list) * 3)", "np.ceil(r_list[-1] * 3)"))
B("sp-upper", "P30", (SG, "fit_bg_image[np.where(fit_bg_image < mean - sigma)] = np.nan", "fit_bg_image[np.where(fit_bg_image < mean - sigma * std)] = np.nan"))
B("cat-plain", "P31", (SG, "segm_deblend if deblend else segm", "segm if segm_deblend is None else segm", ))
B("cat-npix", "P31", (SG, "contrast=contrast, nlevels=nlevels, npixels=npixels\n", "contrast=contrast, nlevels=nlevels, npixels=5\n"))
B("ord-rev", "P31", (SG, "return list(reversed(order_all))", "return list(order_all)"))
B("sm-append-in", "P32", (SG, "sources = list(source)", "sources = source"))
B("bounds-default", "P32", (MO, "    bounds = get_default_sersic_bounds()\n", "    bounds = get_default_sersic_bounds(override)\n    override['c_0'] = override.get('c_0', (0, 2.))\n"))
B("amp-raise", "P35", (SG, "except Exception as exception:", "except ValueError as exception:"))
B("amp-center", "P35", (SG, "g = EllipseGeometry(x0, y0, 1.0, ellip, theta)", "g = EllipseGeometry(y0, x0, 1.0, ellip, theta)"))
B("psf-raise", "P35", (MO, "            warnings.warn(\n                \"Input PSF", "            raise ValueError(\n                \"Input PSF"))
B("sp-method", "P36", (SG, "        method=method,\n", "        method='exact',\n"))
B("pf-mode", "P36 P28", (FI, "mode=mode, center=center\n", "center=center\n"))
