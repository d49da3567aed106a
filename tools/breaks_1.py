T = "text"
# ---------------------------------------------------------------- photometry
B("phot-mask-none-error", "P02", (PH, "data=image, error=error, mask=mask", "data=image, error=error, mask=None", T) if "data=image, error=error, mask=mask" in open("/repo/petrofit/photometry.py").read() else (PH, "method=method\n", "method='exact'\n", T))
# ---------------------------------------------------------------- core
B("petro-insert-one", "P04", (CO, "petrosian_list = np.insert(petrosian_list, 0, np.nan)", "petrosian_list = np.insert(petrosian_list, 0, np.nan if area_list[0] > 0 else 1.0)", T))
B("petro-unique-last", "P04", (CO, "unique_indices = first_indices[unique_indices]", "unique_indices = np.searchsorted(area_list, area_list, side='right') - 1", T))
B("petro-err-order", "P05", (CO, "petrosian_err = petrosian_err[unique_indices]", "petrosian_err = petrosian_err[np.sort(first_indices)] if len(first_indices) == len(petrosian_err) else petrosian_err", T))
B("petro-err-flux-none", "P05", (CO, "flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err)", "flux_err = np.zeros_like(flux_list) if flux_err is None or np.isnan(flux_err).any() else np.array(flux_err)", T))
B("pr-err-nan", "P06", (CO, "petrosian_err[0] = 0\n", "petrosian_err[np.isnan(petrosian_err)] = 0\n", T))
B("pr-nan-zero", "P06", (CO, "r_petro_err = (r_petro_upper - r_petro_lower) / 2.", "r_petro_err = np.nan_to_num(r_petro_upper - r_petro_lower) / 2.", T))
B("fr-eps-err-scale", "P07", (CO, "r_epsilon_err = r_petrosian_err\n", "r_epsilon_err = r_petrosian_err if epsilon <= 2 else r_petrosian_err * epsilon\n", T))
B("fr-frac-clip", "P07", (CO, "fractional_flux = epsilon_flux * (fraction / epsilon_fraction)", "fractional_flux = epsilon_flux * min(fraction / epsilon_fraction, 1.)", T))
B("ci-abs", "P08", (CO, "5 * np.log10(r2 / r1)", "5 * np.log10(max(r1, r2) / min(r1, r2))", T))
B("ci-options", "P08", (CO, "calculate_concentration_index", '''
def calculate_concentration_index(fraction_1, fraction_2, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.,
                                  epsilon_fraction=0.99, interp_kind='cubic', interp_num=5000):
    options = dict(flux_err=flux_err, r_petrosian_err=r_petrosian_err, epsilon=epsilon,
                   epsilon_fraction=epsilon_fraction, interp_kind=interp_kind, interp_num=interp_num)
    r1 = fraction_to_r(fraction_1, r_list, flux_list, r_petrosian, **options)[0]
    options.pop('epsilon')
    r2 = fraction_to_r(fraction_2, r_list, flux_list, r_petrosian, **options)[0]
    if np.isnan(r1) or np.isnan(r2):
        return [np.nan, np.nan, np.nan]
    return r1, r2, 5 * np.log10(r2 / r1)
'''))
B("pt-eps-setter-frac", "P09", (CO, "        self._epsilon_fraction = value\n", "        self._epsilon_fraction = value\n        self._total_flux_fraction = min(self._total_flux_fraction or value, value)\n", T))
B("pt-half-interp", "P10", (CO, '''        r_half_flux = self.r_half_light
''', '''        r_half_flux = min(self.r_half_light, self.r_total_flux)
''', T))
B("pt-range-strict", "P10", (CO, "return self.r_list.min() <= self.r_epsilon <= self.r_list.max()", "return self.r_list.min() <= self.r_epsilon < self.r_list.max()", T))
# ---------------------------------------------------------------- correction
B("cg-c-r-99", "P11", (CR, "model_r_80 = f(total_flux * 0.8)", "model_r_80 = f(p.total_flux * 0.8)", T))
B("cg-shared-p", "P11", (CR, "corrected_p = copy(p)\n", "corrected_p = p\n", T))
B("cg-center-float", "P12", (CR, "    y_0 = image_size // 2\n", "    y_0 = image_size / 2\n", T))
B("cg-psf-over", "P12", (CR, "psf=psf, oversample=oversample, psf_oversample=psf_oversample", "psf=psf, oversample=oversample, psf_oversample=psf_oversample if psf is None else None", T))
B("cg-maxr", "P12", (CR, "image_size = max(r_list) * 2", "image_size = min(max(r_list) * 2, 4000)", T))
B("co-eps-row", "P13", (CR, "        r_p = row[self.eta_keys[eta]]\n", "        r_p = row[self.eta_keys[eta]] if eta == 0.2 else p.r_petrosian\n", T))
B("co-eps-close", "P13", (CR, "if epsilon_fraction == 0.5:", "if abs(epsilon_fraction - 0.5) < 0.1:", T))
B("co-copy-orig", "P13", (CR, '''        corrected_p = copy(p)
        corrected_p.epsilon = self.estimate_epsilon(p)
''', '''        corrected_p = p
        if corrected_p.epsilon != self.estimate_epsilon(p):
            corrected_p = copy(p)
            corrected_p.epsilon = self.estimate_epsilon(p)
''', T))
B("co-std-ddof", "P14", (CR, "std_z = np.std(self.z)", "std_z = np.std(self.z, ddof=1)", T))
B("co-y-r50", "P14", (CR, "y0 = p.r_50\n", "y0 = p.fraction_flux_to_r(0.5 * p.epsilon_fraction)\n", T))
B("co-range-strict", "P14", (CR, "np.min(self.z) <= z0 <= np.max(self.z)", "np.min(self.z) <= z0 < np.max(self.z)", T))
B("co-table-view", "P32", (CR, "        wx, wy, wz = self.weights\n", "        wx, wy, wz = self.weights\n        self.grid.sort('n') if len(self.grid) > 1000 else None\n", T))
# ---------------------------------------------------------------- utils
B("ut-elong-clip", "P15", (UT, "ellip_to_elong", '''
def ellip_to_elong(ellip):
    return 1 / (1 - min(ellip, 0.99))
'''))
B("ut-linspace", "P16", (UT, "make_radius_list", '''
def make_radius_list(max_pix, n, log=False):
    if log:
        return np.logspace(np.log10(max_pix / n), np.log10(max_pix), num=n, endpoint=True, base=10.0, dtype=float, axis=0)
    return np.linspace(max_pix / n, max_pix, num=n, endpoint=True, dtype=int if max_pix % n == 0 and n > 500 else float)
'''))
B("ut-abmag-neg", "P17", (UT, "hst_flux_to_abmag", '''
def hst_flux_to_abmag(flux, header):
    PHOTFLAM = header['PHOTFLAM']
    PHOTZPT = header['PHOTZPT']
    PHOTPLAM = header['PHOTPLAM']
    STMAG_ZPT = (-2.5 * np.log10(PHOTFLAM)) + PHOTZPT
    ABMAG_ZPT = STMAG_ZPT - (5. * np.log10(PHOTPLAM)) + 18.692
    if not np.isscalar(flux):
        flux = np.asarray(flux)
        flux[flux <= 0.] = np.nan
    elif flux <= 0:
        return np.nan
    return -2.5 * np.log10(flux) + ABMAG_ZPT
'''))
