# ------------------------------------------------------------------ unusual styles
R("x-petro-quadrature", (CO, "calculate_petrosian", '''
def _quadrature(*terms):
    """Root of the sum of squares."""
    total = 0.0
    for term in terms:
        total = total + term ** 2
    return np.sqrt(total)


def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
    """Petrosian index and its error."""
    area, flux = (np.array(values, dtype=float) for values in (area_list, flux_list))
    n = len(area)
    assert n == len(flux)
    assert n > 2, "At least 3 data points are needed to compute Petrosian."
    step_area, step_flux = np.diff(area), np.diff(flux)
    assert np.all(step_area >= 0)
    grows = np.where(step_area > 0)
    local = np.zeros_like(step_area)
    local[grows] = step_flux[grows] / step_area[grows]
    mean = flux[1:] / area[1:]
    _, first, inverse = np.unique(area, return_index=True, return_inverse=True)
    order = first[inverse]
    profile = np.insert(local / mean, 0, np.nan)[order]
    if area_err is None and flux_err is None:
        return profile, None
    area_err = np.zeros_like(area) if area_err is None else np.array(area_err)
    flux_err = np.zeros_like(flux) if flux_err is None else np.array(flux_err)
    assert len(area_err) == n
    assert len(flux_err) == len(flux)
    step_area_err = _quadrature(area_err[:-1], area_err[1:])
    step_flux_err = _quadrature(flux_err[:-1], flux_err[1:])
    local_err = np.zeros_like(step_area)
    local_err[grows] = abs(local[grows]) * _quadrature(step_flux_err[grows] / step_flux[grows], step_area_err[grows] / step_area[grows])
    mean_err = abs(mean) * _quadrature(flux_err[1:] / flux[1:], area_err[1:] / area[1:])
    error = np.zeros_like(step_area)
    error[grows] = abs(profile[1:][grows]) * _quadrature(local_err[grows] / local[grows], mean_err[grows] / mean[grows])
    return profile, np.insert(error, 0, np.nan)[order]
'''))

R("x-petro-r-partial", (CO, "calculate_petrosian_r", '''
def _crossing(r_list, values, level, kind, num, **kwargs):
    radii, curve = get_interpolated_values(r_list, values, kind=kind, num=num)
    if (position := closest_value_index(level, curve, **kwargs)) is None:
        return np.nan
    return radii[position]


def calculate_petrosian_r(r_list, petrosian_list, petrosian_err=None, eta=0.2, interp_kind="cubic", interp_num=5000):
    """Petrosian radius."""
    import functools
    r_list, petrosian_list = np.array(r_list), np.array(petrosian_list)
    errors = None if petrosian_err is None else np.array(petrosian_err)
    r_list[0], petrosian_list[0] = 0, 1
    at = functools.partial(_crossing, level=eta, kind=interp_kind, num=interp_num)
    r_petro = at(r_list, petrosian_list)
    if errors is None or np.isnan(r_petro):
        return r_petro, np.nan
    errors[0] = 0
    upper, lower = [at(r_list, petrosian_list + sign * errors) for sign in (1, -1)]
    return r_petro, 0.5 * (upper - lower)
'''))

R("x-fraction-to-r-branches", (CO, "fraction_to_r", '''
def _radius_at(flux, r_list, flux_list, kind, num):
    radii, curve = get_interpolated_values(r_list, flux_list, kind=kind, num=num)
    index = closest_value_index(flux, curve, growing=True)
    if index is None:
        return np.nan
    return radii[index]


def fraction_to_r(fraction, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.0, epsilon_fraction=0.99,
                  interp_kind="cubic", interp_num=5000):
    """Radius of a fraction of the flux."""
    nothing = (np.nan, np.nan)
    r_list, flux_list = np.array(r_list), np.array(flux_list)
    inner, outer = min(r_list), max(r_list)
    r_epsilon = epsilon * r_petrosian
    if r_epsilon < inner or outer < r_epsilon:
        return nothing
    spline = "cubic" if interp_kind is None else interp_kind

    def curve(values):
        return interp1d(r_list, values, kind=spline)

    target = curve(flux_list)(r_epsilon) * (fraction / epsilon_fraction)
    radius = _radius_at(target, r_list, flux_list, interp_kind, interp_num)
    if flux_err is None or np.isnan(radius):
        return radius, np.nan
    flux_err = np.array(flux_err)
    dr = 0
    if r_petrosian_err is not None:
        r_petrosian_err = np.array(r_petrosian_err)
        if not np.isnan(r_petrosian_err):
            dr = r_petrosian_err
    if r_epsilon + dr > outer or r_epsilon - dr < inner:
        return radius, np.nan
    low, high = flux_list - flux_err, flux_list + flux_err
    spread = (curve(high)(r_epsilon + dr) - curve(low)(r_epsilon - dr)) / 2.0
    upper = _radius_at(target + spread, r_list, low, interp_kind, interp_num)
    lower = _radius_at(target - spread, r_list, high, interp_kind, interp_num)
    return radius, (upper - lower) / 2.0
'''))

R("x-concentration-loop", (CO, "calculate_concentration_index", '''
def calculate_concentration_index(fraction_1, fraction_2, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.0, epsilon_fraction=0.99,
                                  interp_kind="cubic", interp_num=5000):
    """Concentration index."""
    options = {"flux_err": flux_err, "r_petrosian_err": r_petrosian_err, "epsilon": epsilon, "epsilon_fraction": epsilon_fraction,
               "interp_kind": interp_kind, "interp_num": interp_num}
    inner, outer = map(lambda fraction: fraction_to_r(fraction, r_list, flux_list, r_petrosian, **options)[0], (fraction_1, fraction_2))
    if np.isnan(inner) or np.isnan(outer):
        return [np.nan] * 3
    return inner, outer, 5 * np.log10(outer / inner)
'''))

R("x-grid-product", (CR, '''    args = []
    for n_idx, n in enumerate(n_list):
        for r_eff_idx, r_eff in enumerate(r_eff_list):
            args.append([r_eff, n, psf, oversample, psf_oversample, plot])
''', '''    args = [[r_eff, n, psf, oversample, psf_oversample, plot] for n in n_list for r_eff in r_eff_list]
''', "text"), (CR, '''            rows = []
            for arg in args:
                row = _generate_petrosian_correction(arg)
                rows.append(row)
                bar.update()
''', '''            rows = []
            for arg in args:
                rows += [_generate_petrosian_correction(arg)]
                bar.update()
''', "text"))

R("x-grid-fractions", (CR, '''    c_r_eff = corrected_p.fraction_flux_to_r(0.5)
    c_r_20 = corrected_p.fraction_flux_to_r(0.2)
    c_r_50 = corrected_p.fraction_flux_to_r(0.5)
    c_r_80 = corrected_p.fraction_flux_to_r(0.8)
''', '''    c_r_20, c_r_50, c_r_80 = (corrected_p.fraction_flux_to_r(part) for part in (0.2, 0.5, 0.8))
    c_r_eff = c_r_50
''', "text"), (CR, '''    max_r = r_total_flux * 3 if n < 2 else r_total_flux * 1.3
    if r_eff < 7 and n < 1:
        max_r = r_total_flux * 50
''', '''    if n < 1 and r_eff < 7:
        scale = 50
    elif n < 2:
        scale = 3
    else:
        scale = 1.3
    max_r = scale * r_total_flux
''', "text"))

R("x-mask-any", (SG, "segm_mask", '''
def segm_mask(source, segm, mask_background=False):
    """Mask of a source."""
    if isinstance(source, (int, np.integer, SourceCatalog)):
        wanted = [source]
    elif isinstance(source, list):
        wanted = source[:]
    else:
        raise TypeError("Input should be a label (int or photutils SourceCatalog) or a list of such items")
    if not mask_background:
        wanted = wanted + [0]
    mask = None
    for item in wanted:
        label = [item.label] if isinstance(item, SourceCatalog) else item
        here = segm.data == label
        mask = here if mask is None else np.logical_or(mask, here)
    return mask
'''))

R("x-fit-nonzero", (FI, "    y_arange, x_arange = np.where(~(np.isnan(image)))\n", "    valid = np.logical_not(np.isnan(image))\n    y_arange, x_arange = np.nonzero(valid)\n", "text"))

R("x-gauss-center", (FI, "fit_gaussian2d", '''
def fit_gaussian2d(image):
    """Fit a gaussian."""
    ny, nx = image.shape
    start = {"amplitude": image.max(), "x_mean": nx // 2, "y_mean": ny // 2}
    fitted_model, _ = fit_model(image, models.Gaussian2D(fixed={}, **start))
    return fitted_model
'''))

R("x-radius-while", (UT, "make_radius_list", '''
def make_radius_list(max_pix, n, log=False):
    """Radii up to max_pix."""
    if log:
        return np.logspace(0, np.log10(max_pix), n)
    step = max_pix / n
    return np.arange(1, n + 1) * step
'''))

R("x-abmag-constants", (UT, "hst_flux_to_abmag", '''
def _zero_point(header):
    st = -2.5 * np.log10(header["PHOTFLAM"]) + header["PHOTZPT"]
    return st - 5.0 * np.log10(header["PHOTPLAM"]) + 18.692


def hst_flux_to_abmag(flux, header):
    """Convert HST flux to AB Mag"""
    if type(flux) in (int, float):
        if flux <= 0:
            return np.nan
        values = flux
    else:
        values = np.array(flux, dtype=float)
        values[values <= 0] = np.nan
    return _zero_point(header) - 2.5 * np.log10(values)
'''))

R("x-total-flux", (CO, "Petrosian.total_flux", '''
@property
def total_flux(self):
    """Total flux."""
    radius = self.r_total_flux
    low, high = min(self.r_list), max(self.r_list)
    if low <= radius and radius <= high:
        kind = self.interp_kind if self.interp_kind is not None else "cubic"
        return float(interp1d(self.r_list, self.flux_list, kind=kind)(radius))
    return np.nan
'''))

