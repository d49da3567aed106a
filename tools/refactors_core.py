# ------------------------------------------------------------------ calculate_petrosian
R("pc-where-kw", (CO, "calculate_petrosian", '''
def _relative_error(value, a_err, a, b_err, b):
    return abs(value) * np.sqrt((a_err / a) ** 2 + (b_err / b) ** 2)


def _quad(err):
    return np.sqrt(err[:-1] ** 2 + err[1:] ** 2)


def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
    area_list = np.array(area_list, dtype=float)
    flux_list = np.array(flux_list, dtype=float)

    n = len(area_list)
    assert n == len(flux_list)
    assert n > 2, "At least 3 data points are needed to compute Petrosian."
    area_diff = np.diff(area_list)
    assert np.all(area_diff >= 0)
    flux_diff = np.diff(flux_list)

    I_avg = flux_list[1:] / area_list[1:]
    ok = area_diff > 0
    I_at_r = np.zeros_like(area_diff)
    I_at_r[ok] = flux_diff[ok] / area_diff[ok]
    eta = np.insert(I_at_r / I_avg, 0, np.nan)

    _, first, inverse = np.unique(area_list, return_index=True, return_inverse=True)
    first = first[inverse]

    if area_err is None and flux_err is None:
        return eta[first], None

    eta = eta[first]
    if area_err is None:
        area_err = np.zeros_like(area_list)
    else:
        area_err = np.array(area_err)
    if flux_err is None:
        flux_err = np.zeros_like(flux_list)
    else:
        flux_err = np.array(flux_err)
    assert len(area_err) == n
    assert len(flux_err) == n

    I_at_r_err = np.zeros_like(area_diff)
    I_at_r_err[ok] = _relative_error(I_at_r[ok], _quad(flux_err)[ok], flux_diff[ok], _quad(area_err)[ok], area_diff[ok])
    I_avg_err = _relative_error(I_avg, flux_err[1:], flux_list[1:], area_err[1:], area_list[1:])
    err = np.zeros_like(area_diff)
    err[ok] = _relative_error(eta[1:][ok], I_at_r_err[ok], I_at_r[ok], I_avg_err[ok], I_avg[ok])
    return eta, np.insert(err, 0, np.nan)[first]
'''))
R("pc-slices", (CO, "calculate_petrosian", '''
def calculate_petrosian(area_list, flux_list, area_err=None, flux_err=None):
    area_list = np.asarray(area_list, dtype=float)
    flux_list = np.asarray(flux_list, dtype=float)

    assert len(area_list) == len(flux_list)
    assert len(area_list) > 2, "At least 3 data points are needed to compute Petrosian."
    assert not np.any(np.diff(area_list) < 0)

    area_diff = area_list[1:] - area_list[:-1]
    flux_diff = flux_list[1:] - flux_list[:-1]
    I_avg_within_r = flux_list[1:] / area_list[1:]
    zero_mask = np.nonzero(area_diff > 0)
    I_at_r = np.zeros(len(area_diff))
    I_at_r[zero_mask] = flux_diff[zero_mask] / area_diff[zero_mask]

    petrosian_list = np.concatenate(([np.nan], I_at_r / I_avg_within_r))
    _, first_indices, unique_indices = np.unique(area_list, return_index=True, return_inverse=True)
    unique_indices = first_indices[unique_indices]
    petrosian_list = petrosian_list[unique_indices]

    if area_err is not None or flux_err is not None:
        area_err = np.zeros_like(area_list) if area_err is None else np.array(area_err)
        flux_err = np.zeros_like(flux_list) if flux_err is None else np.array(flux_err)
        assert len(area_err) == len(area_list)
        assert len(flux_err) == len(flux_list)

        area_diff_err = np.hypot(area_err[:-1], area_err[1:])
        flux_diff_err = np.hypot(flux_err[:-1], flux_err[1:])
        I_at_r_err = np.zeros_like(area_diff)
        I_at_r_err[zero_mask] = np.abs(I_at_r[zero_mask]) * np.hypot(flux_diff_err[zero_mask] / flux_diff[zero_mask],
                                                                   area_diff_err[zero_mask] / area_diff[zero_mask])
        I_avg_within_r_err = np.abs(I_avg_within_r) * np.hypot(flux_err[1:] / flux_list[1:], area_err[1:] / area_list[1:])
        petrosian_err = np.zeros_like(area_diff)
        petrosian_err[zero_mask] = np.abs(petrosian_list[1:][zero_mask]) * np.hypot(
            I_at_r_err[zero_mask] / I_at_r[zero_mask], I_avg_within_r_err[zero_mask] / I_avg_within_r[zero_mask])
        petrosian_err = np.insert(petrosian_err, 0, np.nan)
        return petrosian_list, petrosian_err[unique_indices]

    return petrosian_list, None
'''))
# ------------------------------------------------------------------ calculate_petrosian_r
R("pr-helper", (CO, "calculate_petrosian_r", '''
def _crossing(r_list, values, eta, interp_kind, interp_num):
    r_new, values_new = get_interpolated_values(r_list, values, kind=interp_kind, num=interp_num)
    idx = closest_value_index(eta, values_new)
    if idx is None:
        return np.nan
    return r_new[idx]


def calculate_petrosian_r(r_list, petrosian_list, petrosian_err=None, eta=0.2,
                          interp_kind='cubic', interp_num=5000):
    r_list = np.array(r_list)
    petrosian_list = np.array(petrosian_list)
    r_list[0] = 0
    petrosian_list[0] = 1

    r_petro = _crossing(r_list, petrosian_list, eta, interp_kind, interp_num)
    if petrosian_err is None or np.isnan(r_petro):
        return r_petro, np.nan

    petrosian_err = np.array(petrosian_err)
    petrosian_err[0] = 0
    upper = _crossing(r_list, petrosian_list + petrosian_err, eta, interp_kind, interp_num)
    lower = _crossing(r_list, petrosian_list - petrosian_err, eta, interp_kind, interp_num)
    return r_petro, 0.5 * (upper - lower)
'''))
R("pr-closure", (CO, "calculate_petrosian_r", '''
def calculate_petrosian_r(r_list, petrosian_list, petrosian_err=None, eta=0.2,
                          interp_kind='cubic', interp_num=5000):
    r_list, petrosian_list = np.array(r_list), np.array(petrosian_list)
    r_list[0], petrosian_list[0] = 0, 1

    def radius(profile):
        grid, profile = get_interpolated_values(r_list, profile, kind=interp_kind, num=interp_num)
        idx = closest_value_index(eta, profile)
        return grid[idx] if idx is not None else np.nan

    r_petro = radius(petrosian_list)
    r_petro_err = np.nan
    if petrosian_err is not None and not np.isnan(r_petro):
        err = np.array(petrosian_err)
        err[0] = 0
        limits = [radius(petrosian_list + sign * err) for sign in (1, -1)]
        r_petro_err = (limits[0] - limits[1]) / 2
    return r_petro, r_petro_err
'''))
# ------------------------------------------------------------------ fraction_to_r
R("fr-helper", (CO, "fraction_to_r", '''
def _radius_of_flux(target, r_list, flux_list, interp_kind, interp_num):
    r_new, flux_new = get_interpolated_values(r_list, flux_list, kind=interp_kind, num=interp_num)
    idx = closest_value_index(target, flux_new, growing=True)
    return np.nan if idx is None else r_new[idx]


def _curve(r_list, flux_list, interp_kind):
    kind = interp_kind if interp_kind is not None else 'cubic'
    return interp1d(r_list, flux_list, kind=kind)


def fraction_to_r(fraction, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2., epsilon_fraction=0.99,
                  interp_kind='cubic', interp_num=5000):
    r_list = np.array(r_list)
    flux_list = np.array(flux_list)
    r_min, r_max = min(r_list), max(r_list)

    r_epsilon = r_petrosian * epsilon
    if r_epsilon > r_max or r_epsilon < r_min:
        return np.nan, np.nan

    target = _curve(r_list, flux_list, interp_kind)(r_epsilon) * (fraction / epsilon_fraction)
    r_frac = _radius_of_flux(target, r_list, flux_list, interp_kind, interp_num)
    if np.isnan(r_frac) or flux_err is None:
        return r_frac, np.nan

    flux_err = np.array(flux_err)
    dr = r_petrosian_err
    if dr is None or np.isnan(dr):
        dr = 0
    if r_epsilon + dr > r_max or r_epsilon - dr < r_min:
        return r_frac, np.nan

    low, high = flux_list - flux_err, flux_list + flux_err
    spread = (_curve(r_list, high, interp_kind)(r_epsilon + dr) - _curve(r_list, low, interp_kind)(r_epsilon - dr)) / 2
    r_upper = _radius_of_flux(target + spread, r_list, low, interp_kind, interp_num)
    r_lower = _radius_of_flux(target - spread, r_list, high, interp_kind, interp_num)
    return r_frac, (r_upper - r_lower) / 2
'''))
R("fr-minmax", (CO, '''    if r_epsilon > max(r_list) or r_epsilon < min(r_list):
        return np.nan, np.nan
''', '''    if not (r_list.min() <= r_epsilon <= r_list.max()) and not np.isnan(r_epsilon):
        return np.nan, np.nan
''', 'text'))
R("ci-tuple", (CO, "calculate_concentration_index", '''
def calculate_concentration_index(fraction_1, fraction_2, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.,
                                  epsilon_fraction=0.99, interp_kind='cubic', interp_num=5000):
    options = dict(flux_err=flux_err, r_petrosian_err=r_petrosian_err, epsilon=epsilon,
                   epsilon_fraction=epsilon_fraction, interp_kind=interp_kind, interp_num=interp_num)
    r1, r2 = [fraction_to_r(f, r_list, flux_list, r_petrosian, **options)[0] for f in (fraction_1, fraction_2)]
    if np.isnan(r1) or np.isnan(r2):
        return [np.nan, np.nan, np.nan]
    return r1, r2, 5 * np.log10(r2 / r1)
'''))
R("ci-log", (CO, "calculate_concentration_index", '''
def calculate_concentration_index(fraction_1, fraction_2, r_list, flux_list, r_petrosian, flux_err=None, r_petrosian_err=None, epsilon=2.,
                                  epsilon_fraction=0.99, interp_kind='cubic', interp_num=5000):
    def radius(fraction):
        r, _ = fraction_to_r(fraction, r_list, flux_list, r_petrosian, flux_err, r_petrosian_err, epsilon,
                             epsilon_fraction, interp_kind, interp_num)
        return r

    r1, r2 = radius(fraction_1), radius(fraction_2)
    if np.isnan([r1, r2]).any():
        return [np.nan] * 3
    concentration = np.log10(r2 / r1) * 5
    return r1, r2, concentration
'''))
# ------------------------------------------------------------------ Petrosian class
R("pt-helper-method", (CO, "Petrosian._calculate_petrosian_r", '''
def _options(self):
    return {'interp_kind': self.interp_kind, 'interp_num': self.interp_num}

def _calculate_petrosian_r(self):
    return calculate_petrosian_r(
        self.r_list,
        self.petrosian_list,
        self.petrosian_err,
        self.eta,
        **self._options()
    )
'''), (CO, "Petrosian._calculate_fraction_to_r", '''
def _calculate_fraction_to_r(self, fraction):
    r_petrosian, r_petrosian_err = self._calculate_petrosian_r()
    return fraction_to_r(
        fraction, self.r_list, self.flux_list, r_petrosian,
        flux_err=self.flux_err, r_petrosian_err=r_petrosian_err,
        epsilon=self.epsilon, epsilon_fraction=self.epsilon_fraction,
        **self._options()
    )
'''))
R("pt-index", (CO, "Petrosian.r_petrosian", '''
def r_petrosian(self):
    return self._calculate_petrosian_r()[0]
'''), (CO, "Petrosian.r_petrosian_err", '''
def r_petrosian_err(self):
    return self._calculate_petrosian_r()[1]
'''), (CO, "Petrosian.r_total_flux", '''
def r_total_flux(self):
    return self.fraction_flux_to_r(self.total_flux_fraction)
'''), (CO, "Petrosian.r_total_flux_err", '''
def r_total_flux_err(self):
    return self.fraction_flux_to_r_err(fraction=self.total_flux_fraction)
'''), (CO, "Petrosian.r_half_light", '''
def r_half_light(self):
    return self.fraction_flux_to_r()
'''), (CO, "Petrosian.r_half_light_err", '''
def r_half_light_err(self):
    return self.fraction_flux_to_r_err(0.5)
'''))
R("pt-flux-helper", (CO, "Petrosian.total_flux", '''
def total_flux(self):
    return self._flux_at(self.r_total_flux)
'''), (CO, "Petrosian.half_flux", '''
def half_flux(self):
    return self._flux_at(self.r_half_light)
'''), (CO, "Petrosian.r_half_light_arcsec", '''
def _flux_at(self, r):
    if not min(self.r_list) <= r <= max(self.r_list):
        return np.nan
    kind = self.interp_kind
    if kind is None:
        kind = 'cubic'
    return float(interp1d(self.r_list, self.flux_list, kind=kind)(r))

def r_half_light_arcsec(self, wcs):
    r = self.r_half_light
    return np.nan if np.isnan(r) else pixel_to_angular(r, wcs).value
'''), (CO, "Petrosian.r_total_flux_arcsec", '''
def r_total_flux_arcsec(self, wcs):
    r = self.r_total_flux
    if np.isnan(r):
        return np.nan
    angle = pixel_to_angular(r, wcs)
    return angle.value
'''), (CO, "Petrosian.r_epsilon_in_range", '''
def r_epsilon_in_range(self):
    r_epsilon = self.r_epsilon
    return min(self.r_list) <= r_epsilon and r_epsilon <= max(self.r_list)
'''))
R("pt-flux-err", (CO, "Petrosian.total_flux_err", '''
def total_flux_err(self):
    if self.flux_err is None or np.isnan(self.total_flux):
        return np.nan
    interpolated = interp1d(self.r_list, self.flux_err, kind='nearest')(self.r_total_flux)
    return np.sqrt(interpolated ** 2 + self.r_total_flux_err ** 2)
'''), (CO, "Petrosian.half_flux_err", '''
def half_flux_err(self):
    if self.flux_err is None:
        return np.nan
    if np.isnan(self.half_flux):
        return np.nan
    err = interp1d(self.r_list, self.flux_err, kind='nearest')(self.r_half_light)
    return np.hypot(err, self.r_half_light_err)
'''))
R("pt-init", (CO, "Petrosian.__init__", '''
def __init__(self, r_list, area_list, flux_list, area_err=None, flux_err=None,
             eta=0.2, epsilon=2., epsilon_fraction=0.99, total_flux_fraction=0.99, verbose=False, interp_kind='cubic', interp_num=5000):
    self.verbose = verbose
    self.interp_kind, self.interp_num = interp_kind, interp_num

    self._r_list, self._area_list, self._flux_list = [np.array(a) for a in (r_list, area_list, flux_list)]
    self._area_err = np.array(area_err) if area_err is not None else None
    self._flux_err = np.array(flux_err) if flux_err is not None else None
    self._validate_input_arrays()

    self._eta = float(eta)
    self._epsilon = float(epsilon)
    self._epsilon_fraction = float(epsilon_fraction)
    self._total_flux_fraction = float(total_flux_fraction)
    self._update_petrosian()
'''), (CO, "Petrosian._update_petrosian", '''
def _update_petrosian(self):
    profile, err = calculate_petrosian(self.area_list, self.flux_list, self.area_err, self.flux_err)
    self.petrosian_list = profile
    self.petrosian_err = err
    self.has_petrosian_err = err is not None
'''))
R("pt-validate", (CO, "Petrosian._validate_input_arrays", '''
def _validate_input_arrays(self):
    assert self.r_list.shape[0] > 2, "At least 3 data points are needed to compute Petrosian."
    assert self.r_list.ndim == 1, "Input arrays should be one dimensional."
    assert self.r_list.shape == self.flux_list.shape
    for values, err in ((self.flux_list, self.flux_err), (self.area_list, self.area_err)):
        if err is not None:
            assert values.shape == err.shape
'''))
R("pt-conc", (CO, "Petrosian.c2080", '''
def c2080(self):
    _, _, c = self.concentration_index(0.2, 0.8)
    return c
'''), (CO, "Petrosian.c5090", '''
def c5090(self):
    return self.concentration_index(fraction_1=0.5, fraction_2=0.9)[2]
'''), (CO, "Petrosian.r_50", '''
def r_50(self):
    return self.fraction_flux_to_r(0.5)
'''))
R("pt-imshow", (CO, "Petrosian.imshow", '''
def imshow(self, position=(0, 0), elong=1., theta=0., color=None, lw=None):
    entries = [
        ('r_half_light', self.r_half_light, 'r', 'dashed'),
        ('r_total_flux', self.r_total_flux, 'r', 'solid'),
        ('r_20', self.fraction_flux_to_r(0.2), 'b', 'dotted'),
        ('r_80', self.fraction_flux_to_r(0.8), 'b', 'dashdot'),
    ]
    for label, r, default_color, ls in entries:
        if np.isnan(r) or r <= 0:
            continue
        aperture = radial_elliptical_aperture(position, r, elong=elong, theta=theta)
        aperture.plot(label=label, linestyle=ls, color=color if color else default_color, lw=lw)
    x, y = position
    plt.scatter(x, y, marker='+', color=color if color else 'red')
'''))
R("pt-plot-helper", (CO, "Petrosian._plot_radii", '''
def _vline(self, ax, r, color, label):
    if np.isnan(r):
        return
    ax.axvline(r, linestyle='--', color=color, alpha=self._r_plot_alpha, label=label)

def _plot_radii(self, ax, radius_unit='pix'):
    unit = '' if radius_unit is None else str(radius_unit)
    r = self.r_petrosian
    if not np.isnan(r):
        ax.axvline(r, linestyle='--', color='black', alpha=self._r_plot_alpha,
                   label='$R_{{p}}(\\\\eta_{{{}}})={:0.4f}$ {}'.format(self.eta, r, unit))
    r = self.r_total_flux
    if not np.isnan(r):
        ax.axvline(r, linestyle='--', c='tab:red', alpha=self._r_plot_alpha,
                   label='$R_{{total}}(L_{{{}}}) = {:0.4f}$ {}'.format(int(self.total_flux_fraction * 100), r, unit))
    r = self.r_half_light
    if not np.isnan(r):
        ax.axvline(r, linestyle='--', c='tab:blue', alpha=self._r_plot_alpha,
                   label='$R_{{50}}(L_{{50}}) = {:0.4f}$ {}'.format(r, unit))
'''))
