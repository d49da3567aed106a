# ------------------------------------------------------------------ fitting
R("fi-options", (FI, "fit_model", '''
def fit_model(image, model, weights=None, fitter=TRFLSQFitter, maxiter=5000,
              calc_uncertainties=False, epsilon=DEFAULT_EPS, acc=DEFAULT_ACC,
              estimate_jacobian=False):
    if isinstance(image, np.ma.MaskedArray):
        image = image.astype(float).filled(np.nan)

    y, x = np.where(~np.isnan(image))
    z = image[y, x]

    if weights is None:
        w = None
    else:
        assert weights.shape == image.shape, "RMS array does not have the same shape as input image."
        w = weights[y, x]

    options = {'weights': w}
    if fitter in (TRFLSQFitter, LevMarLSQFitter, LMLSQFitter):
        options.update(maxiter=maxiter, epsilon=epsilon, acc=acc, estimate_jacobian=estimate_jacobian)
    fit = fitter(calc_uncertainties=calc_uncertainties)
    return fit(model, x, y, z, **options), fit
'''))
R("fi-mask", (FI, "fit_model", '''
def _valid_pixels(image):
    """Coordinates of the pixels that are numbers"""
    good = np.logical_not(np.isnan(image))
    rows, cols = np.nonzero(good)
    return rows, cols


def fit_model(image, model, weights=None, fitter=TRFLSQFitter, maxiter=5000,
              calc_uncertainties=False, epsilon=DEFAULT_EPS, acc=DEFAULT_ACC,
              estimate_jacobian=False):
    if isinstance(image, np.ma.MaskedArray):
        image = image.astype(float).filled(np.nan)
    rows, cols = _valid_pixels(image)
    w = None
    if weights is not None:
        assert weights.shape == image.shape, "RMS array does not have the same shape as input image."
        w = weights[rows, cols]
    fitter_instance = fitter(calc_uncertainties=calc_uncertainties)
    if fitter not in [TRFLSQFitter, LevMarLSQFitter, LMLSQFitter]:
        return fitter_instance(model, cols, rows, image[rows, cols], weights=w), fitter_instance
    fitted_model = fitter_instance(model, cols, rows, image[rows, cols], weights=w, maxiter=maxiter,
                                   acc=acc, epsilon=epsilon, estimate_jacobian=estimate_jacobian)
    return fitted_model, fitter_instance
'''))
R("fi-size", (FI, "_validate_image_size", '''
def _validate_image_size(size):
    error_message = "Input size (pixels) should be an integers or a tuple of two integers."
    if type(size) in (list, tuple, np.ndarray):
        assert len(size) == 2, error_message
        sizes = [size[0], size[1]]
    elif np.issubdtype(type(size), np.number):
        sizes = [size, size]
    else:
        raise ValueError(error_message)
    for s in sizes:
        assert s % 1 == 0, error_message
    return int(sizes[0]), int(sizes[1])
'''))
R("fi-origin", (FI, "model_center_to_image_origin", '''
def model_center_to_image_origin(center, size):
    x_size, y_size = _validate_image_size(size)
    message = "Center should be a tuple of two integers."
    assert type(center) in [list, tuple, np.ndarray], message
    assert len(center) == 2, message
    x, y = center
    return x - x_size // 2, y - y_size // 2
'''))
R("fi-to-image", (FI, "model_to_image", '''
def model_to_image(model, size, mode='center', factor=1, center=None):
    x_size, y_size = _validate_image_size(size)
    x0, y0 = (0, 0) if center is None else model_center_to_image_origin(center, size)
    x_range = (x0, x0 + x_size)
    y_range = (y0, y0 + y_size)
    return discretize_model(model, x_range, y_range=y_range, mode=mode, factor=factor)
'''), (FI, "fit_background", '''
def fit_background(image, model=models.Planar2D(), sigma=3.0, fitter=LinearLSQFitter, calc_uncertainties=False):
    clipped = image if sigma is None else sigma_clip(image, sigma)
    return fit_model(clipped, model, fitter=fitter, calc_uncertainties=calc_uncertainties)
'''))
R("fi-gauss", (FI, "fit_gaussian2d", '''
def fit_gaussian2d(image):
    rows, cols = image.shape
    start = models.Gaussian2D(amplitude=np.max(image), x_mean=cols // 2, y_mean=rows // 2, fixed={})
    return fit_model(image, start)[0]
'''))
R("fi-fwhm", (FI, '''    x_mean, y_mean = [i.value for i in [fitted_line.x_mean, fitted_line.y_mean]]
''', '''    x_mean = fitted_line.x_mean.value
    y_mean = fitted_line.y_mean.value
''', 'text'), (FI, "mean_fwhm = int(np.round(mean_fwhm))", "mean_fwhm = int(np.round((x_fwhm + y_fwhm) / 2))", 'text'))
R("fi-plot-loop", (FI, "print_model_params", '''
def print_model_params(model):
    for i, name in enumerate(model.param_names):
        print("{:0.4f}\\t{}".format(model.parameters[i], name))
'''), (FI, '''    axs[1].set_yticklabels([])
    axs[2].set_yticklabels([])
''', '''    for ax in axs[1:]:
        ax.set_yticklabels([])
''', 'text'))
# ------------------------------------------------------------------ models: functions
R("mo-bounds", (MO, "get_default_sersic_bounds", '''
def get_default_sersic_bounds(override={}):
    bounds = dict(
        amplitude=(0.0, None),
        r_eff=(1e-3, None),
        n=(0.1, 10),
        ellip=(0, 0.99),
        theta=(-2 * np.pi, 2 * np.pi),
    )
    for key in override:
        bounds[key] = override[key]
    return bounds
'''), (MO, "get_default_gen_sersic_bounds", '''
def get_default_gen_sersic_bounds(override={}):
    bounds = {**get_default_sersic_bounds(), 'c_0': (0, 2.)}
    bounds.update(override)
    return bounds
'''))
R("mo-bounds2", (MO, "get_default_gen_sersic_bounds", '''
def get_default_gen_sersic_bounds(override={}):
    defaults = {'c_0': (0, 2.)}
    defaults.update(override)
    return get_default_sersic_bounds(defaults)
'''), (MO, "I0_to_Ie", '''
def I0_to_Ie(I_0, n):
    return I_0 * np.exp(-gammaincinv(2. * n, 0.5))
'''))
R("mo-grid", (MO, "make_grid", '''
def make_grid(size, origin=(0, 0), factor=1):
    assert isinstance(factor, int)
    offsets = np.arange(0.5, size * factor, 1) / factor - 0.5
    return np.meshgrid(offsets + origin[0], offsets + origin[1])
'''))
R("mo-grid2", (MO, "make_grid", '''
def make_grid(size, origin=(0, 0), factor=1):
    assert isinstance(factor, int)
    x0, y0 = origin
    step = (np.arange(size * factor) + 0.5) / factor - 0.5
    return np.meshgrid(x0 + step, y0 + step)
'''))
R("mo-enclosed", (MO, "sersic_enclosed", '''
def _sersic_norm(amplitude, r_eff, n, ellip):
    bn = gammaincinv(2. * n, 0.5)
    return bn, amplitude * 2 * np.pi * n * r_eff ** 2 * np.exp(bn) / bn ** (2 * n) * (1 - ellip)


def sersic_enclosed(r, amplitude, r_eff, n, ellip=0):
    bn, norm = _sersic_norm(amplitude, r_eff, n, ellip)
    x = bn * (r / r_eff) ** (1 / n)
    return norm * gamma(2 * n) * gammainc(2 * n, x)
'''), (MO, "sersic_enclosed_inv", '''
def sersic_enclosed_inv(f, amplitude, r_eff, n, ellip=0):
    bn, norm = _sersic_norm(amplitude, r_eff, n, ellip)
    x = gammaincinv(2 * n, f / (norm * gamma(2 * n)))
    return r_eff * (x / bn) ** n
'''))
R("mo-profile", (MO, "petrosian_profile", '''
def petrosian_profile(r, r_eff, n):
    bn = gammaincinv(2.0 * n, 0.5)
    x = bn * np.power(r / r_eff, 1 / n)
    numerator = np.exp(-x) * x ** (2 * n)
    denominator = 2 * n * gamma(2 * n) * gammainc(2 * n, x)
    return numerator / denominator
'''))
R("mo-gensersic", (MO, "GenSersic2D.evaluate", '''
def evaluate(cls, x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0):
    bn = gammaincinv(2.0 * n, 0.5)
    dx, dy = x - x_0, y - y_0
    cos_theta = np.cos(theta)
    sin_theta = np.sin(theta)
    x_maj = dx * cos_theta + dy * sin_theta
    x_min = dy * cos_theta - dx * sin_theta
    p = c_0 + 2
    z = (np.abs(x_maj / r_eff) ** p + np.abs(x_min / ((1 - ellip) * r_eff)) ** p) ** (1 / p)
    return amplitude * np.exp(-bn * (z ** (1 / n) - 1))
'''))
R("mo-nuker", (MO, "Nuker2D", '''
def Nuker2D(x, y, amplitude=1, r_break=1, x_0=0, y_0=0, alpha=2, betta=4, gamma=0):
    r = np.sqrt((x - x_0) ** 2 + (y - y_0) ** 2)
    r[r == 0] = np.nan
    s = r / r_break
    inner = s ** (-gamma)
    outer = (1 + s ** alpha) ** ((gamma - betta) / alpha)
    return amplitude * 2 ** ((betta - gamma) / alpha) * inner * outer
'''))
R("mo-core", (MO, "CoreSersic2D", '''
def CoreSersic2D(x, y, amplitude=1, r_eff=1, r_break=1, n=1, x_0=0, y_0=0, alpha=10, gamma=0.1, ellip=0, theta=0):
    bn = gammaincinv(2.0 * n, 0.5)
    c, s = np.cos(theta), np.sin(theta)
    dx, dy = x - x_0, y - y_0
    major = dx * c + dy * s
    minor = (-dx * s + dy * c) / (1 - ellip)
    r = np.hypot(major, minor)
    r[r == 0] = np.nan
    scale = amplitude * 2 ** (-gamma / alpha) * np.exp(bn * (2 ** (1 / alpha) * r_break / r_eff) ** (1 / n))
    core = (1 + (r_break / r) ** alpha) ** (gamma / alpha)
    return scale * core * np.exp(-bn * ((r ** alpha + r_break ** alpha) / r_eff ** alpha) ** (1 / (alpha * n)))
'''))
# ------------------------------------------------------------------ PSFConvolvedModel2D
R("ps-factors", (MO, "PSFConvolvedModel2D._get_oversample_factor", '''
def _get_oversample_factor(self):
    oversample = self.oversample
    if oversample is None:
        return 1
    if isinstance(oversample, (tuple, list, np.ndarray)):
        return oversample[3]
    return oversample
'''), (MO, "PSFConvolvedModel2D._get_psf_factor", '''
def _get_psf_factor(self):
    if self._psf_oversample is None:
        return 1
    return self._psf_oversample
'''))
R("ps-oversample-setter", (MO, "PSFConvolvedModel2D.oversample:setter", '''
@staticmethod
def _check_window(oversample):
    if len(oversample) != 4:
        raise ValueError("oversample should be (x, y, size, factor).")
    _, _, size, factor = oversample
    if not (isinstance(size, int) and isinstance(factor, int)):
        raise ValueError("size and factor should be integers.")
    return factor

@oversample.setter
def oversample(self, oversample):
    psf_oversample = self._get_psf_factor()
    if oversample is None:
        if psf_oversample != 1:
            raise ValueError("oversample should be equal to or an integer multiple of psf_oversample. "
                             "Set PSFConvolvedModel2D.psf_oversample value first.")
        self._oversample = None
        return

    if isinstance(oversample, (tuple, list, np.ndarray)):
        grid_factor = self._check_window(oversample)
        oversample = tuple(oversample)
    elif isinstance(oversample, int):
        grid_factor = oversample
    else:
        raise TypeError("oversample should be a single int factor or a tuple (x, y, size, factor).")

    if grid_factor <= 0:
        raise ValueError("oversample should be a positive int factor.")
    if grid_factor % psf_oversample:
        raise ValueError("oversample should be equal to or an integer multiple of psf_oversample")
    self._oversample = oversample
'''))
R("ps-psf-setter", (MO, "PSFConvolvedModel2D.psf_oversample:setter", '''
@psf_oversample.setter
def psf_oversample(self, psf_oversample):
    if psf_oversample is not None:
        if self._psf is None:
            raise ValueError("psf_oversample provided but PSF is None")
        if not isinstance(psf_oversample, int) or psf_oversample <= 0:
            raise TypeError("psf_oversample should be a single positive int factor.")
        if self._get_oversample_factor() % psf_oversample != 0:
            raise ValueError("oversample should be equal to or an integer multiple of psf_oversample. "
                             "Set PSFConvolvedModel2D.oversample value first.")
    self._psf_oversample = psf_oversample
'''), (MO, "PSFConvolvedModel2D.psf:setter", '''
@psf.setter
def psf(self, psf):
    if psf is not None:
        total = psf.sum()
        if np.round(total, 6) != 1:
            warnings.warn("Input PSF not normalized to 1, current sum = {}".format(total))
    self._psf = psf
'''))
R("ps-load", (MO, "PSFConvolvedModel2D._load_parameters", '''
def _add_parameter(self, name, default):
    param = Parameter(name, default=default)
    self.__dict__[name] = param
    self._parameters_[name] = param

def _load_parameters(self):
    if self._parameters is not None:
        return
    self._parameters_ = {}
    for name, value in zip(self._model.param_names, self._model.parameters):
        self._add_parameter(name, value)
    self._add_parameter('psf_pa', 0)
    self._param_names = tuple(self._model.param_names) + ('psf_pa',)
'''))
R("ps-model", (MO, "PSFConvolvedModel2D.model", '''
def model(self):
    model = self._model.copy()
    for param in model.param_names:
        setattr(model, param, getattr(self, param).value)
    model.fixed.update({k: v for k, v in self.fixed.items() if k != 'psf_pa'})
    model.bounds.update({k: v for k, v in self.bounds.items() if k != 'psf_pa'})
    return model
'''))
R("ps-cache", (MO, "PSFConvolvedModel2D.clear_cached_grid", '''
def clear_cached_grid(self):
    self._cached_grid = None
    self._cache_grid_range = None
    self._cached_grid_size = self._cached_grid_factor = 0
'''), (MO, "PSFConvolvedModel2D.cache_grid:setter", '''
@cache_grid.setter
def cache_grid(self, value):
    if value is not True and value is not False:
        raise ValueError("{} is not a bool, use True or False".format(value))
    self._cache_grid = value
    if not value:
        self.clear_cached_grid()
'''))
EV = '''
def _bin(self, image, factor):
    return block_reduce(image, factor) / factor ** 2

def _main_grid(self, x, y, size, factor):
    extent = (x.min(), x.max(), y.min(), y.max())
    if (size, factor, extent) == (self._cached_grid_size, self._cached_grid_factor, self._cache_grid_range):
        return self._cached_grid
    grid = make_grid(size, origin=(x.min(), y.min()), factor=factor)
    if self.cache_grid:
        self._cached_grid = grid
        self._cached_grid_size, self._cached_grid_factor = size, factor
        self._cache_grid_range = extent
    return grid

def _coordinate(self, value, params):
    if not isinstance(value, str):
        return value
    assert value in self._model.param_names, "oversample param '{}' is not in the wrapped model param list".format(value)
    value = params[self._model.param_names.index(value)]
    if isinstance(value, (list, np.ndarray)):
        value = value[0]
    return value

def evaluate(self, x, y, *params, **kwargs):
    sub_model_params, psf_p = params[:-1], params[-1]
    x_min, y_min = x.min(), y.min()
    i = (x - x_min).astype(int)
    j = (y - y_min).astype(int)

    windowed = isinstance(self.oversample, tuple)
    psf_factor = self._get_psf_factor()
    grid_factor = psf_factor if windowed else self._get_oversample_factor()
    grid_size = max(i.max(), j.max()) + 1

    x_grid, y_grid = self._main_grid(x, y, grid_size, grid_factor)
    model_image = self._model.evaluate(x_grid, y_grid, *sub_model_params)

    if not windowed:
        ratio = grid_factor // psf_factor
        if ratio > 1:
            model_image = self._bin(model_image, ratio)
    else:
        x0, y0, size, factor = self.oversample
        ratio = factor // psf_factor
        if ratio > 1:
            x0 = self._coordinate(x0, sub_model_params)
            y0 = self._coordinate(y0, sub_model_params)
            left = np.round(x0 - x_min) - size // 2
            bottom = np.round(y0 - y_min) - size // 2
            window = make_grid(size, origin=(left + x_min, bottom + y_min), factor=factor)
            sub_image = self._bin(self._model.evaluate(window[0], window[1], *sub_model_params), ratio)

            i0, j0 = int(np.round(left + x_min - x_min)), int(np.round(bottom + y_min - y_min))
            i1 = max(max(i0, 0), min(i0 + size, i.max() + 1))
            j1 = max(max(j0, 0), min(j0 + size, j.max() + 1))
            rows = slice((max(j0, 0) - j0) * psf_factor, (j1 - j0) * psf_factor)
            cols = slice((max(i0, 0) - i0) * psf_factor, (i1 - i0) * psf_factor)
            model_image[max(j0, 0) * psf_factor:j1 * psf_factor, max(i0, 0) * psf_factor:i1 * psf_factor] = sub_image[rows, cols]

    if self.psf is not None:
        angle = psf_p[0] if isinstance(psf_p, (list, np.ndarray)) else psf_p
        psf = rotate(self.psf, angle, reshape=False) if angle != 0 else self.psf
        model_image = convolve(model_image, psf, mode='same')

    if psf_factor > 1:
        model_image = self._bin(model_image, psf_factor)
    return model_image[j, i]
'''
R("ps-evaluate", (MO, "PSFConvolvedModel2D.evaluate", EV))
R("ps-init", (MO, "PSFConvolvedModel2D.__init__", '''
def __init__(self, model, psf=None, oversample=None, psf_oversample=None, name=None, **kwargs):
    if isinstance(model, self.__class__):
        raise TypeError("Can not wrap a PSFConvolvedModel2D, try: PSFConvolvedModel2D(psf_convolved_model.model)")
    assert model.n_inputs == 2, "Input model is not 2D"

    self._parameters = None
    self._parameters_ = {}
    self._model = model
    self._load_parameters()

    self.psf = psf
    self.oversample = oversample
    self.psf_oversample = psf_oversample

    super().__init__(name=name, **kwargs)

    if 'fixed' not in kwargs:
        self.fixed.update(model.fixed)
    if 'bounds' not in kwargs:
        self.bounds.update(model.bounds)
'''))
