"""Planted bugs (written from the property texts and the code): see plant.py."""
CORE = "petrofit/petrosian/core.py"
PHOT = "petrofit/photometry.py"
BUGS = [
    dict(id="p02-skip-last", property="P02", needs="two or more apertures of increasing radius where the last one touches the image edge",
         breaks="",
         edits=[], demo=""),
]
BUGS.clear()


def bug(id, property, needs, breaks, edits, demo, also=()):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, also=also))



bug("p01-theta-second", "P01", "an elongated aperture (elong > 1) at a non-zero orientation angle outside one half turn",
    "the aperture of radial_elliptical_aperture is drawn at an orientation folded the wrong way for angles of more than a quarter turn",
    [(PHOT, "    a, b = r, r / elong\n    return EllipticalAperture(position, a, b, theta=theta)",
      "    if abs(theta) > np.pi / 2:\n        theta = np.pi - theta\n    a = r\n    b = r / elong\n    return EllipticalAperture(position, a, b, theta=theta)")],
    """
    import numpy as np
    from petrofit.photometry import radial_elliptical_aperture, radial_photometry
    img = np.random.default_rng(0).random((61, 61))
    a = radial_photometry(img, (30, 30), [4., 8., 12.], elong=2., theta=2.2)[0]
    b = radial_photometry(img, (30, 30), [4., 8., 12.], elong=2., theta=2.2 - np.pi)[0]
    assert np.allclose(a, b), (a, b)
    """)

bug("p02-area-without-mask-edge", "P02", "a mask together with a radius large enough that the aperture leaves the image",
    "the measured area of an aperture ignores the mask once the aperture is larger than the image",
    [(PHOT, "            data=np.ones_like(image), error=None, mask=mask, method=method\n",
      "            data=np.ones_like(image),\n            error=None,\n            mask=mask if 2 * r < max(image.shape) else None,\n            method=method,\n")],
    """
    import numpy as np
    from petrofit.photometry import radial_photometry
    img = np.ones((41, 41))
    m = np.ones((41, 41), bool)
    m[:, 25:] = False
    f, a, e = radial_photometry(img, (20, 20), [5., 10., 24.], mask=m)
    assert np.allclose(f, a, atol=1e-4), (f, a)
    """)

bug("p04-small-step", "P04", "apertures whose areas differ by less than half a pixel (finely sampled small radii)",
    "the index of an aperture whose area step is below half a pixel comes out as zero",
    [(CORE, "    zero_mask = np.where(area_diff > 0)\n", "    zero_mask = np.where(area_diff > 0.5)\n")],
    """
    import numpy as np
    from petrofit.petrosian import calculate_petrosian
    r = np.arange(1, 6) * 0.05
    area = np.pi * r ** 2
    flux = 1 - np.exp(-r)
    p = calculate_petrosian(area, flux)[0]
    want = np.diff(flux) / np.diff(area) / (flux[1:] / area[1:])
    assert np.allclose(p[1:], want), (p, want)
    """)

bug("p06-shared-profile", "P06", "errors given, and a profile whose first error entry is finite and large",
    "the lower 1-sigma profile is built after the upper one changed the profile in place, so the radius error is wrong",
    [(CORE, "        r_list, petrosian_list + petrosian_err, kind=interp_kind, num=interp_num\n    )\n    idx = closest_value_index(eta, petrosian_list_upper)",
      "        r_list,\n        np.add(petrosian_list, petrosian_err, out=petrosian_list),\n        kind=interp_kind,\n        num=interp_num,\n    )\n    idx = closest_value_index(eta, petrosian_list_upper)")],
    """
    import numpy as np
    from petrofit.petrosian import calculate_petrosian_r
    r = np.linspace(1, 20, 30)
    p = np.exp(-r / 5.)
    e = 0.01 * np.ones(30)
    rp, err = calculate_petrosian_r(r, p, e, interp_kind='linear')
    # p falls by p/5 per unit radius: at p = 0.2 an error of 0.01 is a radius error of 0.25
    assert abs(err - 0.25) < 0.03, err
    """)

bug("p07-epsilon-fraction-square", "P07", "epsilon_fraction different from the requested fraction, with flux errors",
    "the error of the fraction radius uses the fraction of the flux at r_epsilon without the epsilon_fraction correction",
    [(CORE, "        # r_list[0] = 0\n", "        # r_list[0] = 0\n")],
    "")
BUGS.pop()

bug("p07-range-lower", "P07", "a radius list that starts well above zero and a Petrosian radius so small that epsilon times it lies below the first radius",
    "a fraction radius is extrapolated instead of undefined when r_epsilon lies below the first sampled radius",
    [(CORE, "    if r_epsilon > max(r_list) or r_epsilon < min(r_list):\n        return np.nan, np.nan\n\n    f = interp1d(\n        r_list, flux_list, kind=\"cubic\" if interp_kind is None else interp_kind\n    )",
      "    if r_epsilon > max(r_list):\n        return np.nan, np.nan\n\n    f = interp1d(\n        r_list,\n        flux_list,\n        kind=\"cubic\" if interp_kind is None else interp_kind,\n        fill_value=\"extrapolate\",\n    )")],
    """
    import numpy as np
    from petrofit.petrosian import fraction_to_r
    r = np.linspace(5, 50, 40)
    f = 1 - np.exp(-r / 5.)
    v = fraction_to_r(0.9, r, f, 2.4, epsilon=2.)[0]
    assert np.isnan(v), v
    """)

bug("p08-order", "P08", "a first fraction larger than the second one",
    "the concentration index takes the larger radius over the smaller one whatever the order of the fractions",
    [(CORE, "    return r1, r2, 5 * np.log10(r2 / r1)\n", "    return r1, r2, 5 * abs(np.log10(r2 / r1))\n")],
    """
    import numpy as np
    from petrofit.petrosian import calculate_concentration_index
    r = np.linspace(1, 50, 60)
    f = 1 - np.exp(-r / 5.) * (1 + r / 5.)
    a = calculate_concentration_index(0.2, 0.8, r, f, 20.)[2]
    b = calculate_concentration_index(0.8, 0.2, r, f, 20.)[2]
    assert abs(a + b) < 1e-9, (a, b)
    """)

bug("p09-eta-cache", "P09", "read a radius, change eta, then read the radius again",
    "r_petrosian keeps its first value after eta is changed",
    [(CORE, "        r_p, _ = self._calculate_petrosian_r()\n        return r_p\n",
      "        if \"_r_p\" not in self.__dict__:\n            self._r_p, _ = self._calculate_petrosian_r()\n        return self._r_p\n")],
    """
    import numpy as np
    from petrofit.petrosian import Petrosian
    r = np.linspace(1, 50, 60)
    f = 1 - np.exp(-r / 5.) * (1 + r / 5.)
    p = Petrosian(r, np.pi * r ** 2, f, eta=0.2)
    a = p.r_petrosian
    p.eta = 0.4
    assert p.r_petrosian == Petrosian(r, np.pi * r ** 2, f, eta=0.4).r_petrosian, (a, p.r_petrosian)
    """)

bug("p10-total-flux-clipped", "P10", "a total flux radius close to the last sampled radius",
    "the total flux is taken from the nearest sampled radius instead of being interpolated when it lies beyond the last but one radius",
    [(CORE, "        total_flux = f(r_total_flux)\n        return float(total_flux)\n",
      "        if r_total_flux > self.r_list[-2]:\n            return float(self.flux_list[-1])\n        return float(f(r_total_flux))\n")],
    """
    import numpy as np
    from scipy.interpolate import interp1d
    from petrofit.petrosian import Petrosian
    r = np.array([1., 2, 3, 4, 5, 6, 8, 10, 12, 14, 25])
    f = 1 - np.exp(-r / 3.) * (1 + r / 3.)
    p = Petrosian(r, np.pi * r ** 2, f, interp_kind='linear')
    p.epsilon = 20. / p.r_petrosian
    assert p.r_list[-2] < p.r_total_flux < p.r_list[-1], p.r_total_flux
    want = float(interp1d(r, f, kind='linear')(p.r_total_flux))
    assert abs(p.total_flux - want) < 1e-12, (p.total_flux, want)
    """)


GRID = """
    import numpy as np
    from astropy.table import Table
    from petrofit.petrosian import Petrosian, PetrosianCorrection

    def grid():
        n = np.array([1., 2., 3., 4.])
        t = Table()
        t['n'] = n
        for i, k in enumerate(('p02', 'p03', 'p04', 'p05')):
            t[k] = np.array([10., 20., 30., 40.]) * (1 - 0.1 * i)
        t['u_r_50'] = np.array([5., 10., 14., 17.])
        t['u_c2080'] = np.array([2.7, 3.0, 3.3, 3.6])
        for k, v in (('c_r_50', 0.5), ('c_r_80', 1.), ('c_r_99', 2.)):
            t[k] = v * t['p02']
        return t

    def obj(**k):
        r = np.linspace(1, 60, 80)
        f = 1 - np.exp(-r / 5.) * (1 + r / 5.)
        return Petrosian(r, np.pi * r ** 2, f, **k)
"""

COR = "petrofit/petrosian/correction.py"
UTI = "petrofit/utils.py"
MOD = "petrofit/modeling/models.py"
FIT = "petrofit/modeling/fitting.py"
SEG = "petrofit/segmentation.py"

bug("p13-mutate-epsilon", "P13", "an object whose epsilon was changed before it is corrected",
    "the corrected epsilon is scaled by the object's own epsilon instead of replacing it",
    [(COR, "        corrected_p.epsilon = self.estimate_epsilon(p)\n", "        corrected_p.epsilon = self.estimate_epsilon(p) * p.epsilon / 2\n")],
    GRID + """
    p = obj(epsilon=2.)
    q = obj(epsilon=3.)
    a, b = PetrosianCorrection(grid()).correct(p).epsilon, PetrosianCorrection(grid()).correct(q).epsilon
    assert abs(a - b) < 1e-12, (a, b)
    """)

bug("p14-z-scale", "P14", "a grid whose C2080 column varies much less than its radii",
    "the concentration distance is scaled by the spread of the half-light radius",
    [(COR, "        std_z = np.std(self.z)\n", "        std_z = min(np.std(self.z), np.std(self.y)) if len(self.z) < 3 else np.std(self.y)\n")],
    GRID + """
    k = PetrosianCorrection(grid())
    d = k._dr(11., 5.5, 3.2)
    want = 100 * np.sqrt(sum(((c - v) / np.std(c)) ** 2 for c, v in zip((k.x, k.y, k.z), (11., 5.5, 3.2))))
    assert np.allclose(d, want), (d, want)
    """)

bug("p15-deg-wcs", "P15", "a WCS whose celestial unit is not degrees",
    "pixel_to_angular takes the pixel scale to be in degrees whatever the unit of the WCS",
    [(UTI, "    pixel_scale = pixel_scales[0] * wcs.wcs.cunit[0] / u.pix\n\n    if not", "    pixel_scale = pixel_scales[0] * u.deg / u.pix\n\n    if not")],
    """
    import numpy as np
    from astropy import units as u
    from petrofit.utils import pixel_to_angular, angular_to_pixel
    import petrofit.utils as pu

    class W:
        class wcs:
            cunit = [u.arcsec, u.arcsec]
    pu.proj_plane_pixel_scales = lambda w: np.array([0.05, 0.05])
    a = pixel_to_angular(100., W)
    assert abs(a.to(u.arcsec).value - 5) < 1e-9, a
    assert abs(angular_to_pixel(a, W) - 100) < 1e-6
    """)

bug("p16-first-below", "P16", "a profile that rises again above the value after its first crossing, with a later sample closer to the value",
    "the index lookup considers every sample instead of those up to the first crossing",
    [(UTI, "        idx = abs(array[: idx + 1] - value).argmin()", "        idx = abs(array[: idx + 2] - value).argmin()")],
    """
    import numpy as np
    from petrofit.utils import closest_value_index
    a = np.array([1., 0.8, 0.5, 0.1, 0.21, 0.05])
    i = closest_value_index(0.2, a)
    assert i == 3, i
    """)

bug("p17-array-negative", "P17", "an array of fluxes with a negative entry",
    "the magnitude of a negative flux in an array is the zero point instead of undefined",
    [(UTI, "    return -2.5 * np.log10(flux) + ABMAG_ZPT", "    return np.nan_to_num(-2.5 * np.log10(flux)) + ABMAG_ZPT")],
    """
    import numpy as np
    from petrofit.utils import hst_flux_to_abmag
    h = dict(PHOTFLAM=1e-19, PHOTZPT=-21.1, PHOTPLAM=8000.)
    m = hst_flux_to_abmag(np.array([1., -1., 0.]), h)
    assert np.isfinite(m[0]) and np.isnan(m[1]) and np.isnan(m[2]), m
    """)

bug("p18-inverse-ellip", "P18", "an ellipticity other than zero",
    "the inverse of the enclosed flux ignores the ellipticity of the profile",
    [(MOD, "        * ((np.exp(bn)) / (bn) ** (2 * n))\n        * (1 - ellip)\n    )\n\n", "        * ((np.exp(bn)) / (bn) ** (2 * n))\n    )\n\n")],
    """
    from petrofit.modeling.models import sersic_enclosed, sersic_enclosed_inv
    f = sersic_enclosed(7., 10., 5., 2., ellip=0.4)
    r = sersic_enclosed_inv(f, 10., 5., 2., ellip=0.4)
    assert abs(r - 7) < 1e-6, r
    """)

bug("p20-odd-factor", "P20", "an oversampling factor above one together with a non-zero origin along one axis only",
    "the origin of the sampling grid is shifted on both axes by the larger of the two",
    [(MOD, "    y_arange += origin[1]\n", "    y_arange += origin[1] if factor == 1 else max(origin)\n")],
    """
    import numpy as np
    from petrofit.modeling.models import make_grid
    x, y = make_grid(4, origin=(3, 0), factor=2)
    assert np.isclose(x.mean(), 3 + 1.5) and np.isclose(y.mean(), 1.5), (x.mean(), y.mean())
    """)

bug("p23-long-window", "P23", "an oversampling window with more than four entries",
    "an oversampling window of five or more entries is accepted",
    [(MOD, "                if len(oversample) != 4:", "                if len(oversample) < 4:")],
    """
    from astropy.modeling.models import Sersic2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    m = PSFConvolvedModel2D(Sersic2D())
    try:
        m.oversample = (1, 1, 3, 2, 7)
    except (ValueError, TypeError):
        pass
    else:
        raise AssertionError(m.oversample)
    """)

bug("p24-range-min", "P24", "two evaluations on equally large grids that start at the same x but at different y",
    "the cached grid is reused for another range of y",
    [(MOD, "        grid_range = (x.min(), x.max(), y.min(), y.max())", "        grid_range = (x.min(), x.max())")],
    """
    import numpy as np
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    g = Gaussian2D(1., 3., 8., 2., 2.)
    m = PSFConvolvedModel2D(g)
    y, x = np.mgrid[:8, :8]
    m(x, y)
    assert np.allclose(m(x, y + 5), g(x, y + 5))
    """)

bug("p25-default-bounds", "P25", "a wrapped model with bounds, wrapped with fixed flags given",
    "the bounds of the wrapped model are lost when the caller gives fixed flags",
    [(MOD, "        if \"bounds\" not in kwargs:", "        if not kwargs:")],
    """
    from astropy.modeling.models import Sersic2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    s = Sersic2D(bounds={'n': (0.5, 8.)})
    m = PSFConvolvedModel2D(s, fixed={'n': True})
    assert tuple(m.bounds['n']) == (0.5, 8.), m.bounds
    """)

bug("p27-odd-size", "P27", "an odd image size with a centre",
    "an image of odd size starts one pixel too far to the left and bottom of its centre",
    [(FIT, "np.array(center) - np.floor_divide(np.array([x_size, y_size]), 2)", "np.array(center) - np.ceil(np.array([x_size, y_size]) / 2)"),],
    """
    import numpy as np
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.fitting import model_to_image
    im = model_to_image(Gaussian2D(1., 50., 40., 2., 2.), (11, 7), center=(50, 40))
    assert np.unravel_index(im.argmax(), im.shape) == (3, 5), np.unravel_index(im.argmax(), im.shape)
    """)

bug("p28-sigma-three", "P28", "a background fit with a sigma other than 3",
    "the background is always clipped at three sigma",
    [(FIT, "        fit_bg_image = sigma_clip(image, sigma)", "        fit_bg_image = sigma_clip(image, max(sigma, 3.0))")],
    """
    import numpy as np
    import petrofit.modeling.fitting as pf
    from astropy.stats import sigma_clip
    seen = []
    pf.fit_model = lambda image, model, **k: seen.append(image)
    im = np.random.default_rng(1).normal(size=(40, 40))
    pf.fit_background(im, sigma=1.5)
    assert (np.ma.getmaskarray(seen[0]) == np.ma.getmaskarray(sigma_clip(im, 1.5))).all()
    """)

bug("p29-list-xor", "P29", "a list that names the same source twice",
    "pixels of a source that is listed twice are left out of the mask",
    [(SEG, "            mask = (segm.data == source) | mask", "            mask = (segm.data == source) ^ mask")],
    """
    import numpy as np
    from petrofit.segmentation import segm_mask
    class S:
        data = np.array([[0, 1, 1], [2, 2, 0], [3, 0, 0]])
    m = segm_mask([1, 2, 1], S, mask_background=True)
    assert (m == np.isin(S.data, (1, 2))).all(), m
    """)

bug("p30-last-radius", "P30", "a radius list that is not sorted, without a cutout size",
    "the default cutout size is three times the last radius rather than the largest",
    [(SEG, "        cutout_size = np.ceil(max(r_list) * 3)", "        cutout_size = np.ceil(r_list[-1] * 3)")],
    """
    import numpy as np
    import petrofit.segmentation as ps
    from photutils.segmentation import SegmentationImage, SourceCatalog
    y, x = np.mgrid[:81, :81]
    im = np.exp(-((x - 40) ** 2 + (y - 40) ** 2) / 50.)
    sg = SegmentationImage((im > 0.1).astype(int))
    cat = SourceCatalog(im, sg)
    sizes = []
    ps.radial_photometry = lambda image, *a, **k: (sizes.append(image.shape), (0, 0, 0))[1]
    ps.source_photometry(cat[0], im, sg, [12., 4.])
    assert sizes == [(36, 36)], sizes
    """)

bug("p31-wcs-deblend", "P31", "a catalogue made with a WCS and with deblending switched on",
    "the sky positions of a deblended catalogue are lost",
    [(SEG, "segm_deblend if deblend else segm, wcs=wcs)", "segm_deblend if deblend else segm, wcs=None if deblend else wcs)")],
    """
    import numpy as np
    from astropy.wcs import WCS
    from petrofit.segmentation import make_catalog
    w = WCS(naxis=2)
    w.wcs.crpix, w.wcs.crval, w.wcs.cdelt, w.wcs.ctype = [30, 30], [150., 2.], [-1e-4, 1e-4], ["RA---TAN", "DEC--TAN"]
    y, x = np.mgrid[:60, :60]
    im = np.exp(-((x - 22) ** 2 + (y - 30) ** 2) / 30.)
    for d in (False, True):
        cat, segm, deb = make_catalog(im, threshold=0.05, npixels=5, wcs=w, deblend=d, plot=False)
        assert cat.sky_centroid is not None and abs(cat.sky_centroid[0].ra.deg - 150) < .01
    """)

bug("p32-area-inplace", "P32", "converting an array of areas that is used afterwards",
    "the array of areas handed in is changed",
    [(UTI, "    a = np.sqrt(elong * area / (np.pi))\n", "    area /= np.pi\n    a = np.sqrt(elong * area)\n")],
    """
    import numpy as np
    from petrofit.utils import elliptical_area_to_r
    a = np.array([1., 10., 100.])
    r = elliptical_area_to_r(a, 2.)
    assert (a == [1., 10., 100.]).all(), a
    """)

bug("p35-narrow-except", "P35", "an isophote fit that fails with something other than a ValueError",
    "a failed isophote fit raises unless it is a ValueError",
    [(SEG, "    except Exception as exception:", "    except (ValueError, ArithmeticError) as exception:")],
    """
    import warnings
    import numpy as np
    import petrofit.segmentation as ps

    class E:
        def __init__(self, *a, **k):
            raise IndexError('out of the image')
    ps.Ellipse = E
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        v = ps.get_amplitude_at_r(3., np.zeros((9, 9)), 4, 4, 0., 0.)
    assert np.isnan(v), v
    """)

bug("p44-completion-order", "P44", "grid generation on several cores with more than one row, where a later row finishes first",
    "rows computed on several cores are listed in the order they finish",
    [(COR, "        rows = ProgressBar.map(\n", "        rows = ProgressBar.map_unordered(\n")],
    """
    import time
    import numpy as np
    import petrofit.petrosian.correction as c
    real = c._generate_petrosian_correction

    def slow(args):
        time.sleep(2. if args[0] == 10 else 0.)
        row = [float(v) for v in range(30)]
        row[0], row[1] = args[1], args[0]
        return row
    c._generate_petrosian_correction = slow
    t = c.generate_petrosian_sersic_correction(None, r_eff_list=[10, 15, 20], n_list=[1.], n_cpu=3)
    assert list(t['r_eff']) == [10, 15, 20], list(t['r_eff'])
    """)

bug("p03-first-radius", "P03", "an image whose NaN pixels lie inside the first aperture only after the first radius was already measured",
    "a NaN flux is only reported when an error map is given",
    [(PHOT, "        if np.isnan(photometric_value):\n", "        if np.isnan(photometric_value) and not np.isnan(photometric_err):\n")],
    """
    import numpy as np
    from petrofit.photometry import radial_photometry
    im = np.ones((41, 41)); im[20, 26] = np.nan
    try:
        f, a, e = radial_photometry(im, (20, 20), [2, 4, 8, 10])
    except Exception as e:
        assert 'an' in str(e)
    else:
        raise AssertionError(f)
    """)

bug("p05-enclosed-err", "P05", "area errors that differ between neighbouring radii",
    "the area error of an annulus only counts its outer aperture",
    [(CORE, "        area_diff_err = np.sqrt(area_err[:-1] ** 2 + area_err[1:] ** 2)\n", "        area_diff_err = np.sqrt(area_err[1:] ** 2 + area_err[1:] ** 2)\n")],
    """
    import numpy as np
    from petrofit.petrosian import calculate_petrosian
    area = np.array([1., 4., 9., 16.]); flux = np.array([1., 3., 5., 6.]); ea = np.array([.3, .1, .2, .05])
    p, e = calculate_petrosian(area, flux, area_err=ea)
    k = 2
    da, df = area[k] - area[k - 1], flux[k] - flux[k - 1]
    want = p[k] * np.sqrt((ea[k] ** 2 + ea[k - 1] ** 2) / da ** 2 + (ea[k] / area[k]) ** 2)
    assert np.isclose(e[k], want), (e[k], want)
    """)

bug("p11-fine-index", "P11", "a grid of Sersic indices finer than a hundredth",
    "the Sersic indices of a grid are rounded to two decimals",
    [(COR, "np.round(np.array(n_list), 6)", "np.round(np.array(n_list), 2)")],
    """
    import numpy as np
    from petrofit.petrosian.correction import generate_petrosian_sersic_correction
    g = generate_petrosian_sersic_correction(None, r_eff_list=[10], n_list=[1.125], n_cpu=1)
    assert g['n'][0] == 1.125, g['n'][0]
    """)

bug("p12-psf-oversample", "P12", "a grid generated with an oversampled PSF",
    "the PSF of a grid is applied at the pixel scale of the image even when it is oversampled",
    [(COR, "psf_oversample=psf_oversample\n", "psf_oversample=None\n")],
    """
    import numpy as np
    from petrofit.petrosian.correction import generate_petrosian_sersic_correction
    y, x = np.mgrid[-15:16, -15:16]
    psf = np.exp(-(x ** 2 + y ** 2) / (2 * 4. ** 2)); psf /= psf.sum()
    kw = dict(r_eff_list=[8], n_list=[1.], n_cpu=1, psf=psf, oversample=2)
    fine = generate_petrosian_sersic_correction(None, psf_oversample=2, **kw)['u_r_50'][0]
    wide = generate_petrosian_sersic_correction(None, **kw)['u_r_50'][0]
    assert fine < wide - .1, (fine, wide)
    """)

bug("p21-negative-angle", "P21", "a PSF angle below zero",
    "a PSF is only rotated by positive angles",
    [(MOD, "            if psf_p != 0:\n", "            if psf_p > 0:\n")],
    """
    import numpy as np
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    psf = np.zeros((11, 11)); psf[5, 3:8] = .2
    m = PSFConvolvedModel2D(Gaussian2D(x_mean=15, y_mean=15, x_stddev=2, y_stddev=2), psf=psf)
    y, x = np.mgrid[:31, :31]
    a = m(x, y)
    m.psf_pa = -90
    b = m(x, y)
    assert not np.allclose(a, b, atol=1e-3)
    """)

bug("p34-range-count", "P34", "a profile whose radii are not numbered one by one",
    "a radius counts as inside the profile when it is below the number of radii",
    [(CORE, "        return self.r_list.min() <= self.r_epsilon <= self.r_list.max()\n", "        return self.r_list.min() <= self.r_epsilon <= len(self.r_list)\n")],
    """
    import numpy as np
    from petrofit.petrosian import Petrosian
    for s in (1., 10., .1):
        r = np.arange(1., 60.) * s
        p = Petrosian(r, np.pi * r ** 2, 1 - np.exp(-r / 5 / s) * (1 + r / 5 / s))
        assert bool(p.r_epsilon_in_range) is True, s
    """)

bug("p37-exponential", "P37", "an estimate of epsilon from a Sersic index",
    "the published fit of epsilon loses its last digits",
    [(MOD, "tau=2.6876055", "tau=2.687055")],
    """
    from petrofit.modeling.models import PetroApprox
    assert abs(PetroApprox.n_to_epsilon(4) - 10.4074) < 2e-3, PetroApprox.n_to_epsilon(4)
    """)

bug("p22-wide-image", "P22", "an oversampling window on an image with more columns than rows",
    "the window is clipped at the number of rows instead of the number of columns",
    [(MOD, "                if i_sub_max > i.max():\n                    i_sub_max = i.max() + 1\n", "                if i_sub_max > j.max():\n                    i_sub_max = j.max() + 1\n")],
    """
    import numpy as np
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    g = Gaussian2D(x_mean=30, y_mean=10, x_stddev=1, y_stddev=1)
    y, x = np.mgrid[:20, :60]
    a = PSFConvolvedModel2D(g, oversample=(30, 10, 10, 5))(x, y)
    b = PSFConvolvedModel2D(g, oversample=5)(x, y)
    assert np.allclose(a[7:13, 27:33], b[7:13, 27:33], atol=1e-6), abs(a - b)[7:13, 27:33].max()
    """)

bug("p19-core-transition", "P19", "a core-Sersic model with a sharpness other than 10",
    "the outer profile of a core-Sersic model uses the core slope in its normalisation exponent",
    [(MOD, "        * (2 ** -(gamma / alpha))\n", "        * (2 ** -(gamma / 10))\n")],
    """
    import numpy as np
    from petrofit.modeling.models import CoreSersic2D
    m = CoreSersic2D(amplitude=3, r_eff=10, r_break=2, n=2, alpha=4, gamma=.5)
    n = CoreSersic2D(amplitude=3, r_eff=10, r_break=2, n=2, alpha=10, gamma=.5)
    a, b = m(np.array([2.]), np.array([0.])), n(np.array([2.]), np.array([0.]))
    assert np.isclose(a, b), (a, b)
    """)

bug("p26-zero-pixels", "P26", "an image with pixels that are exactly zero",
    "pixels whose value is zero are left out of the fit",
    [(FIT, "    y_arange, x_arange = np.where(~(np.isnan(image)))\n", "    y_arange, x_arange = np.where(~(np.isnan(image)) & (image != 0))\n")],
    """
    import numpy as np
    from astropy.modeling.models import Polynomial2D
    from astropy.modeling.fitting import LinearLSQFitter
    from petrofit.modeling.fitting import fit_model
    im = np.zeros((10, 10)); im[:5] = 2.
    seen = []
    class Fitter(LinearLSQFitter):
        def __call__(self, model, x, y, z, **kw):
            seen.append(np.size(z))
            return model
    fit_model(im, Polynomial2D(1), fitter=Fitter)
    assert seen == [100], seen
    """)

bug("p33-uncached-grid", "P33", "a PSF convolved model that is told not to keep its sampling grid",
    "the sampling grid is read back from the cache even if it was not kept",
    [(MOD, "        x_grid, y_grid = main_grid\n\n        # Main Model", "        x_grid, y_grid = self._cached_grid\n\n        # Main Model")],
    """
    import numpy as np
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.models import PSFConvolvedModel2D
    y, x = np.mgrid[:20, :20]
    g = Gaussian2D(x_mean=10, y_mean=10)
    m = PSFConvolvedModel2D(g)
    m.cache_grid = False
    assert np.allclose(m(x, y), g(x, y))
    """, also=("P22",))

bug("p36-deblend-contrast", "P36", "a catalogue of deblended sources with an own contrast",
    "make_catalog ignores the requested contrast when deblending",
    [(SEG, "            image, segm, contrast=contrast, nlevels=nlevels, npixels=npixels\n", "            image, segm, nlevels=nlevels, npixels=npixels\n")],
    """
    import numpy as np
    from petrofit.segmentation import make_catalog
    y, x = np.mgrid[:60, :60]
    im = np.exp(-((x - 24) ** 2 + (y - 30) ** 2) / 30.) * 10 + np.exp(-((x - 38) ** 2 + (y - 30) ** 2) / 30.) * 2
    n = [make_catalog(im, .05, deblend=True, npixels=5, contrast=c, plot=False)[2].nlabels for c in (.001, .9)]
    assert n[0] == 2 and n[1] == 1, n
    """)

bug("p37-catalogue-unit", "P37", "catalogues whose right ascension is given in hours",
    "the second catalogue is always read in degrees",
    [(UTI, "    cat2_coords = SkyCoord(ra=ra_2, dec=dec_2, unit=unit)\n", "    cat2_coords = SkyCoord(ra=ra_2, dec=dec_2, unit=\"deg\")\n")],
    """
    import numpy as np
    from petrofit.utils import match_catalogs
    i, d, _ = match_catalogs([1., 2.], [.1, .2], [2., 1.], [.2, .1], unit=("hourangle", "deg"))
    assert list(i) == [1, 0] and d.deg.max() < 1e-9, (i, d)
    """)

bug("p38-fwhm-line", "P38", "a FWHM plot of a source whose row and column differ",
    "the left FWHM line of the horizontal slice is drawn relative to the row of the source",
    [(FIT, "        ax2.axvline(x_mean - x_fwhm / 2, c=", "        ax2.axvline(y_mean - x_fwhm / 2, c=")],
    """
    import numpy as np
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from petrofit.modeling.fitting import measure_fwhm
    y, x = np.mgrid[:41, :41]
    im = np.exp(-((x - 12) ** 2 + (y - 25) ** 2) / 30.)
    plt.show = lambda *a: None
    measure_fwhm(im, printout=False)
    axes = [ax for n in plt.get_fignums() for ax in plt.figure(n).axes]
    lines = [l.get_xdata()[0] for ax in axes for l in ax.lines if len(l.get_ydata()) == 41 for l in ax.lines if len(l.get_xdata()) == 2 and l.get_xdata()[0] == l.get_xdata()[1]]
    c = [v for v in lines if abs(v - 12) < .1]
    v = sorted(w for w in lines if w < 20)
    assert c and abs(np.mean(v) - 12) < .1, lines
    """)

bug("p38-residual-limits", "P38", "a plot of a fit with own display limits",
    "the residual is shown with symmetric limits whatever limits were requested",
    [(FIT, "    axs[2].imshow(residual_image, vmin=vmin, vmax=vmax)\n", "    axs[2].imshow(residual_image, vmin=-vmax, vmax=vmax)\n")],
    """
    import numpy as np
    import matplotlib; matplotlib.use('Agg')
    from astropy.modeling.models import Gaussian2D
    from petrofit.modeling.fitting import plot_fit
    axs = plot_fit(Gaussian2D(x_mean=10, y_mean=10), np.ones((20, 20)), vmin=0., vmax=3.)[0]
    assert [a.images[0].get_clim() for a in axs] == [(0., 3.)] * 3, [a.images[0].get_clim() for a in axs]
    """)

bug("p38-error-bar", "P38", "a profile plot of an object with errors",
    "the error bar of the Petrosian radius is drawn along the index axis",
    [(CORE, "                        xerr=r_petrosian_err,\n", "                        yerr=r_petrosian_err,\n")],
    """
    import numpy as np
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from petrofit.petrosian import Petrosian
    r = np.arange(1., 40.)
    f = 1 - np.exp(-r / 5) * (1 + r / 5)
    p = Petrosian(r, np.pi * r ** 2, f, flux_err=.0001 * f)
    assert np.isfinite(p.r_petrosian_err)
    ax = p.plot(ax=plt.figure().gca())
    assert any(getattr(c, 'has_xerr', False) for c in ax.containers)
    """)

bug("p39-plot-off", "P39", "measure_fwhm without a plot",
    "the fitted values are only reported when the figure is drawn as well",
    [(FIT, "    if printout:\n", "    if printout and plot:\n")],
    """
    import io, contextlib
    import numpy as np
    import matplotlib; matplotlib.use('Agg')
    from petrofit.modeling.fitting import measure_fwhm
    y, x = np.mgrid[:31, :31]
    im = np.exp(-((x - 12) ** 2 + (y - 18) ** 2) / 30.)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        measure_fwhm(im, plot=False)
    assert 'FWHM' in out.getvalue()
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        measure_fwhm(im, plot=False, printout=False)
    assert not out.getvalue()
    """)

bug("p39-parameter-order", "P39", "a model whose parameter names are not in alphabetical order",
    "names are listed alphabetically next to values in model order",
    [(FIT, "zip(model.param_names, model.parameters)", "zip(sorted(model.param_names), model.parameters)")],
    """
    import io, contextlib
    from astropy.modeling.models import Sersic2D
    from petrofit.modeling.fitting import print_model_params
    m = Sersic2D(amplitude=3, r_eff=7, n=2, x_0=11, y_0=13, ellip=.25, theta=.5)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        print_model_params(m)
    got = {l.split()[1]: float(l.split()[0]) for l in out.getvalue().splitlines() if l.strip()}
    assert all(abs(got[n] - getattr(m, n).value) < 1e-3 for n in m.param_names), got
    """)

bug("p38-quiet-catalogue", "P38", "a catalogue made with plotting switched off from an image with sources",
    "the deblended segments are drawn even though no plot was asked for",
    [(SEG, "        if plot and segm_deblend:\n", "        if segm_deblend:\n"), (SEG, "            plt.sca(ax[1])\n", "            plt.sca(ax[1]) if plot else plt.figure(figsize=figsize)\n")],
    """
    import numpy as np
    import matplotlib; matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from petrofit.segmentation import make_catalog
    y, x = np.mgrid[:51, :51]
    im = np.exp(-((x - 12) ** 2 + (y - 18) ** 2) / 30.)
    make_catalog(im, .05, deblend=True, npixels=5, plot=False)
    assert not plt.get_fignums()
    """)
