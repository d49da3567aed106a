"""refactors.py [ID substring | PID]...: all checks have to be quiet on every edit below"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refactorlib import R, run, REPO
PH, SG, UT, CO, CR, FI, MO = "photometry.py", "segmentation.py", "utils.py", "petrosian/core.py", "petrosian/correction.py", "modeling/fitting.py", "modeling/models.py"

# ------------------------------------------------------------------ photometry
R("ph-helper-measure", (PH, "radial_photometry", '''
def _measure(aperture, data, error, mask, method):
    value, err = aperture.do_photometry(data=data, error=error, mask=mask, method=method)
    err = float(err[0]) if err.size > 0 else np.nan
    return float(value[0]), err


def radial_photometry(image, position, r_list, error=None, mask=None, elong=1., theta=0., plot=False, vmin=0, vmax=None, method='exact'):
    """Photometry of concentric apertures."""
    if mask is not None:
        mask = ~mask
    if plot:
        ax = plt.gca()
        if vmax is None:
            vmax = image.mean() * 10
        plt.imshow(image, vmin=vmin, vmax=vmax)
        ax.set_title("Image and Aperture Radii")
        ax.set_xlabel("Pixels")
        ax.set_ylabel("Pixels")
    ones = np.ones_like(image)
    fluxes, areas, errors = [], [], []
    for r in r_list:
        aperture = radial_elliptical_aperture(position, r, elong=elong, theta=theta)
        flux, err = _measure(aperture, image, error, mask, method)
        area, _ = _measure(aperture, ones, None, mask, method)
        if np.isnan(flux):
            raise Exception("Nan photometric_value")
        if plot:
            aperture.plot(plt.gca(), color='w', alpha=0.5)
        fluxes.append(flux)
        areas.append(float(np.round(area, 6)))
        errors.append(err)
    return np.array(fluxes), np.array(areas), np.array(errors)
'''))
R("ph-index-loop", (PH, "radial_photometry", '''
def radial_photometry(image, position, r_list, error=None, mask=None, elong=1., theta=0., plot=False, vmin=0, vmax=None, method='exact'):
    flux_arr = []
    area_arr = []
    error_arr = []

    if plot:
        ax = plt.gca()
        plt.imshow(image, vmin=vmin, vmax=image.mean() * 10 if vmax is None else vmax)
        ax.set_title("Image and Aperture Radii")
        ax.set_xlabel("Pixels")
        ax.set_ylabel("Pixels")

    inverse_mask = None if mask is None else np.logical_not(mask)

    apertures = [radial_elliptical_aperture(position, r, elong=elong, theta=theta) for r in r_list]
    for aperture in apertures:
        photometric_value, photometric_err = aperture.do_photometry(image, error=error, mask=inverse_mask, method=method)
        aperture_area = aperture.do_photometry(np.ones_like(image), mask=inverse_mask, method=method)[0]
        aperture_area = round(float(aperture_area[0]), 6)

        photometric_value = float(photometric_value[0])
        if photometric_err.size > 0:
            photometric_err = float(photometric_err[0])
        else:
            photometric_err = np.nan

        if np.isnan(photometric_value):
            raise Exception("Nan photometric_value")

        if plot:
            aperture.plot(plt.gca(), color='w', alpha=0.5)

        flux_arr.append(photometric_value)
        area_arr.append(aperture_area)
        error_arr.append(photometric_err)

    flux_arr, area_arr, error_arr = np.array(flux_arr), np.array(area_arr), np.array(error_arr)
    return flux_arr, area_arr, error_arr
'''))
R("ph-rows-zip", (PH, "radial_photometry", '''
def radial_photometry(image, position, r_list, error=None, mask=None, elong=1., theta=0., plot=False, vmin=0, vmax=None, method='exact'):
    if plot:
        ax = plt.gca()
        plt.imshow(image, vmin=vmin, vmax=image.mean() * 10 if vmax is None else vmax)
        ax.set_title("Image and Aperture Radii")
        ax.set_xlabel("Pixels")
        ax.set_ylabel("Pixels")

    n = len(r_list)
    flux_arr = np.zeros(n)
    area_arr = np.zeros(n)
    error_arr = np.zeros(n)

    if mask is not None:
        mask = ~mask

    for i in range(n):
        aperture = radial_elliptical_aperture(position, r_list[i], elong=elong, theta=theta)
        value, err = aperture.do_photometry(data=image, error=error, mask=mask, method=method)
        area, _ = aperture.do_photometry(data=np.ones_like(image), error=None, mask=mask, method=method)
        if np.isnan(float(value[0])):
            raise Exception("Nan photometric_value")
        if plot:
            aperture.plot(plt.gca(), color='w', alpha=0.5)
        flux_arr[i] = float(value[0])
        area_arr[i] = float(np.round(area, 6))
        error_arr[i] = float(err[0]) if err.size > 0 else np.nan
    return flux_arr, area_arr, error_arr
'''))
R("ph-annulus-keywords", (PH, "radial_elliptical_annulus", '''
def radial_elliptical_annulus(position, r, dr, elong=1., theta=0.):
    outer = r + dr
    return EllipticalAnnulus(position, a_in=r, a_out=outer, b_out=outer / elong, theta=theta)
'''), (PH, "radial_elliptical_aperture", '''
def radial_elliptical_aperture(position, r, elong=1., theta=0.):
    semi_minor = r * (1 / elong)
    return EllipticalAperture(positions=position, a=r, b=semi_minor, theta=theta)
'''))
R("ph-plot-apertures", (PH, "plot_apertures", '''
def plot_apertures(image=None, apertures=[], vmin=None, vmax=None, color='white', lw=1.5):
    has_image = image is not None
    if has_image:
        plt.imshow(image, cmap='Greys_r', vmin=vmin, vmax=vmax)
    for ap in apertures:
        axes = plt.gca()
        ap.plot(axes=axes, color=color, lw=lw)
    if has_image or apertures is not None or len(apertures) > 0:
        plt.title("Apertures")
'''))
# ------------------------------------------------------------------ utils
R("ut-natural-sort", (UT, "natural_sort", '''
def natural_sort(l):
    """Natural sort."""
    def convert(text):
        if text.isdigit():
            return int(text)
        return text.lower()

    def alphanum_key(key):
        return [convert(c) for c in re.split("([0-9]+)", key)]

    return sorted(l, key=alphanum_key)
'''))
R("ut-small", (UT, "ellip_to_elong", '''
def ellip_to_elong(ellip):
    q = 1 - ellip
    return 1 / q
'''), (UT, "elong_to_ellip", '''
def elong_to_ellip(elong):
    return 1 - 1 / elong
'''), (UT, "circle_area_to_r", '''
def circle_area_to_r(area):
    return (area / np.pi) ** 0.5
'''), (UT, "elliptical_area_to_r", '''
def elliptical_area_to_r(area, elong):
    b = np.sqrt(area / (np.pi * elong))
    a = elong * b
    return a, b
'''))
R("ut-radius-list", (UT, "make_radius_list", '''
def make_radius_list(max_pix, n, log=False):
    if not log:
        step = max_pix / n
        return np.array([x * step for x in range(1, n + 1)])
    stop = np.log10(max_pix)
    return np.logspace(0, stop, num=n, dtype=float)
'''))
R("ut-radius-arange", (UT, "make_radius_list", '''
def make_radius_list(max_pix, n, log=False):
    if log:
        return np.logspace(0, np.log10(max_pix), num=n, endpoint=True, base=10.0, dtype=float, axis=0)
    return np.arange(1, n + 1) * max_pix / n
'''))
R("ut-abmag", (UT, "hst_flux_to_abmag", '''
def hst_flux_to_abmag(flux, header):
    if type(flux) in [int, float]:
        if flux <= 0:
            return np.nan
    else:
        flux = np.array(flux, dtype=float)
        flux[flux <= 0] = np.nan
    return -2.5 * np.log10(flux) + _abmag_zeropoint(header)


def _abmag_zeropoint(header):
    photflam, photzpt, photplam = header['PHOTFLAM'], header['PHOTZPT'], header['PHOTPLAM']
    return -2.5 * np.log10(photflam) + photzpt - 5. * np.log10(photplam) + 18.692
'''))
R("ut-abmag-where", (UT, "hst_flux_to_abmag", '''
def hst_flux_to_abmag(flux, header):
    scalar = type(flux) in [int, float]
    if scalar and flux <= 0:
        return np.nan
    if not scalar:
        flux = np.array(flux, dtype=float)
        flux = np.where(flux <= 0, np.nan, flux)

    PHOTFLAM = header['PHOTFLAM']
    PHOTPLAM = header['PHOTPLAM']
    PHOTZPT = header['PHOTZPT']

    STMAG_ZPT = (-2.5 * np.log10(PHOTFLAM)) + PHOTZPT
    ABMAG_ZPT = STMAG_ZPT - (5. * np.log10(PHOTPLAM)) + 18.692
    return ABMAG_ZPT - 2.5 * np.log10(flux)
'''))
R("ut-pixel-scale-helper", (UT, "angular_to_pixel", '''
def _pixel_scale(wcs):
    pixel_scales = proj_plane_pixel_scales(wcs)
    assert np.allclose(*pixel_scales)
    return pixel_scales[0] * wcs.wcs.cunit[0] / u.pix


def angular_to_pixel(angular_diameter, wcs):
    scale = _pixel_scale(wcs)
    unit = angular_diameter.unit / u.pix
    return (angular_diameter / scale.to(unit)).value
'''), (UT, "pixel_to_angular", '''
def pixel_to_angular(pixel_size, wcs):
    if not hasattr(pixel_size, 'unit'):
        pixel_size = pixel_size * u.pix
    return pixel_size * _pixel_scale(wcs).to(u.arcsec / u.pix)
'''))
R("ut-interp-values", (UT, "get_interpolated_values", '''
def get_interpolated_values(x, y, num=5000, kind='cubic'):
    if kind is None:
        return x, y
    num = max(num, len(x))
    x_new = np.linspace(np.min(x), np.max(x), num)
    return x_new, interp1d(x, y, kind=kind)(x_new)
'''))
R("ut-closest-early", (UT, "closest_value_index", '''
def closest_value_index(value, array, growing=False):
    crossed = array >= value if growing else array <= value
    idx_list = np.where(crossed)[0]
    if idx_list.size == 0:
        return None
    first = idx_list[0]
    return np.abs(array[:first + 1] - value).argmin()
'''))
R("ut-closest-nonzero", (UT, "closest_value_index", '''
def closest_value_index(value, array, growing=False):
    if growing:
        idx_list = np.nonzero(array >= value)[0]
    else:
        idx_list = np.nonzero(array <= value)[0]
    if len(idx_list) > 0:
        stop = idx_list[0] + 1
        return np.argmin(abs(value - array[:stop]))
    return None
'''))
R("ut-cutout-subtract", (UT, "cutout_subtract", '''
def cutout_subtract(image, target, x, y):
    dy, dx = target.shape
    y0 = y - dy // 2
    x0 = x - dx // 2
    ny, nx = image.shape[0], image.shape[1]

    ymin = min(max(y0, 0), ny)
    ymax = min(max(y0 + dy, 0), ny)
    xmin = min(max(x0, 0), nx)
    xmax = min(max(x0 + dx, 0), nx)

    result = image.copy()
    result[ymin:ymax, xmin:xmax] = result[ymin:ymax, xmin:xmax] - target[ymin - y0:ymax - y0, xmin - x0:xmax - x0]
    return result
'''))
R("ut-cutout-window", (UT, "cutout_subtract", '''
def _window(start, length, size):
    low, high = np.clip([start, start + length], 0, size)
    return slice(low, high), slice(low - start, high - start)


def cutout_subtract(image, target, x, y):
    dy, dx = target.shape
    rows, target_rows = _window(y - dy // 2, dy, image.shape[0])
    cols, target_cols = _window(x - dx // 2, dx, image.shape[1])
    image = image.copy()
    image[rows, cols] -= target[target_rows, target_cols]
    return image
'''))
R("ut-match", (UT, "match_catalogs", '''
def match_catalogs(ra_1, dec_1, ra_2, dec_2, unit='deg'):
    first, second = [SkyCoord(ra=ra, dec=dec, unit=unit) for ra, dec in ((ra_1, dec_1), (ra_2, dec_2))]
    return first.match_to_catalog_sky(second)
'''))
R("ut-tick-loop", (UT, "mpl_tick_frame", '''
def mpl_tick_frame(ax=None, minorticks=True, tick_fontsize=None):
    ax = plt.gca() if ax is None else ax
    if minorticks:
        ax.minorticks_on()
    for which, length in (("minor", 4.0), ("major", 8)):
        ax.tick_params(which=which, direction='in', top=True, right=True, width=1.5, length=length, labelsize=tick_fontsize)
'''))
R("ut-plot-target", (UT, "plot_target", '''
def plot_target(image, position, size=None, c='r', lw=None, vmin=None, vmax=None, marker_base_size=2):
    size = max(image.shape) if size is None else size
    half = size / 2.
    x, y = position
    plt.imshow(image, vmin=vmin, vmax=vmax)
    plt.plot(x, y, '+', c=c, label='Target', markersize=(np.mean(image.shape) / 20) * marker_base_size, markeredgewidth=lw)
    plt.xlim(x - half, x + half)
    plt.ylim(y - half, y + half)
'''))
if __name__ == "__main__":
    for f in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
        if f.startswith("refactors_"):
            exec(compile(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), f)).read(), f, "exec"))
    run()
