"""Reference definitions (Python text analysed by the same interpreter)."""
REF = '''
import numpy as np
from scipy.interpolate import interp1d

def ref_interp(x, y, num, kind):
    if kind is None:
        return x, y
    f = interp1d(x, y, kind=kind)
    xs = np.linspace(min(x), max(x), num=max(num, len(x)), endpoint=True)
    return xs, f(xs)

def ref_closest(value, array, growing):
    idx = np.where(array >= value)[0] if growing else np.where(array <= value)[0]
    if idx.size == 0:
        return None
    return np.argmin(abs(array[:idx[0] + 1] - value))

def ref_petrosian(area, flux, area_err, flux_err):
    area, flux = np.array(area, dtype=float), np.array(flux, dtype=float)
    if len(area) != len(flux) or len(area) < 3 or not np.all(area[1:] >= area[:-1]):
        raise AssertionError
    da, df = area[1:] - area[:-1], flux[1:] - flux[:-1]
    local = df / da
    mean = flux[1:] / area[1:]
    u, first, inv = np.unique(area, return_index=True, return_inverse=True)
    same = first[inv]
    out = np.concatenate([[np.nan], np.where(da > 0, local / mean, 0.0)])[same]
    if area_err is None and flux_err is None:
        return out, None
    ae = np.zeros(len(area)) if area_err is None else np.array(area_err)
    fe = np.zeros(len(flux)) if flux_err is None else np.array(flux_err)
    if len(ae) != len(area) or len(fe) != len(flux):
        raise AssertionError
    # independent quadrature: relative errors of the local and of the mean surface brightness
    rl2 = (fe[1:]**2 + fe[:-1]**2) / df**2 + (ae[1:]**2 + ae[:-1]**2) / da**2
    rm2 = fe[1:]**2 / flux[1:]**2 + ae[1:]**2 / area[1:]**2
    err = np.abs(local / mean) * np.sqrt(rl2 + rm2)
    err = np.concatenate([[np.nan], np.where(da > 0, err, 0.0)])[same]
    return out, err

def ref_petrosian_r(r, p, perr, eta, kind, num):
    r, p = np.array(r), np.array(p)
    r[0] = 0
    p[0] = 1
    def cross(prof):
        x, y = ref_interp(r, prof, num, kind)
        k = ref_closest(eta, y, False)
        return np.nan if k is None else x[k]
    rp = cross(p)
    if perr is None or np.isnan(rp):
        return rp, np.nan
    e = np.array(perr)
    e[0] = 0
    return rp, (cross(p + e) - cross(p - e)) / 2

def ref_fraction(fraction, r, flux, rp, flux_err, rp_err, epsilon, epsfrac, kind, num):
    r, flux = np.array(r), np.array(flux)
    reps = rp * epsilon
    k1 = "cubic" if kind is None else kind
    if reps > max(r) or reps < min(r):
        return np.nan, np.nan
    target = interp1d(r, flux, kind=k1)(reps) * fraction / epsfrac
    def reach(value, y):
        x, yy = ref_interp(r, y, num, kind)
        k = ref_closest(value, yy, True)
        return np.nan if k is None else x[k]
    rf = reach(target, flux)
    if np.isnan(rf) or flux_err is None:
        return rf, np.nan
    fe = np.array(flux_err)
    d = 0 if rp_err is None or np.isnan(rp_err) else rp_err
    if reps + d > max(r) or reps - d < min(r):
        return rf, np.nan
    half = (interp1d(r, flux + fe, kind=k1)(reps + d) - interp1d(r, flux - fe, kind=k1)(reps - d)) / 2
    return rf, (reach(target + half, flux - fe) - reach(target - half, flux + fe)) / 2

def ref_concentration(f1, f2, r, flux, rp, flux_err, rp_err, epsilon, epsfrac, kind, num):
    a = ref_fraction(f1, r, flux, rp, flux_err, rp_err, epsilon, epsfrac, kind, num)[0]
    b = ref_fraction(f2, r, flux, rp, flux_err, rp_err, epsilon, epsfrac, kind, num)[0]
    if np.isnan(a) or np.isnan(b):
        return np.nan, np.nan, np.nan
    return a, b, 5 * np.log10(b / a)

class RefPetrosian:
    def __init__(self, r, area, flux, area_err=None, flux_err=None, eta=0.2, epsilon=2.0, epsilon_fraction=0.99,
                 total_flux_fraction=0.99, interp_kind="cubic", interp_num=5000):
        self.r, self.area, self.flux = np.array(r), np.array(area), np.array(flux)
        self.area_err = None if area_err is None else np.array(area_err)
        self.flux_err = None if flux_err is None else np.array(flux_err)
        self.eta, self.epsilon = eta, epsilon
        self.epsilon_fraction, self.total_flux_fraction = epsilon_fraction, total_flux_fraction
        self.interp_kind, self.interp_num = interp_kind, interp_num
    def profile(self):
        return ref_petrosian(self.area, self.flux, self.area_err, self.flux_err)
    def rp(self):
        p, e = self.profile()
        return ref_petrosian_r(self.r, p, e, self.eta, self.interp_kind, self.interp_num)
    def frac(self, f):
        a, b = self.rp()
        return ref_fraction(f, self.r, self.flux, a, self.flux_err, b, self.epsilon, self.epsilon_fraction, self.interp_kind, self.interp_num)
    def conc(self, f1, f2):
        a, b = self.rp()
        return ref_concentration(f1, f2, self.r, self.flux, a, self.flux_err, b, self.epsilon, self.epsilon_fraction,
                                 self.interp_kind, self.interp_num)
    def flux_at(self, radius):
        if not (min(self.r) <= radius <= max(self.r)):
            return np.nan
        return float(interp1d(self.r, self.flux, kind="cubic" if self.interp_kind is None else self.interp_kind)(radius))
    def flux_err_at(self, radius):
        return interp1d(self.r, self.flux_err, kind="nearest")(radius)
'''

# the same quantities with the package's own functions, which are then left uninterpreted
ABSREF = REF + """
from petrofit.petrosian.core import calculate_petrosian, calculate_petrosian_r, fraction_to_r, calculate_concentration_index

class AbsPetrosian(RefPetrosian):
    def profile(self):
        return calculate_petrosian(self.area, self.flux, area_err=self.area_err, flux_err=self.flux_err)
    def rp(self):
        p, e = self.profile()
        return calculate_petrosian_r(self.r, p, petrosian_err=e, eta=self.eta, interp_kind=self.interp_kind, interp_num=self.interp_num)
    def frac(self, f):
        a, b = self.rp()
        return fraction_to_r(f, self.r, self.flux, a, flux_err=self.flux_err, r_petrosian_err=b, epsilon=self.epsilon,
                             epsilon_fraction=self.epsilon_fraction, interp_kind=self.interp_kind, interp_num=self.interp_num)
    def conc(self, f1, f2):
        a, b = self.frac(f1)[0], self.frac(f2)[0]
        if np.isnan(a) or np.isnan(b):
            return np.nan, np.nan, np.nan
        return a, b, 5 * np.log10(b / a)
"""
