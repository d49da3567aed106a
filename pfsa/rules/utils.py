from fractions import Fraction
from ..terms import *
from ..terms import Term
from .. import arrays as A
from .ref import REF

UT = "from petrofit.utils import *\nimport numpy as np\nimport re\n"


# ------------------------------------------------------------------ quantities
def physical(t):
    """rewrite quantity arithmetic to physical values: q.to(u) is q, q.value is q over its unit, q.unit its unit"""
    memo = {}

    def is_to(x):
        return x.op == "method:to" or (x.op in ("mcall", "method") and x.args and x.args[0] == "to")

    def unit(x):
        r = to_call(x)
        if r is not None:
            return r[1]
        if x.op == "ext" and str(x.args[0]).startswith("astropy.units."):
            return x
        if x.op == "attr" and x.args[1] == "value":
            return ONE
        if x.op == "sum":
            p = as_poly(x)
            us = set()
            for m, c in p.items():
                u = ONE
                for b, e in m:
                    u = mul(u, pow_(unit(b), e))
                us.add(u)
            return us.pop() if len(us) == 1 else mk("attr", x, "unit")
        if x.op == "num":
            return ONE
        if x.op in ("sym", "attr", "getitem"):
            return quantity.get(x, ONE)
        return ONE
    quantity = {}

    def to_call(x):
        """(quantity, unit) of a .to(unit) call"""
        if x.op in ("call", "xcall", "apply", "mcall") and "to" in [a for a in x.args if isinstance(a, str)]:
            ts = [a for a in x.args if isinstance(a, Term)]
            if len(ts) >= 2:
                return ts[0], ts[1]
        if x.op == "call" and x.args and x.args[0] == "method:to":
            d = dict(x.args[1]) if isinstance(x.args[1], tuple) else {}
            if "self" in d and "unit" in d:
                return d["self"], d["unit"]
        return None

    # quantities: anything whose .unit is read
    for s in subterms(t):
        if s.op == "attr" and s.args[1] == "unit" and s.args[0].op in ("sym",):
            quantity[s.args[0]] = s
        if s.op == "attr" and str(s.args[1]) == "cunit":
            pass

    def fn(x):
        r = to_call(x)
        if r is not None:
            return rewrite(r[0], fn)
        if x.op in ("call", "xcall") and x.args[0] == "method:to_value" and isinstance(x.args[1], tuple) and len(x.args[1]) == 2:
            q, w = (v for _, v in x.args[1])
            return mul(rewrite(q, fn), pow_(rewrite(w, fn), NEG1))
        w = named_unit(x)
        if w is not None:
            return w
        if x.op == "attr" and x.args[1] == "value":
            return mul(rewrite(x.args[0], fn), pow_(rewrite(unit(x.args[0]), fn), NEG1))
        if x.op == "attr" and x.args[1] == "unit" and x.args[0].op != "sym":
            return rewrite(unit(x.args[0]), fn)
        return None
    return rewrite(t, fn)


NEG1 = num(-1)
ARCSEC = mk("ext", "astropy.units.arcsec")
ANGLES = {"arcsec": 1, "arcsecond": 1, "arcmin": 60, "arcminute": 60, "deg": 3600, "degree": 3600, "hourangle": 54000, "mas": Fraction(1, 1000), "uas": Fraction(1, 1000000)}
UNITS = frozenset(["ext:astropy.units.arcsec", "ext:astropy.units.pix"])


def named_unit(x):
    """angular units are multiples of one of them"""
    n = x.args[0] if x.op == "ext" else None
    if x.op in ("call", "xcall") and x.args[0] == "astropy.units.Unit" and isinstance(x.args[1], tuple):
        v = [v for k, v in x.args[1] if v.op == "const" and isinstance(v.args[0], str)]
        n = "astropy.units." + v[0].args[0] if v else None
    if not isinstance(n, str) or not n.startswith("astropy.units."):
        return None
    n = n[len("astropy.units."):]
    if n in ("pix", "pixel"):
        return mk("ext", "astropy.units.pix")
    if n in ("rad", "radian"):
        return mul(num(648000), mul(pow_(PI, NEG1), ARCSEC))
    return mul(num(ANGLES[n]), ARCSEC) if n in ANGLES else None


def p15(ck):
    ck.law("elongation of an ellipticity", UT + "def client(e):\n    return ellip_to_elong(e), 1 / (1 - e)\n", {"e": "float"})
    ck.law("the two conversions are mutual inverses",
           UT + "def client(e, g):\n    return (elong_to_ellip(ellip_to_elong(e)), e), (ellip_to_elong(elong_to_ellip(g)), g)\n", {"e": "float", "g": "float,pos"})
    ck.law("the two conversions are mutual inverses, arrays",
           UT + "def client(e, g):\n    return (elong_to_ellip(ellip_to_elong(e)), e), (ellip_to_elong(elong_to_ellip(g)), g)\n", {"e": "arr1", "g": "arr1,pos"})
    for k in ("float,pos", "arr1,pos"):
        kn = "scalar" if k.startswith("float") else "array"
        ck.law("circle: pi r^2 = area, " + kn, UT + "def client(a):\n    r = circle_area_to_r(a)\n    return np.pi * r ** 2, a\n", {"a": k})
        ck.law("circle: radius is not negative, " + kn, UT + "def client(a):\n    r = circle_area_to_r(a)\n    return r, np.sqrt(a / np.pi)\n", {"a": k})
        ck.law("ellipse: pi a b = area and a / b = elong, " + kn,
               UT + "def client(area, g):\n    a, b = elliptical_area_to_r(area, g)\n    return (np.pi * a * b, area), (a / b, g), (a, np.sqrt(area * g / np.pi))\n",
               {"area": k, "g": "float,pos"})
    # angular sizes: physical values and the unit they are given in
    q = {"a": "any", "wcs": "obj:WCS"}
    sc = "proj_plane_pixel_scales(wcs)[0] * wcs.wcs.cunit[0] / u.pix"
    imp = UT + "from astropy import units as u\nfrom astropy.wcs.utils import proj_plane_pixel_scales\n"
    ck.law("pixels = angular size / pixel scale",
           imp + "def client(a, wcs):\n    return angular_to_pixel(a, wcs), (a / (%s) / u.pix)\n" % sc, q, post=physical, distinct=UNITS)
    ck.law("angular size = pixels * pixel scale, plain number",
           imp + "def client(a, wcs):\n    return pixel_to_angular(a, wcs), a * u.pix * (%s)\n" % sc, dict(q, a="float"), post=physical, distinct=UNITS)
    ck.law("the angular size is given in arcsec", imp + "def client(a, wcs):\n    v = pixel_to_angular(a, wcs)\n    return v.value, a * u.pix * (%s) / u.arcsec\n" % sc,
           dict(q, a="float"), post=physical, distinct=UNITS)
    ck.law("angular size = pixels * pixel scale, quantity",
           imp + "def client(a, wcs):\n    return pixel_to_angular(a, wcs), (a if hasattr(a, 'unit') else a * u.pix) * (%s)\n" % sc, q, post=physical, distinct=UNITS)
    ck.law("pixels to angle and back",
           imp + "def client(a, wcs):\n    return angular_to_pixel(pixel_to_angular(a, wcs), wcs), a\n", dict(q, a="float"), post=physical, distinct=UNITS)


def p16(ck):
    for k, kn in (("'linear'", "linear"), ("'cubic'", "cubic"), (None, "None"), ("str", "any")):
        q = {"x": "arr1", "y": "arr1", "num": "int,pos", "kind": k}
        ck.same("samples and interpolant, kind %s" % kn,
                UT + "def client(x, y, num, kind):\n    a, b = get_interpolated_values(x, y, num=num, kind=kind)\n    return a, b\n",
                REF + "def client(x, y, num, kind):\n    return ref_interp(x, y, num, kind)\n", q)
    ck.same("default: 5000 samples, cubic", UT + "def client(x, y):\n    a, b = get_interpolated_values(x, y)\n    return a, b\n",
            REF + "def client(x, y):\n    return ref_interp(x, y, 5000, 'cubic')\n", {"x": "arr1", "y": "arr1"})
    for g in (False, True):
        ck.same("closest index, growing=%s" % g, UT + "def client(v, a):\n    return closest_value_index(v, a, growing=%s)\n" % g,
                REF + "def client(v, a):\n    return ref_closest(v, a, %s)\n" % g, {"v": "float", "a": "arr1"})
    ck.same("closest index, default direction", UT + "def client(v, a):\n    return closest_value_index(v, a)\n",
            REF + "def client(v, a):\n    return ref_closest(v, a, False)\n", {"v": "float", "a": "arr1"})
    ck.same("closest index, any direction flag", UT + "def client(v, a, g):\n    return closest_value_index(v, a, g)\n",
            REF + "def client(v, a, g):\n    return ref_closest(v, a, True) if g else ref_closest(v, a, False)\n", {"v": "float", "a": "arr1", "g": "bool"})
    q = {"m": "float,pos", "n": "int,pos"}
    lin = "    return np.arange(1, n + 1) * (m / n)\n"
    log = "    return np.logspace(0, np.log10(m), n)\n"
    ck.same("linear radius list", UT + "def client(m, n):\n    return make_radius_list(m, n)\n", "import numpy as np\ndef client(m, n):\n" + lin, q)
    ck.same("logarithmic radius list", UT + "def client(m, n):\n    return make_radius_list(m, n, log=True)\n", "import numpy as np\ndef client(m, n):\n" + log, q)
    ck.law("radius lists have n entries",
           UT + "def client(m, n):\n    return (len(make_radius_list(m, n)), n), (len(make_radius_list(m, n, log=True)), n)\n", q)
    ck.law("linear radius list ends at the maximum", UT + "def client(m, n):\n    return make_radius_list(m, n)[-1], m\n", q)
    nat = ("import re\ndef piece(c):\n    return int(c) if c.isdigit() else c.lower()\n"
           "def key(s):\n    return [piece(c) for c in re.split('([0-9]+)', s)]\ndef client(l):\n    return sorted(l, key=key)\n")
    ck.same("natural sort compares embedded numbers by value", UT + "def client(l):\n    return natural_sort(l)\n", nat, {"l": "any"})


def p17(ck):
    ref = ("import numpy as np\ndef zp(h):\n    return -2.5 * np.log10(h['PHOTFLAM']) + h['PHOTZPT'] - 5 * np.log10(h['PHOTPLAM']) + 18.692\n"
           "def client(f, h):\n    %s\n")
    code = UT + "def client(f, h):\n    return hst_flux_to_abmag(f, h)\n"
    for k in ("float", "int"):
        ck.same("magnitude of a %s flux" % k, code, ref % "return np.nan if f <= 0 else -2.5 * np.log10(f) + zp(h)", {"f": k, "h": "any"})
    for k in ("arr1", "arr2"):
        ck.same("magnitudes of an array of fluxes (%s)" % k, code,
                ref % "return -2.5 * np.log10(np.where(f > 0, f, np.nan)) + zp(h)", {"f": k, "h": "any"}, post=nan_flux)
    o = ck.run(code, {"f": "arr1", "h": "any"})
    bad = [e for e in o.events if e.kind == "mutate"]
    ck.holds("no write reaches an argument", "the caller's flux array is unchanged", None if o.unsup else not bad,
             "writes to the caller's array: %s" % (bad[0].data,) if bad else "", str(bad[0].site) if bad else "", o)


def nan_flux(t):
    return t


def curves(t):
    """astropy's polynomial and exponential models, applied, are their formulas"""
    def at(f, x):
        if f.op == "sum":
            r = ZERO
            for m, c in as_poly(f).items():
                if len(m) != 1 or m[0][1] is not ONE:
                    return None
                v = at(m[0][0], x)
                if v is None:
                    return None
                r = add(r, mul(num(c), v))
            return r
        if f.op not in ("xcall", "call") or not isinstance(f.args[0], str):
            return None
        a = dict(f.args[1]) if isinstance(f.args[1], tuple) and all(isinstance(k, tuple) for k in f.args[1]) else {}
        n = f.args[0].rsplit(".", 1)[-1]
        if n == "Polynomial1D" and a and set(a) <= {"0", "degree"} | {"c%d" % i for i in range(20)}:
            d = a.get("0", a.get("degree"))
            r = ZERO
            for i in range(20):
                if "c%d" % i in a:
                    if d is not None and is_num(d) and numval(d) < i:
                        return None
                    r = add(r, mul(a["c%d" % i], pow_(x, num(i))))
            return r
        if n == "Exponential1D" and set(a) <= {"0", "1", "amplitude", "tau"}:
            return mul(a.get("0", a.get("amplitude", ONE)), exp(div(x, a.get("1", a.get("tau", num(-1))))))
        return None

    def fn(x):
        if x.op == "call" and x.args[0] == "apply" and isinstance(x.args[1], tuple):
            a = dict(x.args[1])
            if set(a) == {"f", "0"} or set(a) == {"f", "x"}:
                return at(a["f"], a.get("0", a.get("x")))
        return None
    return rewrite(t, fn)


def p37(ck):
    cut = UT + "def client(image, target, x, y):\n    return cutout_subtract(image, target, x, y)\n"
    ref = """import numpy as np
def client(image, target, x, y):
    dy, dx = target.shape
    top, left = y - dy // 2, x - dx // 2
    r0, r1 = np.clip(top, 0, image.shape[0]), np.clip(top + dy, 0, image.shape[0])
    c0, c1 = np.clip(left, 0, image.shape[1]), np.clip(left + dx, 0, image.shape[1])
    out = image.copy()
    out[r0:r1, c0:c1] = out[r0:r1, c0:c1] - target[r0 - top:r1 - top, c0 - left:c1 - left]
    return out
"""
    P = {"image": "arr2", "target": "arr2", "x": "int", "y": "int"}
    ck.same("a target is subtracted centred at (x, y), where it overlaps the image", cut, ref, P, rule="value equality with the reference")
    ck.law("the image keeps its shape", UT + "def client(image, target, x, y):\n    o = cutout_subtract(image, target, x, y)\n    return (o.shape[0], image.shape[0]), (o.shape[1], image.shape[1])\n".replace("return (", "return ((").replace("shape[1])\n", "shape[1]))\n"), P)
    Q = {"a": "arr1", "b": "arr1", "c": "arr1", "d": "arr1", "t": "str"}
    for kw, unit in (("", "'deg'"), (", unit=t", "t")):
        ck.same("match_catalogs finds the nearest object of the second catalogue for each of the first%s" % kw, UT + "def client(a, b, c, d, t):\n    return match_catalogs(a, b, c, d%s)\n" % kw,
                "from astropy.coordinates import SkyCoord\ndef client(a, b, c, d, t):\n    one = SkyCoord(ra=a, dec=b, unit=%s)\n    two = SkyCoord(ra=c, dec=d, unit=%s)\n    return one.match_to_catalog_sky(two)\n" % (unit, unit), Q, raises=None)
    ap = "from petrofit.modeling.models import PetroApprox\nfrom astropy.modeling import models\n"
    poly = "models.Polynomial1D(%d, %s)"
    for m, cs, ex in (("u2080_to_c2080", (2.26194802, -3.61130833, 3.8219758, -1.641466, 0.38059409, -0.0450384, 0.00221922), None),
                      ("c2080_to_n", (-0.41844073, 0.20487513, 0.08626531, 0.0106707, -0.00082523, 2.486e-05), None),
                      ("n_to_epsilon", (-6.54870813, -2.15040843, -0.28993623, -0.04099376, -0.00046837, -0.00022305), (7.48787292, 2.6876055)),
                      ("p0502_to_epsilon", (1.09339566, -0.14524911, 0.50361697, -0.1215809, 0.02533795, -0.00196243, 9.081e-05), (0.03312881, 1.83616642))):
        r = poly % (len(cs) - 1, ", ".join("c%d=%r" % kv for kv in enumerate(cs)))
        if ex:
            r += " + models.Exponential1D(amplitude=%r, tau=%r)" % ex
        ck.same("PetroApprox.%s is the published fit" % m, ap + "def client(v):\n    return PetroApprox.%s(v)\n" % m, ap + "def client(v):\n    m = %s\n    return m(v)\n" % r, {"v": "float"}, post=curves)
        ck.same("PetroApprox.%s of an array" % m, ap + "def client(v):\n    return PetroApprox.%s(v)\n" % m, ap + "def client(v):\n    m = %s\n    return m(v)\n" % r, {"v": "arr1"}, post=curves)


RULES = {"P15": p15, "P16": p16, "P17": p17, "P37": p37}
