from ..terms import *
from ..terms import Term
from .. import equal
from ..check import S

IMP = "import numpy as np\nfrom petrofit.photometry import radial_elliptical_aperture, radial_elliptical_annulus, radial_photometry\n" \
      "from photutils.aperture import EllipticalAperture, EllipticalAnnulus\n"

SHAPE = {"x": "float", "y": "float", "r": "float,pos", "elong": "float,pos", "theta": "float"}


def p01(ck):
    ck.same("elliptical aperture of (position, r, elong, theta)",
            IMP + "def client(x, y, r, elong, theta):\n    return radial_elliptical_aperture((x, y), r, elong, theta)\n",
            IMP + "def client(x, y, r, elong, theta):\n    return EllipticalAperture((x, y), r, r / elong, theta=theta)\n", SHAPE)
    ck.same("elliptical aperture, keyword arguments",
            IMP + "def client(x, y, r, elong, theta):\n    return radial_elliptical_aperture(position=(x, y), r=r, elong=elong, theta=theta)\n",
            IMP + "def client(x, y, r, elong, theta):\n    return EllipticalAperture((x, y), a=r, b=r / elong, theta=theta)\n", SHAPE)
    ck.same("default aperture is a circle",
            IMP + "def client(x, y, r):\n    return radial_elliptical_aperture((x, y), r)\n",
            IMP + "def client(x, y, r):\n    return EllipticalAperture((x, y), r, r, theta=0.0)\n", {k: SHAPE[k] for k in "xyr"})
    sh = dict(SHAPE, dr="float,pos")
    ck.same("elliptical annulus between r and r + dr",
            IMP + "def client(x, y, r, dr, elong, theta):\n    return radial_elliptical_annulus((x, y), r, dr, elong, theta)\n",
            IMP + "def client(x, y, r, dr, elong, theta):\n"
                  "    return EllipticalAnnulus((x, y), r, r + dr, (r + dr) / elong, b_in=r / elong, theta=theta)\n", sh, post=annulus_default)
    ck.same("default annulus is circular",
            IMP + "def client(x, y, r, dr):\n    return radial_elliptical_annulus((x, y), r, dr)\n",
            IMP + "def client(x, y, r, dr):\n    return EllipticalAnnulus((x, y), r, r + dr, r + dr, b_in=r, theta=0.0)\n",
            {k: sh[k] for k in ("x", "y", "r", "dr")}, post=annulus_default)


def annulus_default(t):
    """photutils: b_in defaults to b_out * a_in / a_out"""
    def fn(x):
        if x.op in ("call", "xcall", "inst") and len(x.args) > 1 and str(x.args[0]).endswith("EllipticalAnnulus"):
            d = dict(x.args[1])
            if "b_in" not in d or d["b_in"] is NONE:
                if all(k in d for k in ("a_in", "a_out", "b_out")):
                    d["b_in"] = div(mul(d["b_out"], d["a_in"]), d["a_out"])
                    return mk(x.op, x.args[0], tuple(sorted(d.items())))
        return None
    return rewrite(t, fn)


ARGS = {"image": "arr2", "x": "float", "y": "float", "r_list": "arr1,pos", "error": "arr2", "mask": "barr", "elong": "float,pos", "theta": "float",
        "method": "str"}

SPEC = IMP + """
def client(image, x, y, r_list, error, mask, elong, theta, method):
    flux, area, err = [], [], []
    for r in r_list:
        ap = EllipticalAperture((x, y), r, r / elong, theta=theta)
        f, e = ap.do_photometry(image, error=error, mask=MASK, method=method)
        a, _ = ap.do_photometry(np.ones_like(image), error=None, mask=MASK, method=method)
        if np.isnan(f[0]):
            raise Exception("nan")
        flux.append(float(f[0]))
        area.append(float(np.round(a, 6)))
        err.append(ERR)
    return np.array(flux), np.array(area), np.array(err)
"""
CODE = IMP + """
def client(image, x, y, r_list, error, mask, elong, theta, method):
    return radial_photometry(image, (x, y), r_list, error=error, mask=mask, elong=elong, theta=theta, method=method)
"""


def spec(mask, err):
    return SPEC.replace("MASK", mask).replace("ERR", err)


def configs():
    for m in (True, False):
        for e in (True, False):
            p = dict(ARGS)
            if not m:
                p["mask"] = None
            if not e:
                p["error"] = None
            yield m, e, p


def photpost(t):
    """size of the sums photutils returns for one scalar position: the error array is empty without an error map"""
    def one(x):
        return x.op == "getitem" and x.args[1] in (ZERO, ONE) and x.args[0].op in ("call", "mcall", "xcall") and \
            str(x.args[0].args[0]).endswith("do_photometry")

    def fn(x):
        if x.op == "round" and one(x.args[0]):
            # rounding an array of one element, and taking that element
            return mk("round", mk("getitem", x.args[0], ZERO), *x.args[1:])
        if x.op in ("size", "len") and x.args[0].op == "getitem" and x.args[0].args[0].op in ("call", "mcall", "xcall") and \
                str(x.args[0].args[0].args[0]).endswith("do_photometry"):
            c, i = x.args[0].args
            kw = dict(c.args[1])
            if i is ZERO:
                return ONE
            if i is ONE:
                e = kw.get("error", NONE)
                if e is NONE:
                    return ZERO
                if kind(e) == "arr":
                    return ONE
        return None
    return rewrite(t, fn)


def p02(ck):
    for m, e, p in configs():
        ck.same("flux, area and error of each radius, mask %s, error map %s" % ("given" if m else "absent", "given" if e else "absent"),
                CODE, spec("~mask" if m else "None", "float(e[0])" if e else "np.nan"), p, raises=None, post=photpost)
    ck.same("radial photometry with default options",
            IMP + "def client(image, x, y, r_list):\n    return radial_photometry(image, (x, y), r_list)\n",
            IMP + spec("None", "np.nan").replace("def client(image, x, y, r_list, error, mask, elong, theta, method):",
                                                 "def client(image, x, y, r_list):\n    error, elong, theta, method = None, 1.0, 0.0, 'exact'"),
            {k: ARGS[k] for k in ("image", "x", "y", "r_list")}, raises=None, post=photpost)
    ck.same("drawing the apertures does not change the measurement",
            CODE.replace("method=method)", "method=method, plot=True, vmin=vmin, vmax=vmax)").replace("method):\n", "method, vmin, vmax):\n"),
            spec("~mask", "float(e[0])").replace("method):\n", "method, vmin, vmax):\n"), dict(ARGS, vmin="float", vmax="float"), raises=None, post=photpost)


def p03(ck):
    for m, e, p in configs():
        ck.same("NaN flux raises, mask %s, error map %s" % ("given" if m else "absent", "given" if e else "absent"),
                CODE, spec("~mask" if m else "None", "float(e[0])" if e else "np.nan"), p, raises="all", value=False, post=photpost)
    ck.same("NaN errors, one per radius, without an error map",
            CODE.replace("return radial", "_, _, err = radial") + "    return err\n",
            spec("~mask", "np.nan").replace("return np.array(flux), np.array(area), np.array(err)", "return np.array(err)"),
            dict(ARGS, error=None), raises=None, post=photpost)
    ck.same("also when the apertures are drawn",
            CODE.replace("method=method)", "method=method, plot=True)"), spec("~mask", "float(e[0])"), ARGS, raises="all", value=False, post=photpost)


RULES = {"P01": p01, "P02": p02, "P03": p03}
