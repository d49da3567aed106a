"""P18-P25: analytic profiles, 2D models, sampling grid and PSF-convolved models."""
from ..terms import *
from .. import calculus

MO = "from petrofit.modeling.models import *\nfrom petrofit.modeling.models import CoreSersic2D\nimport numpy as np\n"
SP = "from scipy.special import gamma, gammainc, gammaincinv\nfrom astropy.modeling.models import Sersic1D\n"
DER = MO + SP + "def derivative(f, x):\n    pass\n"
DO = {"override": calculus.override()}


def p18(ck):
    q = {"r": "float,pos", "a": "float,pos", "re": "float,pos", "n": "float,pos", "k": "float,pos"}
    for kn, kd in (("scalar", "float,pos"), ("array", "arr1,pos")):
        p = dict(q, r=kd)
        ck.same("enclosed flux (%s radius)" % kn, MO + "def client(r, a, re, n, k):\n    return sersic_enclosed(r, a, re, n, 1 - k)\n",
                SP + "import numpy as np\ndef client(r, a, re, n, k):\n    b = gammaincinv(2 * n, 0.5)\n"
                "    return a * re**2 * 2 * np.pi * n * np.exp(b) / b**(2*n) * gamma(2*n) * gammainc(2*n, b * (r / re)**(1/n)) * k\n", p)
        ck.law("inverse of the enclosed flux (%s)" % kn,
               MO + "def client(r, a, re, n, k):\n    return sersic_enclosed_inv(sersic_enclosed(r, a, re, n, 1 - k), a, re, n, 1 - k), r\n", p)
        ck.law("enclosed flux of the inverse (%s)" % kn,
               MO + "def client(r, a, re, n, k):\n    return sersic_enclosed(sersic_enclosed_inv(r, a, re, n, 1 - k), a, re, n, 1 - k), r\n", p)
        ck.law("conversions of the central intensity are inverses (%s)" % kn,
               MO + "def client(r, n):\n    return (Ie_to_I0(I0_to_Ie(r, n), n), r), (I0_to_Ie(Ie_to_I0(r, n), n), r)\n", {"r": kd, "n": "float,pos"})
        ck.same("ideal Petrosian profile (%s)" % kn, MO + "def client(r, re, n):\n    return petrosian_profile(r, re, n)\n",
                SP + "import numpy as np\ndef client(r, re, n):\n    b = gammaincinv(2 * n, 0.5)\n    x = b * (r / re)**(1/n)\n"
                "    return np.exp(-x) * x**(2*n) / (2 * n * gamma(2*n) * gammainc(2*n, x))\n", {"r": kd, "re": "float,pos", "n": "float,pos"})
    ck.law("half of the total flux lies inside r_eff",
           MO + "def client(a, re, n, k):\n    return sersic_enclosed(re, a, re, n, 1 - k), sersic_enclosed(np.inf, a, re, n, 1 - k) / 2\n", q_(q, "a re n k"))
    ck.law("a default ellipticity is zero",
           MO + "def client(r, a, re, n):\n    return (sersic_enclosed(r, a, re, n), sersic_enclosed(r, a, re, n, ellip=0)), "
           "(sersic_enclosed_inv(r, a, re, n), sersic_enclosed_inv(r, a, re, n, 0))\n", q_(q, "r a re n"))
    ck.law("the derivative of the enclosed flux is the profile times the perimeter of similar ellipses",
           DER + "def client(r, a, re, n, k):\n    I = a * np.exp(-gammaincinv(2 * n, 0.5) * ((r / re)**(1 / n) - 1))\n"
           "    return derivative(sersic_enclosed(r, a, re, n, 1 - k), r), I * 2 * np.pi * k * r\n", q, opts=DO)
    ck.law("the ideal Petrosian profile is the local intensity over the enclosed mean",
           DER + "def client(r, a, re, n, k):\n    F = sersic_enclosed(r, a, re, n, 1 - k)\n"
           "    return petrosian_profile(r, re, n), derivative(F, r) / (2 * np.pi * k * r) / (F / (np.pi * k * r**2))\n", q, opts=DO)
    ck.law("central intensity is the profile at radius zero",
           MO + SP + "def client(a, n):\n    return Ie_to_I0(a, n), a * np.exp(gammaincinv(2 * n, 0.5))\n", q_(q, "a n"))
    # the fittable versions evaluate the same functions, with the parameters in the declared order
    ck.law("sersic_enclosed_model evaluates the enclosed flux",
           MO + "def client(r, a, re, n, k):\n    return sersic_enclosed_model.evaluate(r, a, re, n, 1 - k), sersic_enclosed(r, a, re, n, 1 - k)\n",
           dict(q, r="arr1,pos"))
    ck.law("petrosian_model evaluates the ideal profile",
           MO + "def client(r, re, n):\n    return petrosian_model.evaluate(r, re, n), petrosian_profile(r, re, n)\n", dict(q_(q, "re n"), r="arr1,pos"))


def q_(q, names):
    return {k: v for k, v in q.items() if k in names.split()}


SER = "x, y, amplitude=A, r_eff=re, n=n, x_0=x0, y_0=y0, ellip=1 - k, theta=th"
GEN = "GenSersic2D.evaluate(x, y, %s, %s, n, %s, %s, 1 - k, %s, c)"
NUK = "Nuker2D.evaluate(x, y, %s, %s, %s, %s, al, be, ga)"
COR = "CoreSersic2D.evaluate(x, y, %s, %s, %s, n, %s, %s, al, ga, 1 - k, %s)"


def p19(ck):
    P = {"A": "float,pos", "re": "float,pos", "n": "float,pos", "k": "float,pos", "th": "float", "c": "float,pos", "rb": "float,pos",
         "x0": "float", "y0": "float", "al": "float,pos", "be": "float,pos", "ga": "float,pos", "x": "arr2", "y": "arr2",
         "s": "float,pos", "t": "float", "dx": "float", "dy": "float"}

    def law(label, args, text, **k):
        ck.law(label, MO + SP + "def client(%s):\n%s" % (", ".join(args.split()), text), {a: (k.pop(a) if a in k else P[a]) for a in args.split()}, **k)
    # on the generalised ellipse of semi-axes re, k*re: x_maj = re u, x_min = k re v with |u|^(c+2) + |v|^(c+2) = 1
    law("the generalised Sersic model has its amplitude on the generalised ellipse", "A re n k th c x0 y0 w",
        "    u, v = w ** (1 / (c + 2)), (1 - w) ** (1 / (c + 2))\n    X, Y = re * u, k * re * v\n"
        "    x, y = x0 + X * np.cos(th) - Y * np.sin(th), y0 + X * np.sin(th) + Y * np.cos(th)\n    return %s, A\n" % (GEN % ("A", "re", "x0", "y0", "th")),
        w="float,pos", assume=lambda it, a: lt(a["w"], ONE))
    ck.same("generalised Sersic model everywhere", MO + "def client(x, y, A, re, n, k, th, c, x0, y0):\n    return " + GEN % ("A", "re", "x0", "y0", "th") + "\n",
            SP + "import numpy as np\ndef client(x, y, A, re, n, k, th, c, x0, y0):\n    u = ((x - x0) * np.cos(th) + (y - y0) * np.sin(th)) / re\n"
            "    v = ((y - y0) * np.cos(th) - (x - x0) * np.sin(th)) / (k * re)\n    z = (abs(u)**(2 + c) + abs(v)**(2 + c))**(1 / (2 + c))\n"
            "    return A * np.exp(-gammaincinv(2 * n, 0.5) * (z**(1 / n) - 1))\n", {a: P[a] for a in "x y A re n k th c x0 y0".split()})
    law("c_0 = 0 is the plain Sersic profile", "x y A re n k th x0 y0",
        "    u = ((x - x0) * np.cos(th) + (y - y0) * np.sin(th)) / re\n    v = ((y - y0) * np.cos(th) - (x - x0) * np.sin(th)) / (k * re)\n"
        "    z = np.sqrt(u**2 + v**2)\n    return %s, A * np.exp(-gammaincinv(2 * n, 0.5) * (z**(1 / n) - 1))\n"
        % (GEN % ("A", "re", "x0", "y0", "th")).replace("c)", "0)"))
    law("Nuker model has its amplitude at r_break", "A rb x0 y0 al be ga t",
        "    x, y = np.array([x0 + rb * np.cos(t)]), np.array([y0 + rb * np.sin(t)])\n    return %s[0], A\n" % (NUK % ("A", "rb", "x0", "y0")), t="float")
    law("core-Sersic model has its amplitude at r_break", "A re rb n x0 y0 al ga k th t",
        "    u, v = rb * np.cos(t), k * rb * np.sin(t)\n    x, y = np.array([x0 + u * np.cos(th) - v * np.sin(th)]), np.array([y0 + u * np.sin(th) + v * np.cos(th)])\n"
        "    return %s[0], A\n" % (COR % ("A", "re", "rb", "x0", "y0", "th")))
    ck.same("Nuker model everywhere", MO + "def client(x, y, A, rb, x0, y0, al, be, ga):\n    return " + NUK % ("A", "rb", "x0", "y0") + "\n",
            "import numpy as np\ndef client(x, y, A, rb, x0, y0, al, be, ga):\n    r = np.sqrt((x - x0)**2 + (y - y0)**2)\n    r = np.where(r == 0, np.nan, r)\n"
            "    return A * 2**((be - ga) / al) * (r / rb)**(-ga) * (1 + (r / rb)**al)**((ga - be) / al)\n", {a: P[a] for a in "x y A rb x0 y0 al be ga".split()})
    ck.same("core-Sersic model everywhere", MO + "def client(x, y, A, re, rb, n, x0, y0, al, ga, k, th):\n    return " + COR % ("A", "re", "rb", "x0", "y0", "th") + "\n",
            SP + "import numpy as np\ndef client(x, y, A, re, rb, n, x0, y0, al, ga, k, th):\n    b = gammaincinv(2 * n, 0.5)\n"
            "    u = (x - x0) * np.cos(th) + (y - y0) * np.sin(th)\n    v = ((y - y0) * np.cos(th) - (x - x0) * np.sin(th)) / k\n    r = np.sqrt(u**2 + v**2)\n"
            "    r = np.where(r == 0, np.nan, r)\n    I = A * 2**(-ga / al) * np.exp(b * (2**(1 / al) * rb / re)**(1 / n))\n"
            "    return I * (1 + (rb / r)**al)**(ga / al) * np.exp(-b * ((r**al + rb**al) / re**al)**(1 / (al * n)))\n",
            {a: P[a] for a in "x y A re rb n x0 y0 al ga k th".split()})
    for nm, base, sh, sc, args in (
            ("generalised Sersic", GEN % ("A", "re", "x0", "y0", "th"), (GEN % ("A", "re", "x0 + dx", "y0 + dy", "th")).replace("(x, y,", "(x + dx, y + dy,"),
             (GEN % ("A", "s * re", "s * x0", "s * y0", "th")).replace("(x, y,", "(s * x, s * y,"), "x y A re n k th c x0 y0"),
            ("Nuker", NUK % ("A", "rb", "x0", "y0"), (NUK % ("A", "rb", "x0 + dx", "y0 + dy")).replace("(x, y,", "(x + dx, y + dy,"),
             (NUK % ("A", "s * rb", "s * x0", "s * y0")).replace("(x, y,", "(s * x, s * y,"), "x y A rb x0 y0 al be ga"),
            ("core-Sersic", COR % ("A", "re", "rb", "x0", "y0", "th"), (COR % ("A", "re", "rb", "x0 + dx", "y0 + dy", "th")).replace("(x, y,", "(x + dx, y + dy,"),
             (COR % ("A", "s * re", "s * rb", "s * x0", "s * y0", "th")).replace("(x, y,", "(s * x, s * y,"), "x y A re rb n x0 y0 al ga k th")):
        law("%s model depends on the position relative to the centre only" % nm, args + " dx dy", "    return %s, %s\n" % (sh, base))
        law("%s model is unchanged when all lengths scale together" % nm, args + " s", "    return %s, %s\n" % (sc, base))
        law("%s model is proportional to its amplitude" % nm, args + " s", "    return %s, s * %s\n" % (base.replace("A,", "s * A,", 1), base))


def p20(ck):
    q = {"s": "int,pos", "f": "int,pos", "ox": "float", "oy": "float"}
    ref = ("import numpy as np\ndef client(s, f, ox, oy):\n    c = (np.arange(s * f) + 0.5) / f - 0.5\n    return np.meshgrid(c + ox, c + oy)\n")
    ck.same("samples for every size, origin and factor", MO + "def client(s, f, ox, oy):\n    return make_grid(s, (ox, oy), f)\n", ref, q)
    ck.same("origin and factor by keyword", MO + "def client(s, f, ox, oy):\n    return make_grid(s, factor=f, origin=(ox, oy))\n", ref, q)
    ck.same("defaults are the origin (0, 0) and factor 1", MO + "def client(s):\n    return make_grid(s)\n",
            "import numpy as np\ndef client(s):\n    c = np.arange(s) + 0.\n    return np.meshgrid(c, c)\n", {"s": "int,pos"})
    ck.law("first and last samples are symmetric in the pixel",
           MO + "def client(s, f):\n    x, y = make_grid(s, (0, 0), f)\n    return (x[0, 0], (1 / f - 1) / 2), (x[0, s * f - 1], s - 1 - (1 / f - 1) / 2), "
           "(y[0, 0], (1 / f - 1) / 2), (y[s * f - 1, 0], s - 1 - (1 / f - 1) / 2)\n", {"s": "int,pos", "f": "int,pos"})
    o = ck.run(MO + "def client(s, f):\n    return make_grid(s, (0, 0), f)\n", {"s": "int,pos", "f": "float,pos"})
    ck.holds("non-integer factor is rejected", "a non-integer factor raises on every path", None if o.unsup else o.value is None and bool(o.raises),
             "returns a grid for a float factor", "make_grid", o)


WRAP = MO + "from astropy.modeling import models\nfrom astropy.nddata import block_reduce\nfrom scipy.signal import convolve\nfrom scipy.ndimage import rotate\n"
MODEL = "    model = models.Gaussian2D(amplitude=a, x_mean=p, y_mean=q, x_stddev=1, y_stddev=2, theta=3)\n"
IMAGE = """
def grid(size, ox, oy, f):
    c = (np.arange(size * f) + 0.5) / f - 0.5
    return np.meshgrid(c + ox, c + oy)
def mean(image, k):
    return block_reduce(image, k) / k**2
def blur(image, psf, t):
    return image if psf is None else convolve(image, psf if t == 0 else rotate(psf, t, reshape=False), mode="same")
def window(low, model, params, x, y, g, cx, cy, sz, f):
    # f, g: samples per pixel inside / outside the window; low: the image sampled at g
    i, j = (x - x.min()).astype(int), (y - y.min()).astype(int)
    if f // g == 1:
        return low
    ci, cj = int(np.round(cx - x.min())) - sz // 2, int(np.round(cy - y.min())) - sz // 2
    X, Y = grid(sz, x.min() + ci, y.min() + cj, f)
    sub = mean(model.evaluate(X, Y, *params), f // g)
    i0, i1 = max(ci, 0), min(ci + sz, i.max() + 1)
    j0, j1 = max(cj, 0), min(cj + sz, j.max() + 1)
    i1, j1 = max(i0, i1), max(j0, j1)
    low[g * j0:g * j1, g * i0:g * i1] = sub[g * (j0 - cj):g * (j1 - cj), g * (i0 - ci):g * (i1 - ci)]
    return low
def image(model, params, x, y, t, psf, over, g):
    # over: samples per pixel, or a window (centre x, centre y, size, samples per pixel)
    i, j = (x - x.min()).astype(int), (y - y.min()).astype(int)
    size = max(i.max(), j.max()) + 1
    f = g if isinstance(over, tuple) else over
    X, Y = grid(size, x.min(), y.min(), f)
    im = mean(model.evaluate(X, Y, *params), f // g)
    if isinstance(over, tuple):
        im = window(im, model, params, x, y, g, *over)
    return mean(blur(im, psf, t), g)[j, i]
"""
PV = {"a": "float", "p": "float", "q": "float", "t": "float", "x": "arr2", "y": "arr2"}
PSFS = {"no PSF": ("None", "None", "1", {}), "PSF": ("psf", "None", "1", {"psf": "arr2"}), "oversampled PSF": ("psf", "g", "g", {"psf": "arr2", "g": "int,pos"})}
PARS = "a, p, q, 1, 2, 3"


def evaluated(ck, label, over, psf, extra, ref_over, params=PARS, t="t", refparams=None, reft=None, pre="", refpre="", **k):
    """evaluate() of a wrapped model against the sampled image"""
    ps, po, g, more = PSFS[psf]
    q = dict(PV, **more)
    q.update(extra)
    args = ", ".join(q)
    ck.same(label, WRAP + "def client(%s):\n%s%s    m = PSFConvolvedModel2D(model, psf=%s, oversample=%s, psf_oversample=%s)\n    return m.evaluate(x, y, %s, %s)\n"
            % (args, MODEL, pre, ps, over, po, params, t),
            WRAP + IMAGE + "def client(%s):\n%s%s    return image(model, (%s,), x, y, %s, %s, %s, %s)\n"
            % (args, MODEL, refpre, refparams or params, reft or t, ps, ref_over, g), q, **k)


def p21(ck):
    for psf in PSFS:
        g = PSFS[psf][2]
        if g == "1":
            evaluated(ck, "%s, no oversampling" % psf, "None", psf, {}, "1")
        evaluated(ck, "%s, integer oversampling" % psf, "%s * k" % g, psf, {"k": "int,pos"}, "%s * k" % g)
        # parameters come as arrays of one element from astropy
        evaluated(ck, "%s, integer oversampling, array parameters" % psf, "%s * k" % g, psf,
                  {"k": "int,pos", "p": "arr1,len=1", "t": "arr1,len=1"}, "%s * k" % g, reft="t[0]")
    # the parameters used are the ones passed in, not those of the wrapped model at construction
    evaluated(ck, "the current parameters are used", "k", "PSF", {"k": "int,pos", "b": "float"}, "k", params="b, p + 1, q, 1, 2, 3")
    for psf in ("no PSF", "PSF"):
        evaluated(ck, "%s, defaults of the wrapper" % psf, "None", psf, {}, "1")


def p22(ck):
    for psf in PSFS:
        g = PSFS[psf][2]
        evaluated(ck, "%s, window at a position" % psf, "(cx, cy, sz, %s * k)" % g, psf, {"k": "int,pos", "cx": "float", "cy": "float", "sz": "int,pos"},
                  "(cx, cy, sz, %s * k)" % g)
        for nx, ny, rx, ry in (("'x_mean'", "'y_mean'", "p + 1", "q"), ("'x_mean'", "cy", "p + 1", "cy"), ("cx", "'y_mean'", "cx", "q"), ("'y_mean'", "'x_mean'", "q", "p + 1")):
            evaluated(ck, "%s, window at %s, %s" % (psf, nx, ny), "(%s, %s, sz, %s * k)" % (nx, ny, g), psf,
                      {"k": "int,pos", "cx": "float", "cy": "float", "sz": "int,pos"}, "(%s, %s, sz, %s * k)" % (rx, ry, g), params="a, p + 1, q, 1, 2, 3")
        evaluated(ck, "%s, window at array parameters" % psf, "('x_mean', 'y_mean', sz, %s * k)" % g, psf,
                  {"k": "int,pos", "sz": "int,pos", "p": "arr1,len=1", "q": "arr1,len=1"}, "(p[0], q[0], sz, %s * k)" % g)
    evaluated(ck, "an unknown parameter name is rejected", "('nope', cy, sz, 2)", "no PSF", {"cy": "float", "sz": "int,pos"}, "boom()",
              refpre="    raise AssertionError\n", value=False)


# ------------------------------------------------------------------ oversampling settings
STATES = {"nothing set": ("None", "None", "None", {}),
          "a factor set": ("None", "f", "None", {"f": "int,pos"}),
          "a window set": ("None", "(cx, cy, sz, f)", "None", {"f": "int,pos", "cx": "float", "cy": "float", "sz": "int,pos"}),
          "a PSF and a factor set": ("psf", "f", "None", {"psf": "arr2", "f": "int,pos"}),
          "both factors set": ("psf", "g * f", "g", {"psf": "arr2", "f": "int,pos", "g": "int,pos"}),
          "a window and a PSF factor set": ("psf", "(cx, cy, sz, g * f)", "g", {"psf": "arr2", "f": "int,pos", "g": "int,pos", "cx": "float", "cy": "float", "sz": "int,pos"})}
VALUES = {"None": ("None", {}), "an int": ("v", {"v": "int"}), "a float": ("v", {"v": "float"}), "a string": ("'2'", {}),
          "a window tuple": ("(ax, ay, s, v)", {"ax": "float", "ay": "float", "s": "int", "v": "int"}),
          "a window list": ("[ax, ay, s, v]", {"ax": "float", "ay": "float", "s": "int", "v": "int"}),
          "a window by names": ("('x_mean', 'y_mean', s, v)", {"s": "int", "v": "int"}),
          "a window with a float factor": ("(ax, ay, s, v)", {"ax": "float", "ay": "float", "s": "int", "v": "float"}),
          "a window with a float size": ("(ax, ay, s, v)", {"ax": "float", "ay": "float", "s": "float", "v": "int"}),
          "a short tuple": ("(ax, ay, v)", {"ax": "float", "ay": "float", "v": "int"}),
          "a long tuple": ("(ax, ay, s, v, v)", {"ax": "float", "ay": "float", "s": "int", "v": "int"})}
VALID = """
def check_over(v, g):
    if v is None:
        if g is not None and g != 1:
            raise ValueError
        return None
    if isinstance(v, (tuple, list, np.ndarray)):
        if len(v) != 4 or not isinstance(v[2], int) or not isinstance(v[3], int):
            raise ValueError
        k = v[3]
        v = tuple(v)
    elif isinstance(v, int):
        k = v
    else:
        raise ValueError
    if k <= 0 or (g is not None and k % g != 0):
        raise ValueError
    return v
def check_psf(v, psf, over):
    if v is None:
        return None
    k = 1 if over is None else over[3] if isinstance(over, tuple) else over
    if psf is None or not isinstance(v, int) or v <= 0 or k % v != 0:
        raise ValueError
    return v
"""


def p23(ck):
    for sn, (psf, over, po, more) in STATES.items():
        for vn, (v, extra) in VALUES.items():
            q = {"a": "float", "p": "float", "q": "float"}
            q.update(more)
            q.update(extra)
            args = ", ".join(q)
            make = MODEL + "    m = PSFConvolvedModel2D(model, psf=%s, oversample=%s, psf_oversample=%s)\n" % (psf, over, po)
            for attr, ref in (("oversample", "check_over(%s, %s)" % (v, po)), ("psf_oversample", "check_psf(%s, %s, %s)" % (v, psf, over))):
                if attr == "psf_oversample" and "tuple" in vn and vn != "a window tuple":
                    continue
                lab = "%s = %s with %s" % (attr, vn, sn)
                st = {"oversample": over, "psf_oversample": po}
                new = dict(st)
                new[attr] = "new"
                ck.same(lab, WRAP + "def client(%s):\n%s    m.%s = %s\n    return m.oversample, m.psf_oversample\n" % (args, make, attr, v),
                        WRAP + VALID + "def client(%s):\n    new = %s\n    return %s, %s\n" % (args, ref, new["oversample"], new["psf_oversample"]), q)
                ck.same(lab + ", after a rejection", WRAP + "def client(%s):\n%s    try:\n        m.%s = %s\n    except (ValueError, TypeError):\n        pass\n"
                        "    return m.oversample, m.psf_oversample\n" % (args, make, attr, v),
                        WRAP + VALID + "def client(%s):\n    try:\n        new = %s\n    except ValueError:\n        return %s, %s\n    return %s, %s\n"
                        % (args, ref, over, po, new["oversample"], new["psf_oversample"]), q)
    # the constructor goes through the same checks
    for vn, (v, extra) in VALUES.items():
        for pn, psf, po, more in (("no PSF", "None", "None", {}), ("PSF factor", "psf", "g", {"psf": "arr2", "g": "int"}), ("PSF factor without PSF", "None", "g", {"g": "int"})):
            q = {"a": "float", "p": "float", "q": "float"}
            q.update(more)
            q.update(extra)
            args = ", ".join(q)
            ck.same("constructor, oversample %s, %s" % (vn, pn),
                    WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, psf=%s, oversample=%s, psf_oversample=%s)\n    return m.oversample, m.psf_oversample\n"
                    % (args, MODEL, psf, v, po),
                    WRAP + VALID + "def client(%s):\n    a = check_over(%s, None)\n    b = check_psf(%s, %s, a)\n    return a, b\n" % (args, v, po, psf), q)


# ------------------------------------------------------------------ grid cache
HIST = {"a repeated evaluation": "    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n",
        "other coordinates": "    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n",
        "other coordinates and parameters": "    m.evaluate(x2, y2, a2, p, q, 1, 2, 3, t)\n    m.evaluate(x, y, a2, p, q, 1, 2, 3, t)\n",
        "another factor": "    m.oversample = k\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.oversample = f\n",
        "another factor and other coordinates": "    m.oversample = k\n    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n    m.oversample = f\n",
        "a window": "    m.oversample = (cx, cy, 5, k)\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.oversample = f\n",
        "switching the cache off": "    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.cache_grid = False\n",
        "evaluating without cache": "    m.cache_grid = False\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.cache_grid = True\n",
        "other coordinates without cache": "    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.cache_grid = False\n    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n    m.cache_grid = True\n",
        "clearing the cache": "    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n    m.clear_cached_grid()\n",
        "clearing the cache after the same grid": "    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.clear_cached_grid()\n",
        "clearing twice": "    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n    m.clear_cached_grid()\n    m.clear_cached_grid()\n    m.evaluate(x2, y2, a, p, q, 1, 2, 3, t)\n",
        "another model's evaluation": "    o = PSFConvolvedModel2D(models.Gaussian2D(amplitude=a2), oversample=k)\n    o.evaluate(x, y, a, p, q, 1, 2, 3, t)\n",
        "another model switching its cache": "    o = PSFConvolvedModel2D(models.Gaussian2D(amplitude=a2))\n    o.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    o.cache_grid = False\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n"}


def p24(ck):
    q = dict(PV, a2="float", x2="arr2", y2="arr2", f="int,pos", k="int,pos", cx="float", cy="float")
    for hn, h in HIST.items():
        for fn, f in (("integer factor", "f"), ("no factor", "None"), ("window", "(cx, cy, 3, f)")):
            if f == "None" and "oversample" in h and "oversample = f" not in h:
                continue
            hh = h.replace("m.oversample = f\n", "m.oversample = %s\n" % f)
            ck.same("after %s, %s" % (hn, fn),
                    WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, oversample=%s)\n%s    return m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n" % (", ".join(q), MODEL, f, hh),
                    WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, oversample=%s)\n    return m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n" % (", ".join(q), MODEL, f), q)
    # changing the PSF factor changes the grid of a window
    q2 = dict(PV, psf="arr2", f="int,pos", g="int,pos", cx="float", cy="float")
    ck.same("after another PSF factor, window",
            WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, psf=psf, oversample=(cx, cy, 3, g * f))\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n"
            "    m.psf_oversample = g\n    return m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n" % (", ".join(q2), MODEL),
            WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, psf=psf, oversample=(cx, cy, 3, g * f), psf_oversample=g)\n"
            "    return m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n" % (", ".join(q2), MODEL), q2)
    # what is switched off is dropped; the switch takes booleans only
    ck.law("the cache switch reads back", WRAP + "def client(a, p, q):\n%s    m = PSFConvolvedModel2D(model)\n    s = m.cache_grid\n    m.cache_grid = False\n    t = m.cache_grid\n"
           "    m.cache_grid = True\n    return (s, True), (t, False), (m.cache_grid, True)\n" % MODEL, {"a": "float", "p": "float", "q": "float"})
    ck.same("the cache switch takes booleans only", WRAP + "def client(a, p, q, v):\n%s    m = PSFConvolvedModel2D(model)\n    m.cache_grid = v\n    return m.cache_grid\n" % MODEL,
            "def client(a, p, q, v):\n    if v is True:\n        return True\n    if v is False:\n        return False\n    raise ValueError\n", {"a": "float", "p": "float", "q": "float", "v": "any"})
    held(ck, "no grid is kept after the cache is switched off", WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, oversample=f)\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n"
         "    m.cache_grid = False\n    return m\n" % (", ".join(q), MODEL), q)
    held(ck, "no grid is kept by an evaluation while the cache is off", WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, oversample=f)\n    m.cache_grid = False\n"
         "    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    return m\n" % (", ".join(q), MODEL), q)
    # class state and foreign objects are never written
    for f in ("f", "(cx, cy, 3, f)"):
        o = ck.run(WRAP + "def client(%s):\n%s    m = PSFConvolvedModel2D(model, oversample=%s)\n    m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n    m.cache_grid = False\n    m.cache_grid = True\n"
                   "    return m.evaluate(x, y, a, p, q, 1, 2, 3, t)\n" % (", ".join(q), MODEL, f), q)
        bad = [e for e in o.events if e.kind == "mutate"]
        ck.holds("no store reaches class state, arguments or other models", "evaluation writes only its own cache (%s)" % ("factor" if f == "f" else "window"),
                 None if o.unsup else not bad, "writes %s" % (bad[0].data if bad else ""), ck.loc(bad[0].site) if bad else "", o)


def held(ck, label, text, q):
    """no attribute of the returned object holds a sampling grid"""
    from ..values import VRef, VTuple, InstC, ListC
    o = ck.run(text, q)
    if o.unsup or not isinstance(o.v, VRef):
        return ck.holds("no reachable grid", label, None, "not analysable: %s" % o.unsup, "", o)
    c = o.it.content(o.v)
    bad = [k for k, v in c.attrs.items() if any(s.op in ("meshx", "meshy") for s in subterms(o.it.t(v)))] if isinstance(c, InstC) else None
    ck.holds("no reachable grid", label, None if bad is None else not bad, "attribute %s still holds the grid" % bad, "PSFConvolvedModel2D", o)


# ------------------------------------------------------------------ wrapping
def p25(ck):
    q = {"a": "float", "p": "float", "q": "float"}
    names = "('amplitude', 'x_mean', 'y_mean', 'x_stddev', 'y_stddev', 'theta', 'psf_pa')"
    for wn, kw in (("plain", ""), ("with PSF and oversampling", ", psf=np.ones((3, 3)) / 9, oversample=4, psf_oversample=2"), ("with a window", ", oversample=('x_mean', 'y_mean', 5, 4)")):
        mk_ = MODEL + "    m = PSFConvolvedModel2D(model%s)\n" % kw
        ck.law("parameters, order and values (%s)" % wn, WRAP + "def client(a, p, q):\n%s    return (m.param_names, %s), ([getattr(m, k).default for k in m.param_names], [a, p, q, 1, 2, 3, 0])\n"
               % (mk_, names), q)
    ck.law("a wrapped Sersic model keeps its parameters",
           WRAP + "def client(a, r, n):\n    m = PSFConvolvedModel2D(models.Sersic2D(amplitude=a, r_eff=r, n=n, x_0=5, y_0=6, ellip=0.1, theta=0.2))\n"
           "    return (m.param_names, ('amplitude', 'r_eff', 'n', 'x_0', 'y_0', 'ellip', 'theta', 'psf_pa')), "
           "([getattr(m, k).default for k in m.param_names], [a, r, n, 5, 6, 0.1, 0.2, 0])\n", {"a": "float", "r": "float", "n": "float"})
    # constraints
    mk_ = MODEL + "    m = PSFConvolvedModel2D(model%s)\n"
    tail = "    e = PSFConvolvedModel2D(models.Gaussian2D(amplitude=a)%s)\n"
    for attr in ("fixed", "bounds"):
        other = "bounds" if attr == "fixed" else "fixed"
        taken(ck, "%s of the wrapped model are taken over" % attr, WRAP + "def client(a, p, q):\n%s    return m.%s, model.%s\n" % (mk_ % "", attr, attr), q, True)
        taken(ck, "%s of the wrapped model are taken over when only %s are given" % (attr, other),
              WRAP + "def client(a, p, q, v):\n%s    return m.%s, model.%s\n" % (mk_ % (", %s=v" % other), attr, attr), dict(q, v="any"), True)
        taken(ck, "%s given by the caller stand" % attr, WRAP + "def client(a, p, q, v):\n%s    return m.%s, model.%s\n" % (mk_ % (", %s=v" % attr), attr, attr), dict(q, v="any"), False)
    # unwrapping
    ck.law("unwrapping keeps the current values", WRAP + "def client(a, p, q):\n%s    w = m.model\n    return [getattr(w, k) for k in %s[:-1]], [getattr(m, k).value for k in %s[:-1]]\n"
           % (mk_ % "", names, names), q)
    taken(ck, "unwrapping keeps the fixed flags without the PSF angle",
          WRAP + "def client(a, p, q):\n%s    m.fixed['x_mean'] = True\n    f = dict(m.fixed)\n    del f['psf_pa']\n    return m.model.fixed, f\n" % (mk_ % ""), q, True)
    taken(ck, "unwrapping keeps the bounds without the PSF angle",
          WRAP + "def client(a, p, q):\n%s    m.bounds['x_mean'] = (0, 1)\n    f = dict(m.bounds)\n    del f['psf_pa']\n    return m.model.bounds, f\n" % (mk_ % ""), q, True)
    ck.law("unwrapping leaves the wrapper's constraints as they are",
           WRAP + "def client(a, p, q):\n%s%s    m.model\n    return (m.fixed, e.fixed), (m.bounds, e.bounds), ([getattr(m, k) for k in %s], [getattr(e, k) for k in %s])\n"
           % (mk_ % "", "    e = PSFConvolvedModel2D(model)\n", names, names), q)
    ck.law("unwrapping leaves the wrapped model as it is",
           WRAP + "def client(a, p, q):\n%s    n = models.Gaussian2D(amplitude=a, x_mean=p, y_mean=q, x_stddev=1, y_stddev=2, theta=3)\n    m.x_mean = 7\n    m.model\n    return m._model, n\n" % (mk_ % ""), q)
    o = ck.run(WRAP + "def client(a, p, q):\n%s    w = m.model\n    return (w is m._model, w is model, w is m.model)\n" % (mk_ % ""), q)
    ok = None if o.unsup or o.value is None or o.value.op != "tuple" or any(x not in (TRUE, FALSE) for x in o.value.args[0]) else all(x is FALSE for x in o.value.args[0])
    ck.holds("allocation", "unwrapping returns a new model", ok, "the same object is returned: %s" % (show(o.value, 3) if o.value is not None else ""), "PSFConvolvedModel2D.model", o)
    ck.same("wrapping a wrapped model is refused", WRAP + "def client(a, p, q):\n%s    return PSFConvolvedModel2D(m)\n" % (mk_ % ""), "def client(a, p, q):\n    raise TypeError\n", q, value=False)
    ck.same("a model without two inputs is refused", WRAP + "def client(m):\n    return PSFConvolvedModel2D(m)\n",
            "def client(m):\n    if m.n_inputs != 2:\n        raise AssertionError\n", {"m": "obj:Model"}, value=False,
            opts={"objattrs": {sym("m", "obj:Model"): {"param_names": mk("tuple", (const("u"), const("v"))), "parameters": mk("vec", (sym("u0", "float"), sym("v0", "float")))}}})


def taken(ck, label, text, q, want):
    """first result contains an update by the second (want) or not"""
    o = ck.run(text, q)
    if o.unsup or o.value is None or o.value.op != "tuple" or len(o.value.args[0]) != 2:
        return ck.holds("constraint dictionaries are updated from the model", label, None, "not analysable: %s" % o.unsup, "", o)
    got, src = o.value.args[0]
    has = any(s.op == "dictupd" and s.args[1] is src for s in subterms(got)) or got is src
    root = src
    while root.op in ("dictdel", "dictupd", "setitem", "setidx", "store"):
        root = root.args[0]
    wrong = has if not want else not any(s is root for s in subterms(got))
    ck.holds("constraint dictionaries are updated from the model", label, True if has == want else False if wrong else None,
             "the dictionary is %s, the source %s" % (show(got, 4)[:200], show(src, 4)[:200]), ck.where(o, got), o)


RULES = {"P18": p18, "P19": p19, "P20": p20, "P21": p21, "P22": p22, "P23": p23, "P24": p24, "P25": p25}
