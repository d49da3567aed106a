import itertools
from ..terms import *
from ..terms import Term
from .. import arrays as A
from .. import equal
from ..check import S
from ..harness import abstract
from .ref import REF, ABSREF

CORE = "from petrofit.petrosian.core import *\nfrom petrofit.petrosian import Petrosian\nimport copy\n"


def strictly_increasing(name):
    """rewrite the facts 'consecutive entries of <name> increase' and 'np.unique is the identity on it'"""
    a = sym(name, "arr1", len=sym("n", "int", pos=True))
    d = add(A.getitem(a, A.slc(ONE)), neg(A.getitem(a, A.slc(NONE, num(-1)))))
    n = A.length(a)
    decided = {lt0(neg(d)): TRUE, lt0(d): FALSE, le0(d): FALSE, le0(neg(d)): TRUE, eq(d, ZERO): FALSE}

    def post(t):
        def fn(x):
            if x in decided:
                return decided[x]
            if x.op in ("uniqfirst", "uniqinv") and x.args[0] is a:
                return A.iota(n)
            if x.op == "uniq" and x.args[0] is a:
                return a
            return None
        return rewrite(t, fn)
    return post


def own_first(t, a=None):
    """where an entry of a non-decreasing list exceeds its predecessor it is the first of its value: np.unique maps it to itself"""
    a = a or sym("area", "arr1")
    d = add(A.getitem(a, A.slc(ONE)), neg(A.getitem(a, A.slc(NONE, num(-1)))))
    gate = lt0(neg(d))

    def inner(x):
        if x.op == "getitem" and x.args[1].op == "slice" and x.args[1].args[0] is ONE and x.args[1].args[1] is NONE and \
                x.args[0].op == "getitem" and x.args[0].args[1].op == "getitem" and x.args[0].args[1].args[0].op == "uniqfirst" and \
                x.args[0].args[1].args[0].args[0] is a and x.args[0].args[1].args[1].op == "uniqinv":
            return A.getitem(rewrite(x.args[0].args[0], inner), x.args[1])
        return None

    def fn(x):
        if x.op == "ite" and x.args[0] is gate:
            return ite(gate, rewrite(x.args[1], inner), rewrite(x.args[2], fn))
        return None
    return rewrite(t, fn)


PROFN = {"area": "arr1,len=n", "flux": "arr1,len=n", "area_err": "arr1,len=n", "flux_err": "arr1,len=n"}
PROF = {"area": "arr1", "flux": "arr1", "area_err": "arr1", "flux_err": "arr1"}


def p04(ck):
    code = CORE + "def client(area, flux):\n    return calculate_petrosian(area, flux)[0]\n"
    spec = REF + "def client(area, flux):\n    return ref_petrosian(area, flux, None, None)[0]\n"
    p = {"area": "arr1", "flux": "arr1"}
    ck.same("index of every aperture, increasing areas", code, spec, {k: PROFN[k] for k in p}, post=strictly_increasing("area"))
    ck.same("index of every aperture, any non-decreasing areas", code, spec, p)
    ck.law("one entry per aperture",
           CORE + "def client(area, flux):\n    return len(calculate_petrosian(area, flux)[0]), len(area)\n", p)
    ck.law("entry 0 is undefined", CORE + "import numpy as np\ndef client(area, flux):\n    return calculate_petrosian(area, flux)[0][0], np.nan\n", {k: PROFN[k] for k in p},
           post=strictly_increasing("area"))
    code = CORE + "def client(area, flux, area_err, flux_err):\n    return calculate_petrosian(area, flux, area_err, flux_err)[0]\n"
    spec = REF + "def client(area, flux, area_err, flux_err):\n    return ref_petrosian(area, flux, None, None)[0]\n"
    for ae, fe in ((1, 1), (1, 0), (0, 1)):
        q = dict(PROF)
        if not ae:
            q["area_err"] = None
        if not fe:
            q["flux_err"] = None
        ck.same("errors do not change the profile (area error %s, flux error %s)" % ("given" if ae else "absent", "given" if fe else "absent"),
                code, spec, q, raises=None)
    ck.law("rescaling the fluxes leaves the index unchanged",
           CORE + "def client(area, flux, k):\n    return calculate_petrosian(area, flux * k)[0], calculate_petrosian(area, flux)[0]\n",
           dict(p, k="float,pos"))
    ck.law("rescaling the areas leaves the index unchanged",
           CORE + "def client(area, flux, k):\n    return calculate_petrosian(area * k, flux)[0], calculate_petrosian(area, flux)[0]\n",
           dict(p, k="float,pos"), post=lambda t: scale_unique(t))
    dtype_rule(ck)


def own_first_n(t):
    return own_first(t, sym("area", "arr1", len=sym("n", "int", pos=True)))


def scale_unique(t):
    """np.unique of a positively scaled array has the same indices"""
    def fn(x):
        if x.op in ("uniqfirst", "uniqinv") and x.args[0].op == "sum":
            a = x.args[0]
            p = as_poly(a)
            if len(p) == 1:
                (m, c), = p.items()
                arr = [b for b, e in m if kind(b) == "arr" and e is ONE]
                if c > 0 and len(arr) == 1 and all(b is arr[0] or positive(b) for b, e in m):
                    return mk(x.op, arr[0])
        return None
    return rewrite(t, fn)


def dtype_rule(ck):
    """a quotient must never be stored into an array that keeps an integer input's type"""
    from ..dtype import integer_stores
    for name, params, call in (
            ("calculate_petrosian", PROF, "calculate_petrosian(area, flux, area_err, flux_err)"),):
        o = ck.run(CORE + "def client(%s):\n    return %s\n" % (", ".join(params), call), params)
        if o.unsup:
            ck.holds("no truncating store", "integer input is not truncated: " + name, None, o.unsup, o=o)
            continue
        bad = integer_stores(o)
        ck.holds("no truncating store", "integer input is not truncated: " + name, not bad,
                 "a fractional value is stored into an array of the input's type: %s" % "; ".join(b[1] for b in bad[:3]), bad[0][0] if bad else "", o)


def p05(ck):
    code = CORE + "def client(area, flux, area_err, flux_err):\n    return calculate_petrosian(area, flux, area_err, flux_err)[1]\n"
    spec = REF + "def client(area, flux, area_err, flux_err):\n    return ref_petrosian(area, flux, area_err, flux_err)[1]\n"
    for ae, fe in ((1, 1), (1, 0), (0, 1), (0, 0)):
        q = dict(PROF)
        if not ae:
            q["area_err"] = None
        if not fe:
            q["flux_err"] = None
        lab = "area error %s, flux error %s" % ("given" if ae else "absent", "given" if fe else "absent")
        ck.same("propagated error, increasing areas, " + lab, code, spec, {k: v and PROFN[k] for k, v in q.items()}, post=strictly_increasing("area"))
        ck.same("propagated error, any areas, " + lab, code, spec, q, raises=None, post=own_first)
    ck.law("one error per aperture",
           CORE + "def client(area, flux, area_err, flux_err):\n    return len(calculate_petrosian(area, flux, area_err, flux_err)[1]), len(area)\n",
           PROF)


KINDS = [("'linear'", "linear"), ("'cubic'", "cubic"), (None, "None"), ("str", "any")]


def p06(ck):
    base = {"r": "arr1", "p": "arr1", "e": "arr1", "eta": "float", "kind": None, "num": "int,pos"}
    code = CORE + "def client(r, p, e, eta, kind, num):\n    return calculate_petrosian_r(r, p, e, eta=eta, interp_kind=kind, interp_num=num)\n"
    spec = REF + "def client(r, p, e, eta, kind, num):\n    return ref_petrosian_r(r, p, e, eta, kind, num)\n"
    for k, kn in KINDS:
        for err in (True, False):
            q = dict(base, kind=k)
            if not err:
                q["e"] = None
            ck.same("radius and error, interpolation %s, profile errors %s" % (kn, "given" if err else "absent"), code, spec, q)
    ck.same("defaults: eta 0.2, cubic, 5000 samples",
            CORE + "def client(r, p):\n    return calculate_petrosian_r(r, p)\n",
            REF + "def client(r, p):\n    return ref_petrosian_r(r, p, None, 0.2, 'cubic', 5000)\n", {"r": "arr1", "p": "arr1"})


FR = {"fraction": "float", "r": "arr1", "flux": "arr1", "rp": "float", "fe": "arr1", "re": "float", "eps": "float", "ef": "float,pos",
      "kind": None, "num": "int,pos"}


def p07(ck):
    code = CORE + ("def client(fraction, r, flux, rp, fe, re, eps, ef, kind, num):\n"
                   "    return fraction_to_r(fraction, r, flux, rp, flux_err=fe, r_petrosian_err=re, epsilon=eps, epsilon_fraction=ef, "
                   "interp_kind=kind, interp_num=num)\n")
    spec = REF + ("def client(fraction, r, flux, rp, fe, re, eps, ef, kind, num):\n"
                  "    return ref_fraction(fraction, r, flux, rp, fe, re, eps, ef, kind, num)\n")
    for k, kn in KINDS:
        for fe, re in ((1, 1), (1, 0), (0, 1), (0, 0)):
            q = dict(FR, kind=k)
            if not fe:
                q["fe"] = None
            if not re:
                q["re"] = None
            ck.same("radius and error, interpolation %s, flux error %s, radius error %s" % (
                kn, "given" if fe else "absent", "given" if re else "absent"), code, spec, q)
    ck.same("defaults: epsilon 2, epsilon_fraction 0.99, cubic, 5000 samples",
            CORE + "def client(fraction, r, flux, rp):\n    return fraction_to_r(fraction, r, flux, rp)\n",
            REF + "def client(fraction, r, flux, rp):\n    return ref_fraction(fraction, r, flux, rp, None, None, 2.0, 0.99, 'cubic', 5000)\n",
            {k: FR[k] for k in ("fraction", "r", "flux", "rp")})


def p08(ck):
    code = CORE + ("def client(f1, f2, r, flux, rp, fe, re, eps, ef, kind, num):\n"
                   "    a, b, c = calculate_concentration_index(f1, f2, r, flux, rp, flux_err=fe, r_petrosian_err=re, epsilon=eps, "
                   "epsilon_fraction=ef, interp_kind=kind, interp_num=num)\n    return a, b, c\n")
    spec = REF + ("def client(f1, f2, r, flux, rp, fe, re, eps, ef, kind, num):\n"
                  "    return ref_concentration(f1, f2, r, flux, rp, fe, re, eps, ef, kind, num)\n")
    base = dict(FR, f1="float", f2="float")
    base.pop("fraction")
    for k, kn in KINDS:
        for fe in (1, 0):
            q = dict(base, kind=k)
            if not fe:
                q["fe"] = q["re"] = None
            ck.same("radii and index, interpolation %s, errors %s" % (kn, "given" if fe else "absent"), code, spec, q)
    ck.same("defaults", CORE + "def client(f1, f2, r, flux, rp):\n    a, b, c = calculate_concentration_index(f1, f2, r, flux, rp)\n    return a, b, c\n",
            REF + "def client(f1, f2, r, flux, rp):\n    return ref_concentration(f1, f2, r, flux, rp, None, None, 2.0, 0.99, 'cubic', 5000)\n",
            {k: base[k] for k in ("f1", "f2", "r", "flux", "rp")})


# ----------------------------------------------------------------------------------------- the class
ARR = {"r": "arr1,len=n", "area": "arr1,len=n", "flux": "arr1,len=n", "ae": "arr1,len=n", "fe": "arr1,len=n"}
SETS = {"eta": "float", "eps": "float", "ef": "float,pos", "tff": "float", "kind": "str", "num": "int,pos"}
OBJ = {**ARR, **SETS}
SIG = "r, area, flux, ae, fe, eta, eps, ef, tff, kind, num"
NEW = "Petrosian(r, area, flux, area_err=ae, flux_err=fe, eta=eta, epsilon=eps, epsilon_fraction=ef, total_flux_fraction=tff, interp_kind=kind, interp_num=num)"
REFNEW = "RefPetrosian(r, area, flux, ae, fe, eta, eps, ef, tff, kind, num)"
QUANT = [
    ("r_petrosian", "o.rp()[0]"), ("r_petrosian_err", "o.rp()[1]"), ("r_epsilon", "o.rp()[0] * o.epsilon"),
    ("r_epsilon_in_range", "bool(o.r.min() <= o.rp()[0] * o.epsilon and o.rp()[0] * o.epsilon <= o.r.max())"),
    ("r_total_flux", "o.frac(o.total_flux_fraction)[0]"), ("r_total_flux_err", "o.frac(o.total_flux_fraction)[1]"),
    ("r_half_light", "o.frac(0.5)[0]"), ("r_half_light_err", "o.frac(0.5)[1]"), ("r_50", "o.frac(0.5)[0]"), ("r_50_err", "o.frac(0.5)[1]"),
    ("c2080", "o.conc(0.2, 0.8)[2]"), ("c5090", "o.conc(0.5, 0.9)[2]"),
    ("total_flux", "o.flux_at(o.frac(o.total_flux_fraction)[0])"), ("half_flux", "o.flux_at(o.frac(0.5)[0])"),
]


def inputs(fe, ae=None, kind=True):
    q = dict(OBJ)
    if not fe:
        q["fe"] = None
    if not (fe if ae is None else ae):
        q["ae"] = None
    if not kind:
        q["kind"] = None
    return q


def p10(ck):
    new = ABSREF, REFNEW.replace("RefPetrosian", "AbsPetrosian")

    def obj(lab, sig, ret, ref, q):
        code = CORE + "def client(%s):\n    o = %s\n    %s\n" % (sig, NEW, ret)
        ck.either(
            lambda: ck.same(lab, code, ABSREF + "def client(%s):\n    o = %s\n    return %s\n" % (sig, REFNEW.replace("RefPetrosian", "AbsPetrosian"), ref),
                            q, raises=None, opts=ABS),
            lambda: ck.same(lab, code, REF + "def client(%s):\n    o = %s\n    return %s\n" % (sig, REFNEW, ref), q, raises=None, post=own_first_n))
    for fe, ae, kd in ((1, 1, 1), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 0, 0), (0, 0, 0)):
        q = inputs(fe, ae, kd)
        lab = "flux errors %s, area errors %s, interpolation %s" % ("given" if fe else "absent", "given" if ae else "absent", "given" if kd else "None")
        for name, ref in QUANT:
            obj("%s (%s)" % (name, lab), SIG, "return o." + name, ref, q)
        obj("radius of any fraction (%s)" % lab, SIG + ", frac", "return o.fraction_flux_to_r(frac), o.fraction_flux_to_r_err(frac)", "o.frac(frac)",
            dict(q, frac="float"))
        obj("concentration of any two fractions (%s)" % lab, SIG + ", f1, f2", "a, b, c = o.concentration_index(f1, f2)\n    return a, b, c", "o.conc(f1, f2)",
            dict(q, f1="float", f2="float"))
    q = inputs(1, 0, 1)
    for nm, rad in (("total_flux_err", "o.total_flux_fraction"), ("half_flux_err", "0.5")):
        ck.same("%s is undefined where the flux is, or without flux errors" % nm,
                CORE + "import numpy as np\ndef client(%s):\n    o = %s\n    return bool(np.isnan(o.%s))\n" % (SIG, NEW.replace("flux_err=fe", "flux_err=None"), nm),
                REF + "def client(%s):\n    return True\n" % SIG, inputs(0, 0, 1), raises=None)
    # arcsec forms
    imp = CORE + "from petrofit.utils import pixel_to_angular\nimport numpy as np\n"
    for nm, frac in (("r_half_light_arcsec", "o.r_half_light"), ("r_total_flux_arcsec", "o.r_total_flux")):
        ck.law("%s is the pixel radius in arcsec" % nm,
               imp + "def client(%s, wcs):\n    o = %s\n    v = %s\n    return o.%s(wcs), (np.nan if np.isnan(v) else pixel_to_angular(v, wcs).value)\n" % (
                   SIG, NEW, frac, nm), dict(inputs(0, 0, 1), wcs="obj:WCS"),
               opts={"override": {"petrofit.petrosian.core.fraction_to_r": abstract("fraction_to_r", 2)}})
    # defaults
    ck.law("default settings",
           CORE + "def client(r, area, flux):\n    o = Petrosian(r, area, flux)\n    return ((o.eta, 0.2), (o.epsilon, 2.0), (o.epsilon_fraction, 0.99), "
                  "(o.total_flux_fraction, 0.99), (o.interp_kind, 'cubic'), (o.interp_num, 5000))\n", {k: ARR[k] for k in ("r", "area", "flux")})
    ck.law("stored arrays and settings are the given ones",
           CORE + "def client(%s):\n    o = %s\n    return ((o.r_list, r), (o.area_list, area), (o.flux_list, flux), (o.area_err, ae), (o.flux_err, fe), "
                  "(o.eta, eta), (o.epsilon, eps), (o.epsilon_fraction, ef), (o.total_flux_fraction, tff), (o.interp_kind, kind), (o.interp_num, num))\n" % (
                      SIG, NEW), inputs(1, 1, 1))


ABS = {"override": {"petrofit.petrosian.core." + k: abstract(k, 2) for k in ("calculate_petrosian", "calculate_petrosian_r", "fraction_to_r")}}
SETTERS = [("eta", "eta"), ("epsilon", "eps"), ("epsilon_fraction", "ef"), ("total_flux_fraction", "tff"), ("interp_kind", "kind"), ("interp_num", "num")]
READS = [n for n, _ in QUANT] + ["total_flux_err", "half_flux_err"]


def p09(ck):
    sig2 = "r, area, flux, ae, fe, eta, eps, ef, tff, kind, num, eta2, eps2, ef2, tff2, kind2, num2"
    new2 = NEW
    for a, b in (("eta=eta", "eta=eta2"), ("epsilon=eps", "epsilon=eps2"), ("epsilon_fraction=ef", "epsilon_fraction=ef2"),
                 ("total_flux_fraction=tff", "total_flux_fraction=tff2"), ("interp_kind=kind", "interp_kind=kind2"), ("interp_num=num", "interp_num=num2")):
        new2 = new2.replace(a, b)
    more = {k + "2": v for k, v in SETS.items()}
    for fe in (1, 0):
        q = dict(inputs(fe, 0, 1), **more)
        lab = "with errors" if fe else "without errors"
        touch = "".join("    o.%s\n" % r for r in READS) + "    o.concentration_index()\n    o.fraction_flux_to_r(0.3)\n"
        setall = "".join("    o.%s = %s2\n" % (s, v) for s, v in SETTERS)
        for r in READS:
            ck.law("%s after reading everything and then changing every setting, %s" % (r, lab),
                   CORE + "def client(%s):\n    o = %s\n%s%s    return o.%s, %s.%s\n" % (sig2, NEW, touch, setall, r, new2, r), q, opts=ABS)
        for s, v in SETTERS:
            one = NEW.replace("%s=%s" % (s, v), "%s=%s2" % (s, v))
            pairs = ", ".join("(o.%s, f.%s)" % (r, r) for r in ("r_petrosian", "r_total_flux", "r_half_light_err", "total_flux", "c2080"))
            ck.law("changing only %s, %s" % (s, lab),
                   CORE + "def client(%s):\n    o = %s\n%s    o.%s = %s2\n    f = %s\n    return (%s)\n" % (sig2, NEW, touch, s, v, one, pairs), q, opts=ABS)
        # copies
        for kind_ in ("copy.copy", "copy.deepcopy"):
            pairs = ", ".join("(o.%s, f.%s)" % (r, r) for r in ("r_petrosian", "r_petrosian_err", "r_total_flux", "half_flux", "c5090", "eta", "epsilon"))
            ck.law("changing a %s leaves the original as it was, %s" % (kind_, lab),
                   CORE + "def client(%s):\n    o = %s\n    c = %s(o)\n%s    f = %s\n    return (%s)\n" % (
                       sig2, NEW, kind_, setall.replace("o.", "c."), NEW, pairs), q, opts=ABS)
            ck.law("a %s measures like a new object with its settings, %s" % (kind_, lab),
                   CORE + "def client(%s):\n    o = %s\n    o.r_total_flux\n    f = %s(o)\n%s    o = %s\n    return (%s)\n" % (
                       sig2, NEW, kind_, setall.replace("o.", "f."), new2, pairs), q, opts=ABS)
    q = dict(inputs(1, 0, 1))
    for m in ("plot()", "plot(plot_r=False)", "plot_cog()", "imshow()"):
        pairs = ", ".join("(o.%s, f.%s)" % (r, r) for r in ("r_petrosian", "r_total_flux", "half_flux", "c5090", "eta", "epsilon", "epsilon_fraction",
                                                            "total_flux_fraction", "interp_kind", "interp_num", "r_list", "flux_list", "area_list", "petrosian_list"))
        ck.law("%s leaves the object as it was" % m,
               CORE + "def client(%s):\n    o = %s\n    o.%s\n    f = %s\n    return (%s)\n" % (SIG, NEW, m, NEW, pairs), q)


RULES = {"P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08, "P09": p09, "P10": p10}
