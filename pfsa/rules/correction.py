"""P11-P14: correction grids and their use."""
from copy import copy
from fractions import Fraction
from ..terms import *
from ..facts import Facts, simplify
from ..harness import abstract
from .fitting import pure

C = "petrofit.petrosian.core."
CO = ("from petrofit.petrosian import *\nfrom petrofit.petrosian.core import calculate_petrosian, calculate_petrosian_r\n"
      "from petrofit.modeling.models import PSFConvolvedModel2D, sersic_enclosed, sersic_enclosed_inv\nfrom petrofit.modeling.fitting import model_to_image\n"
      "from petrofit.photometry import radial_photometry\nfrom astropy.modeling import models\nfrom astropy.table import Table\nfrom scipy.special import gammaincinv\nfrom scipy.interpolate import interp1d\nimport numpy as np\n")
CORE = {C + "calculate_petrosian": abstract("calculate_petrosian", nret=2, arr=True), C + "calculate_petrosian_r": abstract("calculate_petrosian_r", nret=2),
        C + "fraction_to_r": abstract("fraction_to_r", nret=2), C + "calculate_concentration_index": abstract("concentration", nret=3)}
TABLE = "obj:astropy.table.Table"
PET = {"r": "arr1", "a": "arr1", "f": "arr1"}

COLUMNS = ("n", "r_eff", "sersic_r_20", "sersic_r_80", "sersic_r_99", "sersic_L_inf", "p02", "p03", "p04", "p05", "p0502", "p0302", "u_epsilon", "u_epsilon_50",
           "u_epsilon_80", "u_r_50", "u_r_99", "u_r_20", "u_r_80", "u_c2080", "u_c5090", "c_epsilon", "c_epsilon_50", "c_epsilon_80", "c_r_50", "c_r_99", "c_r_20",
           "c_r_80", "c_c2080", "c_c5090")
REF = '''
def profile(r_eff, n):
    amplitude = 100 / np.exp(gammaincinv(2 * n, 0.5))
    total = sersic_enclosed(np.inf, amplitude=amplitude, r_eff=r_eff, n=n)
    return amplitude, total, sersic_enclosed_inv(total * 0.99, amplitude=amplitude, r_eff=r_eff, n=n)

def regime(r_eff, n):
    t = profile(r_eff, n)[2]
%s

def row(r_eff, n, psf, oversample, psf_oversample, R):
    amplitude, total, r_99 = profile(r_eff, n)
    sersic = {"n": n, "r_eff": r_eff, "sersic_L_inf": total, "sersic_r_99": r_99,
              "sersic_r_20": sersic_enclosed_inv(total * 0.99 * 0.2, amplitude=amplitude, r_eff=r_eff, n=n),
              "sersic_r_80": sersic_enclosed_inv(total * 0.99 * 0.8, amplitude=amplitude, r_eff=r_eff, n=n)}
    size = 2 * max(R)
    c = size // 2
    galaxy = models.Sersic2D(amplitude=amplitude, r_eff=r_eff, n=n, x_0=c, y_0=c, ellip=0., theta=0.)
    image = model_to_image(PSFConvolvedModel2D(galaxy, psf=psf, oversample=oversample, psf_oversample=psf_oversample), size, center=(c, c))
    flux, area, err = radial_photometry(image, (c, c), R)
    p = Petrosian(R, area, flux)
    index = np.unique(flux, return_index=True)[1]
    growth = interp1d(flux[index], R[index], kind="linear")
    q = Petrosian(R, area, flux, epsilon=growth(total * 0.99) / p.r_petrosian)
    petrosian = calculate_petrosian(area, flux)[0]
    for eta, name in ((0.2, "p02"), (0.3, "p03"), (0.4, "p04"), (0.5, "p05")):
        sersic[name] = calculate_petrosian_r(R, petrosian, eta=eta)[0]
    sersic["p0502"] = 5 * np.log10(sersic["p02"] / sersic["p05"])
    sersic["p0302"] = 5 * np.log10(sersic["p02"] / sersic["p03"])
    for k, x in (("u", p), ("c", q)):
        for f, name in ((0.2, "20"), (0.5, "50"), (0.8, "80")):
            sersic[k + "_r_" + name] = x.fraction_flux_to_r(f)
        sersic[k + "_r_99"] = x.r_total_flux
        sersic[k + "_c2080"] = x.concentration_index(0.2, 0.8)[2]
        sersic[k + "_c5090"] = x.concentration_index(0.5, 0.9)[2]
        sersic[k + "_epsilon_50"] = x.fraction_flux_to_r(0.5) / p.r_petrosian
    sersic["u_epsilon"] = p.epsilon
    sersic["c_epsilon"] = growth(total * 0.99) / p.r_petrosian
    sersic["u_epsilon_80"] = p.fraction_flux_to_r(0.8) / p.r_petrosian
    sersic["c_epsilon_80"] = growth(total * 0.99 * 0.8) / p.r_petrosian
    return sersic
'''
REGIMES = (("extended profiles", "    if n < 2 or t * 1.3 >= 200:\n        raise ValueError\n"),
           ("large extended profiles", "    if n < 2 or t * 1.3 < 200:\n        raise ValueError\n"),
           ("compact profiles", "    if n >= 2 or r_eff < 7 or t * 3 >= 200:\n        raise ValueError\n"),
           ("large compact profiles", "    if n >= 2 or r_eff < 7 or t * 3 < 200:\n        raise ValueError\n"),
           ("small profiles", "    if n >= 1 or r_eff >= 7 or t * 50 >= 200:\n        raise ValueError\n"),
           ("small cored profiles on a long radius list", "    if n >= 1 or r_eff >= 7 or t * 50 < 200:\n        raise ValueError\n"))


class Seen:
    """the photometry of the simulated image: stands for itself, and records what it was asked to measure"""

    def __init__(self, image=False):
        self.calls, self.image = [], image

    def __call__(self, it, f, args, kwargs):
        from ..values import VTuple
        env = it.bindargs(f, list(args), dict(kwargs))
        self.calls.append({k: it.t(v) for k, v in env.items()})
        keep = ("r_list", "error", "mask", "elong", "theta", "method") + (("image", "position") if self.image else ())
        d = self.calls[-1]
        if d["position"].op == "vec":
            d["position"] = mk("tuple", d["position"].args[0])
        call = mk("apply", "radial_photometry", tuple((k, d[k]) for k in keep))
        return VTuple([it.new(mk("getitem", call, num(i)), ("call", "phot")) for i in range(3)])


def setup(seen):
    ov = dict(CORE)
    ov["petrofit.photometry.radial_photometry"] = seen
    ov["petrofit.modeling.models.sersic_enclosed_inv"] = abstract("sersic_enclosed_inv")
    ov["petrofit.modeling.models.sersic_enclosed"] = abstract("sersic_enclosed")
    return {"override": ov}


def measured(ck, seen, text, params):
    """radius list the simulation measures on (an implementation choice the reference takes over)"""
    seen.calls[:] = []
    o = ck.run(text, params, opts=setup(seen))
    rs = {c["r_list"] for c in seen.calls}
    return (o, next(iter(rs))) if len(rs) == 1 else (o, None)


def part(o, i):
    """one component of a tuple that was returned"""
    p = copy(o)
    if o.value is not None and o.value.op == "tuple":
        p.value = o.value.args[0][i]
    p.v = None
    return p


CONFIG = (("default", {}, "('x_0', 'y_0', 10, 50), None", ""), ("PSF", {"psf": "arr2"}, "('x_0', 'y_0', 10, 50), None", ", psf=psf"),
          ("PSF and oversampling", {"psf": "arr2", "os": "int,pos"}, "os, None", ", psf=psf, oversample=os"),
          ("oversampled PSF", {"psf": "arr2", "os": "int,pos", "po": "int,pos"}, "os, po", ", psf=psf, oversample=os, psf_oversample=po"),
          ("no oversampling", {"psf": "arr2"}, "None, None", ", psf=psf, oversample=None"))


def rows(ck, columns, configs, regimes, image, what):
    for rn, cond in regimes:
        for cn, extra, ref, kw in configs:
            P = dict({"a": "float,pos", "n": "float,pos"}, **extra)
            names = ", ".join(P)
            head = CO + REF % cond
            psf = "psf" if "psf" in P else "None"
            seen = Seen(image)
            text = head + "def client(%s):\n    regime(a, np.round(n, 6))\n    t = generate_petrosian_sersic_correction(None, r_eff_list=[a], n_list=[n]%s)\n    return tuple(t[c][0] for c in %r)\n" % (names, kw, columns)
            o, R = measured(ck, seen, text, P)
            if not o.unsup and o.value is None and o.raises:
                ck.holds("a row is generated", "%s, %s, %s" % (what, rn, cn), False, "no path returns a grid: %s" % str([show(e, 4) for g, e, s_, st in o.raises][:1])[:200], ck.raise_site(o), o)
                continue
            if o.unsup or R is None or o.value is None:
                ck.holds("row analysed", "%s, %s, %s" % (what, rn, cn), None, str(o.unsup or "no value or more than one photometry"), "", o)
                continue
            so = ck.run(head + "def client(%s, R):\n    regime(a, np.round(n, 6))\n    d = row(a, np.round(n, 6), %s, %s, R)\n    return tuple(d[c] for c in %r)\n" % (names, psf, ref, columns),
                        dict(P, R=R), opts=setup(Seen(image)), count=False)
            for i, col in enumerate(columns):
                ck.outcome("%s: %s, %s, column %s" % (what, rn, cn, col), part(o, i), part(so, i), raises=None, rule="column of the grid row")


def p11(ck):
    rows(ck, COLUMNS, CONFIG[:1], REGIMES, False, "grid row")
    rows(ck, COLUMNS, (("plots", {}, "('x_0', 'y_0', 10, 50), None", ", plot=True"),), REGIMES[:1], False, "grid row")
    # order of the rows, and the other ways of asking for them
    P = {k: "float,pos" for k in "abcd"}
    for nm, kw in (("one process", ""), ("several processes", ", n_cpu=4"), ("one process, explicitly", ", n_cpu=1")):
        for col, ref in (("n", [3, 3, 3, 1, 1, 1, 3, 3, 3]), ("r_eff", [20, 10, 20] * 3)):
            ck.same("rows are ordered as asked for, repeats included (%s, column %s)" % (nm, col),
                    CO + "def client():\n    return np.array(generate_petrosian_sersic_correction(None, r_eff_list=[20, 10, 20], n_list=[3, 1, 3]%s)[%r])\n" % (kw, col),
                    CO + "def client():\n    return np.array(%r)\n" % ref, {}, opts=dict(setup(Seen()), override=dict(setup(Seen()).get("override", {}), **{"petrofit.petrosian.correction._generate_petrosian_correction": named_row})), raises=None)
        for col, ref in (("n", "np.array([np.round(c, 6), np.round(c, 6), np.round(d, 6), np.round(d, 6)])"), ("r_eff", "np.array([a, b, a, b])")):
            for lists in ("r_eff_list=[a, b], n_list=[c, d]", "r_eff_list=np.array([a, b]), n_list=np.array([c, d])"):
                ck.same("rows are ordered by index, then radius (%s, %s, column %s)" % (nm, "lists" if "np" not in lists else "arrays", col),
                        CO + "def client(a, b, c, d):\n    return np.array(generate_petrosian_sersic_correction(None, %s%s)[%r])\n" % (lists, kw, col),
                        CO + "def client(a, b, c, d):\n    return %s\n" % ref, P, opts=setup(Seen()), raises=None)
    o = ck.run(CO + "def client(a, c):\n    return generate_petrosian_sersic_correction(None, r_eff_list=[a], n_list=[c])\n", {"a": "float,pos", "c": "float,pos"}, opts=setup(Seen()))
    cols = None
    if not o.unsup and o.value is not None and o.value.op == "table":
        cols = [k if isinstance(k, str) else k.args[0] for k, v in o.value.args[0]]
    for c in COLUMNS:
        ck.holds("column present", "the grid has a column %s" % c, None if cols is None else c in cols, "columns: %s" % (cols,), "generate_petrosian_sersic_correction", o)


def more_raises(ck, label, many, one):
    if many.unsup or one.unsup:
        return ck.holds("no further exceptions", label, None, str(many.unsup or one.unsup), "generate_petrosian_sersic_correction", many)
    known = {str(r[1].args[0]) for r in one.raises}
    new = [r for r in many.raises if r[0] is not FALSE and str(r[1].args[0]) not in known]
    ck.holds("no further exceptions", label, not new, "; ".join("%s raised at %s:%s" % (r[1].args[0], r[2][0], r[2][1]) for r in new[:3]),
             ck.loc(new[0][2]) if new else "generate_petrosian_sersic_correction", many)


def same_tables(ck, label, many, one):
    rule = "the rows of a table do not depend on the number of processes"

    def columns(o):
        if o.unsup or o.value is None or o.value.op != "table":
            return None
        return {k if isinstance(k, str) else k.args[0]: v for k, v in o.value.args[0]}
    a, b = columns(many), columns(one)
    for c in ("n", "r_eff"):
        if a and b and c in a and c in b:
            x, y = copy(many), copy(one)
            x.value, y.value, x.v, y.v = a[c], b[c], None, None
            if ck.outcome("%s, column %s" % (label, c), x, y, raises=None, rule=rule).status == "violated":
                return
    ck.outcome(label, many, one, raises=None, rule=rule)


def p44(ck):
    P = {k: "float,pos" for k in "abcd"}
    gen = CO + "def client(a, b, c, d%s):\n    return generate_petrosian_sersic_correction(None, r_eff_list=[a, b], n_list=[c, d]%s)\n"
    for cn, extra, _, kw in CONFIG:
        Q = dict(P, **extra)
        ex = "".join(", " + k for k in extra)
        one = ck.run(gen % (ex, kw), Q, opts=setup(Seen()), count=False)
        for nm, cpu in (("two processes", 2), ("four processes", 4), ("one process, explicitly", 1)):
            many = ck.run(gen % (ex, kw + ", n_cpu=%d" % cpu), Q, opts=setup(Seen()))
            same_tables(ck, "same table from %s (%s)" % (nm, cn), many, one)
            more_raises(ck, "nothing else is raised by %s (%s)" % (nm, cn), many, one)
    many_k = (CO + "def client(a, b, c, d, k):\n    if k < 2:\n        raise ValueError\n"
              "    return generate_petrosian_sersic_correction(None, r_eff_list=[a, b], n_list=[c, d]%s)\n")
    one = ck.run(many_k % "", dict(P, k="int,pos"), opts=setup(Seen()), count=False)
    many = ck.run(many_k % ", n_cpu=k", dict(P, k="int,pos"), opts=setup(Seen()))
    same_tables(ck, "same table from any number of processes", many, one)


def p12(ck):
    rows(ck, ("u_r_50", "c_epsilon", "u_r_99"), CONFIG, REGIMES[:1] + REGIMES[3:4], True, "simulated image")
    rows(ck, ("sersic_L_inf", "sersic_r_99", "sersic_r_20", "sersic_r_80"), CONFIG[:1], REGIMES[:1], True, "analytic profile")
    # the centre of the model is where the photometry is centred, in image pixels
    for cn, extra, ref, kw in CONFIG:
        P = dict({"a": "float,pos", "n": "float,pos"}, **extra)
        seen = Seen(True)
        o, R = measured(ck, seen, CO + REF % REGIMES[0][1] + "def client(%s):\n    regime(a, np.round(n, 6))\n    t = generate_petrosian_sersic_correction(None, r_eff_list=[a], n_list=[n]%s)\n    return t['n'][0]\n" % (", ".join(P), kw), P)
        ok, why = None, str(o.unsup)
        if not o.unsup and R is not None:
            c = seen.calls[-1]
            img = c["image"]
            gal = [s for s in subterms(img) if s.op == "call" and s.args[0].endswith("Sersic2D")]
            if img.op == "call" and img.args[0].endswith("discretize_model") and len(gal) == 1 and c["position"].op == "tuple":
                d, m = dict(img.args[1]), dict(gal[0].args[1])
                ok, why = True, ""
                for rng, x0, pos in (("x_range", "x_0", 0), ("y_range", "y_0", 1)):
                    lo = d[rng].args[0][0]
                    diff = sub(add(lo, c["position"].args[0][pos]), m[x0])
                    if diff is not ZERO:
                        ok, why = False if is_num(diff) else None, "window starts at %s, photometry at %s, model at %s" % (show(lo, 3), show(c["position"].args[0][pos], 3), show(m[x0], 3))
        ck.holds("centre of the model = origin of the window + position of the aperture", "the photometry is centred on the model (%s)" % cn, ok, why, "_generate_petrosian_correction", o)


def cols(t):
    """a column of the grid is its values"""
    def fn(x):
        if x.op == "attr" and x.args[1] in ("value", "data") and x.args[0].op == "getitem":
            return rewrite(x.args[0], fn)
        return None
    return rewrite(t, fn)


CASES = ((0.5, "c_r_50"), (0.8, "c_r_80"), (0.99, "c_r_99"))
ETAS = ((0.2, "p02"), (0.3, "p03"), (0.4, "p04"), (0.5, "p05"))
ROW = '''
def nearest(g, p):
    x = calculate_petrosian_r(p.r_list, p.petrosian_list, eta=0.2)[0]
    y = p.fraction_flux_to_r(0.5)
    z = p.concentration_index(0.2, 0.8)[2]
    d = 0
    for v, c in ((x, "p02"), (y, "u_r_50"), (z, "u_c2080")):
        d = d + ((g[c].value - v) / np.std(g[c].value)) ** 2
    return g[np.argmin(np.sqrt(d))]

def inside(g, p):
    x = calculate_petrosian_r(p.r_list, p.petrosian_list, eta=0.2)[0]
    y = p.fraction_flux_to_r(0.5)
    z = p.concentration_index(0.2, 0.8)[2]
    for v, c in ((x, "p02"), (y, "u_r_50"), (z, "u_c2080")):
        if not (v >= np.min(g[c].value) and v <= np.max(g[c].value)):
            raise AssertionError
'''
PETC = "    p = Petrosian(r, a, f%s)\n"


def p13(ck):
    o_ = {"override": dict(CORE)}
    base = dict({"g": TABLE}, **PET)
    for ef, rc in CASES:
        for eta, pc in ETAS:
            kw = ", eta=%s, epsilon_fraction=%s, epsilon=e" % (eta, ef)
            P = dict(base, e="float,pos")
            head = "def client(g, r, a, f, e):\n" + PETC % kw + "    k = PetrosianCorrection(g, enforce_range=False)\n"
            ck.same("epsilon for fraction %s, eta %s" % (ef, eta), CO + ROW + head + "    return k.estimate_epsilon(p)\n",
                    CO + ROW + head + "    row = nearest(g, p)\n    return row[%r] / row[%r]\n" % (rc, pc), P, opts=o_, post=cols)
            ck.same("corrected object for fraction %s, eta %s" % (ef, eta),
                    CO + ROW + head + "    q = k.correct(p)\n    return q.epsilon, q.eta, q.epsilon_fraction, q.total_flux_fraction, q.r_petrosian, q.r_epsilon, q.r_total_flux, q.total_flux, q is p, p.epsilon, p.r_epsilon, p.r_total_flux\n",
                    CO + ROW + head + "    row = nearest(g, p)\n    q = Petrosian(r, a, f, eta=%s, epsilon_fraction=%s, epsilon=row[%r] / row[%r])\n"
                    "    return q.epsilon, q.eta, q.epsilon_fraction, q.total_flux_fraction, q.r_petrosian, q.r_epsilon, q.r_total_flux, q.total_flux, False, e, p.r_epsilon, p.r_total_flux\n" % (eta, ef, rc, pc),
                    P, opts=o_, post=cols)
    head = "def client(g, r, a, f, eta, ef, tf):\n" + PETC % ", eta=eta, epsilon_fraction=ef, total_flux_fraction=tf" + "    k = PetrosianCorrection(g, enforce_range=False)\n"
    P = dict(base, eta="float", ef="float", tf="float")
    for nm, call in (("estimate_epsilon", "k.estimate_epsilon(p)"), ("correct", "k.correct(p).epsilon")):
        ck.same("any setting: %s is the matching one or raises" % nm, CO + ROW + head + "    return %s\n" % call,
                CO + ROW + head + "    row = nearest(g, p)\n    for x, c in ((0.5, 'c_r_50'), (0.8, 'c_r_80'), (0.99, 'c_r_99')):\n        for y, d in ((0.2, 'p02'), (0.3, 'p03'), (0.4, 'p04'), (0.5, 'p05')):\n"
                "            if ef == x and eta == y:\n                return row[c] / row[d]\n    raise ValueError\n", P, opts=o_, post=cols)
        ck.same("any other setting is a ValueError (%s)" % nm, CO + ROW + head + "    return %s\n" % call,
                CO + ROW + head + "    row = nearest(g, p)\n    for x in (0.5, 0.8, 0.99):\n        for y in (0.2, 0.3, 0.4, 0.5):\n"
                "            if ef == x and eta == y:\n                return 0\n    raise ValueError\n", P, opts=o_, post=cols, raises=("ValueError",), value=False)
    ck.same("the index estimate comes from the same row", CO + ROW + "def client(g, r, a, f):\n" + PETC % "" + "    k = PetrosianCorrection(g, False)\n    return k.estimate_n(p), k.estimate_epsilon(p)\n",
            CO + ROW + "def client(g, r, a, f):\n" + PETC % "" + "    row = nearest(g, p)\n    return row['n'], row['c_r_99'] / row['p02']\n", base, opts=o_, post=cols)
    ck.same("total_flux_fraction survives the correction", CO + ROW + "def client(g, r, a, f, tf):\n" + PETC % ", total_flux_fraction=tf" + "    k = PetrosianCorrection(g, False)\n    q = k.correct(p)\n    return q.total_flux_fraction, q.epsilon\n",
            CO + ROW + "def client(g, r, a, f, tf):\n" + PETC % ", total_flux_fraction=tf" + "    row = nearest(g, p)\n    return tf, row['c_r_99'] / row['p02']\n", dict(base, tf="float"), opts=o_, post=cols)
    for nm, call in (("correct", "k.correct(p)"), ("estimate_epsilon", "k.estimate_epsilon(p)"), ("estimate_n", "k.estimate_n(p)")):
        t = CO + "def client(g, r, a, f):\n" + PETC % "" + "    k = PetrosianCorrection(g, enforce_range=False)\n    before = (p.epsilon, p.eta, p.epsilon_fraction, p.r_petrosian, p.r_total_flux, p.total_flux)\n    %s\n    return before, (p.epsilon, p.eta, p.epsilon_fraction, p.r_petrosian, p.r_total_flux, p.total_flux)\n" % call
        ck.law("%s leaves the object alone" % nm, t, base, opts=o_)
        pure(ck, "%s writes to no array" % nm, t, base, opts=o_)
    ck.law("correcting twice gives the same", CO + "def client(g, r, a, f):\n" + PETC % "" + "    k = PetrosianCorrection(g, enforce_range=False)\n    return k.correct(p).epsilon, (k.correct(p), k.correct(p))[1].epsilon\n", base, opts=o_)


def p14(ck):
    o_ = {"override": dict(CORE)}
    P = dict({"g": TABLE, "e": "float,pos", "eta": "float,pos"}, **PET)
    for en in (False, True, None):
        k = "    k = PetrosianCorrection(g%s)\n" % ("" if en is None else ", enforce_range=%s" % en)
        head = "def client(g, e, eta, r, a, f):\n" + PETC % ", eta=eta, epsilon=e" + k
        chk = "" if en is False else "    inside(g, p)\n"
        ck.same("row behind estimate_n, range %s" % ("not enforced" if en is False else "enforced"), CO + ROW + head + "    return k.estimate_n(p)\n",
                CO + ROW + head + chk + "    return nearest(g, p)['n']\n", P, opts=o_, post=cols)
        head = "def client(g, r, a, f):\n" + PETC % "" + k
        ck.same("row behind estimate_epsilon, range %s" % ("not enforced" if en is False else "enforced"), CO + ROW + head + "    return k.estimate_epsilon(p)\n",
                CO + ROW + head + chk + "    row = nearest(g, p)\n    return row['c_r_99'] / row['p02']\n", dict({"g": TABLE}, **PET), opts=o_, post=cols)
    ck.same("range enforcement switched afterwards", CO + ROW + "def client(g, r, a, f):\n" + PETC % "" + "    k = PetrosianCorrection(g)\n    k.enforce_range = False\n    return k.estimate_n(p)\n",
            CO + ROW + "def client(g, r, a, f):\n" + PETC % "" + "    return nearest(g, p)['n']\n", dict({"g": TABLE}, **PET), opts=o_, post=cols)
    ck.same("a grid read from a file", CO + ROW + "def client(path, fmt, r, a, f):\n" + PETC % "" + "    return PetrosianCorrection.read(path, fmt).estimate_n(p)\n",
            CO + ROW + "def client(path, fmt, r, a, f):\n" + PETC % "" + "    g = Table.read(path, format=fmt)\n    inside(g, p)\n    return nearest(g, p)['n']\n", dict({"path": "str", "fmt": "any"}, **PET), opts=o_, post=cols)
    ck.same("rows of a parameter value", CO + "def client(g, v):\n    return PetrosianCorrection(g).filter_grid('n', v)\n", CO + "def client(g, v):\n    return g[np.where(g['n'] == v)]\n", {"g": TABLE, "v": "float"}, post=cols)
    ck.same("values of a parameter", CO + "def client(g, c):\n    k = PetrosianCorrection(g)\n    return k.unique_grid_values(c), k.grid_keys\n", CO + "def client(g, c):\n    return np.array(np.unique(g[c])), g.colnames\n", {"g": TABLE, "c": "str"}, post=cols)
    for nm, kind_ in (("text", "str"), ("None", None), ("array", "arr2")):
        P = {"g": kind_} if kind_ else {}
        o = ck.run(CO + "def client(%s):\n    return PetrosianCorrection(%s)\n" % (", ".join(P), "g" if P else "None"), P)
        ck.holds("every path raises", "a grid that is no table is rejected (%s)" % nm, None if o.unsup else o.value is None and bool(o.raises), "accepted", "PetrosianCorrection", o)


def named_row(it, f, args, kwargs):
    """one grid row, of which only the index and the radius it is for are looked at"""
    from ..values import VTuple
    a = list(it.iterlist(it.resolve(args[0])))
    return VTuple([a[1], a[0]] + [const("unlooked")] * (len(COLUMNS) - 2))


def abstract_row(it, f, args, kwargs):
    """one grid row: thirty values that depend on the row's arguments (P11 decides them)"""
    from ..values import VTuple
    env = it.bindargs(f, list(args), dict(kwargs))
    call = mk("apply", "row", tuple((k, it.t(v)) for k, v in sorted(env.items())))
    return VTuple([mk("getitem", call, num(i)) for i in range(len(COLUMNS))])


def announced(ck, label, o, when, func):
    """a message is given on the path `when` selects"""
    w = [e for e in o.events if e.kind in ("warn", "print") or e.kind == "extcall" and str(e.data[0]).startswith(("logging.", "method:warn", "method:error", "method:info"))]
    hit = None if o.unsup else any(when(e) for e in w)
    ck.holds("a message on the failing path", label, hit, "no message is given", func, o)


def grid_save(ck):
    """P35: saving a grid"""
    ov = {"override": {"petrofit.petrosian.correction._generate_petrosian_correction": abstract_row}}
    P = {"a": "float,pos", "b": "float,pos", "n": "float,pos", "s": "str", "ow": "bool", "fmt": "str", "psf": "arr2"}
    call = "generate_petrosian_sersic_correction(%s, psf=psf, r_eff_list=[a, b], n_list=[n]%s)"
    for kn, kw in (("", ""), (" with a format", ", out_format=fmt, overwrite=ow")):
        for i, c in enumerate(COLUMNS):
            if i % 6 and kw:
                continue
            ck.same("the grid is returned whether or not it can be saved%s: column %s" % (kn, c),
                    CO + "def client(a, b, n, s, ow, fmt, psf):\n    t = %s\n    return tuple(t[%r])\n" % (call % ("s", kw), c),
                    CO + "def client(a, b, n, s, ow, fmt, psf):\n    t = %s\n    return tuple(t[%r])\n" % (call % ("None", ""), c), P, opts=ov)
        o = ck.run(CO + "def client(a, b, n, s, ow, fmt, psf):\n    return %s\n" % (call % ("s", kw)), P, opts=ov)
        announced(ck, "a failed write%s" % kn, o, lambda e: any(x.op == "raised" for l in e.pc for x in subterms(l)), "generate_petrosian_sersic_correction")
        wr = [e for e in o.events if e.kind == "extcall" and e.data[0] == "method:write"]
        if o.unsup:
            ck.holds("write analysed", "the grid is written%s" % kn, None, o.unsup, "", o)
            continue
        ck.holds("the table is written once", "the grid is written%s" % kn, len(wr) == 1, "%d writes" % len(wr), "generate_petrosian_sersic_correction", o)
        for e in wr[:1]:
            txt = show(e.data[1], 3000)
            ok = o.args is not None and all(any(y is o.args[k] for y in subterms(e.data[1])) for k in (("s", "ow", "fmt") if kw else ("s",)))
            ck.holds("the write gets the caller's name, format and overwrite choice", "write arguments%s" % kn, ok, "written with %s" % txt[-160:], "generate_petrosian_sersic_correction", o)
    o = ck.run(CO + "def client(a, b, n, psf):\n    return %s\n" % (call % ("None", "")), {k: P[k] for k in ("a", "b", "n", "psf")}, opts=ov)
    wr = [e for e in o.events if e.kind == "extcall" and e.data[0] == "method:write"]
    ck.holds("no write without a file name", "no file name", None if o.unsup else not wr, "a file is written", "generate_petrosian_sersic_correction", o)


def psf_sum(ck):
    """P35: the PSF sum only warns"""
    ov = {"override": {"petrofit.petrosian.correction._generate_petrosian_correction": abstract_row}}
    cases = (("model made", "def client(psf):\n    return PSFConvolvedModel2D(models.Sersic2D(), psf=psf).psf\n", "PSFConvolvedModel2D"),
             ("PSF replaced", "def client(psf):\n    m = PSFConvolvedModel2D(models.Sersic2D())\n    m.psf = psf\n    return m.psf\n", "PSFConvolvedModel2D.psf"),
             ("grid", "def client(psf):\n    return tuple(generate_petrosian_sersic_correction(None, psf=psf, r_eff_list=[10], n_list=[1])['n'])\n", "generate_petrosian_sersic_correction"))
    for nm, text, func in cases:
        o = ck.run(CO + text, {"psf": "arr2"}, opts=ov)
        if o.unsup:
            ck.holds("analysed", "PSF sum: %s" % nm, None, o.unsup, "", o)
            continue
        ck.holds("no exception", "PSF of any sum: %s" % nm, not o.raises, "raises %s" % [show(e, 4) for g, e, s_, st in o.raises][:1], ck.raise_site(o), o)
        for v, word in (("1.01", True), ("0.99", True), ("0", True), ("1", False)):
            at = lambda t: rewrite(t, lambda x: num(Fraction(v)) if x.op == "asum" and x.args[0].op in ("sym", "arr") else None)
            said = [simplify(at(and_(*e.pc)), Facts()) for e in o.events if e.kind == "warn"]
            ok = any(x is TRUE for x in said) if word else all(x is FALSE for x in said)
            if not ok and (any(x not in (TRUE, FALSE) for x in said)):
                ok = None
            ck.holds("a warning exactly when the sum differs from 1", "PSF of sum %s: %s" % (v, nm), ok,
                     "no warning is given" if word else "a warning is given", func, o)


RULES = {"P11": p11, "P12": p12, "P13": p13, "P14": p14, "P44": p44}
