"""P39: what is printed. Every print reached on a path is an event of that path; the values it quotes are compared with those of a
reference that prints the measured quantities."""
import re
from ..terms import *
from ..facts import Facts
from ..harness import abstract
from .. import equal
from .entries import HEAD, SEG
from .figures import possible

RULE = "printed lines quote the measured values"
PR = HEAD + "import matplotlib.pyplot as plt\n"


class Line:
    def __init__(self, e):
        self.site, self.cond = e.site, and_(*e.pc)
        self.vals, self.text, self.odd = [], "", False
        for i, t in enumerate(e.data):
            if i:
                self.text += " "
            self.take(t)
        self.key = "".join(c if c.isalpha() else " " for c in self.text.lower()).split()

    def take(self, t, spec=""):
        if not isinstance(t, Term):
            self.odd = True
        elif t.op == "str":
            for x in t.args:
                self.take(x) if isinstance(x, Term) else self.add(x)
        elif t.op == "fmt":
            a = t.args[0]
            if isinstance(a, Term) and a.op == "const" and isinstance(a.args[0], str):
                self.text += a.args[0]
            else:
                self.vals.append((a, t.args[1] if len(t.args) > 1 else ""))
                self.text += " "
        elif t.op == "const" and isinstance(t.args[0], str):
            self.text += t.args[0]
        elif t.op == "ite":
            self.odd = True
        else:
            self.vals.append((t, spec))
            self.text += " "

    def add(self, x):
        if isinstance(x, str):
            self.text += x
        elif isinstance(x, tuple):
            for y in x:
                self.take(y) if isinstance(y, Term) else self.add(y)
        else:
            self.odd = True


def lines(o):
    out = []
    for e in o.events:
        if e.kind == "print" and possible(list(o.base) + list(e.pc)):
            out.append(Line(e))
    return [l for l in out if l.vals or l.key or l.odd]


def decimals(spec):
    m = re.fullmatch(r"[<>=^]?[ +-]?\d*\.?(\d+)?([a-zA-Z])?", spec) if isinstance(spec, str) else None
    return m.groups() if m else None


def same(a, b, post=None):
    (x, fx), (y, fy) = a, b
    if post:
        x, y = post(x), post(y)
    if x is not y:
        s = equal.compare(x, y, Facts(), vocab=equal.tokens(y) | equal.tokens(x)).status
        if s != "eq":
            return False if s == "diff" else None
    if fy and decimals(fx if isinstance(fx, str) else "?") != decimals(fy):
        return False if isinstance(fx, str) and decimals(fx) else None
    return True


def report(ck, label, code, spec, params, opts=None, post=None, order=True, named=True):
    co, so = ck.run(code, params, opts=opts), ck.run(spec, params, opts=opts, count=False)
    if co.unsup or so.unsup:
        return ck.holds(RULE, label, None, "not analysable: %s" % (co.unsup or so.unsup), "", co)
    got, want = lines(co), lines(so)
    if not want:
        return ck.holds("nothing is printed unless it is asked for", label, not got, "prints %r" % (got[0].text.strip() if got else ""), ck.loc(got[0].site) if got else "", co)
    if any(l.odd for l in got):
        return ck.holds(RULE, label, None, "a printed line is not of a form the rule knows", "", co)
    dead = [l for l in got if not possible(list(co.base) + [l.cond])]
    part = next((l for l in got if possible(list(co.base) + [co.pc, not_(l.cond)])), None)
    by = {tuple(l.key): l for l in got}
    for n, w in enumerate(want):
        what = "%s: %s" % (label, w.text.strip() or n)
        g = by.get(tuple(w.key)) if named else got[n] if n < len(got) else None
        if g is None:
            # worded differently: the values decide
            g = next((l for l in got if len(l.vals) == len(w.vals) and all(same(a, b, post) for a, b in zip(l.vals, w.vals))), None)
            if g is None:
                flat = [v for l in got for v in l.vals]
                lost = next((v for v in w.vals if not any(same(x, v, post) is not False for x in flat)), None)
                ck.holds(RULE, what, False if lost is not None or len(got) < len(want) else None, "%s is never printed" % (show(lost[0], 3)[:100] if lost is not None else "this line"), "", co)
                continue
        a, b = list(g.vals), list(w.vals)
        if len(a) != len(b):
            miss = next((v for v in b if not any(same(x, v, post) is not False for x in a)), None)
            ck.holds(RULE, what, False if miss is not None else None, "prints %s" % "; ".join(show(v[0], 3)[:60] for v in a), ck.loc(g.site), co)
            continue
        if order:
            res = [same(x, y, post) for x, y in zip(a, b)]
        else:
            res = []
            for y in b:
                s = [same(x, y, post) for x in a]
                res.append(True if True in s else None if None in s else False)
        ck.holds(RULE, what, False if False in res else None if None in res else True, "prints %s" % "; ".join("%s%s" % (show(v[0], 3)[:60], " as " + v[1] if isinstance(v[1], str) and v[1] else "") for v in a), ck.loc(g.site), co)
    ck.holds("every line is printed whenever the report is", label, part is None or None, "one line is printed only when %s" % (show(part.cond, 3)[:120] if part else ""), ck.loc(part.site) if part else "", co)


MODEL = """
class Fitted:
    def __init__(self, names, values):
        self.param_names = tuple(names)
        self.parameters = np.array(list(values))
"""


def p39(ck):
    from .fitting import paramvalue
    k = {c: "str" for c in "abc"} | {c: "float" for c in "xyz"}
    s = "def client(a, b, c, x, y, z):\n    m = Fitted((a, b, c), (x, y, z))\n"
    P = "from petrofit.modeling.fitting import print_model_params\n"
    report(ck, "print_model_params", PR + P + MODEL + s + "    print_model_params(m)\n",
           PR + MODEL + s + "    for n in range(3):\n        print('{:0.4f}\\t{}'.format(m.parameters[n], m.param_names[n]))\n", k, order=False, named=False)
    fi = "petrofit.modeling.fitting."
    ov = {"override": {fi + "fit_gaussian2d": abstract("fit_gaussian2d"), fi + "plot_fit": abstract("plot_fit", 4)}}
    ref = """def client(image):
    g = fit_gaussian2d(image)
    k = 2 * np.sqrt(2 * np.log(2))
    print('Image Max: {}'.format(image.max()))
    print('Amplitude: {}'.format(g.amplitude.value))
    print('Center: ({}, {})'.format(g.x_mean.value, g.y_mean.value))
    print('Sigma = ({}, {})'.format(g.x_stddev.value, g.y_stddev.value))
    print('Mean FWHM: {} Pix'.format(int(np.round(np.mean([g.x_stddev * k, g.y_stddev * k])))))
    print('FWHM: (x={}, y={}) Pix'.format(g.x_stddev * k, g.y_stddev * k))
"""
    for kw in ("", ", plot=False", ", plot=True, printout=True"):
        report(ck, "measure_fwhm(image%s)" % kw, PR + "def client(image):\n    measure_fwhm(image%s)\n" % kw, PR + ref, {"image": "arr2"}, ov, post=paramvalue)
    for kw in ("printout=False", "plot=False, printout=False"):
        report(ck, "measure_fwhm(%s)" % kw, PR + "def client(image):\n    measure_fwhm(image, %s)\n" % kw, PR + "def client(image):\n    pass\n", {"image": "arr2"}, ov)
    silent(ck)


def silent(ck):
    """the measurements themselves print nothing"""
    from .segmentation import SE, photometry, segopts, CAT
    from .figures import CORE, PAR, NEW
    no = "    pass\n"
    k = {c: PAR[c] for c in "r area flux ae fe eta eps ef tff".split()}
    s = "def client(r, area, flux, ae, fe, eta, eps, ef, tff):\n"
    use = "    " + NEW % ("ae", "fe") + "\n    p.eta = eta\n    p.flux_err = fe\n    (%s)\n"
    for a in ("p.r_petrosian, p.r_total_flux, p.total_flux, p.r_half_light, p.half_flux, p.c2080", "p.r_petrosian_err, p.r_total_flux_err, p.r_half_light_err"):
        report(ck, "Petrosian: %s" % a, PR + s + use % a, PR + s + no, k, {"override": CORE})
    k = {"image": "arr2", "px": "float", "py": "float", "r": "arr1,len=3", "model": "obj:astropy.modeling.Model"}
    s = "def client(image, px, py, r, model):\n"
    for a in ("radial_photometry(image, (px, py), r)", "plot_fit(model, image)", "plot_target(image, (px, py))", "fit_gaussian2d(image)", "model_to_image(model, (8, 8))"):
        report(ck, a, PR + s + "    %s\n" % a, PR + s + no, k)
    c = {"s": CAT, "image": "arr2", "segm": SEG, "r": "arr1,len=3"}
    s = "def client(s, image, segm, r):\n"
    ov = segopts(override={"petrofit.photometry.radial_photometry": photometry})
    report(ck, "source_photometry", SE + s + "    source_photometry(s, image, segm, r)\n", SE + s + no, c, ov)


RULES = {"P39": p39}
