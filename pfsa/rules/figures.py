"""P38: what the figures draw. Every drawing call reached on a path is an event of that path; the events of the code are compared,
per axes and kind of artist, with those of a reference that draws the measured quantities."""
import copy
from ..terms import *
from ..facts import Facts
from ..harness import abstract
from .. import equal
from .entries import HEAD, index_and_error, lst, objs, CCD, SEG

NOVALUE = const("not given")
# data parameters of the drawing calls, in positional order, with their defaults
SIG = {"errorbar": (("x", None), ("y", None), ("yerr", NONE), ("xerr", NONE)), "scatter": (("x", None), ("y", None)),
       "fill_between": (("x", None), ("y1", None), ("y2", ZERO)), "axhline": (("y", ZERO),), "axvline": (("x", ZERO),),
       "imshow": (("X", None),), "hlines": (("y", None), ("xmin", None), ("xmax", None)), "vlines": (("x", None), ("ymin", None), ("ymax", None)),
       "set_xlim": (("left", NONE), ("right", NONE)), "set_ylim": (("bottom", NONE), ("top", NONE)),
       "bar": (("x", None), ("height", None)), "hist": (("x", None),), "fill_betweenx": (("y", None), ("x1", None), ("x2", ZERO)), "axhspan": (("ymin", None), ("ymax", None)),
       "axvspan": (("xmin", None), ("xmax", None)), "step": (("x", None), ("y", None))}
LIMITS = ("vmin", "vmax")
RENAME = {"xlim": "set_xlim", "ylim": "set_ylim"}
STYLE = {"legend", "set_title", "set_xlabel", "set_ylabel", "title", "xlabel", "ylabel", "tick_params", "minorticks_on", "grid"}
UNKNOWN = {"contour", "contourf", "pcolormesh", "pcolor", "matshow", "add_patch", "add_artist", "add_line", "loglog", "semilogx", "semilogy", "text", "annotate", "stem", "quiver", "add_collection",
           "set_data", "set_offsets", "invert_yaxis", "invert_xaxis", "set_xscale", "set_yscale", "axis", "clear", "cla", "clf", "remove", "set_visible", "axline", "stackplot", "stairs", "set_bounds"}


class Record:
    def __init__(self, name, axes, data, cond, site):
        self.name, self.axes, self.data, self.cond, self.site = name, axes, data, cond, site

    def key(self):
        return self.name, self.axes, self.data


def drawn(o, limits=False, style=None):
    """(records, names not understood)"""
    figs, at, out, odd = [], [], [], []
    style = [] if style is None else style
    current = sym("current axes", "any")

    def axes(t):
        m = {}

        def fn(x):
            if x.op == "xcall" or x.op == "call":
                if x.args and x.args[0] == "matplotlib.pyplot.gca":
                    return current
                if x in figs:
                    return mk("figure", num(at[figs.index(x)][0]))
            return None
        return rewrite(t, fn)
    seen = set()
    for e in o.events:
        if e.kind != "extcall" or not isinstance(e.data[0], str):
            continue
        full, t = e.data[0], e.data[1]
        base = full.rsplit(".", 1)[-1] if full.startswith("matplotlib.") else full[7:] if full.startswith("method:") else None
        if base is None or not (isinstance(t, Term) and len(t.args) > 1 and isinstance(t.args[1], tuple)):
            continue
        a = dict(t.args[1])
        if full.startswith("matplotlib."):
            if not full.startswith("matplotlib.pyplot."):
                continue
            if base in ("subplots", "figure", "subplot"):
                if base != "subplots":
                    odd.append(base)
                    continue
                if t not in figs:
                    figs.append(t)
                    at.append((max([n + 1 for n, c in at if possible([c, *e.pc])], default=0), and_(*e.pc)))
                    style.append(Record("subplots", t, (), and_(*e.pc), e.site))
                n = [a.get(str(i), a.get(k, ONE)) for i, k in ((0, "nrows"), (1, "ncols"))]
                if n[0] is ONE and isinstance(n[1], Term) and n[1].op == "num":
                    ax = mk("getitem", t, ONE)
                    new = axes(ax if n[1] is ONE else mk("getitem", ax, sub(n[1], ONE)))
                    current = ite(and_(*e.pc), new, current)
                continue
            if base == "sca":
                current = ite(and_(*e.pc), axes(a.get("0", a.get("ax"))), current)
                continue
            where = current
        else:
            where = a.get("self")
            if base in ("do_photometry", "to_mask", "area_overlap"):
                continue
            if where is None:
                continue
        name = RENAME.get(base, base)
        pos = []
        while str(len(pos)) in a:
            pos.append(a[str(len(pos))])
        if name == "plot" and full.startswith("method:") and region(where):
            on = a.get("axes", a.get("ax", pos[0] if pos else NONE))
            data = (where, a.get("origin", pos[1] if len(pos) > 1 else mk("tuple", (ZERO, ZERO))))
            out.append(Record("aperture", current if on is NONE else axes(on), data, and_(*e.pc), e.site))
            continue
        where = axes(where)
        if name == "plot":
            data = tuple(x for x in pos if not (x.op == "const" and isinstance(x.args[0], str)))
            if "data" in a:
                odd.append("plot(data=)")
        elif name in SIG:
            data = []
            for i, (k, d) in enumerate(SIG[name]):
                v = pos[i] if i < len(pos) else a.get(k, d)
                data.append(NOVALUE if v is None else v)
            if limits and name == "imshow":
                data += [a.get(k, NONE) for k in LIMITS]
            data = tuple(data)
        else:
            if name in UNKNOWN:
                odd.append(name)
            elif name in STYLE:
                style.append(Record(name, where, tuple(pos) or tuple(a[k] for k in ("label", "xlabel", "ylabel") if k in a), and_(*e.pc), e.site))
            continue
        out.append(Record(name, where, data, and_(*e.pc), e.site))
    return out, odd


def region(t):
    return isinstance(t, Term) and (t.op in ("call", "xcall") and "Aperture" in str(t.args[0]) or t.op == "sym" and str(t.args[0]).startswith("ap"))


def split(rs):
    """one record per case of its data"""
    out = []
    for r in rs:
        todo = [(r.cond, r.axes, list(r.data), 0)]
        n = 0
        while todo:
            c, ax, d, depth = todo.pop()
            i = next((i for i, x in enumerate(d) if x.op == "ite"), None) if depth < 4 else None
            if i is None:
                out.append(Record(r.name, ax, tuple(d), c, r.site))
                continue
            g, x, y = d[i].args
            todo.append((and_(c, not_(g)), ax, d[:i] + [y] + d[i + 1:], depth + 1))
            todo.append((and_(c, g), ax, d[:i] + [x] + d[i + 1:], depth + 1))
    return out


def group(rs, base):
    out, order = {}, []
    for r in split(rs):
        f = Facts()
        for l in base:
            f.add(l)
        f.add(r.cond)
        if not f.consistent():
            continue
        k = r.key()
        if k in out:
            out[k].cond = or_(out[k].cond, r.cond)
        else:
            out[k] = Record(r.name, r.axes, r.data, r.cond, r.site)
            order.append(k)
    return [out[k] for k in order]


def possible(known):
    f = Facts()
    for l in known:
        f.add(l)
    return f.consistent()


def settled(t, known):
    """the case of a value that the known facts leave"""
    while t.op == "ite":
        for g, x in ((not_(t.args[0]), t.args[1]), (t.args[0], t.args[2])):
            if not possible(known + [g]):
                t = x
                break
        else:
            return t
    return t


def entry(r):
    return ite(r.cond, mk("tuple", (r.axes,) + r.data), NONE)


def figure(ck, label, code, spec, params, opts=None, limits=False, post=None, names=None, assume=None, nothing=False, panels=None):
    opts = dict(opts or {}, figures=True)
    co = ck.run(code, params, opts=opts, assume=assume)
    so = ck.run(spec, params, opts=opts, assume=assume, count=False)
    rule = "the figure draws the reference's artists"
    if co.unsup or so.unsup:
        return ck.holds(rule, label, None, "not analysable: %s" % (co.unsup or "reference: " + so.unsup), "", co)
    style = []
    cr, odd = drawn(co, limits, style)
    sr, sodd = drawn(so, limits)
    if names:
        cr, sr = [r for r in cr if r.name in names], [r for r in sr if r.name in names]
    cg, sg = group(cr, co.base), group(sr, so.base)
    if not sg:
        if nothing:
            rule, bad = "nothing is drawn unless a plot is asked for", [r for r in cg + style if r.cond is not FALSE]
            return ck.holds(rule, label, False if cg else None if odd or bad else True, "draws %s" % (brief(cg) or odd or [r.name for r in bad[:2]]), ck.loc((cg or bad)[0].site) if cg or bad else "", co)
        return ck.holds(rule, label, None if not cg else False, "the reference draws nothing", "", co)
    spec_by = {r.key(): r for r in sg}
    pairs, left = [], []
    for r in cg:
        s = spec_by.pop(r.key(), None)
        (pairs.append((r, s)) if s is not None else left.append(r))
    rest = [r for r in sg if r.key() in spec_by]
    for name in {r.name for r in left + rest}:
        a, b = [r for r in left if r.name == name], [r for r in rest if r.name == name]
        if len(a) != len(b):
            if odd or a and b:
                ck.holds(rule, label, None, "drawn with %s; %s" % (odd, brief(a + b)), "", co)
            elif a:
                ck.holds(rule, label, False, "draws %s, which the reference does not" % brief(a), ck.loc(a[0].site), co)
            else:
                ck.holds(rule, label, False, "does not draw %s" % brief(b), "", co)
            return
        # nearest first
        for r in list(a):
            s = next((x for x in b if x.axes is r.axes and sum(p is q for p, q in zip(x.data, r.data)) == max(sum(p is q for p, q in zip(y.data, r.data)) for y in b if y.axes is r.axes)), b[0])
            b.remove(s)
            pairs.append((r, s))
    ok = True
    for r, s in pairs:
        f = Facts()
        for l in co.base:
            f.add(post(l) if post else l)
        f.add(and_(co.pc, so.pc))
        if r.key() == s.key() and r.cond is s.cond:
            continue
        x, y = entry(r), entry(s)
        if post:
            x, y = post(x), post(y)
        res = equal.compare(x, y, f, vocab=equal.tokens(y) | {z for q in sg for z in equal.tokens(entry(q))})
        if res.status == "eq":
            continue
        ok = False
        from ..check import S, P
        ck.holds(rule, label + " [%s]" % r.name, False if res.status == "diff" else None,
                 "%s draws %s, required %s%s" % (r.name, S(res.a), S(res.b), P(res)) + ("" if res.status == "diff" else "; " + str(res.why)), ck.loc(r.site), co)
    if ok:
        ck.holds(rule, label + " (%d artists)" % len(cg), True, "", "", co)
    if so.value is not None and so.value is not NONE:
        ck.holds("the axes drawn on are returned", label, None if co.value is None else True if co.value is so.value else False if co.value.op in ("const", "sym", "call", "xcall") else None,
                 "returns %s" % show(co.value, 3)[:100] if co.value is not None else "never returns", ck.where(co, co.value) if co.value is not None else "", co)
    quotes(ck, label, co)
    for word, n in (panels or {}).items():
        named = [r for r in style if r.name in ("set_title", "title") and r.cond is not FALSE and r.data and r.data[0].op == "const" and isinstance(r.data[0].args[0], str) and word in r.data[0].args[0].lower()]
        for r in named:
            r.axes = settled(r.axes, list(co.base) + [r.cond])
            i = r.axes.args[1] if r.axes.op == "getitem" and r.axes.args[0].op == "getitem" and r.axes.args[0].args[0].op == "figure" else None
            good = None if i is None or i.op != "num" else i is num(n)
            ck.holds("a panel's title names what it shows", "%s, %r" % (label, word), good, "the title %s is on panel %s, which shows something else" % (show(r.data[0], 2), show(i, 2) if i is not None else "?"), ck.loc(r.site), co)
    if "ax=ax" in code and "ax" in params and co.args.get("ax") is not None:
        mine = co.args["ax"]
        off = [r for r in style if r.axes.op == "sym" and r.axes is not mine and r.axes.args[0] == "current axes"]
        ck.holds("titles, labels and legends go to the axes given", "%s, %d of them" % (label, len(style)), not off, "%s is written on the current axes" % ", ".join(r.name for r in off), ck.loc(off[0].site) if off else "", co)


def brief(rs):
    return "; ".join("%s(%s)" % (r.name, ", ".join(show(x, 4)[:80] for x in r.data)) for r in rs[:3])


def quoted(t):
    """values written into a label"""
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if not isinstance(x, Term):
            if isinstance(x, tuple):
                todo.extend(x)
            continue
        if x.op == "fmt":
            out.add(x.args[0])
        elif x.op == "ite":
            todo.extend(x.args[1:])
        elif x.op == "str":
            todo.extend(x.args)
        elif x.op == "sym":
            out.add(x)
    return out


def bare(v):
    while isinstance(v, Term) and v.op in ("round", "asarr") and isinstance(v.args[0], Term):
        v = v.args[0]
    return v


def quotes(ck, label, o):
    """a line labelled with values is labelled with its own position"""
    for e in o.events:
        if e.kind == "extcall" and e.data[0] in ("method:axvline", "method:axhline", "matplotlib.pyplot.axvline", "matplotlib.pyplot.axhline"):
            a = dict(e.data[1].args[1])
            x = a.get("0", a.get("x", a.get("y")))
            vals = quoted(a["label"]) if "label" in a and isinstance(a["label"], Term) else set()
            vals = {v for v in vals if v.op != "sym" or kind(v) in ("float", "int")}
            if x is None or not vals:
                continue
            if x in vals or x in [bare(v) for v in vals]:
                ok = True
            else:
                st = [equal.compare(bare(v), x, None, vocab=equal.tokens(v) | equal.tokens(x)).status for v in vals]
                ok = True if "eq" in st else None if "unknown" in st else False
            ck.holds("a labelled line quotes its own position", "%s, line at %s" % (label, show(x, 2)), ok, "the label quotes %s" % ", ".join(show(v, 3)[:60] for v in vals), ck.loc(e.site), o)


co_ = "petrofit.petrosian.core."
CORE = {co_ + "calculate_petrosian": index_and_error, co_ + "calculate_petrosian_r": abstract("calculate_petrosian_r", nret=2),
        co_ + "fraction_to_r": abstract("fraction_to_r", nret=2), co_ + "calculate_concentration_index": abstract("concentration", nret=3)}
PAR = {"r": "arr1,len=4", "area": "arr1,len=4", "flux": "arr1,len=4", "ae": "arr1,len=4", "fe": "arr1,len=4", "eta": "float", "eps": "float", "ef": "float", "tff": "float", "ax": "obj:matplotlib.axes.Axes",
       "alpha": "float", "position": None, "elong": "float", "theta": "float", "wcs": "obj:astropy.wcs.WCS"}
NEW = "p = Petrosian(r, area, flux, area_err=%s, flux_err=%s, eta=eta, epsilon=eps, epsilon_fraction=ef, total_flux_fraction=tff)"
PROFILE = """
    e = p.petrosian_err
    ax.errorbar(p.r_list, p.petrosian_list, yerr=e)
    if %(band)s and e is not None:
        ax.fill_between(p.r_list, p.petrosian_list - e, p.petrosian_list + e)
    if %(r)s:
        ax.axhline(p.eta)
        if not np.isnan(p.r_petrosian):
            ax.axvline(p.r_petrosian)
            if not np.isnan(p.r_petrosian_err):
                ax.errorbar(p.r_petrosian, p.eta, xerr=p.r_petrosian_err)
            else:
                ax.scatter(p.r_petrosian, p.eta)
    ax.axhline(0)
    ax.set_xlim(0, None)
    return ax
"""
COG = """
    e = p.flux_err
    ax.errorbar(p.r_list, p.flux_list, yerr=e)
    if %(band)s and e is not None:
        ax.fill_between(p.r_list, p.flux_list - e, p.flux_list + e)
    if %(r)s:
        if not np.isnan(p.r_half_light) and not np.isnan(p.half_flux):
            ax.axvline(p.r_half_light)
            ax.axhline(p.half_flux)
            ax.scatter(p.r_half_light, p.half_flux)
        if not np.isnan(p.r_total_flux) and not np.isnan(p.total_flux):
            ax.axvline(p.r_total_flux)
            ax.axhline(p.total_flux)
            ax.scatter(p.r_total_flux, p.total_flux)
    ax.set_xlim(0, None)
    ax.set_ylim(0, None)
    return ax
"""
IMSHOW = """
    for rad in (p.r_half_light, p.r_total_flux, p.fraction_flux_to_r(0.2), p.fraction_flux_to_r(0.8)):
        if not np.isnan(rad) and rad > 0:
            radial_elliptical_aperture(%(pos)s, rad, %(el)s, %(th)s).plot()
    plt.scatter(%(x)s, %(y)s)
"""
PH = HEAD + "import matplotlib.pyplot as plt\n"


def petrosian_figures(ck):
    sig = "def client(r, area, flux, ae, fe, eta, eps, ef, tff, ax, alpha):\n    "
    kinds = {k: PAR[k] for k in "r area flux ae fe eta eps ef tff ax alpha".split()}
    for method, ref in (("plot", PROFILE), ("plot_cog", COG)):
        for ea, ef in (("None", "None"), ("ae", "fe"), ("ae", "None"), ("None", "fe")):
            for kw, band, rr in (("", "True", "True"), ("plot_r=False", "True", "False"), ("err_alpha=None", "False", "True"), ("err_alpha=alpha", "alpha > 0", "True")):
                for on in ("ax=ax", ""):
                    if not on and (kw or (ea, ef) != ("ae", "fe")):
                        continue
                    new = NEW % (ea, ef)
                    call = "return p.%s(%s)" % (method, ", ".join(x for x in (kw, on) if x))
                    body = ref % {"band": band, "r": rr}
                    if not on:
                        body = "\n    ax = plt.gca()" + body
                    figure(ck, "%s (area_err=%s, flux_err=%s)" % (call[7:], ea, ef), PH + sig + new + "\n    " + call + "\n", PH + sig + new + body, kinds, {"override": CORE}, post=measured)
    # after new settings: the figure follows the object
    for method, ref in (("plot", PROFILE), ("plot_cog", COG)):
        new = NEW.replace("eta=eta, epsilon=eps, ", "") % ("ae", "fe") + "\n    p.%s(ax=ax0)\n    p.eta = eta\n    p.epsilon = eps\n" % method
        s = sig.replace("ax,", "ax, ax0,")
        k = dict(kinds, ax0="obj:matplotlib.axes.Axes")
        figure(ck, "%s again after new settings" % method, PH + s + new + "    return p.%s(ax=ax)\n" % method,
               PH + s + new.replace("p.%s(ax=ax0)" % method, "pass\n    ax1, ax = ax, ax0" + (ref % {"band": "True", "r": "True"}).replace("return ax", "ax = ax1")) + ref % {"band": "True", "r": "True"}, k, {"override": CORE}, post=measured)
    sig = "def client(r, area, flux, ae, fe, eta, eps, ef, tff, px, py, elong, theta):\n    "
    kinds = {k: PAR.get(k, "float") for k in "r area flux ae fe eta eps ef tff px py elong theta".split()}
    figure(ck, "imshow at a position", PH + sig + NEW % ("ae", "fe") + "\n    p.imshow(position=(px, py), elong=elong, theta=theta)\n",
           PH + sig + NEW % ("ae", "fe") + IMSHOW % {"pos": "(px, py)", "el": "elong", "th": "theta", "x": "px", "y": "py"}, kinds, {"override": CORE}, assume=lambda it, a: le(ONE, a["elong"]))
    figure(ck, "imshow", PH + sig + NEW % ("ae", "fe") + "\n    p.imshow()\n", PH + sig + NEW % ("ae", "fe") + IMSHOW % {"pos": "(0, 0)", "el": "1", "th": "0", "x": "0", "y": "0"}, kinds, {"override": CORE})


def photometry_figures(ck):
    aps = objs("obj:photutils.aperture.Aperture", 2)
    k = {"image": "arr2", "ap": aps, "vmin": "float", "vmax": "float"}
    ap = "    for x in ap:\n        x.plot(axes=plt.gca())\n"
    figure(ck, "plot_apertures over an image", PH + "def client(image, ap, vmin, vmax):\n    plot_apertures(image, ap, vmin=vmin, vmax=vmax)\n",
           PH + "def client(image, ap, vmin, vmax):\n    plt.imshow(image, vmin=vmin, vmax=vmax)\n" + ap, k, limits=True)
    figure(ck, "plot_apertures over an image, default limits", PH + "def client(image, ap, vmin, vmax):\n    plot_apertures(image, ap)\n",
           PH + "def client(image, ap, vmin, vmax):\n    plt.imshow(image, vmin=None, vmax=None)\n" + ap, k)
    figure(ck, "plot_apertures without an image", PH + "def client(image, ap, vmin, vmax):\n    plot_apertures(apertures=ap)\n", PH + "def client(image, ap, vmin, vmax):\n" + ap, k, limits=True)
    k = {"image": "arr2", "px": "float", "py": "float", "xs": lst("float", 3), "elong": "float", "theta": "float", "vmin": "float", "vmax": "float"}
    s = "def client(image, px, py, xs, elong, theta, vmin, vmax):\n"
    figure(ck, "radial_photometry with a plot", PH + s + "    radial_photometry(image, (px, py), xs, elong=elong, theta=theta, plot=True, vmin=vmin, vmax=vmax)\n",
           PH + s + "    plt.imshow(image, vmin=vmin, vmax=vmax)\n    for x in xs:\n        radial_elliptical_aperture((px, py), x, elong, theta).plot(plt.gca())\n", k, limits=True, assume=lambda it, a: le(ONE, a["elong"]))
    for kw in ("", "plot=False", "vmax=vmax, vmin=vmin"):
        figure(ck, "radial_photometry(%s)" % kw, PH + s + "    radial_photometry(image, (px, py), xs%s)\n" % (", " + kw if kw else ""), PH + s + "    pass\n", k, nothing=True)


def segment_figures(ck):
    k = {"segm": SEG, "image": "arr2", "vmin": "float", "vmax": "float"}
    s = "def client(segm, image, vmin, vmax):\n"
    figure(ck, "plot_segments over an image", PH + s + "    plot_segments(segm, image=image, vmin=vmin, vmax=vmax)\n", PH + s + "    plt.imshow(image, vmin=vmin, vmax=vmax)\n    plt.imshow(segm)\n", k, limits=True)
    figure(ck, "plot_segments without an image", PH + s + "    plot_segments(segm)\n", PH + s + "    plt.imshow(segm)\n", k, limits=True)
    figure(ck, "plot_segment_residual", PH + s + "    plot_segment_residual(segm, image, vmin=vmin, vmax=vmax)\n", PH + s + "    plt.imshow(np.where(segm.data != 0, 0.0, image), vmin=vmin, vmax=vmax)\n", k, limits=True)
    figure(ck, "plot_segments with default limits", PH + s + "    plot_segments(segm, image)\n", PH + s + "    plt.imshow(image)\n    plt.imshow(segm)\n", k, limits=True)
    for lim in ("vmin", "vmax"):
        figure(ck, "plot_segments with %s only" % lim, PH + s + "    plot_segments(segm, image, %s=%s)\n" % (lim, lim), PH + s + "    plt.imshow(image, %s=%s)\n    plt.imshow(segm)\n" % (lim, lim), k, limits=True)
    figure(ck, "plot_segment_residual with default limits", PH + s + "    plot_segment_residual(segm, image)\n", PH + s + "    plt.imshow(np.where(segm.data != 0, 0.0, image))\n", k, limits=True)
    ov = {"override": {"petrofit.segmentation.make_segments": abstract("make_segments"), "petrofit.segmentation.deblend_segments": abstract("deblend_segments")}}
    k = {"image": "arr2", "threshold": "float", "npixels": "int", "vmin": "float", "vmax": "float"}
    s = "def client(image, threshold, npixels, vmin, vmax):\n"
    figure(ck, "make_catalog without deblending", PH + s + "    make_catalog(image, threshold, deblend=False, npixels=npixels, vmin=vmin, vmax=vmax)\n",
           PH + s + "    segm = make_segments(image, threshold=threshold, npixels=npixels)\n    if segm:\n        fig, ax = plt.subplots(1, 1)\n        ax.imshow(image, vmin=vmin, vmax=vmax)\n        ax.imshow(segm)\n", k, ov, limits=True)
    figure(ck, "make_catalog with deblending", PH + s + "    make_catalog(image, threshold, deblend=True, npixels=npixels, vmin=vmin, vmax=vmax)\n",
           PH + s + "    segm = make_segments(image, threshold=threshold, npixels=npixels)\n    two = deblend_segments(image, segm, npixels=npixels)\n    if segm:\n        fig, ax = plt.subplots(1, 2)\n"
           "        ax[0].imshow(image, vmin=vmin, vmax=vmax)\n        ax[0].imshow(segm)\n        if two:\n            ax[1].imshow(image, vmin=vmin, vmax=vmax)\n            ax[1].imshow(two)\n", k, ov, limits=True, panels={"deblend": 1})
    for kw in ("deblend=True, plot=False", "deblend=False, plot=False"):
        figure(ck, "make_catalog(%s)" % kw, PH + s + "    make_catalog(image, threshold, npixels=npixels, %s)\n" % kw, PH + s + "    pass\n", k, ov, nothing=True)


def fitted(it, f, args, kwargs):
    """plot_fit stands for the figure of a model and an image (its own panels are decided by its own entries)"""
    env = it.bindargs(f, list(args), dict(kwargs))
    n = "matplotlib.pyplot.imshow"
    it.event("extcall", (n, mk("xcall", n, (("0", mk("tuple", (it.t(env["model"]), it.t(env["image"]), it.t(env["center"])))), ("vmin", it.t(env["vmin"])), ("vmax", it.t(env["vmax"]))))))
    return abstract("plot_fit", 4)(it, f, args, kwargs)


def display_figures(ck):
    k = {"image": "arr2", "px": "float", "py": "float", "size": "float", "vmin": "float", "vmax": "float"}
    s = "def client(image, px, py, size, vmin, vmax):\n"
    for kw, sz in (("size=size, ", "size"), ("", "max(image.shape)")):
        figure(ck, "plot_target(%s)" % kw.strip(", "), PH + s + "    plot_target(image, (px, py), %svmin=vmin, vmax=vmax)\n" % kw,
               PH + s + "    h = %s / 2\n    plt.imshow(image, vmin=vmin, vmax=vmax)\n    plt.plot(px, py)\n    plt.xlim(px - h, px + h)\n    plt.ylim(py - h, py + h)\n" % sz, k, limits=True)
    fi = "petrofit.modeling.fitting."
    ov = {"override": {fi + "fit_gaussian2d": abstract("fit_gaussian2d"), fi + "plot_fit": fitted}}
    from .fitting import paramvalue
    figure(ck, "measure_fwhm(plot=False)", PH + "def client(image):\n    measure_fwhm(image, plot=False)\n", PH + "def client(image):\n    pass\n", {"image": "arr2"}, ov, nothing=True)
    figure(ck, "measure_fwhm", PH + "def client(image):\n    measure_fwhm(image, printout=False)\n", PH + """def client(image):
    g = fit_gaussian2d(image)
    x, y = g.x_mean.value, g.y_mean.value
    k = np.sqrt(2 * np.log(2))
    dx, dy = g.x_stddev * k, g.y_stddev * k
    half = g(x, y) / 2
    plot_fit(g, image)
    fig, (a, b, c) = plt.subplots(1, 3)
    a.imshow(image)
    a.axvline(x - dx)
    a.axvline(x + dx)
    a.axhline(y - dy)
    a.axhline(y + dy)
    b.plot(image[int(np.round(y)), :])
    b.axvline(x)
    b.axvline(x - dx)
    b.axvline(x + dx)
    b.axhline(half)
    c.plot(image[:, int(np.round(x))])
    c.axvline(y)
    c.axvline(y - dy)
    c.axvline(y + dy)
    c.axhline(half)
""", {"image": "arr2"}, ov, post=paramvalue)
    k = {"model": "obj:astropy.modeling.Model", "image": "arr2", "cx": "float", "cy": "float", "vmin": "float", "vmax": "float"}
    s = "def client(model, image, cx, cy, vmin, vmax):\n"
    for kw, c in (("", "None"), (", center=(cx, cy)", "(cx, cy)")):
        figure(ck, "plot_fit(%s)" % kw.strip(", "), PH + s + "    plot_fit(model, image%s, vmin=vmin, vmax=vmax)\n" % kw,
               PH + s + "    m = model_to_image(model, (image.shape[1], image.shape[0]), center=%s)\n    fig, ax = plt.subplots(1, 3)\n    ax[0].imshow(image, vmin=vmin, vmax=vmax)\n"
               "    ax[1].imshow(m, vmin=vmin, vmax=vmax)\n    ax[2].imshow(image - m, vmin=vmin, vmax=vmax)\n" % c, k, limits=True, panels={"data": 0, "model": 1, "residual": 2})
    lim = "    m = model_to_image(model, (image.shape[1], image.shape[0]))\n    hi = max(np.nanstd(image), np.nanstd(m)) * 3\n"
    same = "    fig, ax = plt.subplots(1, 3)\n    for n, x in ((0, image), (1, m), (2, image - m)):\n        ax[n].imshow(x, vmin=%s, vmax=%s)\n"
    for kw, l, a in (("vmax=vmax", "", ("-vmax", "vmax")), ("vmin=vmin", lim, ("vmin", "hi")), ("", lim, ("-hi", "hi"))):
        figure(ck, "plot_fit with limits (%s)" % kw, PH + s + "    plot_fit(model, image%s)\n" % (", " + kw if kw else ""),
               PH + s + (l or lim.split("\n")[0] + "\n") + same % a, k, limits=True)
    k["image"] = CCD
    figure(ck, "plot_fit of a CCDData", PH + s + "    plot_fit(model, image, vmin=vmin, vmax=vmax)\n", PH + s + "    image = image.data\n" + lim.split("\n")[0] + "\n" + same % ("vmin", "vmax"), k, limits=True)


def shown(it, f, args, kwargs):
    """radial_photometry measures, and shows the image it measured on the current axes when asked to"""
    from .segmentation import photometry
    env = it.bindargs(f, list(args), dict(kwargs))
    if it.t(env["plot"]) is not FALSE:
        n = "matplotlib.pyplot.imshow"
        it.event("extcall", (n, mk("xcall", n, (("0", it.t(env["image"])), ("vmin", it.t(env["vmin"])), ("vmax", it.t(env["vmax"]))))))
    return photometry(it, f, args, kwargs)


def source_figures(ck):
    from .segmentation import RADREF, SE, photometry, segopts, fitcall, CAT
    geo = "return (source.maxval_xindex, source.maxval_yindex), source.elongation.value, source.orientation.to('rad').value"
    ref = (RADREF % geo).replace("METHOD", "'exact'").replace("    return radial_photometry(target, np.array([n / 2, n / 2]), r,", """    fig, ax = plt.subplots(1, 2)
    plt.sca(ax[0])
    f = radial_photometry(target, np.array([n / 2, n / 2]), r, plot=True, vmin=lo, vmax=hi,""").replace("kind, own)", "kind, own, lo, hi)") + """    f = f[0]
    ax[1].plot(r, f)
    for x in r:
        ax[1].axvline(x)
    h = n // 2
    for line in (target[h, :], target[:, h]):
        fig, ax = plt.subplots(1, 1)
        ax.plot(line)
        ax.axhline(0)
        ax.axvline(n / 2)
        ax.axvline(n / 2 + max(r))
        ax.axvline(n / 2 - max(r))
"""
    ov = {"petrofit.photometry.radial_photometry": shown, "petrofit.modeling.fitting.fit_background": abstract("fit_background", nret=2, keep=("image", "model", "sigma", "fitter"))}
    k = {"s": CAT, "image": "arr2", "segm": SEG, "r": lst("float", 3), "lo": "float", "hi": "float"}
    sky = "(segm.data == s.label) | (segm.data == 0)"
    c = "def client(s, image, segm, r, lo, hi):\n"
    figure(ck, "source_photometry without a plot", SE + c + "    source_photometry(s, image, segm, r)\n", SE + c + "    pass\n", k, segopts(override=ov), nothing=True)
    for kw, a in (("vmin=lo, vmax=hi", "None, None, False, 3.0, 'clip', " + sky), ("bg_sub=True, vmin=lo, vmax=hi", "None, None, True, 3.0, 'clip', " + sky), ("cutout_size=8, vmax=hi, vmin=lo", "None, 8, False, 3.0, 'clip', " + sky)):
        figure(ck, "source_photometry(plot=True, %s)" % kw, SE + c + "    source_photometry(s, image, segm, r, plot=True, %s)\n" % kw,
               SE + "import matplotlib.pyplot as plt\nfrom petrofit.photometry import radial_photometry\n" + ref + c + "    reference(s, image, segm.data, r, %s, lo, hi)\n" % a, k, segopts(override=ov), post=fitcall, limits=True)


TEXT = {"set_title": "title", "set_xlabel": "xlabel", "set_ylabel": "ylabel", "suptitle": "suptitle"}


def texts(o):
    """what is written as title and axis labels: [(kind, term, event)]"""
    out = []
    for e in o.events:
        if e.kind != "extcall" or not isinstance(e.data[0], str):
            continue
        n = e.data[0].rsplit(".", 1)[-1] if e.data[0].startswith("matplotlib.pyplot.") else e.data[0][7:] if e.data[0].startswith("method:") else ""
        n = TEXT.get(n, n)
        if n in TEXT.values():
            a = dict(e.data[1].args[1])
            out.append((n, a.get("0", a.get("label", a.get(n, a.get("t")))), e))
        elif n == "colorbar":
            out.append((n, dict(e.data[1].args[1]).get("label", NONE), e))
    return out


def captions(ck):
    """a title or unit handed in is written where it belongs, and leaving the unit out leaves the label"""
    rule = "titles and units handed in are written"
    sig = "def client(r, area, flux, ae, fe, eta, eps, ef, tff, ax, text):\n    "
    kinds = {k: PAR.get(k, "str") for k in "r area flux ae fe eta eps ef tff ax text".split()}
    for m, units in (("plot", (("radius_unit", "xlabel"),)), ("plot_cog", (("radius_unit", "xlabel"), ("flux_unit", "ylabel")))):
        for kw, where in units + (("title", "title"),):
            o = ck.run(PH + sig + NEW % ("ae", "fe") + "\n    p.%s(ax=ax, %s=text)\n" % (m, kw), kinds, opts={"override": CORE})
            want(ck, rule, "%s(%s=...)" % (m, kw), o, where, lambda t: sym_in(t, "text"))
            if where != "title":
                for none in ("None", "''"):
                    o = ck.run(PH + sig + NEW % ("ae", "fe") + "\n    p.%s(ax=ax, %s=%s)\n" % (m, kw, none), kinds, opts={"override": CORE})
                    if none == "None" and kw == "flux_unit":
                        continue
                    want(ck, rule, "%s(%s=%s) keeps the label" % (m, kw, none), o, where, lambda t: t not in (const(""), NONE))
    s = "def client(segm, image, text):\n"
    o = ck.run(PH + s + "    plot_segments(segm, image=image, title=text)\n", {"segm": SEG, "image": "arr2", "text": "str"})
    want(ck, rule, "plot_segments(title=...)", o, "title", lambda t: sym_in(t, "text"))
    for kw, where in (("suptitle", "suptitle"), ("colorbar_label", "colorbar")):
        o = ck.run(PH + "def client(grid, r, area, flux, text):\n    PetrosianCorrection(grid).plot_correction(Petrosian(r, area, flux), %s=text)\n" % kw,
                   {"grid": "obj:astropy.table.Table", "r": "arr1,len=4", "area": "arr1,len=4", "flux": "arr1,len=4", "text": "str"}, opts={"override": CORE})
        want(ck, rule, "plot_correction(%s=...)" % kw, o, where, lambda t: sym_in(t, "text"))
    o = ck.run(PH + "def client(model, image, text):\n    plot_fit(model, image, flux_label=text)\n", {"model": "obj:astropy.modeling.Model", "image": "arr2", "text": "str"})
    want(ck, rule, "plot_fit(flux_label=...)", o, "xlabel", lambda t: sym_in(t, "text"), some=True)


def sym_in(t, name):
    return any(x.op == "sym" and x.args[0] == name for x in subterms(t))


def want(ck, rule, label, o, where, good, some=False):
    if o.unsup:
        return ck.holds(rule, label, None, o.unsup, "", o)
    hits = [(t, e) for n, t, e in texts(o) if n == where and isinstance(t, Term)]
    if not hits:
        return ck.holds(rule, label, None, "no %s is written by a call the rule knows" % where, "", o)
    bad = [(t, e) for t, e in hits if not good(t)]
    if bad and not (some and len(bad) < len(hits)):
        t, e = bad[0]
        return ck.holds(rule, label, False, "the %s is %s" % (where, show(t, 4)[:120]), ck.loc(e.site), o)
    ck.holds(rule, label, True, "", "", o)


def measured(t):
    """a measured radius is a number, never None"""
    return rewrite(t, lambda x: FALSE if x.op == "isnone" and x.args[0].op in ("getitem", "add", "mul") else None)


def correction_figures(ck):
    g = "obj:astropy.table.Table"
    k = {k: PAR[k] for k in "r area flux".split()}
    k["grid"] = g
    for on, mk_ in (("axs=axs", "    pass\n"), ("", "    fig, axs = plt.subplots(1, 3)\n")):
        kk = dict(k, **({"axs": objs("obj:matplotlib.axes.Axes", 3)} if on else {}))
        s = "def client(%s):\n    p = Petrosian(r, area, flux)\n    k = PetrosianCorrection(grid)\n" % ", ".join(kk)
        figure(ck, "plot_correction(%s)" % on, PH + s + "    k.plot_correction(p, %s)\n" % on, PH + s + mk_ + """
    x0, y0, z0 = k._get_xyz_from_p(p)
    i = k._dr(x0, y0, z0).argmin()
    pts = ((k.x, k.y, x0, y0), (k.x, k.z, x0, z0), (k.y, k.z, y0, z0))
    for n in range(3):
        u, v, a, b = pts[n]
        axs[n].scatter(u, v)
        axs[n].scatter(a, b)
        axs[n].plot([a, u[i]], [b, v[i]])
""", kk, {"override": CORE}, post=measured)


def p38(ck):
    petrosian_figures(ck)
    captions(ck)
    photometry_figures(ck)
    segment_figures(ck)
    display_figures(ck)
    source_figures(ck)
    correction_figures(ck)


RULES = {"P38": p38}
