"""P26-P28, P35: fitting, model images, displays."""
from ..terms import *
from ..terms import Term
from ..harness import abstract

FI = ("from petrofit.modeling.fitting import *\nfrom petrofit.modeling.fitting import _validate_image_size, model_center_to_image_origin\nimport numpy as np\n"
      "from astropy.modeling import models\nfrom astropy.modeling.fitting import LevMarLSQFitter, TRFLSQFitter, LMLSQFitter, LinearLSQFitter\n"
      "from astropy.modeling.optimizers import DEFAULT_ACC, DEFAULT_EPS\nfrom astropy.stats import sigma_clip\nfrom astropy.convolution.utils import discretize_model\n")
FITCALL = ("model", "x", "y", "z", "weights")


def fitcall(t):
    """calls of a fitter: positional arguments by name, absent weights dropped"""
    def fn(x):
        if x.op == "call" and x.args[0] == "apply":
            items = dict(x.args[1])
            if "0" not in items and "model" not in items:
                return None
            out = {}
            for k, v in items.items():
                k = FITCALL[int(k)] if k.isdigit() and int(k) < 5 else k
                if k == "weights" and v is NONE:
                    continue
                out[k] = rewrite(v, fn)
            return mk("call", "apply", tuple(sorted(out.items())))
        return None
    return rewrite(t, fn)


def pure(ck, label, text, params, opts=None, names=None):
    """no array, model or list handed in is changed"""
    o = ck.run(text, params, opts=opts)
    bad = [e for e in o.events if e.kind == "mutate"]
    ck.holds("no argument is written to", label, None if o.unsup else not bad, "%s is changed by %s" % tuple(bad[0].data[:2]) if bad else str(o.unsup),
             str(bad[0].site) if bad else "", o)


SEL = ("    good = ~np.isnan(image)\n    y, x = np.where(good)\n    z = image[good]\n    f = fitter(calc_uncertainties=cu)\n")


def p26(ck):
    q = {"image": "arr2", "model": "obj:Model", "w": "arr2", "cu": "bool", "mi": "int,pos", "ep": "float", "ac": "float", "ej": "bool"}
    for nm in ("TRFLSQFitter", "LevMarLSQFitter", "LMLSQFitter"):
        for wt in ("w", "None"):
            p = {k: v for k, v in q.items() if k != "w" or wt == "w"}
            a = ", ".join(p)
            chk = "    if w.shape != image.shape:\n        raise AssertionError\n    wk = w[good]\n" if wt == "w" else "    wk = None\n"
            ck.same("%s fit of the valid pixels (weights %s)" % (nm, wt),
                    FI + "def client(%s):\n    return fit_model(image, model, weights=%s, fitter=%s, maxiter=mi, calc_uncertainties=cu, epsilon=ep, acc=ac, estimate_jacobian=ej)\n" % (a, wt, nm),
                    FI + "def client(%s):\n    fitter = %s\n%s%s    return f(model, x, y, z, weights=wk, maxiter=mi, epsilon=ep, acc=ac, estimate_jacobian=ej), f\n" % (a, nm, SEL, chk),
                    p, post=fitcall)
    for wt in ("w", "None"):
        p = {k: v for k, v in q.items() if k in ("image", "model", "cu") or k == wt}
        a = ", ".join(p)
        chk = "    if w.shape != image.shape:\n        raise AssertionError\n    wk = w[good]\n" if wt == "w" else "    wk = None\n"
        ck.same("LinearLSQFitter fit of the valid pixels (weights %s)" % wt,
                FI + "def client(%s):\n    return fit_model(image, model, weights=%s, fitter=LinearLSQFitter, calc_uncertainties=cu)\n" % (a, wt),
                FI + "def client(%s):\n    fitter = LinearLSQFitter\n%s%s    return f(model, x, y, z, weights=wk), f\n" % (a, SEL, chk), p, post=fitcall)
    ck.same("defaults", FI + "def client(image, model):\n    return fit_model(image, model)\n",
            FI + "def client(image, model):\n    fitter, cu = TRFLSQFitter, False\n" + SEL + "    return f(model, x, y, z, maxiter=5000, epsilon=DEFAULT_EPS, acc=DEFAULT_ACC, estimate_jacobian=False), f\n",
            {"image": "arr2", "model": "obj:Model"}, post=fitcall)
    ck.same("positional arguments", FI + "def client(image, model, w, mi, cu, ep, ac, ej):\n    return fit_model(image, model, w, TRFLSQFitter, mi, cu, ep, ac, ej)\n",
            FI + "def client(image, model, w, mi, cu, ep, ac, ej):\n    return fit_model(image, model, weights=w, fitter=TRFLSQFitter, maxiter=mi, calc_uncertainties=cu, epsilon=ep, acc=ac, estimate_jacobian=ej)\n",
            q, post=fitcall)
    msel = SEL.replace("~np.isnan(image)", "~np.isnan(d) & ~k").replace("image[", "d[")
    for nm in ("TRFLSQFitter", "LinearLSQFitter"):
        kw = "" if nm == "LinearLSQFitter" else ", maxiter=5000, epsilon=DEFAULT_EPS, acc=DEFAULT_ACC, estimate_jacobian=False"
        ck.same("masked pixels are not data (%s)" % nm, FI + "def client(d, k, model):\n    return fit_model(np.ma.MaskedArray(d, mask=k), model, fitter=%s)\n" % nm,
                FI + "def client(d, k, model):\n    fitter, cu = %s, False\n%s    return f(model, x, y, z%s), f\n" % (nm, msel, kw),
                {"d": "arr2", "k": "barr", "model": "obj:Model"}, post=fitcall)
        ck.same("weights of the unmasked pixels (%s)" % nm, FI + "def client(d, k, model, w):\n    return fit_model(np.ma.MaskedArray(d, mask=k), model, w, fitter=%s)\n" % nm,
                FI + "def client(d, k, model, w):\n    fitter, cu = %s, False\n    if w.shape != d.shape:\n        raise AssertionError\n%s    return f(model, x, y, z, weights=w[good]%s), f\n" % (nm, msel, kw),
                {"d": "arr2", "k": "barr", "model": "obj:Model", "w": "arr2"}, post=fitcall)
    pure(ck, "fit_model writes to no argument", FI + "def client(image, model, w):\n    return fit_model(image, model, w)\n", {k: q[k] for k in ("image", "model", "w")})
    pure(ck, "fit_model writes to no masked argument", FI + "def client(image, model, w):\n    return fit_model(image, model, w)\n",
         {"image": "obj:numpy.ma.MaskedArray", "model": "obj:Model", "w": "arr2"})



DISC = "    return discretize_model(model=model, x_range=[x0, x0 + xs], y_range=[y0, y0 + ys], mode=%s, factor=%s)\n"


def p27(ck):
    q = {"model": "obj:Model", "s": "int,pos", "xs": "int,pos", "ys": "int,pos", "cx": "float", "cy": "float", "mode": "str", "f": "int,pos"}

    def img(label, code, spec, names, **over):
        names = names.split()
        head = "def client(%s):\n" % ", ".join(names)
        ck.same(label, FI + head + "    return %s\n" % code, FI + head + spec, dict({n: q[n] for n in names}, **over), rule="discretisation range of the image")
    corner = "    x0 = y0 = 0\n"
    cen = "    x0, y0 = cx - xs // 2, cy - ys // 2\n"
    img("square image from (0, 0)", "model_to_image(model, s)", "    xs = ys = s\n" + corner + DISC % ("'center'", "1"), "model s")
    for nm, lit in (("tuple", "(xs, ys)"), ("list", "[xs, ys]"), ("array", "np.array([xs, ys])")):
        img("x and y size as %s, from (0, 0)" % nm, "model_to_image(model, %s)" % lit, corner + DISC % ("'center'", "1"), "model xs ys")
        img("centre, mode and factor with a size %s" % nm, "model_to_image(model, %s, mode=mode, factor=f, center=(cx, cy))" % lit,
            cen + DISC % ("mode", "f"), "model xs ys cx cy mode f")
    img("positional arguments", "model_to_image(model, (xs, ys), mode, f, (cx, cy))", cen + DISC % ("mode", "f"), "model xs ys cx cy mode f")
    for nm, lit in (("list", "[cx, cy]"), ("array", "np.array([cx, cy])")):
        img("centre as %s" % nm, "model_to_image(model, (xs, ys), center=%s)" % lit, cen + DISC % ("'center'", "1"), "model xs ys cx cy")
    img("centred square image", "model_to_image(model, s, center=(cx, cy))", "    xs = ys = s\n" + cen + DISC % ("'center'", "1"), "model s cx cy")
    img("whole-number float size", "model_to_image(model, s)", "    if s % 1 != 0:\n        raise AssertionError\n    xs = ys = int(s)\n" + corner + DISC % ("'center'", "1"), "model s", s="float")
    img("whole-number float sizes", "model_to_image(model, (xs, ys), center=(cx, cy))",
        "    if xs % 1 != 0 or ys % 1 != 0:\n        raise AssertionError\n    xs, ys = int(xs), int(ys)\n" + cen + DISC % ("'center'", "1"), "model xs ys cx cy", xs="float", ys="float")
    ck.same("origin from centre and size", FI + "def client(cx, cy, xs, ys):\n    return model_center_to_image_origin((cx, cy), (xs, ys))\n",
            "def client(cx, cy, xs, ys):\n    return cx - xs // 2, cy - ys // 2\n", {k: q[k] for k in ("cx", "cy", "xs", "ys")})
    ck.same("validated size", FI + "def client(xs, ys, s):\n    return _validate_image_size((xs, ys)), _validate_image_size(s)\n",
            "def client(xs, ys, s):\n    return (xs, ys), (s, s)\n", {k: q[k] for k in ("xs", "ys", "s")})
    for label, expr, p in (("size of three numbers", "model_to_image(model, (s, s, s))", "s"), ("size of one number in a tuple", "model_to_image(model, (s,))", "s"),
                           ("text size", "model_to_image(model, 'ten')", ""), ("missing size", "model_to_image(model, None)", ""),
                           ("mapping as size", "model_to_image(model, {'x': s, 'y': s})", "s"), ("fractional size", "model_to_image(model, s + 0.5)", "s"),
                           ("fractional x size", "model_to_image(model, (xs + 0.5, ys))", "xs ys"), ("fractional y size", "model_to_image(model, (xs, ys + 0.5))", "xs ys"),
                           ("centre of three numbers", "model_to_image(model, s, center=(cx, cy, cx))", "s cx cy"),
                           ("centre of one number", "model_to_image(model, s, center=(cx,))", "s cx"),
                           ("scalar centre", "model_to_image(model, s, center=cx)", "s cx"), ("text centre", "model_to_image(model, s, center='ab')", "s")):
        names = ["model"] + p.split()
        o = ck.run(FI + "def client(%s):\n    return %s\n" % (", ".join(names), expr), {n: q[n] for n in names})
        ok = None if o.unsup else o.value is None and bool(o.raises)
        ck.holds("every path raises", label + " is rejected", ok, "returns an image", "model_to_image", o)


def p28(ck):
    q = {"model": "obj:Model", "image": "arr2", "cx": "float", "cy": "float", "mode": "str", "v": "float", "u": "float"}
    par = "        x = image[0:]\n"
    for nm, kind_, sel in (("array", "arr2", "image"), ("CCDData", "obj:astropy.nddata.CCDData", "image.data"), ("Cutout2D", "obj:astropy.nddata.Cutout2D", "image.data")):
        for cnm, kw, cen in (("no centre", "", "    x0 = y0 = 0\n"), ("a centre", ", center=(cx, cy)", "    x0, y0 = cx - xs // 2, cy - ys // 2\n")):
            for lim in ("", ", vmin=u, vmax=v, cbar=False"):
                names = [n for n in q if n in "model image mode" or (n in ("cx", "cy") and kw) or (n in ("v", "u") and lim)]
                head = "def client(%s):\n" % ", ".join(names)
                p = dict({n: q[n] for n in names}, image=kind_)
                ck.same("residual of %s with %s%s" % (nm, cnm, " and limits" if lim else ""),
                        FI + head + "    r = plot_fit(model, image, mode=mode%s%s)\n    return r[2], r[3]\n" % (kw, lim),
                        FI + head + "    d = %s\n    xs, ys = d.shape[1], d.shape[0]\n%s    m = discretize_model(model=model, x_range=[x0, x0 + xs], y_range=[y0, y0 + ys], mode=mode, factor=1)\n    return m, d - m\n" % (sel, cen),
                        p, rule="residual is image minus model")
    ck.same("residual with the default mode", FI + "def client(model, image):\n    r = plot_fit(model, image)\n    return r[2], r[3]\n",
            FI + "def client(model, image):\n    m = discretize_model(model=model, x_range=[0, image.shape[1]], y_range=[0, image.shape[0]], mode='center', factor=1)\n    return m, image - m\n",
            {"model": "obj:Model", "image": "arr2"})
    for kw in ("", ", vmin=u, vmax=v, cbar=False"):
        shown(ck, "the panels show the data, the model and the residual under their titles" + (" (given limits)" if kw else ""),
              FI + "def client(model, image, u, v):\n    return plot_fit(model, image%s), model_to_image(model, (image.shape[1], image.shape[0])), image\n" % kw,
              {"model": "obj:Model", "image": "arr2", "u": "float", "v": "float"})
    pure(ck, "plot_fit writes to no argument", FI + "def client(model, image):\n    return plot_fit(model, image)\n", {"model": "obj:Model", "image": "arr2"})
    ab = {"override": {"petrofit.modeling.fitting.fit_model": abstract("fit_model", 2)}}
    o2 = {"override": {"petrofit.modeling.fitting.fit_model": abstract("fit_model", 2)}}
    p = {"image": "arr2", "model": "obj:Model", "s": "float,pos", "fitter": "any", "cu": "bool"}
    for cl, code, spec in (
            ("given model, sigma, fitter and uncertainties", "fit_background(image, model, s, fitter, cu)", "fit_model(sigma_clip(image, s), model, fitter=fitter, calc_uncertainties=cu)"),
            ("the image itself for sigma None", "fit_background(image, model=model, sigma=None, fitter=fitter, calc_uncertainties=cu)", "fit_model(image, model, fitter=fitter, calc_uncertainties=cu)"),
            ("defaults", "fit_background(image)", "fit_model(sigma_clip(image, 3.0), models.Planar2D(), fitter=LinearLSQFitter, calc_uncertainties=False)")):
        ck.same("background fit: " + cl, FI + "def client(image, model, s, fitter, cu):\n    return %s\n" % code,
                FI + "def client(image, model, s, fitter, cu):\n    return %s\n" % spec, p, opts=ab, rule="sigma-clipped image handed to the fit")
    pure(ck, "fit_background writes to no argument", FI + "def client(image, model, s):\n    return fit_background(image, model, s)\n", {"image": "arr2", "model": "obj:Model", "s": "float,pos"})
    # Gaussian fit and FWHM
    o = ck.run(FI + "def client(image):\n    return fit_gaussian2d(image), image\n", {"image": "arr2"}, opts=o2)
    ok = d = None
    if not o.unsup and o.value is not None:
        calls = {s for s in subterms(o.value.args[0][0]) if s.op == "apply" and s.args[0] == "fit_model"}
        if len(calls) == 1:
            c = next(iter(calls))
            a = dict(c.args[1])
            m = a["model"]
            ok = o.value.args[0][0] is mk("getitem", c, ZERO) and a["image"] is o.value.args[0][1] and m.op == "call" and m.args[0].endswith("Gaussian2D")
            d = show(o.value.args[0][0], 6)[:300]
    ck.holds("the Gaussian fit is the model fitted to the image", "fit_gaussian2d returns a 2D Gaussian fitted to the image", ok, "returns %s" % d, "fit_gaussian2d", o)
    og = {"override": {"petrofit.modeling.fitting.fit_gaussian2d": abstract("fit_gaussian2d"), "petrofit.modeling.fitting.plot_fit": abstract("plot_fit", 4)}}
    for kw in ("", ", plot=False", ", printout=False", ", plot=False, printout=False"):
        ck.same("FWHM of the fitted Gaussian (x first)%s" % kw, FI + "def client(image):\n    x, y = measure_fwhm(image%s)\n    return x, y\n" % kw,
                FI + "def client(image):\n    g = fit_gaussian2d(image)\n    k = 2 * np.sqrt(2 * np.log(2))\n    return k * g.x_stddev, k * g.y_stddev\n", {"image": "arr2"}, opts=og,
                post=paramvalue)
    ck.same("FWHM ratio constant", FI + "from astropy.stats import gaussian_sigma_to_fwhm\ndef client():\n    return gaussian_sigma_to_fwhm\n", "import numpy as np\ndef client():\n    return 2 * np.sqrt(2 * np.log(2))\n", {})


def shown(ck, label, text, params):
    """what imshow draws on each axis, by the title of the axis"""
    o = ck.run(text, params)
    if o.unsup or o.value is None or o.value.op != "tuple":
        return ck.holds("panel contents", label, None, "not analysable: %s" % o.unsup, "", o)
    _, m, im = o.value.args[0]
    want = {"data": im, "model": m, "residual": sub(im, m)}
    draw, title = {}, {}
    for e in o.events:
        if e.kind != "extcall" or e.data[0] not in ("method:imshow", "method:set_title"):
            continue
        d = dict(e.data[1].args[1])
        x = d.get("0", d.get("X", d.get("label")))
        if x is not None:
            (draw if e.data[0].endswith("imshow") else title).setdefault(d["self"], []).append((x, e))
    bad = None
    for ax, ts in title.items():
        t = ts[-1][0]
        key = next((k for k in want if t.op == "const" and k in str(t.args[0]).lower()), None)
        if key and ax in draw and not any(x is want[key] for x, _ in draw[ax]):
            x, e = draw[ax][-1]
            bad = "the panel titled %s shows %s" % (t.args[0], show(x, 5)[:200]), e.site
    got = {x for l in draw.values() for x, _ in l}
    if bad is None and draw and all(len(l) == 1 for l in draw.values()) and len(draw) == 3 and got != set(want.values()):
        bad = "the panels show %s" % sorted(show(x, 4)[:80] for x in got), ""
    ok = False if bad else True if got == set(want.values()) else None
    ck.holds("panel contents", label, ok, bad[0] if bad else "panels not recognised", str(bad[1]) if bad else "", o)


def paramvalue(t):
    """a model parameter used as a number is its value"""
    def fn(x):
        if x.op == "attr" and x.args[1] == "value" and x.args[0].op == "attr":
            return rewrite(x.args[0], fn)
        return None
    return rewrite(t, fn)


RULES = {"P26": p26, "P27": p27, "P28": p28}
