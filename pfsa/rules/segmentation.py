"""P29-P31: masks, source photometry, catalogues."""
from ..terms import *
from ..harness import abstract
from .fitting import pure, fitcall

SE = ("from petrofit.segmentation import *\nfrom petrofit.segmentation import segm_mask, masked_segm_image, get_source_position, get_source_elong, get_source_theta, get_source_ellip, order_cat, make_segments, deblend_segments\n"
      "from petrofit.modeling.fitting import *\nimport numpy as np\nfrom copy import deepcopy\n"
      "from astropy.stats import sigma_clip, sigma_clipped_stats\nfrom astropy.nddata import Cutout2D, CCDData\n"
      "from astropy.modeling import models\nfrom astropy.modeling.fitting import LinearLSQFitter\nfrom astropy.convolution.utils import discretize_model\n"
      "from photutils.segmentation import SourceCatalog, detect_sources, deblend_sources\n")
CAT = "obj:photutils.segmentation.SourceCatalog"
SEG = "obj:photutils.segmentation.SegmentationImage"


def segopts(**kw):
    attrs = {sym("segm", SEG): {"data": sym("labels", "arr2")}}
    for name in ("s", "c", "d"):
        attrs[sym(name, CAT)] = {"label": sym("label_of_" + name, "int")}
    return dict({"objattrs": attrs}, **kw)


def p29(ck):
    q = {"s": "int", "t": "int", "c": CAT, "d": CAT, "segm": SEG, "image": "arr2", "fill": "float", "mb": "bool", "u": "npint"}
    srcs = [("label", "s", ["s"]), ("numpy label", "u", ["u"]), ("catalogue source", "c", ["c.label"]), ("list of one label", "[s]", ["s"]),
            ("list of labels", "[s, t]", ["s", "t"]), ("list of catalogue sources", "[c, d]", ["c.label", "d.label"]),
            ("mixed list", "[s, c, u]", ["s", "c.label", "u"]), ("mixed list, catalogue source first", "[c, t]", ["c.label", "t"]),
            ("list with a repeated label", "[s, s]", ["s"])]

    def names(expr):
        return [n for n in ("s", "t", "c", "d", "u") if n in expr.replace("[", " ").replace("]", " ").replace(",", " ").split()]
    for nm, expr, labels in srcs:
        for mb, extra in (("False", "segm.data == 0"), ("True", None), (None, "segm.data == 0")):
            ns = names(expr) + ["segm"]
            m = " | ".join(["(segm.data == %s)" % l for l in labels] + (["(%s)" % extra] if extra else []))
            ck.same("mask of a %s, background masking %s" % (nm, mb or "by default"),
                    SE + "def client(%s):\n    return segm_mask(%s, segm%s)\n" % (", ".join(ns), expr, ", mask_background=%s" % mb if mb else ""),
                    SE + "def client(%s):\n    return %s\n" % (", ".join(ns), m), {n: q[n] for n in ns}, opts=segopts(), rule="mask as a set of labels")
    ck.same("background masking as given", SE + "def client(s, segm, mb):\n    return segm_mask(s, segm, mb)\n",
            SE + "def client(s, segm, mb):\n    if mb:\n        return segm.data == s\n    return (segm.data == s) | (segm.data == 0)\n", {k: q[k] for k in ("s", "segm", "mb")}, opts=segopts())
    for nm, lit in (("text", "'3'"), ("None", "None"), ("float", "1.5"), ("mapping", "{'label': 1}")):
        o = ck.run(SE + "def client(segm):\n    return segm_mask(%s, segm)\n" % lit, {"segm": SEG}, opts=segopts())
        ck.holds("every path raises", "a %s as source is rejected" % nm, None if o.unsup else o.value is None and bool(o.raises), "returns a mask", "segm_mask", o)
    for nm, expr, labels in srcs[:1] + srcs[2:3] + srcs[6:7]:
        for fnm, kw, fv in (("", "", "np.nan"), (", given fill", ", fill=fill", "fill"), (", fill 0", ", fill=0", "0")):
            for mb in (True, False):
                ns = names(expr) + ["image", "segm"] + (["fill"] if fv == "fill" else [])
                m = " | ".join(["(segm.data == %s)" % l for l in labels] + (["(segm.data == 0)"] if not mb else []))
                code = SE + "def client(%s):\n    return masked_segm_image(%s, image, segm%s, mask_background=%s)\n" % (", ".join(ns), expr, kw, mb)
                lab = "masked image of a %s%s, background %s" % (nm, fnm, "masked" if mb else "kept")
                ck.same(lab, code, SE + "def client(%s):\n    return np.where(%s, image, %s)\n" % (", ".join(ns), m, fv), {n: q[n] for n in ns}, opts=segopts())
                for cls in ("astropy.nddata.CCDData", "astropy.nddata.Cutout2D"):
                    p = dict({n: q[n] for n in ns}, image="obj:" + cls)
                    ck.same(lab + " (%s)" % cls.split(".")[-1], code.replace("return masked", "return masked").replace("=%s)\n" % mb, "=%s).data\n" % mb),
                            SE + "def client(%s):\n    return np.where(%s, image.data, %s)\n" % (", ".join(ns), m, fv), p,
                            opts={"objattrs": {**segopts()["objattrs"], sym("image", "obj:" + cls): {"data": sym("pixels", "arr2")}}})
    for cls in ("arr2", "obj:astropy.nddata.CCDData"):
        for fill in ("None", "0"):
            p = {"s": "int", "image": cls, "segm": SEG}
            pure(ck, "masked_segm_image leaves its inputs alone (%s, fill %s)" % (cls, fill), SE + "def client(s, image, segm):\n    return masked_segm_image([s], image, segm, fill=%s)\n" % fill, p, opts=segopts())
    o = ck.run(SE + "def client(s, image, segm):\n    return masked_segm_image(s, image, segm)\n", {"s": "int", "image": "arr2", "segm": SEG}, opts=segopts())
    fresh(ck, "the masked image is a new image", o, "image")
    pure(ck, "segm_mask leaves a list of sources alone", SE + "def client(l, segm):\n    return segm_mask(l, segm)\n",
         {"l": aslist("s"), "segm": SEG}, opts=segopts())


def aslist(name):
    """parameter: a list of two labels"""
    def mkp(it, n):
        from ..values import ListC
        r = it.new(ListC((sym(name + "0", "int"), sym(name + "1", "int"))), ("arg", n))
        return r
    return mkp


def fresh(ck, label, o, arg):
    """the returned object is not the argument object (nor a view of it)"""
    from ..values import VRef
    if o.unsup or o.v is None:
        return ck.holds("new object", label, None, "not analysable", "", o)
    a = o.args.get(arg)
    same = isinstance(o.v, VRef) and isinstance(a, VRef) and (o.v is a or getattr(o.v, "id", 0) == getattr(a, "id", 1))
    ck.holds("new object", label, not same, "the argument itself is returned", "masked_segm_image", o)


RADREF = '''
def geometry(source):
    %s

def reference(source, image, labels, r, err, size, bg_sub, sigma, kind, own):
    pos, elong, theta = geometry(source)
    n = int(np.ceil(max(r) * 3)) if size is None else int(size)
    if n %% 2 == 1:
        n = n + 1
    def cut(a):
        return Cutout2D(a, pos, n, mode="partial", fill_value=np.nan).data
    target = cut(np.where(own, image, np.nan))
    sky = cut(np.where(labels == 0, image, np.nan))
    if bg_sub and len(np.where(~np.isnan(sky))[0]) > 10:
        if kind == "clip":
            good = sigma_clip(sky, sigma)
        else:
            mean, median, std = sigma_clipped_stats(sky, sigma=3, mask=np.isnan(sky))
            good = np.where((sky > mean + sigma) | (sky < mean - sigma), np.nan, sky)
        model, f = fit_background(good, sigma=None)
        target = target - discretize_model(model=model, x_range=[0, n], y_range=[0, n], mode="center", factor=1)
        if kind == "bound":
            target = np.clip(target, -sigma, np.inf)
    e = None if err is None else cut(err)
    return radial_photometry(target, np.array([n / 2, n / 2]), r, error=e, mask=~np.isnan(target), elong=elong, theta=theta, method=METHOD)
'''


def p30(ck):
    from_cat = "return (source.maxval_xindex, source.maxval_yindex), source.elongation.value, source.orientation.to('rad').value"
    from_row = "return (source['maxval_xindex'], source['maxval_yindex']), source['elongation'], np.deg2rad(source['orientation'])"
    ph = {"override": {"petrofit.photometry.radial_photometry": photometry,
                       "petrofit.modeling.fitting.fit_background": abstract("fit_background", nret=2, keep=("image", "model", "sigma", "fitter"))}}
    P = {"s": CAT, "image": "arr2", "segm": SEG, "r": "arr1", "e": "arr2", "cs": "int,pos", "sg": "float,pos", "me": "str"}

    def one(label, call, ref, method="'exact'", src=CAT, names="s image segm r", raises="all", geom=None):
        ns = names.split()
        g = geom or (from_cat if src == CAT else from_row)
        p = dict({n: P[n] for n in ns}, s=src)
        o = segopts(**ph)
        ck.same(label, SE + "def client(%s):\n    return source_photometry(s, image, segm, r%s)\n" % (", ".join(ns), call),
                SE + "from petrofit.photometry import radial_photometry\n" + (RADREF % g).replace("METHOD", method)
                + "def client(%s):\n    return reference(s, image, segm.data, r, %s)\n" % (", ".join(ns), ref), p, opts=o, raises=raises, post=fitcall,
                distinct=("apply:fit_background", "call:astropy.convolution.utils.discretize_model"), rule="arguments of the aperture photometry")
    sky = "(segm.data == s.label) | (segm.data == 0)"
    one("no error, default size", "", "None, None, False, 3.0, 'clip', " + sky)
    one("background pixels masked", ", mask_background=True", "None, None, False, 3.0, 'clip', segm.data == s.label")
    one("error map and default size", ", error=e", "e, None, False, 3.0, 'clip', " + sky, names="s image segm r e")
    one("requested size", ", cutout_size=cs", "None, cs, False, 3.0, 'clip', " + sky, names="s image segm r cs")
    one("error map and requested size", ", error=e, cutout_size=cs", "e, cs, False, 3.0, 'clip', " + sky, names="s image segm r e cs")
    one("fractional requested size", ", cutout_size=sg", "None, sg, False, 3.0, 'clip', " + sky, names="s image segm r sg")
    for m in ("center", "subpixel"):
        one("method %s" % m, ", method='%s'" % m, "None, None, False, 3.0, 'clip', " + sky, method="'%s'" % m)
    for kind_ in ("clip", "bound", "Clip", "BOUND"):
        for kw, ref, ns in (("", "None, None", ""), (", error=e, cutout_size=cs", "e, cs", " e cs")):
            one("background subtraction '%s'%s" % (kind_, " with error and size" if kw else ""), ", bg_sub=True, sigma=sg, sigma_type='%s'%s" % (kind_, kw),
                "%s, True, sg, '%s', %s" % (ref, kind_.lower(), sky), names="s image segm r sg" + ns)
    one("background subtraction with background pixels masked", ", bg_sub=True, mask_background=True", "None, None, True, 3.0, 'clip', segm.data == s.label")
    one("default sigma and type", ", bg_sub=True", "None, None, True, 3.0, 'clip', " + sky)
    one("plotting changes nothing", ", plot=True, error=e", "e, None, False, 3.0, 'clip', " + sky, names="s image segm r e")
    one("plotting with background subtraction changes nothing", ", plot=True, bg_sub=True", "None, None, True, 3.0, 'clip', " + sky)
    o = ck.run(SE + "def client(s, image, segm, r):\n    return source_photometry(s, image, segm, r, bg_sub=True, sigma_type='other')\n", {k: P[k] for k in ("s", "image", "segm", "r")}, opts=segopts(**ph))
    enough = "rejected whenever there is a background to fit"
    ok = None
    if not o.unsup:
        ok = bool(o.raises) and (o.value is None or not any(s_.op == "call" and s_.args[0] == "apply" for s_ in subterms(o.value)))
    ck.holds("no fit for an unknown type", "an unknown bound type is " + enough, ok, "a background is subtracted or nothing is raised", "source_photometry", o)
    ck.same("geometry of a catalogue source", SE + "def client(s):\n    return get_source_position(s), get_source_elong(s), get_source_theta(s), get_source_ellip(s)\n",
            SE + (RADREF % from_cat).split("def reference")[0] + "def client(s):\n    p, e, t = geometry(s)\n    return p, e, t, s.ellipticity.value\n", {"s": CAT})
    ck.same("geometry of a catalogue table row", SE + "def client(s):\n    return get_source_position(s), get_source_elong(s), get_source_theta(s), get_source_ellip(s)\n",
            SE + (RADREF % from_row).split("def reference")[0] + "def client(s):\n    p, e, t = geometry(s)\n    return p, e, t, s['ellipticity']\n", {"s": "obj:astropy.table.Row"}, distinct=("attr:ellipticity",))
    for kw in ("", ", bg_sub=True", ", bg_sub=True, sigma_type='bound'", ", bg_sub=True, error=e, cutout_size=cs, mask_background=True"):
        pure(ck, "source_photometry writes to no argument%s" % kw, SE + "def client(s, image, segm, r, e, cs):\n    return source_photometry(s, image, segm, r%s)\n" % kw,
             {k: P[k] for k in ("s", "image", "segm", "r", "e", "cs")}, opts=segopts(**ph))


def photometry(it, f, args, kwargs):
    """radial_photometry stands for itself, by what it measures"""
    env = it.bindargs(f, list(args), dict(kwargs))
    keep = ("image", "position", "r_list", "error", "mask", "elong", "theta", "method")
    from ..values import VTuple
    t = {k: it.t(v) for k, v in env.items() if k in keep}
    if t["position"].op == "tuple":
        t["position"] = mk("vec", t["position"].args[0])
    call = mk("apply", "radial_photometry", tuple((k, t[k]) for k in keep))
    return VTuple([it.new(mk("getitem", call, num(i)), ("call", "phot")) for i in range(3)])


def p31(ck):
    P = {"image": "arr2", "t": "float", "w": "any", "np_": "int,pos", "nl": "int,pos", "co": "float", "segm": SEG, "vm": "float"}
    O = {"distinct": ("attr:data",)}
    ck.same("make_segments detects what was asked for", SE + "def client(image, t, np_):\n    return make_segments(image, npixels=np_, threshold=t), make_segments(image, np_, t), make_segments(image, np_)\n",
            SE + "def client(image, t, np_):\n    a = detect_sources(image, t, npixels=np_)\n    return a, a, detect_sources(image, 3.0, npixels=np_)\n", {k: P[k] for k in ("image", "t", "np_")})
    ck.same("make_segments takes a threshold map", SE + "def client(image, t, np_):\n    return make_segments(image, threshold=t, npixels=np_)\n",
            SE + "def client(image, t, np_):\n    return detect_sources(image, t, npixels=np_)\n", {"image": "arr2", "t": "arr2", "np_": "int,pos"})
    ck.same("deblend_segments deblends what was asked for",
            SE + "def client(image, segm, np_, nl, co):\n    return deblend_segments(image, segm, npixels=np_, nlevels=nl, contrast=co), deblend_segments(image, segm, np_, nl, co), deblend_segments(image, segm, np_)\n",
            SE + "def client(image, segm, np_, nl, co):\n    a = deblend_sources(image, segm, npixels=np_, nlevels=nl, contrast=co)\n    return a, a, deblend_sources(image, segm, npixels=np_, nlevels=30, contrast=1 / 1000)\n",
            {k: P[k] for k in ("image", "segm", "np_", "nl", "co")})
    for cls in ("arr2", "obj:astropy.nddata.CCDData", "obj:astropy.nddata.Cutout2D"):
        px = "image" if cls == "arr2" else "image.data"
        for plot in ("False", "True", None):
            for deb in (True, False, None):
                if (plot is None) != (deb is None) and cls != "arr2":
                    continue
                p = dict(P, image=cls)
                p.pop("segm")
                a = ", ".join(p)
                guard = "    first = detect_sources(%s, t, npixels=np_)\n    if not first:\n        raise ValueError\n    if %s and not deblend_sources(%s, first, npixels=np_, nlevels=nl, contrast=co):\n        raise ValueError\n" % (px, deb is not False, px)
                kw = "".join(", %s=%s" % kv for kv in (("plot", plot), ("deblend", deb)) if kv[1] is not None)
                d = "deblend_sources(%s, first, npixels=np_, nlevels=nl, contrast=co)" % px if deb is not False else "None"
                ck.same("catalogue of a %s, deblend %s, plot %s" % (cls.split(".")[-1], deb, plot),
                        SE + "def client(%s):\n%s    return make_catalog(image, t, wcs=w, npixels=np_, nlevels=nl, contrast=co, vmin=vm, vmax=co%s)\n" % (a, guard, kw),
                        SE + "def client(%s):\n%s    second = %s\n    return SourceCatalog(%s, %s, wcs=w), first, second\n" % (a, guard, d, px, "second" if deb is not False else "first"), p, **O)
    ck.same("defaults", SE + "def client(image, t):\n    return make_catalog(image, t, plot=False)\n",
            SE + "def client(image, t):\n    a = detect_sources(image, t, npixels=None)\n    b = deblend_sources(image, a, npixels=None, nlevels=30, contrast=1 / 1000)\n    return SourceCatalog(image, b, wcs=None), a, b\n",
            {"image": "arr2", "t": "float"}, **O)
    ck.same("positional arguments", SE + "def client(image, t, w, np_, nl, co):\n    return make_catalog(image, t, w, False, np_, nl, co, False)\n",
            SE + "def client(image, t, w, np_, nl, co):\n    return make_catalog(image, t, wcs=w, deblend=False, npixels=np_, nlevels=nl, contrast=co, plot=False)\n",
            {k: P[k] for k in ("image", "t", "w", "np_", "nl", "co")}, **O)
    q = {"c": CAT, "k": "str"}
    for nm, call, ref in (("by area, largest first", "order_cat(c)", "list(reversed(c.to_table()['area'].argsort()))"),
                          ("by a given key, largest first", "order_cat(c, key=k)", "list(reversed(c.to_table()[k].argsort()))"),
                          ("largest first on request", "order_cat(c, k, True)", "list(reversed(c.to_table()[k].argsort()))"),
                          ("by a given key, smallest first", "order_cat(c, k, reverse=False)", "c.to_table()[k].argsort()"),
                          ("smallest first", "order_cat(c, reverse=False)", "c.to_table()['area'].argsort()")):
        n = "c, k" if "k" in call.split("(")[1].replace("key", "k").split(")")[0].replace("c", "") and "k" in ref.split("[")[1] and "'" not in ref else "c"
        ck.same("order " + nm, SE + "def client(%s):\n    return list(%s)\n" % (n, call), SE + "def client(%s):\n    return list(%s)\n" % (n, ref), {x: q[x] for x in n.split(", ")})
    for kw in ("plot=True", "plot=False", "plot=False, deblend=False"):
        pure(ck, "make_catalog writes to no argument (%s)" % kw, SE + "def client(image, t, w):\n    return make_catalog(image, t, w, npixels=5, %s)\n" % kw, {k: P[k] for k in ("image", "t", "w")})


def failed(t):
    """the failure of the isophote fit, whatever calls the handler guards besides it"""
    def fn(x):
        if x.op == "raised" and any(s.op == "mcall" and s.args[0] == "fit_isophote" for s in subterms(x)):
            return sym("the fit fails", "bool")
        return None
    return rewrite(t, fn)


def p35(ck):
    AM = SE + "from photutils.isophote import EllipseGeometry, Ellipse\n"
    P = {"r": "float,pos", "image": "arr2", "x": "float", "y": "float", "e": "float", "t": "float"}
    for cls in ("arr2", "obj:astropy.nddata.CCDData", "obj:astropy.nddata.Cutout2D"):
        for rk in ("float,pos", "int,pos"):
            px = "image" if cls == "arr2" else "image.data"
            ck.same("amplitude on a %s at a radius (%s)" % (cls.split(".")[-1], rk.split(",")[0]),
                    AM + "def client(r, image, x, y, e, t):\n    return get_amplitude_at_r(r, image, x, y, e, t)\n",
                    AM + "def client(r, image, x, y, e, t):\n    try:\n        return Ellipse(%s, geometry=EllipseGeometry(x, y, 1.0, e, t)).fit_isophote(float(r)).intens\n    except Exception:\n        return np.nan\n" % px,
                    dict(P, r=rk, image=cls), post=failed)
    o = ck.run(AM + "def client(r, image, x, y, e, t):\n    return get_amplitude_at_r(r, image, x, y, e, t)\n", P)
    w = [e for e in o.events if e.kind == "warn"]
    ok = None
    if not o.unsup:
        ok = bool(w) and not o.raises
    ck.holds("a warning on the failing path, no exception on any", "a failed isophote fit is announced", ok, "no warning is given" if not w else "raises", "get_amplitude_at_r", o)
    from .correction import grid_save, psf_sum
    grid_save(ck)
    psf_sum(ck)


RULES = {"P29": p29, "P30": p30, "P31": p31, "P35": p35}
