"""P34: physical dimensions."""
from ..terms import *
from ..terms import Term
from ..dims import Dims, ANY
from .. import harness
from .entries import HEAD, TABLE, lst

CO = "petrofit.petrosian.core."
UNITS = ("length", "flux")


def V(l, f=0):
    return (num(l), num(f))


ONE_, LEN, AREA, FLUX, SB = V(0), V(1), V(2), V(0, 1), V(-2, 1)
SYM = dict(r_list=LEN, area=AREA, flux=FLUX, area_err=AREA, flux_err=FLUX, petro=ONE_, petro_err=ONE_, eta=ONE_, epsilon=ONE_, epsilon_fraction=ONE_, total_flux_fraction=ONE_,
           num=ONE_, kind=ONE_, fraction=ONE_, fraction_2=ONE_, r_petrosian=LEN, r_petrosian_err=LEN, r=LEN, x=LEN, y=LEN, amplitude=SB, r_eff=LEN, n=ONE_,
           x_0=LEN, y_0=LEN, ellip=ONE_, theta=ONE_, c_0=ONE_, f=FLUX, r_break=LEN, alpha=ONE_, beta=ONE_, gamma=ONE_, elong=ONE_, value=LEN, series=LEN, a=LEN, image=SB, error=SB, position=LEN, dr=LEN)
KINDS = {k: "arr1" for k in ("r_list", "area", "flux", "area_err", "flux_err", "petro", "petro_err", "series")}
KINDS.update({k: "float,pos" for k in ("eta", "epsilon", "epsilon_fraction", "total_flux_fraction", "fraction", "fraction_2", "r_petrosian", "r_petrosian_err", "r", "amplitude", "r_eff", "n", "r_break", "f",
                                       "alpha", "beta", "gamma", "elong", "a", "value")})
KINDS.update(image="arr2", error="arr2", mask="barr", position=lst("float", 2), dr="float,pos", num="int,pos", kind="str", x="arr2", y="arr2", x_0="float", y_0="float", ellip="float", theta="float", c_0="float", u="float,pos")
ABSTRACT = {CO + "calculate_petrosian": harness.abstract("calculate_petrosian", nret=2, arr=True), CO + "calculate_petrosian_r": harness.abstract("calculate_petrosian_r", nret=2),
            CO + "fraction_to_r": harness.abstract("fraction_to_r", nret=2), CO + "calculate_concentration_index": harness.abstract("concentration", nret=3)}
RESULT = {"calculate_petrosian": [ONE_, ONE_], "calculate_petrosian_r": [LEN, LEN], "fraction_to_r": [LEN, LEN], "concentration": [LEN, LEN, ONE_]}
ARGS = {("calculate_petrosian", "area_list"): AREA, ("calculate_petrosian", "flux_list"): FLUX, ("calculate_petrosian", "area_err"): AREA, ("calculate_petrosian", "flux_err"): FLUX,
        ("calculate_petrosian_r", "r_list"): LEN, ("calculate_petrosian_r", "petrosian_list"): ONE_, ("calculate_petrosian_r", "petrosian_err"): ONE_, ("calculate_petrosian_r", "eta"): ONE_,
        ("calculate_petrosian_r", "interp_num"): ONE_}
for _f in ("fraction_to_r", "concentration"):
    ARGS.update({(_f, "r_list"): LEN, (_f, "flux_list"): FLUX, (_f, "flux_err"): FLUX, (_f, "r_petrosian"): LEN, (_f, "r_petrosian_err"): LEN, (_f, "epsilon"): ONE_, (_f, "epsilon_fraction"): ONE_,
                 (_f, "fraction"): ONE_, (_f, "fraction_1"): ONE_, (_f, "fraction_2"): ONE_, (_f, "interp_num"): ONE_})


AP = "photutils.aperture."


def measured(args):
    """sum over an aperture: the data times an area"""
    d = args.get("data")
    return [d if d is None or d == ANY else tuple(add(p, q) for p, q in zip(d, AREA)), FLUX]


CALLS = {AP + "EllipticalAperture": ({"positions": LEN, "a": LEN, "b": LEN, "theta": ONE_}, None),
         AP + "EllipticalAnnulus": ({"positions": LEN, "a_in": LEN, "a_out": LEN, "b_in": LEN, "b_out": LEN, "theta": ONE_}, None),
         AP + "CircularAperture": ({"positions": LEN, "r": LEN}, None),
         "method:do_photometry": ({"error": SB}, measured), "method:area_overlap": ({}, AREA)}
COLUMNS = dict(p02=LEN, p03=LEN, p04=LEN, p05=LEN, p0502=ONE_, p0302=ONE_, sersic_r_20=LEN, n=ONE_, r_eff=LEN, sersic_r_50=LEN, sersic_r_80=LEN, sersic_r_99=LEN, sersic_L_inf=FLUX)
COLUMNS.update({k + q: LEN for k in ("c_", "u_", "") for q in ["r_%02d" % i for i in (20, 50, 80, 90, 99)] + ["r_total_flux", "r_petrosian", "r_p_0_2", "r_total"]})
COLUMNS.update({k + q: ONE_ for k in ("c_", "u_") for q in ("c2080", "c5090", "epsilon", "epsilon_50", "epsilon_80")})


def table():
    """(label, call, parameters, dimensions of the result, set-up, options)"""
    out = []

    def F(call, names, res, pre="", opts=None, label=None, over=None):
        out.append((label or call, call, names.split(), res, pre, opts or {}, over or {}))
    for e, n in (("", ""), (", area_err, flux_err", " area_err flux_err")):
        F("calculate_petrosian(area, flux%s)" % e, "area flux" + n, [ONE_, ONE_])
    for k in ("'cubic'", "None"):
        F("calculate_petrosian_r(r_list, petro, eta=eta, interp_kind=%s, interp_num=num)" % k, "r_list petro eta num", [LEN, LEN])
        F("calculate_petrosian_r(r_list, petro, petro_err, eta=eta, interp_kind=%s, interp_num=num)" % k, "r_list petro petro_err eta num", [LEN, LEN])
        a = "r_list, flux, r_petrosian, epsilon=epsilon, epsilon_fraction=epsilon_fraction, interp_kind=%s, interp_num=num" % k
        n = "r_list flux r_petrosian epsilon epsilon_fraction num"
        for e, m in (("", ""), (", flux_err=flux_err, r_petrosian_err=r_petrosian_err", " flux_err r_petrosian_err")):
            F("fraction_to_r(fraction, %s%s)" % (a, e), "fraction " + n + m, [LEN, LEN])
            F("calculate_concentration_index(fraction, fraction_2, %s%s)" % (a, e), "fraction fraction_2 " + n + m, [LEN, LEN, ONE_])
    for e, n in (("", ""), (", area_err=area_err, flux_err=flux_err", " area_err flux_err")):
        for k in ("'cubic'", "None"):
            pre = "    p = Petrosian(r_list, area, flux%s, eta=eta, epsilon=epsilon, epsilon_fraction=epsilon_fraction, total_flux_fraction=total_flux_fraction, interp_kind=%s, interp_num=num)\n" % (e, k)
            ns = "r_list area flux eta epsilon epsilon_fraction total_flux_fraction num" + n
            what = "Petrosian.%%s (%s, interp_kind=%s)" % ("errors" if e else "no errors", k)
            for m, d in (("r_petrosian", LEN), ("r_petrosian_err", LEN), ("r_epsilon", LEN), ("r_epsilon_in_range", None), ("r_total_flux", LEN), ("r_total_flux_err", LEN), ("total_flux", FLUX),
                         ("total_flux_err", FLUX), ("half_flux", FLUX), ("half_flux_err", FLUX), ("r_half_light", LEN), ("r_half_light_err", LEN), ("r_50", LEN), ("r_50_err", LEN), ("c2080", ONE_),
                         ("c5090", ONE_), ("concentration_index()", [LEN, LEN, ONE_]), ("concentration_index(fraction, fraction_2)", [LEN, LEN, ONE_]), ("fraction_flux_to_r(fraction)", LEN),
                         ("fraction_flux_to_r_err(fraction)", LEN), ("petrosian_list", ONE_), ("petrosian_err", ONE_), ("area_list", AREA), ("flux_list", FLUX), ("r_list", LEN), ("eta", ONE_)):
                x = " fraction fraction_2" if "fraction_2" in m else " fraction" if "(fraction)" in m else ""
                F("p." + m, ns + x, d, pre, {"override": ABSTRACT}, what % m)
    s = "amplitude r_eff n x_0 y_0 ellip theta"
    F("GenSersic2D.evaluate(x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0)", "x y " + s + " c_0", SB)
    F("Nuker2D.evaluate(x, y, amplitude, r_break, x_0, y_0, alpha, beta, gamma)", "x y amplitude r_break x_0 y_0 alpha beta gamma", SB)
    F("CoreSersic2D.evaluate(x, y, amplitude, r_eff, r_break, n, x_0, y_0, alpha, gamma, ellip, theta)", "x y amplitude r_eff r_break n x_0 y_0 alpha gamma ellip theta", SB)
    F("sersic_enclosed(r, amplitude, r_eff, n, ellip=ellip)", "r amplitude r_eff n ellip", FLUX)
    F("sersic_enclosed_inv(f, amplitude, r_eff, n, ellip=ellip)", "f amplitude r_eff n ellip", LEN)
    F("sersic_enclosed_model.evaluate(r, amplitude, r_eff, n, ellip)", "r amplitude r_eff n ellip", FLUX)
    F("petrosian_profile(r, r_eff, n)", "r r_eff n", ONE_)
    F("petrosian_model.evaluate(r, r_eff, n)", "r r_eff n", ONE_)
    F("Ie_to_I0(amplitude, n)", "amplitude n", SB)
    F("I0_to_Ie(amplitude, n)", "amplitude n", SB)
    grid = "    p = Petrosian(r_list, area, flux)\n    k = PetrosianCorrection(grid%s)\n"
    for er in ("", ", enforce_range=False"):
        for m, d in (("estimate_epsilon", ONE_), ("estimate_n", ONE_)):
            F("k.%s(p)" % m, "r_list area flux grid", d, grid % er, {"override": ABSTRACT}, "PetrosianCorrection.%s (%s)" % (m, er[2:] or "range enforced"), {"grid": TABLE})
    F("radial_elliptical_aperture(position, r, elong, theta)", "position r elong theta", None)
    F("radial_elliptical_annulus(position, r, dr, elong, theta)", "position r dr elong theta", None)
    for e, n in (("", ""), (", error=error", " error"), (", mask=mask", " mask")):
        F("radial_photometry(image, position, r_list, elong=elong, theta=theta%s)" % e, "image position r_list elong theta" + n, [FLUX, AREA, FLUX], "", {"rounding": True}, None, {"r_list": "arr1,len=2"})
    F("ellip_to_elong(ellip)", "ellip", ONE_)
    F("elong_to_ellip(elong)", "elong", ONE_)
    F("elliptical_area_to_r(area, elong)", "area elong", [LEN, LEN])
    F("circle_area_to_r(area)", "area", LEN)
    F("get_interpolated_values(r_list, flux, num=num)", "r_list flux num", [LEN, FLUX])
    for g in ("", ", growing=True"):
        F("closest_value_index(value, r_list%s)" % g, "value r_list", None)
    return out


def leaves(v):
    """the results of an outcome, one per returned value"""
    if isinstance(v, Term) and v.op in ("tuple", "vec"):
        return list(v.args[0])
    if isinstance(v, Term) and v.op == "ite":
        a, b = leaves(v.args[1]), leaves(v.args[2])
        if len(a) == len(b) > 1:
            return [ite(v.args[0], x, y) for x, y in zip(a, b)]
    return [v]


def p34(ck):
    for label, call, names, res, pre, opts, over in table():
        o = ck.run(HEAD + "def client(%s):\n%s    return %s\n" % (", ".join(names), pre, call), {n: over.get(n) or KINDS[n] for n in names}, opts={k: v for k, v in opts.items() if k != "rounding"})
        if o.unsup or not isinstance(o.value, Term):
            ck.holds("dimensions agree", label, None, str(o.unsup or "no value"), "", o)
            continue
        d = Dims(UNITS, SYM, RESULT, ARGS, CALLS, COLUMNS, opts.get("rounding", False))
        vs = leaves(o.value)
        got = [d.of(v) for v in vs]
        for c in o.raises or ():
            for x in c:
                if isinstance(x, Term):
                    d.of(x)
        for e in o.events:
            for x in e.pc:
                if isinstance(x, Term):
                    d.of(x)
        want = res if isinstance(res, list) else [res]
        where = call
        if d.conflicts:
            for what, ds, t in d.conflicts:
                ck.holds("dimensions agree", label, False, "%s %s: %s" % (what, " and ".join(ds), show(t, 4)[:300]), ck.where(o, t), o)
            continue
        if res is None:
            ck.holds("dimensions agree", label, True, "", "", o)
            continue
        if len(want) != len(got):
            ck.holds("dimensions agree", label, None, "%d results" % len(got), where, o)
            continue
        bad = [(g, w) for g, w in zip(got, want) if g is not None and g != ANY and not d.same(g, w)]
        if bad:
            ck.holds("dimensions agree", label, False, "the result is %s, not %s" % (d.text(bad[0][0]), d.text(bad[0][1])), where, o)
        else:
            ck.holds("dimensions agree", label, None if any(g is None for g in got) else True, "unknown dimension through " + ", ".join(sorted(d.unknown)) if d.unknown else "", where, o)


RULES = {"P34": p34}
