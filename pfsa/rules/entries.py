"""Calls of every public entry point, in the configurations that select its branches. The global rules (P32, P33, P36) analyse each of them."""
from ..terms import *
from ..values import ListC, DictC, VTuple
from ..harness import abstract

HEAD = '''
from petrofit.photometry import *
from petrofit.segmentation import *
from petrofit.utils import *
from petrofit.petrosian import *
from petrofit.petrosian.core import *
from petrofit.petrosian.correction import *
from petrofit.modeling.fitting import *
from petrofit.modeling.fitting import model_center_to_image_origin
from petrofit.modeling.models import *
from petrofit.modeling.models import CoreSersic2D
from astropy.modeling import models
from astropy.modeling.fitting import TRFLSQFitter, LevMarLSQFitter, LinearLSQFitter
from astropy.table import Table
import numpy as np
def frozen(x):
    return x
'''
CAT = "obj:photutils.segmentation.SourceCatalog"
SEG = "obj:photutils.segmentation.SegmentationImage"
CCD = "obj:astropy.nddata.CCDData"
CUT = "obj:astropy.nddata.Cutout2D"
MASKED = "obj:numpy.ma.MaskedArray"
TABLE = "obj:astropy.table.Table"
WCS = "obj:astropy.wcs.WCS"


def lst(kind_, n, tag=""):
    """a Python list handed in by the caller"""
    def make(it, name):
        return it.new(ListC([sym("%s%s%d" % (name, tag, i), kind_) for i in range(n)]), ("arg", name))
    return make


def objs(kind_, n):
    def make(it, name):
        return it.new(ListC([it.new(sym("%s%d" % (name, i), kind_), ("arg", name)) for i in range(n)]), ("arg", name))
    return make


def dct(**items):
    def make(it, name):
        return it.new(DictC([(const(k), sym("%s_%s" % (name, k), v)) for k, v in items.items()]), ("arg", name))
    return make


KIND = dict(image="arr2", img="arr2", error="arr2", mask="barr", position=lst("float", 2), r_list="arr1", area="arr1", flux="arr1", area_err="arr1",
            flux_err="arr1", petro="arr1", petro_err="arr1", elong="float,pos", theta="float", vmin="float", vmax="float", segm=SEG, source=CAT, cat=CAT,
            label="int", labels=lst("int", 2), fill="float", sigma="float,pos", size="int,pos", sizes=lst("int", 2), model="obj:Model", weights="arr2",
            psf="arr2", x="arr1", y="arr1", xx="arr2", yy="arr2", r="float,pos", dr="float,pos", n="float,pos", f="float", alpha="float", title="str",
            npixels="int,pos", nlevels="int,pos", threshold="float", wcs=WCS, key="str", figsize=lst("float", 2), text="str", method="str",
            flag="bool", num="int,pos", kind="str", value="float", eta="float,pos", epsilon="float,pos", fraction="float,pos", fraction_2="float,pos",
            r_petrosian="float,pos", r_petrosian_err="float,pos", os="int,pos", pos="int,pos", ra_1="arr1", dec_1="arr1", ra_2="arr1", dec_2="arr1",
            header=dct(PHOTFLAM="float", PHOTPLAM="float", PHOTZPT="float", MAGZPT="float"), words=lst("str", 3), ap=objs("obj:Aperture", 2), ax="obj:Axes", axs=objs("obj:Axes", 3),
            override=dct(n="any"), amplitude="float,pos", r_eff="float,pos", ellip="float", center=lst("float", 2), mode="str", factor="int,pos",
            grid=TABLE, x_0="float", y_0="float", a="float,pos", b="float,pos", g="float,pos", c_0="float", target="arr2", px="int", py="int", name="str",
            r_effs=lst("float", 2), ns=lst("float", 2), c="str", lw="float", cutout="float,pos", cu="bool", mi="int,pos", ep="float", color="str",
            row=lst("float", 2), z="arr2", origin=lst("float", 2), xv="float", yv="float", zv="float")


class Entry:
    def __init__(self, func, call, names, kinds=None, pre="", tag="", opts=None, slow=False):
        self.func, self.call, self.names, self.pre, self.tag = func, call, names.split(), pre, tag
        self.kinds = dict(KIND, **(kinds or {}))
        self.opts, self.slow = opts or {}, slow

    @property
    def label(self):
        return self.call + (" (%s)" % self.tag if self.tag else "")

    def params(self, **over):
        return {n: dict(self.kinds, **over)[n] for n in self.names}

    def text(self, body="    return %s\n"):
        return HEAD + "def client(%s):\n%s%s" % (", ".join(self.names), self.pre, body.replace("%s", self.call))

    def attrs(self):
        """attributes of opaque objects: segmentation labels and pixels are arrays owned by their object"""
        out = {}
        for n in self.names:
            k = self.kinds[n]
            if k == SEG:
                out[sym(n, SEG)] = {"data": sym(n + ".data", "arr2")}
            elif k in (CCD, CUT) and isinstance(k, str):
                out[sym(n, k)] = {"data": sym(n + ".data", "arr2")}
            elif k == CAT and isinstance(k, str):
                out[sym(n, CAT)] = {"label": sym(n + ".label", "int")}
        return out

    def options(self):
        o = dict(self.opts)
        o["objattrs"] = dict(self.attrs(), **o.get("objattrs", {}))
        return o


def index_and_error(it, f, args, kwargs):
    """calculate_petrosian: an index array, and its error when any error was given (P01, P02 decide the values)"""
    env = it.bindargs(f, list(args), dict(kwargs))
    both = abstract("calculate_petrosian", nret=2, arr=True)(it, f, args, kwargs)
    if all(env.get(k) is NONE for k in ("area_err", "flux_err")):
        return VTuple([both.items[0], NONE])
    return both


def entries():
    out = []

    def E(func, call, names, **kw):
        out.append(Entry(func, call, names, **kw))
    # ---- photometry
    ph = "petrofit.photometry."
    E(ph + "plot_apertures", "plot_apertures(image, ap)", "image ap")
    E(ph + "plot_apertures", "plot_apertures(image, ap, vmin=vmin, vmax=vmax, color=color, lw=lw)", "image ap vmin vmax color lw")
    E(ph + "plot_apertures", "plot_apertures(image=None, apertures=ap)", "ap")
    E(ph + "plot_apertures", "plot_apertures(image)", "image")
    for r in ("float,pos", "int,pos"):
        E(ph + "radial_elliptical_aperture", "radial_elliptical_aperture(position, r, elong, theta)", "position r elong theta", kinds={"r": r}, tag=r)
        E(ph + "radial_elliptical_annulus", "radial_elliptical_annulus(position, r, dr, elong, theta)", "position r dr elong theta", kinds={"r": r}, tag=r)
    for im in ("arr2", CCD, CUT, MASKED):
        for nm, kw, ns in (("", "", ""), ("error", ", error=error", "error"), ("mask", ", mask=mask", "mask"), ("all", ", error=error, mask=mask, elong=elong, theta=theta, method=method", "error mask elong theta method"),
                           ("plot", ", plot=True, vmin=vmin, vmax=vmax", "vmin vmax")):
            E(ph + "radial_photometry", "radial_photometry(image, position, r_list%s)" % kw, "image position r_list " + ns, kinds={"image": im, "r_list": "arr1,len=2"}, tag=im)
    E(ph + "radial_photometry", "radial_photometry(image, position, r_list)", "image position r_list", kinds={"r_list": lst("float", 2)}, tag="list of radii")
    E(ph + "radial_photometry", "radial_photometry(image, position, r_list)", "image position r_list", kinds={"r_list": "arr1,len=2", "position": "arr1,len=2"}, tag="array position")
    # ---- segmentation
    se = "petrofit.segmentation."
    for im in ("arr2", CCD):
        E(se + "plot_segments", "plot_segments(segm, image)", "segm image", kinds={"image": im}, tag=im)
        E(se + "plot_segments", "plot_segments(segm, image, vmin=vmin, vmax=vmax, alpha=alpha, title=title)", "segm image vmin vmax alpha title", kinds={"image": im}, tag=im)
        E(se + "plot_segment_residual", "plot_segment_residual(segm, image)", "segm image", kinds={"image": im}, tag=im)
        E(se + "plot_segment_residual", "plot_segment_residual(segm, image, vmin=vmin, vmax=vmax)", "segm image vmin vmax", kinds={"image": im}, tag=im)
        E(se + "get_amplitude_at_r", "get_amplitude_at_r(r, image, x_0, y_0, ellip, theta)", "r image x_0 y_0 ellip theta", kinds={"image": im}, tag=im)
        for mb in ("", ", mask_background=True"):
            E(se + "masked_segm_image", "masked_segm_image(source, image, segm%s)" % mb, "source image segm", kinds={"image": im}, tag=im)
            E(se + "masked_segm_image", "masked_segm_image(labels, image, segm, fill=fill%s)" % mb, "labels image segm fill", kinds={"image": im}, tag=im)
        E(se + "make_segments", "make_segments(image, npixels=npixels, threshold=threshold)", "image npixels threshold", kinds={"image": im}, tag=im)
        E(se + "make_segments", "make_segments(image, npixels=npixels, threshold=threshold)", "image npixels threshold", kinds={"image": im, "threshold": "arr2"}, tag="threshold image, " + im)
        E(se + "deblend_segments", "deblend_segments(image, segm, npixels=npixels, nlevels=nlevels, contrast=alpha)", "image segm npixels nlevels alpha", kinds={"image": im}, tag=im)
        for kw, ns in (("", ""), (", npixels=npixels, plot=False", "npixels"), (", wcs=wcs, deblend=False, npixels=npixels, plot=True, vmin=vmin, vmax=vmax", "wcs npixels vmin vmax"),
                       (", npixels=npixels, nlevels=nlevels, contrast=alpha, plot=True, figsize=figsize", "npixels nlevels alpha figsize")):
            E(se + "make_catalog", "make_catalog(image, threshold%s)" % kw, "image threshold " + ns, kinds={"image": im}, tag=im)
        for kw, ns in (("", ""), (", error=error", "error"), (", cutout_size=cutout, bg_sub=True, sigma=sigma", "cutout sigma"), (", bg_sub=True, sigma=sigma, sigma_type='bound'", "sigma"),
                       (", plot=True, vmin=vmin, vmax=vmax, figsize=figsize", "vmin vmax figsize"), (", mask_background=True, method=method", "method"),
                       (", plot=True, bg_sub=True, sigma_type='bound', mask_background=True, error=error", "error")):
            E(se + "source_photometry", "source_photometry(source, image, segm, r_list%s)" % kw, "source image segm r_list " + ns, kinds={"image": im, "r_list": "arr1,len=2"}, tag=im, slow=True)
    E(se + "plot_segments", "plot_segments(segm)", "segm")
    for f in ("position", "elong", "ellip", "theta"):
        E(se + "get_source_" + f, "get_source_%s(source)" % f, "source")
    E(se + "order_cat", "order_cat(cat)", "cat")
    E(se + "order_cat", "order_cat(cat, key=key, reverse=flag)", "cat key flag")
    for s, ns in (("label", "label"), ("source", "source"), ("labels", "labels"), ("cats", "cats")):
        for mb in ("", ", mask_background=True"):
            E(se + "segm_mask", "segm_mask(%s, segm%s)" % (s, mb), ns + " segm", kinds={"cats": objs(CAT, 2)})
    # ---- utils
    ut = "petrofit.utils."
    E(ut + "natural_sort", "natural_sort(words)", "words")
    for f in ("ellip_to_elong", "elong_to_ellip"):
        E(ut + f, f + "(ellip)", "ellip")
        E(ut + f, f + "(ellip)", "ellip", kinds={"ellip": "arr1"}, tag="array")
    E(ut + "make_radius_list", "make_radius_list(size, num)", "size num")
    E(ut + "make_radius_list", "make_radius_list(size, num, log=True)", "size num")
    E(ut + "hst_flux_to_abmag", "hst_flux_to_abmag(value, header)", "value header")
    E(ut + "hst_flux_to_abmag", "hst_flux_to_abmag(value, header)", "value header", kinds={"value": "arr1"}, tag="array")
    E(ut + "match_catalogs", "match_catalogs(ra_1, dec_1, ra_2, dec_2)", "ra_1 dec_1 ra_2 dec_2")
    E(ut + "match_catalogs", "match_catalogs(ra_1, dec_1, ra_2, dec_2, unit=text)", "ra_1 dec_1 ra_2 dec_2 text")
    E(ut + "angular_to_pixel", "angular_to_pixel(value, wcs)", "value wcs")
    E(ut + "pixel_to_angular", "pixel_to_angular(value, wcs)", "value wcs")
    E(ut + "elliptical_area_to_r", "elliptical_area_to_r(value, elong)", "value elong")
    E(ut + "elliptical_area_to_r", "elliptical_area_to_r(area, elong)", "area elong", tag="array")
    E(ut + "circle_area_to_r", "circle_area_to_r(area)", "area", tag="array")
    E(ut + "get_interpolated_values", "get_interpolated_values(x, y)", "x y")
    E(ut + "get_interpolated_values", "get_interpolated_values(x, y, num=num, kind=kind)", "x y num kind")
    for g in ("", ", growing=True"):
        E(ut + "closest_value_index", "closest_value_index(value, x%s)" % g, "value x")
        E(ut + "closest_value_index", "closest_value_index(value, xs%s)" % g, "value xs", kinds={"xs": lst("float", 3)}, tag="list")
    for im in ("arr2", CCD):
        E(ut + "plot_target", "plot_target(image, position)", "image position", kinds={"image": im}, tag=im)
        E(ut + "plot_target", "plot_target(image, position, size=size, c=c, lw=lw, vmin=vmin, vmax=vmax, marker_base_size=a)", "image position size c lw vmin vmax a", kinds={"image": im}, tag=im)
    E(ut + "cutout_subtract", "cutout_subtract(image, target, px, py)", "image target px py")
    E(ut + "mpl_tick_frame", "mpl_tick_frame()", "")
    E(ut + "mpl_tick_frame", "mpl_tick_frame(ax=ax, minorticks=flag, tick_fontsize=a)", "ax flag a")
    # ---- Petrosian
    co = "petrofit.petrosian.core."
    for kw, ns in (("", ""), (", area_err=area_err", "area_err"), (", flux_err=flux_err", "flux_err"), (", area_err=area_err, flux_err=flux_err", "area_err flux_err")):
        E(co + "calculate_petrosian", "calculate_petrosian(area, flux%s)" % kw, "area flux " + ns)
    E(co + "calculate_petrosian", "calculate_petrosian(area, flux, area_err, flux_err)", "area flux area_err flux_err",
      kinds=dict(area=lst("float", 3), flux=lst("float", 3), area_err=lst("float", 3), flux_err=lst("float", 3)), tag="lists")
    for kd in ("'cubic'", "'linear'", "None"):
        E(co + "calculate_petrosian_r", "calculate_petrosian_r(r_list, petro, petrosian_err=petro_err, eta=eta, interp_kind=%s, interp_num=num)" % kd, "r_list petro petro_err eta num")
        E(co + "calculate_petrosian_r", "calculate_petrosian_r(r_list, petro, interp_kind=%s)" % kd, "r_list petro")
        for f, a, n in (("fraction_to_r", "fraction", "fraction"), ("calculate_concentration_index", "fraction, fraction_2", "fraction fraction_2")):
            E(co + f, "%s(%s, r_list, flux, r_petrosian, interp_kind=%s)" % (f, a, kd), n + " r_list flux r_petrosian")
            E(co + f, "%s(%s, r_list, flux, r_petrosian, flux_err=flux_err, r_petrosian_err=r_petrosian_err, epsilon=epsilon, epsilon_fraction=a, interp_kind=%s, interp_num=num)" % (f, a, kd),
              n + " r_list flux r_petrosian flux_err r_petrosian_err epsilon a num")
    P0 = "    p = Petrosian(r_list, area, flux)\n"
    P1 = "    p = Petrosian(r_list, area, flux, area_err=area_err, flux_err=flux_err, eta=eta, epsilon=epsilon, interp_kind=kind, interp_num=num)\n"
    N0, N1 = "r_list area flux", "r_list area flux area_err flux_err eta epsilon kind num"
    core = {"override": {co + "calculate_petrosian": index_and_error, co + "calculate_petrosian_r": abstract("calculate_petrosian_r", nret=2),
                         co + "fraction_to_r": abstract("fraction_to_r", nret=2), co + "calculate_concentration_index": abstract("concentration", nret=3)}}
    E(co + "Petrosian.__init__", "Petrosian(r_list, area, flux)", N0, tag="analysed through", slow=True)
    E(co + "Petrosian.__init__", "Petrosian(r_list, area, flux)", N0, kinds=dict(r_list=lst("float", 3), area=lst("float", 3), flux=lst("float", 3)), opts=core, tag="lists")
    props = ["r_list", "area_list", "area_err", "flux_list", "flux_err", "epsilon", "eta", "epsilon_fraction", "total_flux_fraction", "r_petrosian", "r_petrosian_err", "r_epsilon",
             "r_epsilon_in_range", "r_total_flux", "r_total_flux_err", "total_flux", "total_flux_err", "half_flux", "half_flux_err", "r_half_light", "r_half_light_err", "r_50", "r_50_err",
             "c2080", "c5090"]
    PA, PF = P0.replace("flux)", "flux, area_err=area_err)"), P0.replace("flux)", "flux, flux_err=flux_err)")
    for pre, ns, tag in ((P0, N0, "no errors"), (P1, N1, "errors"), (PA, N0 + " area_err", "area errors only"), (PF, N0 + " flux_err", "flux errors only")):
        for m in props:
            E(co + "Petrosian." + m, "p." + m, ns, pre=pre, tag=tag, opts=core)
        E(co + "Petrosian.concentration_index", "p.concentration_index()", ns, pre=pre, tag=tag, opts=core)
        E(co + "Petrosian.concentration_index", "p.concentration_index(fraction, fraction_2)", ns + " fraction fraction_2", pre=pre, tag=tag, opts=core)
        for m in ("fraction_flux_to_r", "fraction_flux_to_r_err"):
            E(co + "Petrosian." + m, "p.%s()" % m, ns, pre=pre, tag=tag, opts=core)
            E(co + "Petrosian." + m, "p.%s(fraction)" % m, ns + " fraction", pre=pre, tag=tag, opts=core)
        for m in ("r_half_light_arcsec", "r_total_flux_arcsec"):
            E(co + "Petrosian." + m, "p.%s(wcs)" % m, ns + " wcs", pre=pre, tag=tag, opts=core)
        for m in ("plot", "plot_cog"):
            E(co + "Petrosian." + m, "p.%s()" % m, ns, pre=pre, tag=tag, opts=core)
            E(co + "Petrosian." + m, "p.%s(plot_r=False, ax=ax, title=title, color=color, show_legend=False)" % m, ns + " ax title color", pre=pre, tag=tag, opts=core)
            E(co + "Petrosian." + m, "p.%s(radius_unit=text, err_alpha=alpha, err_capsize=a, legend_fontsize=b, ax_fontsize=lw, tick_fontsize=value)" % m, ns + " text alpha a b lw value", pre=pre, tag=tag, opts=core)
        E(co + "Petrosian._plot_radii", "p._plot_radii(ax, radius_unit=text)", ns + " ax text", pre=pre, tag=tag, opts=core)
        E(co + "Petrosian.imshow", "p.imshow()", ns, pre=pre, tag=tag, opts=core)
        E(co + "Petrosian.imshow", "p.imshow(position=position, elong=elong, theta=theta, color=color, lw=lw)", ns + " position elong theta color lw", pre=pre, tag=tag, opts=core)
    # ---- corrections
    cr = "petrofit.petrosian.correction."
    from .correction import abstract_row
    rows = {"override": {cr + "_generate_petrosian_correction": abstract_row}}
    gen = "generate_petrosian_sersic_correction(%s, psf=psf, r_eff_list=r_effs, n_list=ns%s)"
    E(cr + "generate_petrosian_sersic_correction", gen % ("None", ""), "psf r_effs ns", opts=rows)
    E(cr + "generate_petrosian_sersic_correction", gen % ("name", ", out_format=text, overwrite=flag, ipython_widget=True"), "name psf r_effs ns text flag", opts=rows)
    E(cr + "generate_petrosian_sersic_correction", gen % ("None", ", oversample=os, psf_oversample=pos, n_cpu=2"), "psf r_effs ns os pos", opts=rows)
    E(cr + "generate_petrosian_sersic_correction", "generate_petrosian_sersic_correction(None, r_eff_list=r_effs, n_list=ns)", "r_effs ns", opts=rows)
    E(cr + "generate_petrosian_sersic_correction", "generate_petrosian_sersic_correction(None, r_eff_list=xs, n_list=ys)", "xs ys", kinds={"xs": "arr1,len=2", "ys": "arr1,len=2"}, tag="arrays", opts=rows)
    C0 = "    k = PetrosianCorrection(grid)\n"
    for m, a, ns in (("grid_keys", "", ""), ("unique_grid_values", "(key)", "key"), ("filter_grid", "(key, value)", "key value"), ("write", "(name)", "name"), ("write", "(name, file_format=text)", "name text")):
        E(cr + "PetrosianCorrection." + m, "k.%s%s" % (m, a), "grid " + ns, pre=C0)
    for er in ("", ", enforce_range=False"):
        for m in ("correct", "estimate_n", "estimate_epsilon"):
            E(cr + "PetrosianCorrection." + m, "k.%s(p)" % m, "grid " + N0, pre=P0 + C0.replace("grid", "grid" + er), tag="range " + ("not enforced" if er else "enforced"), opts=core)
    E(cr + "PetrosianCorrection.plot_correction", "k.plot_correction(p)", "grid " + N0, pre=P0 + C0, opts=core)
    E(cr + "PetrosianCorrection.plot_correction", "k.plot_correction(p, cmap=c, target_c=color, cmap_key=key, colorbar_label=text, suptitle=title, axs=axs)", "grid c color key text title axs " + N0, pre=P0 + C0, opts=core)
    E(cr + "PetrosianCorrection.read", "PetrosianCorrection.read(name)", "name")
    E(cr + "PetrosianCorrection.read", "PetrosianCorrection.read(name, file_format=text)", "name text")
    # ---- fitting
    fi = "petrofit.modeling.fitting."
    for im in ("arr2", CCD, MASKED):
        E(fi + "fit_model", "fit_model(image, model)", "image model", kinds={"image": im}, tag=im)
        E(fi + "fit_model", "fit_model(image, model, weights=weights, maxiter=mi, calc_uncertainties=cu, epsilon=ep, acc=alpha, estimate_jacobian=flag)", "image model weights mi cu ep alpha flag", kinds={"image": im}, tag=im)
        E(fi + "fit_model", "fit_model(image, model, weights=weights, fitter=LinearLSQFitter)", "image model weights", kinds={"image": im}, tag=im)
    for im in ("arr2", CCD):
        E(fi + "fit_background", "fit_background(image)", "image", kinds={"image": im}, tag=im)
        E(fi + "fit_background", "fit_background(image, model=model, sigma=sigma, fitter=TRFLSQFitter, calc_uncertainties=cu)", "image model sigma cu", kinds={"image": im}, tag=im)
        E(fi + "fit_gaussian2d", "fit_gaussian2d(image)", "image", kinds={"image": im}, tag=im)
        E(fi + "plot_fit", "plot_fit(model, image)", "model image", kinds={"image": im}, tag=im)
        E(fi + "plot_fit", "plot_fit(model, image, mode=mode, center=center, vmin=vmin, vmax=vmax, fontsize=a, figsize=figsize, flux_label=text)", "model image mode center vmin vmax a figsize text", kinds={"image": im}, tag=im)
        for kw in ("", ", plot=False", ", plot=False, printout=False"):
            E(fi + "measure_fwhm", "measure_fwhm(image%s)" % kw, "image", kinds={"image": im}, tag=im)
    E(fi + "model_to_image", "model_to_image(model, size)", "model size")
    E(fi + "model_to_image", "model_to_image(model, sizes, mode=mode, factor=factor, center=center)", "model sizes mode factor center")
    E(fi + "model_center_to_image_origin", "model_center_to_image_origin(center, sizes)", "center sizes")
    E(fi + "print_model_params", "print_model_params(model)", "model")
    E(fi + "print_model_params", "print_model_params(m)", "", pre="    m = PSFConvolvedModel2D(models.Sersic2D())\n", tag="convolved model")
    # ---- models
    mo = "petrofit.modeling.models."
    E(mo + "Ie_to_I0", "Ie_to_I0(a, n)", "a n")
    E(mo + "I0_to_Ie", "I0_to_Ie(a, n)", "a n")
    for f in ("get_default_sersic_bounds", "get_default_gen_sersic_bounds"):
        E(mo + f, f + "()", "")
        E(mo + f, f + "(override)", "override")
        E(mo + f, f + "(override=override)", "override", kinds={"override": dct(n="any", extra="any")}, tag="new key")
    E(mo + "make_grid", "make_grid(size)", "size")
    E(mo + "make_grid", "make_grid(size, origin=origin, factor=factor)", "size origin factor")
    S = "    s = models.Sersic2D(amplitude=amplitude, r_eff=r_eff, n=n, x_0=x_0, y_0=y_0, ellip=ellip, theta=theta)\n"
    SN = "amplitude r_eff n x_0 y_0 ellip theta"
    for kw, ns in (("", ""), (", psf=psf", "psf"), (", psf=psf, oversample=os", "psf os"), (", psf=psf, oversample=os, psf_oversample=pos", "psf os pos"), (", oversample=('x_0', 'y_0', 5, 3), name=name", "name")):
        E(mo + "PSFConvolvedModel2D.__init__", "PSFConvolvedModel2D(s%s)" % kw, SN + " " + ns, pre=S)
        M = S + "    m = PSFConvolvedModel2D(s%s)\n" % kw
        for pr in ("model", "param_names", "psf", "oversample", "psf_oversample", "cache_grid"):
            E(mo + "PSFConvolvedModel2D." + pr, "m." + pr, SN + " " + ns, pre=M, tag=kw.strip(", "))
        V = "x, y, " + SN.replace(" ", ", ") + (", angle" if "psf" in ns else ", 0")
        KV = {"x": "arr2", "y": "arr2", "angle": "float"}
        E(mo + "PSFConvolvedModel2D.evaluate", "m.evaluate(%s)" % V, "x y " + SN + (" angle " if "psf" in ns else " ") + ns, pre=M, kinds=KV, tag=kw.strip(", "))
        E(mo + "PSFConvolvedModel2D.evaluate", "m.evaluate(%s)" % V, "x y " + SN + (" angle " if "psf" in ns else " ") + ns, pre=M + "    m.cache_grid = False\n", kinds=KV, tag="no cache, " + kw.strip(", "))
        E(mo + "PSFConvolvedModel2D.evaluate", "m.evaluate(%s)" % V, "x y " + SN + (" angle " if "psf" in ns else " ") + ns, pre=M + "    m.evaluate(%s)\n    m.clear_cached_grid()\n" % V, kinds=KV, tag="cleared, " + kw.strip(", "))
        E(mo + "PSFConvolvedModel2D.clear_cached_grid", "m.clear_cached_grid()", SN + " " + ns, pre=M, tag=kw.strip(", "))
    for k1, nd in (("float", "scalars"), ("arr1", "vectors"), ("arr2", "images")):
        kd = {"x": k1, "y": k1, "r": k1, "f": k1}
        E(mo + "GenSersic2D.evaluate", "GenSersic2D.evaluate(x, y, amplitude, r_eff, n, x_0, y_0, ellip, theta, c_0)", "x y " + SN + " c_0", kinds=kd, tag=nd)
        E(mo + "Nuker2D", "Nuker2D.evaluate(x, y, amplitude, r, x_0, y_0, a, b, g)", "x y amplitude r x_0 y_0 a b g", kinds={"x": k1, "y": k1}, tag=nd)
        E(mo + "CoreSersic2D", "CoreSersic2D.evaluate(x, y, amplitude, r_eff, r, n, x_0, y_0, a, g, ellip, theta)", "x y amplitude r_eff r n x_0 y_0 a g ellip theta", kinds={"x": k1, "y": k1}, tag=nd)
        E(mo + "sersic_enclosed", "sersic_enclosed(r, amplitude, r_eff, n, ellip=ellip)", "r amplitude r_eff n ellip", kinds=kd, tag=nd)
        E(mo + "sersic_enclosed_inv", "sersic_enclosed_inv(f, amplitude, r_eff, n, ellip=ellip)", "f amplitude r_eff n ellip", kinds=kd, tag=nd)
        E(mo + "sersic_enclosed_model", "sersic_enclosed_model.evaluate(x, amplitude, r_eff, n, ellip)", "x amplitude r_eff n ellip", kinds=kd, tag=nd)
        E(mo + "petrosian_profile", "petrosian_profile(r, r_eff, n)", "r r_eff n", kinds=kd, tag=nd)
        E(mo + "petrosian_model", "petrosian_model.evaluate(x, r_eff, n)", "x r_eff n", kinds=kd, tag=nd)
        for f in ("u2080_to_c2080", "c2080_to_n", "n_to_epsilon", "p0502_to_epsilon"):
            E(mo + "PetroApprox." + f, "PetroApprox.%s(x)" % f, "x", kinds=kd, tag=nd)
    return out
