#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the records stay readable)."""
import json, os
P = []
def prop(id, title, statement, text, over, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in state],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": list(observe), "hook_needed": None}})
PH="petrofit/photometry.py"; UT="petrofit/utils.py"; SG="petrofit/segmentation.py"
CO="petrofit/petrosian/core.py"; CR="petrofit/petrosian/correction.py"
FI="petrofit/modeling/fitting.py"; MO="petrofit/modeling/models.py"
I=["inputs"]; IC=["inputs","configurations"]; IH=["inputs","histories"]

prop("P01","Apertures are the requested similar ellipses",
 "For every centre, radius, elongation and angle the elliptical aperture is centred on the given (x, y), has semi-major axis r, semi-minor axis r/elong and the given orientation in radians. The annulus of thickness dr lies between the ellipse of semi-major axis r and the concentric one of semi-major axis r+dr with the same elongation and orientation.",
 "every position, r > 0, dr > 0, elong >= 1 and theta", I,
 "The tests build one aperture and one annulus of fixed shape; an error that cancels for elong=1 or theta=0 or for one thickness is invisible.",
 [PH],[("radial_elliptical_aperture",PH),("radial_elliptical_annulus",PH)],["attributes of the returned aperture"])
prop("P02","Flux, area and error of a radius come from the same pixels",
 "Radial photometry returns three arrays whose k-th entries all belong to the k-th requested radius: the flux and its error are the aperture sums of the image and of the error map, and the area is the sum of unit weights, all measured with the same aperture (same centre, elongation, angle), the same overlap method and the same mask, in which True means that the pixel is used.",
 "every image, error map, mask, radius list (sorted or not), shape and method", IC,
 "One image without mask, elongation or method variation is sampled; misaligned or differently masked sums need other inputs.",
 [PH],[("radial_photometry",PH)],["return value of radial_photometry"])
prop("P03","An undefined flux is never returned silently",
 "If the flux through any aperture is NaN, radial photometry raises instead of returning a curve of growth. Without an error map the returned errors are NaN, one per radius, never zero or absent.",
 "every image with NaN inside some aperture; every call without an error map", IC,
 "No test feeds an unmasked NaN pixel.",
 [PH],[("radial_photometry NaN check",PH)],["exception or return value"])
prop("P04","The Petrosian index is local over enclosed mean brightness",
 "Entry k>0 of the Petrosian profile is the mean surface brightness between apertures k-1 and k divided by the mean surface brightness inside aperture k, so rescaling all fluxes or all areas leaves it unchanged and integer input gives the same result as the equal floats. Entry 0 is NaN; where consecutive areas are equal the entry is the one of the first aperture of that area, and the profile always has one entry per aperture. Unequal lengths, fewer than three points or a decreasing area list are rejected.",
 "every non-decreasing area list of length >= 3 and every flux list of the same length", I,
 "The tests check lengths and NaN positions on one smooth curve of growth, not the values.",
 [CO],[("calculate_petrosian",CO)],["first element returned by calculate_petrosian"])
prop("P05","Petrosian errors are the propagated 1-sigma errors",
 "When flux or area errors are given (a missing one counting as zero) the error of entry k>0 is the first-order quadrature propagation of the flux and area errors of apertures k-1 and k through the definition of the index, treating annulus and enclosed values as independent; entry 0 is NaN and entries stay aligned with the profile. Without any errors no error array is returned.",
 "every area/flux list with any combination of given errors", IC,
 "Tests only look at the length and NaN pattern of the errors.",
 [CO],[("calculate_petrosian error branch",CO)],["second element returned by calculate_petrosian"])
prop("P06","The Petrosian radius is where the profile first reaches eta",
 "The Petrosian radius is the sampled radius closest in index to eta among the samples up to the first one at or below eta, on the profile whose undefined first point is replaced by index 1 at radius 0, interpolated with the requested kind and number (or not at all for kind None); it is NaN if eta is never reached. Its error is half the difference of the radii found on the profile plus and minus its errors with the same settings, and NaN without profile errors.",
 "every radius list, profile, error list, eta, interpolation kind and number", IC,
 "One smooth profile is tested at default settings; profiles that cross several times, never, or with other kinds are not.",
 [CO,UT],[("calculate_petrosian_r",CO),("closest_value_index",UT),("get_interpolated_values",UT)],["return value of calculate_petrosian_r"])
prop("P07","Enclosed-fraction radii follow the curve of growth",
 "The radius of a flux fraction is where the interpolated curve of growth first reaches (flux at r_petrosian*epsilon)*fraction/epsilon_fraction, computed with the requested interpolation; it is NaN when r_petrosian*epsilon is outside the radius list or the flux is not reached. Its error is half the distance between the radii reached by the upper fractional flux on the lower curve and by the lower fractional flux on the upper curve, evaluated at r_petrosian*epsilon plus and minus the radius error with the same interpolation, and NaN when flux errors are missing or that range leaves the radius list.",
 "every curve of growth, fraction, Petrosian radius, epsilon, epsilon_fraction and interpolation setting", IC,
 "Tests use the default epsilon and fractions inside the measured range.",
 [CO,UT],[("fraction_to_r",CO)],["return value of fraction_to_r"])
prop("P08","Concentration is 5 log10 of the two enclosed radii",
 "The concentration index returns the radii of the first and of the second fraction, both computed from the same profile and settings, and 5*log10(second/first); if either radius is undefined all three values are NaN.",
 "every pair of fractions and every curve of growth and setting", IC,
 "One pair of fractions at default settings is compared with an approximate number.",
 [CO],[("calculate_concentration_index",CO)],["return value of calculate_concentration_index and of the object's concentration_index"])
prop("P09","Measurements always reflect the current settings",
 "Every quantity read from a Petrosian object equals what a new object built from the same arrays with the current eta, epsilon, epsilon_fraction, total_flux_fraction and interpolation settings would give, whatever was read or set before. Reading, plotting or copying an object never changes it, and changing a copy never changes the original.",
 "every history of setting and reading an object and its copies", IH,
 "Tests read each quantity once from a freshly built object.",
 [CO],[("Petrosian properties and setters",CO)],["property values before and after setting"],
 [("eta, epsilon, epsilon_fraction, total_flux_fraction","measurement settings",CO)])
prop("P10","Derived Petrosian quantities agree with their definitions",
 "For every object r_epsilon is r_petrosian*epsilon, r_total_flux and r_half_light (r_50) are the radii of total_flux_fraction and of 0.5, c2080 and c5090 are the concentrations of (0.2, 0.8) and (0.5, 0.9), and the total and half fluxes are the interpolated curve of growth at those radii or NaN when the radius is undefined or out of range. All of them and their errors use the object's own arrays, errors and settings, and the arcsec forms are the pixel radii times the pixel scale (NaN stays NaN).",
 "every object, with and without errors, at every setting", IC,
 "The tests compare five values of one object at default settings, where several settings are interchangeable (0.99 twice).",
 [CO],[("Petrosian",CO)],["property values"])
prop("P11","Correction grid columns carry what their names say",
 "A generated correction grid has one row per requested pair of Sersic index and effective radius, in the order of the lists (index outermost), and in each row every column holds the quantity of its name: sersic_* from the analytic profile, p0X the Petrosian radius at eta 0.X, p0X0Y five times the log10 ratio of them, u_* measured with the default epsilon and c_* with the corrected one (the analytic total-flux radius of the simulated image over its Petrosian radius). Every column that the correction class reads exists in the grid.",
 "every list of indices and radii, PSF and oversampling", IC,
 "The grid test compares with a stored table of three indices, generated by the same code, within 1%.",
 [CR],[("generate_petrosian_sersic_correction",CR),("_generate_petrosian_correction",CR)],["columns of the returned table"])
prop("P12","Grid rows are simulated with the requested configuration",
 "For every grid row the simulated image is a round Sersic profile of that row's index and effective radius and of the same amplitude as the analytic total flux, wrapped with the given PSF, oversampling and PSF oversampling, centred in the image where the photometry is centred. The analytic radii and fluxes of the row use the same amplitude, index and effective radius, with 99% of the total as the total flux.",
 "every pair of index and radius and every PSF configuration", IC,
 "Tests simulate without PSF and compare columns with a stored table loosely.",
 [CR],[("_generate_petrosian_correction",CR)],["model and photometry used for a row"])
prop("P13","Correcting applies the matched epsilon to a new object",
 "Correcting a Petrosian object returns a distinct object whose epsilon is the estimated one and leaves the original unchanged; the estimate is, from one and the same grid row, the corrected radius of the object's epsilon_fraction (0.5, 0.8 or 0.99) divided by the grid's Petrosian radius at the object's eta (0.2 to 0.5). An unsupported eta or epsilon_fraction raises ValueError, never a value for another setting, and the index estimate comes from the same row.",
 "every object, supported or not, and every grid", IC,
 "Tests correct one object at the default eta and epsilon_fraction.",
 [CR],[("PetrosianCorrection.correct",CR),("PetrosianCorrection.estimate_epsilon",CR)],["return values and the input object afterwards"])
prop("P14","The nearest grid row is chosen in all three coordinates",
 "The row used for a correction minimises the equally weighted Euclidean distance in (Petrosian radius at eta 0.2, half-light radius, C2080), each difference being divided by that column's standard deviation, with the coordinates taken from the object and the matching grid columns in the same order. While the range is enforced a coordinate outside its column's range (inclusive) raises for each of the three; otherwise the nearest row is returned.",
 "every object and every grid, with and without range enforcement", IC,
 "One lookup with enforcement switched off is tested.",
 [CR],[("nearest row lookup and range validation",CR)],["row behind estimate_n and estimate_epsilon"])
prop("P15","Conversions invert each other and keep their units",
 "Ellipticity and elongation conversions are mutual inverses with elong = 1/(1-ellip); angular size = pixels * pixel scale and pixels = angular size / pixel scale, so the two angular conversions invert each other in the units given; the semi-axes of an elliptical area satisfy pi*a*b = area and a/b = elong, and a circular area gives the radius with pi*r**2 = area.",
 "every value in the domain of each conversion and every WCS with square pixels", I,
 "Tests use one or two values each.",
 [UT],[("ellip_to_elong, elong_to_ellip",UT),("angular_to_pixel, pixel_to_angular",UT),("elliptical_area_to_r, circle_area_to_r",UT)],["return values"])
prop("P16","Lookup, interpolation and radius helpers keep their contract",
 "Interpolated samples span the full range of x inclusively with the requested number of points (never fewer than the data) and lie on the interpolant of the data, and kind None returns the data unchanged. The index lookup considers only samples up to the first one at or beyond the value (at or below by default, at or above when growing), returns the closest of them, and None if there is none; radius lists have n entries ending at the maximum (i*max/n, or logarithmic from 1), and natural sort orders embedded numbers by value.",
 "every array, value, direction, number and kind", IC,
 "A handful of arrays are tested, none with several crossings or with more data than samples.",
 [UT],[("get_interpolated_values",UT),("closest_value_index",UT),("make_radius_list",UT),("natural_sort",UT)],["return values"])
prop("P17","AB magnitudes follow the header's zero point",
 "For every positive flux the AB magnitude is -2.5*log10(flux) plus the zero point -2.5*log10(PHOTFLAM) + PHOTZPT - 5*log10(PHOTPLAM) + 18.692 of the given header, identically for scalars and elementwise for arrays; a flux that is zero or negative gives NaN and the caller's array is not changed.",
 "every scalar or array of fluxes and every header", I,
 "Two fluxes and one header are tested.",
 [UT],[("hst_flux_to_abmag",UT)],["return value"])
prop("P18","Analytic Sersic relations are mutually consistent",
 "The enclosed Sersic flux at r_eff is half the flux at infinity, its derivative is the profile that has the given amplitude at r_eff over ellipses of area pi*(1-ellip)*r**2, and the inverse returns exactly the radius whose enclosed flux is given. The ideal Petrosian profile is that local intensity divided by the enclosed mean, and the conversions between central and effective intensity invert each other with the same constant.",
 "every amplitude, r_eff > 0, n > 0, 0 <= ellip < 1 and radius", I,
 "No test covers these functions beyond their use in one grid.",
 [MO],[("sersic_enclosed, sersic_enclosed_inv",MO),("petrosian_profile",MO),("Ie_to_I0, I0_to_Ie",MO)],["return values"])
prop("P19","2D profile models have the stated geometry and amplitude",
 "The generalised Sersic model equals its amplitude on the generalised ellipse of semi-axes r_eff and (1-ellip)*r_eff, rotated counter-clockwise by theta about (x_0, y_0), and the plain Sersic profile for c_0 = 0; the Nuker and core-Sersic models equal their amplitude at r_break. All of them depend on position only relative to the centre and are unchanged when all lengths are scaled together.",
 "every parameter value and every coordinate", I,
 "None of these models is evaluated in the tests.",
 [MO],[("GenSersic2D, Nuker2D, CoreSersic2D",MO)],["model values"])
prop("P20","The sampling grid is centred on pixels",
 "The sampling grid of a given size, origin and factor has size*factor samples per axis, spaced 1/factor, that fill each pixel symmetrically around its centre, pixel 0 of each axis being centred on that axis's origin; x varies along columns and y along rows. A non-integer factor is rejected.",
 "every size, origin and factor", I,
 "The tests check sizes up to 3 with equal origins.",
 [MO],[("make_grid",MO)],["return value of make_grid"])
prop("P21","A PSF-convolved model samples the wrapped model faithfully",
 "Evaluating a PSF-convolved model returns, for every requested (x, y), the pixel centred there of the wrapped model sampled with its own current parameters: at the pixel centre without oversampling, averaged over the sub-samples of the pixel with oversampling, so surface brightness is never rescaled by any oversampling factor. Convolution uses the PSF rotated by the PSF angle (unrotated when the angle is zero), at the PSF's resolution and before the reduction to the data resolution.",
 "every wrapped model, coordinate grid (also not starting at zero), PSF, oversampling and PSF oversampling", IC,
 "Tests compare with a few reference images on grids that start at zero.",
 [MO],[("PSFConvolvedModel2D.evaluate",MO)],["value of the model"])
prop("P22","The oversampling window lands where it is asked for",
 "A window (x, y, size, factor) replaces exactly the pixels within size of the nearest pixel to (x, y) in the coordinates on which the model is evaluated, clipped to the image, by the average of factor x factor samples of the same wrapped model at those same pixels; all other pixels stay as without a window. A centre given as a parameter name follows the current value of that parameter, separately for x and y.",
 "every window position (also partly or fully outside), size, factor, PSF factor and coordinate grid", IC,
 "Tests use one centred window on an image starting at zero.",
 [MO],[("PSFConvolvedModel2D.evaluate window branch",MO)],["value of the model"])
prop("P23","Invalid oversampling settings are always rejected",
 "After any sequence of assignments that do not raise, the oversampling factor is None, a positive integer or a 4-tuple with integer size and positive integer factor, the PSF factor is None or a positive integer given together with a PSF, and the former is an integer multiple of the latter. A rejected assignment raises and leaves the previous setting in place.",
 "every history of assignments to the two settings and to the constructor", IH,
 "Tests try some invalid values from a fresh object.",
 [MO],[("oversample and psf_oversample setters",MO)],["exceptions and the values read back"])
prop("P24","Caching the sampling grid never changes a result",
 "Evaluating a model after any history of evaluations, setting changes and cache switching gives the same image as a new model with the same settings: a cached grid is reused only for the same size, factor and coordinate range, is never modified, is dropped when caching is switched off, and is never shared between models.",
 "every history of evaluations on different grids and factors", IH,
 "Tests evaluate mostly on one grid per model.",
 [MO],[("grid cache in PSFConvolvedModel2D.evaluate",MO),("clear_cached_grid, cache_grid",MO)],["value of the model"],
 [("cached grid and its key","sampling grid reused between evaluations",MO)])
prop("P25","Wrapping keeps every parameter of the wrapped model",
 "A PSF-convolved model has exactly the wrapped model's parameters, in order and with their values, followed by the PSF angle (default 0); it takes over its fixed flags and bounds unless the caller gives others. Unwrapping returns a new model with the current values, fixed flags and bounds of the same parameters and without the PSF angle, and leaves the original model unchanged; wrapping a wrapped or non-2D model is refused.",
 "every wrapped model and every assignment history", IH,
 "Tests build wrappers but do not unwrap them after changes.",
 [MO],[("PSFConvolvedModel2D constructor, parameter loading and model property",MO)],["parameter names, values, fixed, bounds"])
prop("P26","Fitting sees each valid pixel once, at its own coordinates",
 "A fit uses exactly the pixels of the image that are neither NaN nor masked, each with its column as x, its row as y, its own value and its own weight, and passes the caller's model, fitter and numerical options (iterations, step, accuracy, Jacobian, uncertainties) on to the fitter. It returns the fitted model and the fitter that was run, rejects weights of another shape and does not change the image or the weights.",
 "every image with any NaN or mask pattern, weights, fitter and options", IC,
 "Tests fit symmetric sources on square images without weights.",
 [FI],[("fit_model",FI)],["arguments of the fitter, return value"])
prop("P27","Model images cover the requested pixels",
 "An image of a model has x_size columns and y_size rows; it starts at (0, 0) without a centre and at centre - floor(size/2), axis by axis, with one, and the discretisation mode and factor are those requested. A size that is not one or two whole numbers, or a centre that is not a pair, is rejected.",
 "every size (also non-square), centre, mode and factor", I,
 "Tests use square images.",
 [FI],[("model_to_image",FI),("model_center_to_image_origin",FI)],["return value of model_to_image"])
prop("P28","Fit display and background helpers report data minus model",
 "The residual returned with a fit display is the image minus the model image, both on the fitted image's own pixel grid with the requested centre and mode; a background fit uses the sigma-clipped image with the given sigma (the image itself for sigma None) and the given model and fitter; the FWHM of a source is its fitted Gaussian sigma times 2*sqrt(2*ln 2), x first. ",
 "every image (also non-square), model, centre and sigma", IC,
 "Only square residuals near zero are checked.",
 [FI],[("plot_fit, fit_background, fit_gaussian2d, measure_fwhm",FI)],["return values"])
prop("P29","Source masks keep the source and, unless masked, the sky",
 "The mask of a source (label, catalogue source or list of these) is True exactly on pixels whose label is one of the sources, and on background pixels unless background masking is on; every other source is False. The masked image is a new image with the original values where the mask is True and the fill value (NaN by default) elsewhere.",
 "every segmentation image, label list and option", IC,
 "Tests mask one label in one image.",
 [SG],[("segm_mask, masked_segm_image",SG)],["return values"])
prop("P30","Source photometry measures the isolated source at its centre",
 "Photometry of a catalogue source uses its own position, elongation and orientation in radians, on an even-sized cutout (at least the requested size, by default three times the largest radius) of the image and error map with all other sources masked and pixels outside the image unused, centred on the source. When asked, the subtracted background is fitted only to pixels outside every source, clipped at sigma deviations or bounded at mean +/- sigma, evaluated on the same cutout; an unknown bound type is rejected, and without the option no background is subtracted.",
 "every source, image (also with sources at the border), segmentation and option", IC,
 "Tests measure one source with one option each and check only that something is returned.",
 [SG],[("source_photometry",SG)],["return value of source_photometry"])
prop("P31","Catalogues describe the segmentation that is returned",
 "The catalogue is built from the image and from the deblended segmentation when deblending is on and the plain one otherwise; detection and deblending receive the caller's threshold, minimum size, levels and contrast, and the catalogue the caller's WCS. All three of catalogue, segmentation and deblended segmentation (None without deblending) are returned, and ordering a catalogue returns the indices sorted by the given key, largest first unless asked otherwise.",
 "every image, threshold and option", IC,
 "Tests run the default options on one image.",
 [SG],[("make_catalog, make_segments, deblend_segments, order_cat",SG)],["return values"])
prop("P32","No call changes its inputs or shared state",
 "No public function or method changes an array, list, table, model, segmentation or measurement object passed to it, a default argument, or module or class level state, so repeating a call gives the same result and calls do not influence each other. Only explicit assignments to an object's settings, its own grid cache and drawing on figures have effects.",
 "every public entry point, argument and sequence of calls", IH,
 "Tests use each input once and do not compare it afterwards.",
 [PH,UT,SG,CO,CR,FI,MO],[("copies before in-place operations","all modules")],["inputs after the call"])
prop("P33","Public code paths never hit missing names or arity errors",
 "On no path of the package does code use an undefined name, an attribute that the object's class does not define, a repository function with missing or unknown arguments, a sequence unpacked into the wrong number of targets, a table column that the package never writes, or an exception that is not an exception; every exported name exists.",
 "every path through every public function, including error and plotting branches", IC,
 "Many branches (errors given, plotting, unusual options) are never executed by the tests.",
 [PH,UT,SG,CO,CR,FI,MO],[("all modules","petrofit/")],["absence of NameError, AttributeError, TypeError, KeyError from the package's own references"])
prop("P34","Quantities of different units are never mixed",
 "Radii, areas, fluxes, their errors and dimensionless indices are only added, compared or substituted within the same physical dimension, so rescaling the flux unit or the pixel unit of the inputs rescales every Petrosian, aperture and Sersic quantity by exactly the matching power and changes no index, ratio or decision.",
 "every positive rescaling of the units of every input", I,
 "Tests run each input in one unit system only.",
 [CO,CR,UT,MO,PH],[("numerical functions of the package","petrofit/")],["return values under rescaling"])
prop("P35","Recoverable failures degrade as documented",
 "A failed isophote fit gives NaN and a warning instead of an exception, and otherwise the intensity at the requested radius of an ellipse with the given centre, ellipticity and angle on the given image; a correction grid that cannot be written is still returned after a message. A PSF whose sum differs from 1 only produces a warning.",
 "every failing isophote fit, write error and PSF normalisation", ["inputs","fault_sequences"],
 "No test makes the isophote fit or the write fail.",
 [SG,CR,MO],[("get_amplitude_at_r",SG),("generate_petrosian_sersic_correction save",CR),("psf setter",MO)],["return values and warnings"])
prop("P36","Every measurement option reaches the measurement",
 "Each documented parameter of a public measuring, fitting or generating function influences its result, in every branch that is meant to honour it, and is handed unchanged and under the right name to the function that implements it; defaults of a wrapper agree with what its documentation states.",
 "every public function and every combination of options", IC,
 "Tests mostly call functions with default options, where a dropped or swapped option is invisible.",
 [PH,UT,SG,CO,CR,FI,MO],[("option forwarding","petrofit/")],["return values as a function of each option"])
prop("P40","Fits and correction grids are numerically accurate",
 "Fitted parameters converge to the true ones and corrected Petrosian radii recover the Sersic radii within the published tolerances.",
 "every galaxy image", I, "Tests check a few images.", [FI,CR],[("fit_model, PetrosianCorrection","petrofit/")])
prop("P41","Detection and deblending find the real sources",
 "Every source above the threshold is detected once and blended sources are separated.",
 "every image", I, "Tests use one image.", [SG],[("make_segments, deblend_segments",SG)])
prop("P42","Convolution is accurate at image edges",
 "The convolved image equals the convolution of an infinitely extended model, to the stated precision, also near the image border.",
 "every model and PSF", I, "Tests compare a few images.", [MO],[("PSFConvolvedModel2D.evaluate",MO)])
prop("P43","The measured Petrosian profile decreases smoothly",
 "For a noise-free galaxy the measured curve of growth is monotonic and the interpolated Petrosian profile has no spurious crossing.",
 "every galaxy image and radius list", I, "Tests use one galaxy.", [CO,PH],[("Petrosian",CO)])
prop("P37","Image, catalogue and approximation helpers do what they say",
 "Subtracting a cut-out removes it from the image centred at the given (x, y): only the part that overlaps the image changes, by exactly the cut-out's values, and the result has the image's shape. Catalogue matching returns, for each object of the first catalogue, the index and the separation in the given unit of the nearest object of the second. The PetroApprox relations are the published fits (n to C2080 and back, C2080 to u half and epsilon) for every argument.",
 "every image, cut-out, position, pair of catalogues and every argument of the relations", I,
 "The tests do not call the cut-out subtraction away from the centre or evaluate the relations at more than a few arguments.",
 [UT,CR],[("cutout_subtract",UT),("match_catalogs",UT),("PetroApprox",CR)],["return values"])
prop("P38","Figures show the quantities that were measured",
 "Profile and curve-of-growth plots draw the object's arrays against its radii with their own errors (bars and band are left out when there are none), lines and markers at the object's current radii and fluxes (left out where undefined) with labels that quote those values. Overlays draw apertures at the requested position with the requested elongation and orientation at the defined radii. Photometry, segmentation, catalogue, source, fit, FWHM and correction displays show the image, segments, apertures, curves, slices, data, model and residual they work on, on the axes given (which are returned) and within the requested display limits. Titles and units handed in are written; without a unit the axis keeps its name. Measuring without a plot (the plot option off) draws nothing and opens no figure.",
 "every measured object, image, axes and display option", IC,
 "The tests at most call a few plotting functions without looking at what is drawn.",
 [CO,PH,UT,SG,FI,CR],[("Petrosian.plot, plot_cog, imshow",CO),("plot_fit",FI),("plot_segments, plot_segment_residual",SG),("mpl helpers",UT)],["calls on the axes and returned axes"])
prop("P39","Printed reports quote the measured values",
 "print_model_params prints every parameter of the model once, in the model's order, each name next to its own value with four decimals. measure_fwhm, unless printout=False, prints the image maximum and the fitted amplitude, centre, sigmas (x first), rounded mean FWHM and FWHM (x first), each under its own name, whatever the plot option says; with printout=False it prints nothing. The other measurements (Petrosian quantities and errors, radial and source photometry without a plot, model images, Gaussian fits, fit figures) print nothing.",
 "every model, image and print option", IC,
 "The tests do not read what is printed.",
 [FI,CO,PH,SG],[("print_model_params",FI),("measure_fwhm printout",FI)],["standard output"])
prop("P44","Grid generation gives the same table on any number of cores",
 "The correction table generated with any number of processes equals the one generated by one, row by row and in the same order: each row is computed from its own arguments alone by a function that can be sent to another process, whatever order the processes finish in.",
 "every number of cores and schedule", ["schedules","configurations"], "Tests use one core.", [CR],[("generate_petrosian_sersic_correction",CR)])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        p["statement"]=p["statement"].strip()
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
