R("sg-position-dict", (SG, "get_source_position", '''
def get_source_position(source):
    names = ('maxval_xindex', 'maxval_yindex')
    if isinstance(source, SourceCatalog):
        return tuple(getattr(source, name) for name in names)
    return tuple(source[name] for name in names)
'''))
R("sg-position-early", (SG, "get_source_position", '''
def get_source_position(source):
    if not isinstance(source, SourceCatalog):
        return source['maxval_xindex'], source['maxval_yindex']
    return source.maxval_xindex, source.maxval_yindex
'''))
R("sg-quantities", (SG, "get_source_elong", '''
def _is_catalog(source):
    return isinstance(source, SourceCatalog)


def get_source_elong(source):
    if _is_catalog(source):
        elong = source.elongation.value
    else:
        elong = source['elongation']
    return elong
'''), (SG, "get_source_ellip", '''
def get_source_ellip(source):
    if _is_catalog(source):
        return source.ellipticity.value
    return source['ellipticity']
'''), (SG, "get_source_theta", '''
def get_source_theta(source):
    if _is_catalog(source):
        return source.orientation.to('rad').value
    return np.radians(source['orientation'])
'''))
R("sg-theta-pi", (SG, "get_source_theta", '''
def get_source_theta(source):
    if isinstance(source, SourceCatalog):
        theta = source.orientation
        return theta.to('rad').value
    degrees = source['orientation']
    return degrees * np.pi / 180
'''))
R("sg-order-sorted", (SG, "order_cat", '''
def order_cat(cat, key='area', reverse=True):
    order = cat.to_table()[key].argsort()
    return list(order[::-1]) if reverse else order
'''))
R("sg-order-var", (SG, "order_cat", '''
def order_cat(cat, key='area', reverse=True):
    table = cat.to_table()
    column = table[key]
    indices = column.argsort()
    if not reverse:
        return indices
    out = []
    for idx in reversed(indices):
        out.append(idx)
    return out
'''))
R("sg-mask-isin", (SG, "segm_mask", '''
def segm_mask(source, segm, mask_background=False):
    if isinstance(source, (int, np.integer, SourceCatalog)):
        sources = [source]
    elif isinstance(source, list):
        sources = source[:]
    else:
        raise TypeError("Input should be a label (int or photutils SourceCatalog) or a list of such items")
    if not mask_background:
        sources = sources + [0]
    mask = None
    for item in sources:
        label = [item.label] if isinstance(item, SourceCatalog) else item
        selected = segm.data == label
        mask = selected if mask is None else mask | selected
    return mask
'''))
R("sg-mask-or", (SG, "segm_mask", '''
def _labels(source):
    if isinstance(source, (int, np.integer, SourceCatalog)):
        return [source]
    if isinstance(source, list):
        return list(source)
    raise TypeError('Input should be a label (int or photutils SourceCatalog) or a list of such items')


def segm_mask(source, segm, mask_background=False):
    sources = _labels(source)
    if not mask_background:
        sources.append(0)

    mask = None
    for source in sources:
        if isinstance(source, SourceCatalog):
            source = [source.label]
        current = segm.data == source
        if mask is None:
            mask = current
        else:
            mask = np.logical_or(current, mask)
    return mask
'''))
R("sg-masked-where", (SG, "masked_segm_image", '''
def masked_segm_image(source, image, segm, fill=None, mask_background=False):
    if fill is None:
        fill = np.nan
    outside = ~segm_mask(source, segm, mask_background=mask_background)
    masked_image = deepcopy(image)
    pixels = masked_image if isinstance(masked_image, np.ndarray) else masked_image.data
    pixels[outside] = fill
    return masked_image
'''))
R("sg-masked-nonzero", (SG, "masked_segm_image", '''
def masked_segm_image(source, image, segm, fill=None, mask_background=False):
    fill = fill if fill is not None else np.nan
    keep = segm_mask(source, segm, mask_background)
    out = deepcopy(image)
    where = np.where(np.logical_not(keep))
    if isinstance(out, np.ndarray):
        out[where] = fill
    else:
        out.data[where] = fill
    return out
'''))
R("sg-amplitude", (SG, "get_amplitude_at_r", '''
def get_amplitude_at_r(r, image, x0, y0, ellip, theta):
    if isinstance(image, (CCDData, Cutout2D)):
        image = image.data
    radius = float(r)
    try:
        geometry = EllipseGeometry(x0=x0, y0=y0, sma=1., eps=ellip, pa=theta)
        return Ellipse(image, geometry).fit_isophote(radius).intens
    except Exception as exception:
        import warnings
        warnings.warn("Amplitude could not be computed, returning np.nan. Exception: {}".format(str(exception)), Warning)
        return np.nan
'''))
R("sg-segments", (SG, "make_segments", '''
def make_segments(image, npixels=None, threshold=3.):
    segm = detect_sources(data=image, threshold=threshold, npixels=npixels)
    return segm
'''), (SG, "deblend_segments", '''
def deblend_segments(image, segm, npixels=None, nlevels=30, contrast=1/1000):
    return deblend_sources(image, segm, npixels, nlevels=nlevels, contrast=contrast)
'''))
R("sg-catalog-helper", (SG, "make_catalog", '''
def _show(segm, image, vmin, vmax, title):
    plot_segments(segm, image=image, vmax=vmax, vmin=vmin, title=title)


def make_catalog(image, threshold, wcs=None, deblend=True, npixels=None, nlevels=30, contrast=1/1000,
                 plot=True, vmax=None, vmin=None, figsize=None):
    if isinstance(image, (CCDData, Cutout2D)):
        image = image.data
    segm = make_segments(image, npixels, threshold)
    if plot and segm:
        fig, axes = plt.subplots(1, 2 if deblend else 1, figsize=figsize)
        if deblend:
            plt.sca(axes[0])
        _show(segm, image, vmin, vmax, 'Segmentation Map')
    if not deblend:
        return SourceCatalog(image, segm, wcs=wcs), segm, None

    segm_deblend = deblend_segments(image, segm, npixels=npixels, nlevels=nlevels, contrast=contrast)
    if plot and segm_deblend:
        plt.sca(axes[1])
        _show(segm_deblend, image, vmin, vmax, 'Deblended Segmentation Map')
    return SourceCatalog(image, segm_deblend, wcs=wcs), segm, segm_deblend
'''))
R("sg-residual", (SG, "plot_segment_residual", '''
def plot_segment_residual(segm, image, vmin=None, vmax=None):
    residual = image.copy()
    residual[segm.data != 0] = 0.
    plt.imshow(residual, vmin=vmin, vmax=vmax)
'''))
R("sg-phot-helpers", (SG, "source_photometry", '''
def _even(size):
    size = int(size)
    return size + 1 if size % 2 == 1 else size


def _cutout(image, position, size):
    return Cutout2D(image, position, size, mode='partial', fill_value=np.nan).data


def _slice_plot(profile, center, r, xlabel, figsize):
    fig, ax = plt.subplots(1, 1, figsize=figsize)
    plt.plot(profile, c='tab:blue', linewidth=3, zorder=3)
    plt.axhline(0, c='black')
    plt.axvline(center, linestyle='--', c='gray')
    plt.axvline(center + r, alpha=0.5, c='gray')
    plt.axvline(center - r, alpha=0.5, c='gray')
    plt.xlabel(xlabel)
    plt.ylabel("Pixel Value")
    mpl_tick_frame(ax=ax, minorticks=True)


def source_photometry(source, image, segm_deblend, r_list, error=None, cutout_size=None,
                      bg_sub=False, sigma=3.0, sigma_type='clip', method='exact', mask_background=False,
                      plot=False, vmin=0, vmax=None, figsize=[12, 6]):
    position = get_source_position(source)
    elong = get_source_elong(source)
    theta = get_source_theta(source)

    size = _even(np.ceil(max(r_list) * 3) if cutout_size is None else cutout_size)
    masked_err = None if error is None else _cutout(error, position, size)

    source_image = masked_segm_image(source, image, segm_deblend, fill=np.nan, mask_background=mask_background).data
    masked_image = _cutout(source_image, position, size)
    background = masked_segm_image(0, image, segm_deblend, fill=np.nan, mask_background=False).data
    background = _cutout(background, position, size)

    if bg_sub:
        if np.count_nonzero(~np.isnan(background)) > 10:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore', AstropyWarning)
                kind = sigma_type.lower()
                if kind == 'clip':
                    pixels = sigma_clip(background, sigma)
                elif kind == 'bound':
                    mean, median, std = sigma_clipped_stats(background, sigma=3, mask=np.isnan(background.data))
                    pixels = background
                    pixels[pixels > mean + sigma] = np.nan
                    pixels[pixels < mean - sigma] = np.nan
                else:
                    raise ValueError("background image masking sigma type not understood, try 'clip' or 'bound'")
                model, _ = fit_background(pixels, sigma=None)
                masked_image -= model_to_image(model, size)
                if kind == 'bound':
                    masked_image = np.clip(masked_image, -sigma, np.inf)
        elif plot:
            print("bg_sub: Not enough datapoints, did not subtract.")

    mask = ~np.isnan(masked_image)
    center = np.array(masked_image.shape) / 2.

    if plot:
        print(source.label)
        fig, ax = plt.subplots(1, 2, figsize=figsize)
        plt.sca(ax[0])

    results = radial_photometry(masked_image, center, r_list, error=masked_err, mask=mask, elong=elong,
                                theta=theta, plot=plot, vmin=vmin, vmax=vmax, method=method)
    flux_arr, area_arr, error_arr = results

    if plot:
        plt.sca(ax[1])
        plt.plot(r_list, flux_arr, c='tab:blue', linewidth=3, zorder=3)
        for r in r_list:
            plt.axvline(r, alpha=0.5, c='gray')
        plt.title("Curve of Growth")
        plt.xlabel("Radius in Pixels")
        plt.ylabel("Flux Enclosed")
        mpl_tick_frame(ax=ax[1], minorticks=True)
        plt.show()

        r = max(r_list)
        _slice_plot(masked_image[int(center[1]), :], center[0], r, "Slice Along X [pix]", figsize)
        _slice_plot(masked_image[:, int(center[0])], center[0], r, "Slice Along Y [pix]", figsize)

    return flux_arr, area_arr, error_arr
'''))
R("sg-phot-mask", (SG, '''    mask = np.ones_like(masked_image)
    mask[np.where(np.isnan(masked_image))] = 0
    mask = mask.astype(bool)
''', '''    mask = np.logical_not(np.isnan(masked_image))
''', 'text'), (SG, '''    if cutout_size % 2 == 1:
        cutout_size += 1
''', '''    cutout_size = cutout_size + cutout_size % 2
''', 'text'), (SG, "np.ceil(max(r_list) * 3)", "np.ceil(3 * np.max(r_list))", 'text'))
R("sg-phot-mask2", (SG, '''    mask = np.ones_like(masked_image)
    mask[np.where(np.isnan(masked_image))] = 0
    mask = mask.astype(bool)
''', '''    mask = np.ones(masked_image.shape, dtype=bool)
    mask[np.isnan(masked_image)] = False
''', 'text'), (SG, "len(np.where(~np.isnan(masked_stats_image))[0]) > 10", "np.sum(~np.isnan(masked_stats_image)) > 10", 'text'))
