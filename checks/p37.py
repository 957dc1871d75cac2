"""P37: PSF subtraction removes the star, keeps the companions in place, and knows its throughput."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.klip_fm as fm
import corgidrp.l3_to_l4 as l4
from astropy.wcs import WCS
from corgidrp.corethroughput import get_1d_ct
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P37", "one distinct situation = algorithm given or chosen x numbers of science and reference frames x rolls x star centred or not x flags x cropping x source of references: every subtracted pixel is recomputed, "
              "companions and their sky coordinates are followed to the product")
MODES = ["RDI", "ADI", "ADI+RDI"]


def rot(a):
    a = np.radians(a)
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def headers(rng, rolls, refs, star, scale=21.8, sky=True):
    """Header changes of frames of a star at x, y (per frame), with the detector's north at the roll angle."""
    pri, ext = [], []
    ra, dec = rng.uniform(10, 350), rng.uniform(-60, 60)
    for r, k, (x, y) in zip(rolls, refs, star):
        cd = np.array([[-1., 0.], [0., 1.]]) * scale / 3.6e6 @ rot(r)
        pri.append(dict(PSFREF=int(k), ROLL=float(r), TELESCOP="ROMAN", INSTRUME="CGI"))
        h = dict(STARLOCX=float(x), STARLOCY=float(y), PLTSCALE=scale, CFAMNAME="1F", LSAMNAME="NFOV", FPAMNAME="HLC12_C2R1")
        if sky:
            h.update(CTYPE1="RA---TAN", CTYPE2="DEC--TAN", CDELT1=1., CDELT2=1., CRPIX1=x + 1., CRPIX2=y + 1., CRVAL1=ra, CRVAL2=dec, CD1_1=cd[0, 0], CD1_2=cd[0, 1], CD2_1=cd[1, 0], CD2_2=cd[1, 1])
        ext.append(h)
    return pri, ext


def coronagraphic(rng):
    """Frames with correlated speckles, quarter-turn rolls and the star at a whole pixel: dataset and keywords."""
    shape = tuple(int(2 * v + 1) for v in rng.integers(10, 17, 2)) if rng.random() < .5 else (int(2 * rng.integers(10, 17) + 1),) * 2
    nsci, nref = int(rng.integers(1, 5)), int(rng.integers(0, 5))
    mode = [None, "RDI", "ADI", "ADI+RDI"][int(rng.integers(0, 4))]
    if nref == 0:
        mode = [None, "ADI"][int(rng.integers(0, 2))]
    if nref == 0 or mode == "ADI":
        nsci = max(nsci, 2)
    rolls = rng.permutation([0, 90, 180, 270])[:nsci].astype(float)
    if rng.random() < .3 and nsci > 2:
        rolls[-1] = rolls[0]
    if len(set(rolls)) < 2 and nref == 0:
        rolls[:2] = [0, 90]
    n = nsci + nref
    basis = rng.normal(0, 1, (n + 2,) + shape)
    arr = 10. ** rng.uniform(0, 3) * (np.tensordot(rng.normal(0, 1, (n, n + 2)) + 1, basis, 1) + rng.uniform(-5, 20))
    dq = np.zeros(arr.shape, np.uint16)
    flagged = rng.random()
    if flagged < .6:
        dq[rng.random(arr.shape) < .01] = int(rng.choice([1, 4, 32, 128, 256]))
        if flagged < .3:
            dq[:, int(rng.integers(2, shape[0] - 2)), int(rng.integers(2, shape[1] - 2))] = 4
    off = rng.integers(-2, 3, (n, 2)) if rng.random() < .5 else np.zeros((n, 2), int)
    star = np.array([shape[1] // 2, shape[0] // 2]) + off
    kind = np.array([0] * nsci + [1] * nref)
    order = rng.permutation(n)
    roll_all = np.concatenate([rolls, rng.choice([0., 20., 90.], nref)])
    pri, ext = headers(rng, roll_all[order], kind[order], star[order])
    ds = B.stack(rng, arr[order], None, dq[order], "L3", pri_list=pri, ext_list=ext)
    kl = sorted(set(int(v) for v in rng.integers(1, n + 2, 2))) + [n + 1]
    kw = dict(mode=mode, numbasis=kl if rng.random() < .8 else n + 1, annuli=int(rng.choice([1, 1, 2, 3])), do_crop=False, measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=1,
              fileprefix=str(rng.choice(["", "a", "x_1"])))
    return ds, kw


def place(img, star, shape):
    """Image with its star moved to the centre by whole pixels."""
    out = np.full(shape, np.nan)
    dx, dy = int(shape[1] // 2 - star[0]), int(shape[0] // 2 - star[1])
    for y in range(shape[0]):
        if 0 <= y - dy < shape[0]:
            x0, x1 = max(0, dx), min(shape[1], shape[1] + dx)
            out[y, x0:x1] = img[y - dy, x0 - dx:x1 - dx]
    return out


def turned(img, roll):
    """Image turned counter-clockwise about its centre by a multiple of 90 degrees."""
    h, w = img.shape
    yy, xx = np.indices(img.shape)
    r = np.round(rot(-roll)).astype(int)
    sx = r[0, 0] * (xx - w // 2) + r[0, 1] * (yy - h // 2) + w // 2
    sy = r[1, 0] * (xx - w // 2) + r[1, 1] * (yy - h // 2) + h // 2
    ok = (sx >= 0) & (sx < w) & (sy >= 0) & (sy < h)
    return np.where(ok, img[np.clip(sy, 0, h - 1), np.clip(sx, 0, w - 1)], np.nan)


def spread(mask):
    p = np.pad(mask, 1)
    return np.any([p[1 + a:p.shape[0] - 1 + a, 1 + b:p.shape[1] - 1 + b] for a in (-1, 0, 1) for b in (-1, 0, 1)], 0)


def klip(sci, rolls, refs, mode, modes, annuli):
    """Subtracted, turned and averaged images (one per number of modes), the pixels surely known, and those surely missing."""
    shape = sci[0].shape
    yy, xx = np.indices(shape)
    r = np.hypot(yy - shape[0] // 2, xx - shape[1] // 2)
    owa = sum(shape) / 2.
    out = []
    for i, im in enumerate(sci):
        lib = []
        if "ADI" in mode:
            lib += [s for s, a in zip(sci, rolls) if (a - rolls[i]) % 360]
        if "RDI" in mode:
            lib += list(refs)
        res = np.full((len(modes),) + shape, np.nan)
        for a in range(annuli):
            sec = (r >= owa * a / annuli + 1e-6) & (r < owa * (a + 1) / annuli + 1e-6 * (a + 1 < annuli)) & (r > .5)
            if not lib:
                continue
            L = np.array([v[sec] for v in lib])
            L = L - np.nanmean(L, 1)[:, None]
            L[np.isnan(L)] = 0
            d = im[sec] - np.nanmean(im[sec])
            u, s, v = np.linalg.svd(L, full_matrices=False)
            for j, k in enumerate(modes):
                w = v[:min(k, len(lib))]
                res[j][sec] = d - w.T @ (w @ np.where(np.isnan(d), 0, d))
        out.append([turned(x, rolls[i]) for x in res])
    out = np.array(out)
    sure = ~np.any([spread(np.isnan(o[0])) for o in out], 0)
    sure[0], sure[-1], sure[:, 0], sure[:, -1] = False, False, False, False
    return np.nanmean(out, 0), sure, np.isnan(out[:, 0]).all(0)


@SUITE.workload(quick=40, thorough=1200)
def exact(c):
    rng = c.rng
    with c.scratch(), quiet():
        ds, kw = coronagraphic(rng)
        sci = [f for f in ds if f.pri_hdr["PSFREF"] == 0]
        refs = [f for f in ds if f.pri_hdr["PSFREF"] == 1]
        before = [snap.img(f) for f in ds]
        first, last = sci[0], sci[-1]
        given = bool(rng.random() < .3) and refs
        args = (data.Dataset(sci),) if given else (ds,)
        extra = dict(reference_star_dataset=data.Dataset(refs)) if given else {}
        old_folder = corgidrp.config_folder
        how = rng.random()
        if how < .7:
            kw["outdir"] = str(rng.choice(["out", "a/b"]))
        else:
            import os
            corgidrp.config_folder = os.path.join(os.getcwd(), "cfg")
        try:
            out = l4.do_psf_subtraction(*args, **kw, **extra)
        finally:
            corgidrp.config_folder = old_folder
    mode = kw["mode"] or ("ADI" if not refs else "RDI" if len(sci) == 1 else "ADI+RDI")
    modes = kw["numbasis"] if isinstance(kw["numbasis"], list) else [kw["numbasis"]]
    shape = first.data.shape
    get = lambda f: place(np.where(f.dq > 0, np.nan, f.data), (f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]), shape)
    with quiet():
        want, sure, gone = klip([get(f) for f in sci], [f.pri_hdr["ROLL"] for f in sci], [get(f) for f in refs], mode, modes, kw["annuli"])
    what = "%s (asked %s) with %d science and %d reference frames of %s, rolls %s, modes %s, %d annuli" % (mode, kw["mode"], len(sci), len(refs), shape, [f.pri_hdr["ROLL"] for f in sci], modes, kw["annuli"])
    c.ok(len(out) == 1 and out[0].data.shape == (len(modes),) + shape, "shape", "%s for %s" % (out[0].data.shape, what))
    if out[0].data.shape == want.shape:
        level = np.nanstd(np.array([f.data for f in ds]))
        # a tiny eigenvalue leaves a mode undefined in single precision
        for j in range(len(modes)):
            bad = sure & ~(np.abs(out[0].data[j] - want[j]) < 2e-3 * level)
            c.ok(not bad.any(), "pixels", "%d pixels of %d modes wrong, e.g. %s: %s, expected %s; %s" % (bad.sum(), modes[j], tuple(np.argwhere(bad)[0]) if bad.any() else "", out[0].data[j][bad][:1], want[j][bad][:1], what))
        nan = np.isnan(out[0].data)
        c.ok(nan[:, gone].all(), "missing", "pixels without a good value are not NaN: %s" % what)
        c.ok(np.array_equal(out[0].dq > 0, nan) and np.all((out[0].dq == 1) == nan), "flags", "NaN pixels and flags differ: %s" % what)
        c.ok(np.issubdtype(out[0].dq.dtype, np.integer), "flag-type", "%s" % out[0].dq.dtype)
        c.ok(np.all(np.isnan(out[0].err[0]) | ~nan), "nan-error", "errors of NaN pixels are numbers: %s" % what)
    o = out[0]
    c.equal(o.filename, last.filename, "filename", what)
    c.equal(o.pri_hdr["KLIP_ALG"], mode, "algorithm", what)
    c.ok(o.ext_hdr["STARLOCX"] == shape[1] // 2 and o.ext_hdr["STARLOCY"] == shape[0] // 2, "star", "star at %s, %s" % (o.ext_hdr["STARLOCX"], o.ext_hdr["STARLOCY"]))
    c.equal([o.ext_hdr["KLMODE%d" % i] for i in range(len(modes))], modes, "modes", what)
    c.ok("mode=%s,annuli=%d,subsect=1,minmove=1" % (mode, kw["annuli"]) in o.ext_hdr["PSFPARAM"], "parameters", o.ext_hdr["PSFPARAM"])
    c.ok(any("PSF subtracted" in str(h) and mode in str(h) for h in o.ext_hdr["HISTORY"]), "history")
    for k in ("TARGET", "VISTYPE"):
        if k in first.pri_hdr:
            c.equal(o.pri_hdr[k], first.pri_hdr[k], "header-" + k.lower())
    c.ok(not any(snap.diff(a, snap.img(f)) for a, f in zip(before, ds)), "input", "the input frames changed")
    # sky coordinates: the same place on the sky has the same light
    w0, w1 = WCS(first.ext_hdr), WCS(o.ext_hdr, naxis=2)
    d = rng.uniform(-9, 9, 2)
    a = w0.all_pix2world([d + [first.ext_hdr["STARLOCX"], first.ext_hdr["STARLOCY"]]], 0)[0]
    b = w1.all_pix2world([rot(first.pri_hdr["ROLL"]) @ d + [shape[1] // 2, shape[0] // 2]], 0)[0]
    c.ok(np.allclose((a - b + 180) % 360, 180, atol=1e-9, rtol=0), "sky", "a place seen at %s is at %s in the product: %s" % (a, b, what))
    c.see("subtracted pixels recomputed", int(sure.sum()) * len(modes))
    c.see("subtractions")
    c.sig(kw["mode"], mode, len(sci), len(refs), len(set(f.pri_hdr["ROLL"] for f in sci)), shape[0] == shape[1], kw["annuli"], bool(given), bool(gone.sum() > 1), isinstance(kw["numbasis"], int))


def scene(rng, n, mode, shape=None, noise=1e-3, planet=True):
    """Smooth star with speckles, and a companion on the sky: dataset, truth."""
    shape = shape or (n, n + int(rng.integers(0, 4)))
    nsci = int(rng.integers(2, 4)) if "ADI" in mode else int(rng.integers(1, 4))
    nref = 0 if mode == "ADI" else int(rng.integers(1, 4))
    rolls = np.array([0., 25., 55.])[:nsci] * rng.choice([-1, 1]) + (rng.uniform(-180, 180) if rng.random() < .7 else 0.)
    rolls = rng.permutation((rolls + 180) % 360 - 180)
    star = np.array([shape[1] / 2., shape[0] / 2.]) + rng.uniform(-1.5, 1.5, (nsci + nref, 2))
    sep, pa = rng.uniform(n / 5., n / 2.8), rng.uniform(0, 360)
    fwhm = 3.1
    yy, xx = np.indices(shape)
    g = lambda x, y, w: np.exp(-4 * np.log(2) * ((xx - x) ** 2 + (yy - y) ** 2) / w ** 2)
    speck = [(rng.uniform(2, n / 2.6), rng.uniform(0, 2 * np.pi), rng.uniform(.05, .3), rng.uniform(3, 5)) for _ in range(12)]
    arr, amp = [], 100.
    for i in range(nsci + nref):
        x, y = star[i]
        im = 1000. * g(x, y, 4.) + sum(1000 * a * g(x + r * np.cos(t), y + r * np.sin(t), w) for r, t, a, w in speck)
        im = im * (1 + rng.uniform(-.1, .1)) + rng.normal(0, noise * 1000, shape)
        if i < nsci and planet:
            d = rot(-rolls[i]) @ np.array([-sep * np.sin(np.radians(pa)), sep * np.cos(np.radians(pa))])
            im = im + amp * g(x + d[0], y + d[1], fwhm)
        arr.append(im)
    refs = np.array([0] * nsci + [1] * nref)
    allrolls = np.concatenate([rolls, rng.uniform(-30, 30, nref)])
    pri, ext = headers(rng, allrolls, refs, star)
    for e, s in zip(ext, star):
        e.update(DETPIX0X=0, DETPIX0Y=0)
    ds = B.stack(rng, np.array(arr), None, np.zeros((len(arr),) + shape, np.uint16), "L3", pri_list=pri, ext_list=ext)
    return ds, dict(sep=sep, pa=pa, amp=amp, fwhm=fwhm, rolls=rolls, star=star, nsci=nsci, nref=nref, shape=shape)


def peak(im, x, y, w=3):
    """Place and height of the maximum around a place, by a parabola in the logarithm."""
    xi, yi = int(round(x)), int(round(y))
    cut = im[yi - w:yi + w + 1, xi - w:xi + w + 1]
    if cut.shape != (2 * w + 1,) * 2:
        return np.nan, np.nan, np.nan
    j, i = np.unravel_index(np.nanargmax(cut), cut.shape)
    v = cut[max(j - 2, 0):j + 3, max(i - 2, 0):i + 3]
    yy, xx = np.indices(cut.shape)
    yy, xx = yy[max(j - 2, 0):j + 3, max(i - 2, 0):i + 3], xx[max(j - 2, 0):j + 3, max(i - 2, 0):i + 3]
    v = np.where(v > 0, v, 0)
    return xi - w + (v * xx).sum() / v.sum(), yi - w + (v * yy).sum() / v.sum(), cut[j, i]


@SUITE.workload(quick=16, thorough=400)
def companion(c):
    """A companion stays at its separation and position angle for any roll angles."""
    rng = c.rng
    mode = MODES[c.index % 3]
    crop = bool(rng.random() < .4)
    with c.scratch(), quiet():
        ds, t = scene(rng, int(rng.integers(48, 60)), mode)
        size = None
        if crop:
            size = [int(2 * v) for v in rng.integers(20, 23, 2)]
        out = l4.do_psf_subtraction(ds, mode=mode, numbasis=[1], outdir="o", do_crop=crop, crop_sizexy=size, measure_klip_thrupt=False, measure_1d_core_thrupt=False, num_processes=1)
    o = out[0]
    want_shape = tuple(size[::-1]) if crop else t["shape"]
    c.equal(o.data.shape[1:], want_shape, "cropped")
    x0, y0 = o.ext_hdr["STARLOCX"], o.ext_hdr["STARLOCY"]
    x, y = x0 - t["sep"] * np.sin(np.radians(t["pa"])), y0 + t["sep"] * np.cos(np.radians(t["pa"]))
    px, py, v = peak(o.data[0], x, y)
    what = "%s, rolls %s, companion at %.2f pixels, %.1f degrees in %s" % (mode, np.round(t["rolls"], 1), t["sep"], t["pa"], o.data.shape)
    inside = 8 < x < want_shape[1] - 9 and 8 < y < want_shape[0] - 9
    if inside:
        c.ok(np.hypot(px - x, py - y) < .8, "place", "found at %.2f, %.2f, expected %.2f, %.2f: %s" % (px, py, x, y, what))
        c.ok((.35 if "ADI" in mode else .7) * t["amp"] < v < 1.15 * t["amp"], "height", "%.1f of %.1f left: %s" % (v, t["amp"], what))
        # it is at the same place in the sky as in every science frame
        sky = WCS(o.ext_hdr, naxis=2).all_pix2world([[x, y]], 0)[0]
        for i in range(t["nsci"]):
            d = rot(-t["rolls"][i]) @ np.array([-t["sep"] * np.sin(np.radians(t["pa"])), t["sep"] * np.cos(np.radians(t["pa"]))])
            a = WCS(ds[i].ext_hdr).all_pix2world([t["star"][i] + d], 0)[0]
            c.ok(np.allclose((a - sky + 180) % 360, 180, atol=1e-9, rtol=0), "sky", "companion at %s, in frame %d at %s: %s" % (sky, i, a, what))
    # the star is gone
    yy, xx = np.indices(want_shape)
    away = (np.hypot(xx - x, yy - y) > 6) & (np.hypot(xx - x0, yy - y0) > 3) & (np.hypot(xx - x0, yy - y0) < min(want_shape) / 2 - 3)
    if mode == "RDI":
        c.ok(np.nanstd(o.data[0][away]) < 25, "star-left", "scatter %s: %s" % (np.nanstd(o.data[0][away]), what))
    c.see("companions followed")
    c.sig("companion", mode, t["nsci"], t["nref"], int(t["pa"] // 45), crop, want_shape[0] % 2, want_shape[1] % 2)


def psfs(rng, n, size, fwhm, detector=None):
    """Off-axis PSFs measured around a place, each of another width."""
    yy, xx = np.indices((size, size))
    r = size // 2
    return np.array([np.exp(-4 * np.log(2) * ((xx - r) ** 2 + (yy - r) ** 2) / w ** 2) * rng.uniform(50, 500) for w in (fwhm if np.ndim(fwhm) else [fwhm] * n)])


@SUITE.workload(quick=6, thorough=120)
def throughput(c):
    rng = c.rng
    mode = MODES[c.index % 3]
    with c.scratch(), quiet():
        ds, t = scene(rng, int(rng.integers(58, 66)), mode, noise=2e-3, planet=False)
        crop = bool(rng.random() < .5)
        size = [52, 52] if crop else None
        width = lambda q: 1.9 + .13 * q
        # measured around the star: narrow and wide PSFs must not be mixed up
        cen = ds[0].ext_hdr["STARLOCX"], ds[0].ext_hdr["STARLOCY"]
        dx, dy = [v.ravel() for v in np.meshgrid(np.arange(-24, 25, 6.), np.arange(-24, 25, 6.))]
        vals = rng.uniform(.1, .9, len(dx))
        cal = B.ctcal(rng, dx + cen[0] + .5, dy + cen[1] + .5, vals, psfs(rng, len(dx), 15, width(np.hypot(dx, dy))))
        seps = rng.permutation(np.array([8., 13., 18.]) + rng.uniform(-.5, .5, 3))
        pas = None if rng.random() < .5 else np.array([10., 130., 250.])
        cand = [] if rng.random() < .6 else [(float(rng.uniform(10, 16)), float(rng.uniform(0, 360)))]
        skipped = bool(rng.random() < .3)
        if skipped:
            # no place is left at one separation
            pas, cand = np.array([rng.uniform(0, 360)]), []
            cand = [(float(seps[0]), float(pas[0] + rng.uniform(-5, 5)))]
        numbasis = [1] if rng.random() < .6 else [1, 2]
        out = l4.do_psf_subtraction(ds, ct_calibration=cal, mode=mode, numbasis=numbasis, outdir="o", do_crop=crop, crop_sizexy=size, kt_seps=seps, kt_pas=pas, cand_locs=cand, kt_snr=float(rng.choice([10., 20., 50.])),
                                    num_processes=1)
        only = l4.do_psf_subtraction(ds, ct_calibration=cal, mode=mode, numbasis=numbasis, outdir="p", do_crop=crop, crop_sizexy=size, measure_klip_thrupt=False, measure_1d_core_thrupt=bool(rng.random() < .5), num_processes=1)
    kt, ct = out[0].hdu_list["KL_THRU"].data, out[0].hdu_list["CT_THRU"].data
    what = "%s, separations %s, modes %s, %d science and %d reference frames, companions %s" % (mode, np.round(seps, 2), numbasis, t["nsci"], t["nref"], cand)
    c.ok(kt.shape == (1 + len(numbasis), 3, 2), "kt-shape", "%s: %s" % (kt.shape, what))
    if kt.shape == (1 + len(numbasis), 3, 2):
        c.ok(np.array_equal(kt[0], np.array([seps, seps]).T), "kt-separations", "%s: %s" % (kt[0], what))
        use = slice(1, None) if skipped else slice(None)
        if skipped:
            c.ok(np.isnan(kt[1:, 0]).all(), "kt-skipped", "throughput %s at a separation without a free place: %s" % (kt[1, 0], what))
        c.ok(np.all((kt[1, use, 0] > (.3 if "ADI" in mode else .55)) & (kt[1, use, 0] < 1.4)), "kt-value", "throughputs %s: %s" % (kt[1, :, 0], what))
        ratio = kt[1, use, 1] / width(seps[use])
        c.ok(np.all((ratio > (.5 if skipped else .7)) & (ratio < (1.8 if skipped else 1.34))), "kt-width", "widths %s, injected %s: %s" % (kt[1, use, 1], width(seps[use]), what))
    c.ok(np.array_equal(out[0].data, only[0].data, equal_nan=True), "kt-image", "measuring the throughput changed the image")
    c.ok("KL_THRU" not in only[0].hdu_list, "kt-unasked")
    # core throughput of the measured place nearest in separation
    r = np.hypot(dx, dy)
    c.ok(np.array_equal(ct[0], seps), "ct-separations", "%s" % ct[0])
    for s, v in zip(seps, ct[1]):
        d = np.abs(r - s)
        c.ok(np.any(np.isclose(vals[d < d.min() + 1e-6], v)), "ct-value", "%s at %s, measured at that separation %s" % (v, s, vals[d < d.min() + 1e-6]))
    hist = " ".join(str(h) for h in out[0].ext_hdr["HISTORY"])
    c.ok("KLIP throughput" in hist and "CT throughput" in hist, "kt-history", hist[-200:])
    if "CT_THRU" in only[0].hdu_list:
        c.equal(only[0].hdu_list["CT_THRU"].data[0], np.arange(5., 36., 5.), "ct-default")
    c.see("throughputs measured", 3 * len(numbasis))
    c.sig("throughput", mode, len(numbasis), crop, bool(cand), pas is None, tuple(np.argsort(seps)))


@SUITE.workload(quick=60, thorough=2500)
def parts(c):
    """Injected PSFs and the noise at a separation."""
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(56, 76, 2))
    roll = float(rng.uniform(-200, 200))
    star = np.array([shape[1] / 2, shape[0] / 2]) + rng.uniform(-4, 4, 2)
    det = tuple(int(v) for v in rng.integers(0, 500, 2)) if rng.random() < .6 else (0, 0)
    pri, ext = headers(rng, [roll], [0], [star])
    if det != (0, 0) or rng.random() < .5:
        ext[0].update(DETPIX0X=det[0], DETPIX0Y=det[1])
    base = rng.normal(0, 1, (1,) + shape)
    f = B.stack(rng, base.copy(), None, None, "L3", pri_list=pri, ext_list=ext)[0]
    n = int(rng.integers(1, 12))
    dx, dy = rng.uniform(-20, 20, (2, n))
    widths = rng.permutation(np.linspace(2.5, 4.5, n)) if n > 1 else np.array([3.])
    size = int(rng.choice([11, 13, 15]))
    cube = psfs(rng, n, size, widths)
    cal = B.ctcal(rng, dx + star[0] + det[0] + .5, dy + star[1] + det[1] + .5, rng.uniform(.1, .9, n), cube)
    sep, pa = rng.uniform(4, 16), rng.uniform(0, 360)
    amp = rng.uniform(10, 1e4)
    d = rot(-roll) @ np.array([-sep * np.sin(np.radians(pa)), sep * np.cos(np.radians(pa))])
    before = snap.img(f)
    with quiet():
        got, model, (px, py) = fm.inject_psf(f, cal, amp, sep, pa)
    added = got.data - f.data
    dist = np.hypot(dx - d[0], dy - d[1])
    what = "roll %.1f, %.2f pixels at %.1f degrees, star at %s in %s, window at %s" % (roll, sep, pa, star, shape, det)
    c.ok(not snap.diff(before, snap.img(f)), "inject-input", "the frame given changed")
    if n == 1 or np.ptp(np.sort(dist)[:2]) > 1.5:
        c.close(model, cube[np.argmin(dist)] * amp / cube[np.argmin(dist)].max(), "inject-model", "PSF of another place: %s" % what, rtol=1e-9, atol=1e-9)
    c.ok(abs(px - star[0] - d[0]) < 1e-6 and abs(py - star[1] - d[1]) < 1e-6, "inject-place", "%s, %s: %s" % (px, py, what))
    yy, xx = np.indices(shape)
    c.ok(np.hypot((added * xx).sum() / added.sum() - star[0] - d[0], (added * yy).sum() / added.sum() - star[1] - d[1]) < .1, "inject-centre", what)
    c.ok(abs(added.sum() / model.sum() - 1) < .02 and added.max() <= amp * 1.001 and added.max() > .7 * amp, "inject-light", "%s of %s, peak %s of %s: %s" % (added.sum(), model.sum(), added.max(), amp, what))
    # noise
    nk = int(rng.integers(1, 4))
    cub = rng.normal(0, 1, (nk,) + shape) * np.arange(1, nk + 1)[:, None, None]
    cub[:, rng.random(shape) < .02] = np.nan
    fr = data.Image(cub, pri_hdr=f.pri_hdr.copy(), ext_hdr=f.ext_hdr.copy(), err=np.zeros((1,) + cub.shape), dq=np.zeros(cub.shape, np.uint16))
    seps, hw = rng.uniform(4, 18, int(rng.integers(1, 5))), rng.uniform(1, 4)
    cand = [(float(rng.uniform(3, 18)), float(rng.uniform(0, 360))) for _ in range(int(rng.integers(0, 3)))]
    k = None if rng.random() < .5 else int(rng.integers(0, nk))
    hwc = hw if rng.random() < .5 else .6
    with quiet():
        noise = fm.measure_noise(fr, seps, hwc, k, cand) if cand or rng.random() < .5 else fm.measure_noise(fr, seps, hwc, k)
    keep = np.ones(shape, bool)
    for s, a in cand:
        keep &= np.hypot(xx - star[0] + s * np.sin(np.radians(a)), yy - star[1] - s * np.cos(np.radians(a))) > 5 * hwc
    r = np.hypot(xx - star[0], yy - star[1])
    with quiet():
        want = np.array([[np.nanstd(q[keep & (r > s - hwc) & (r < s + hwc)]) if (keep & (r > s - hwc) & (r < s + hwc) & np.isfinite(q)).any() else np.nan for q in cub] for s in seps])
    c.close(noise, want if k is None else want[:, k], "noise", "at %s +- %s without %s" % (seps, hwc, cand))
    c.see("PSFs injected")
    c.see("noise values recomputed", want.size)
    c.sig("parts", det != (0, 0), n == 1, size, len(cand), k is None, int(roll // 60))


@SUITE.workload(quick=12, thorough=120)
def refused(c):
    rng = c.rng
    with c.scratch(), quiet():
        ds, kw = coronagraphic(rng)
        kw["outdir"] = "o"
        what = ["mode", "science", "calibration", "scale", "instrument", "filter"][c.index % 6]
        if what == "mode":
            kw["mode"] = str(rng.choice(["SDI", "adi", "RDI+ADI", ""]))
            c.raises(AssertionError, lambda: l4.do_psf_subtraction(ds, **kw), "mode", kw["mode"])
        elif what == "science":
            for f in ds:
                f.pri_hdr["PSFREF"] = 1
            c.raises(UserWarning, lambda: l4.do_psf_subtraction(ds, **kw), "science", "no science frames")
        elif what == "calibration":
            kw["measure_klip_thrupt" if rng.random() < .5 else "measure_1d_core_thrupt"] = True
            c.raises(AssertionError, lambda: l4.do_psf_subtraction(ds, **kw), "calibration", "throughput without a calibration")
        else:
            f = [f for f in ds if f.pri_hdr["PSFREF"] == 0][int(rng.integers(0, sum(f.pri_hdr["PSFREF"] == 0 for f in ds)))]
            if what == "scale":
                if sum(f.pri_hdr["PSFREF"] == 0 for f in ds) > 1:
                    f.ext_hdr["PLTSCALE"] = 30.
                    c.raises(UserWarning, lambda: l4.do_psf_subtraction(ds, **kw), "scale", "different pixel scales")
            elif what == "instrument":
                f.pri_hdr["INSTRUME" if rng.random() < .5 else "TELESCOP"] = "HST"
                c.raises(UserWarning, lambda: l4.do_psf_subtraction(ds, **kw), "instrument")
            else:
                f.ext_hdr["CFAMNAME"] = "9Z"
                c.raises(UserWarning, lambda: l4.do_psf_subtraction(ds, **kw), "filter")
    c.see("requests refused")
    c.sig("refused", what)
