"""P30: point sources are found, and companions measured, where they are and as bright as they are."""
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data
import corgidrp.find_source as fsrc
import corgidrp.l4_to_tda as tda
import corgidrp.measure_companions as mc
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap
from checks import p28
from checks.p27 import BANDS

SUITE = Suite("P30", "one distinct situation = image size x number of sources x mask x PSF given or not x noise map given or not; or method x number of companions x how they are located; injected sources have known "
              "places and brightness, detections are compared with them and under rotation and scaling")


def sampled(shape, x, y, peak, fwhm):
    yy, xx = np.indices(shape)
    return peak * np.exp(-4 * np.log(2) * ((xx - x) ** 2 + (yy - y) ** 2) / fwhm ** 2)


def cards(h):
    return [(k, v) for k, v in h.items() if k.upper().startswith("SNYX")]


def parse(h):
    out = []
    for k, v in cards(h):
        s, y, x = v.split(",")
        out.append((k, float(s), int(y), int(x)))
    return out


def frame(rng, d):
    return B.stack(rng, d[None], np.ones_like(d)[None, None], np.zeros(d.shape, np.uint16)[None], "L4")[0]


@SUITE.workload(quick=8, thorough=100)
def find(c):
    rng = c.rng
    n = int(rng.integers(41, 62)) | 1
    fwhm = rng.uniform(2.3, 3.2)
    hole = rng.uniform(4, 7)
    cen = (n - 1) // 2
    k = int(rng.choice([0, 1, 1, 2, 3]))
    yy, xx = np.indices((n, n))
    noise = rng.normal(0, 1, (n, n))
    pos = []
    for _ in range(400):
        if len(pos) == k:
            break
        y, x = rng.integers(0, n, 2)
        r = np.hypot(y - cen, x - cen)
        if r > hole + 2 * fwhm and r < cen - 1 and all(np.hypot(y - a, x - b) > 5 * fwhm for a, b in pos):
            pos.append((int(y), int(x)))
    d = noise.copy()
    for y, x in pos:
        d += sampled((n, n), x, y, rng.uniform(40, 150), fwhm)
    d[np.hypot(yy - cen, xx - cen) < hole] = np.nan
    ref = noise.copy() if rng.random() < .6 else None
    if ref is not None:
        ref[np.isnan(d)] = np.nan
    psf = None
    if rng.random() < .5:
        b = int(rng.choice([7, 9, 11, 13]))
        psf = sampled((b, b), b // 2, b // 2, 1., fwhm)
    thr = 9.0
    # faint sources drown in the scatter other bright ones add when no source-free map is given
    if ref is None and len(pos) > 1:
        pos = pos[:1]
        d = noise + sampled((n, n), pos[0][1], pos[0][0], 80., fwhm)
        d[np.hypot(yy - cen, xx - cen) < hole] = np.nan
    with quiet():
        im = frame(rng, d)
        before = snap.img(im)
        run = lambda im_, psf_=psf, ref_=ref, t=thr: tda.find_source(im_, psf=None if psf_ is None else psf_.copy(), fwhm=fwhm, nsigma_threshold=t, image_without_planet=None if ref_ is None else ref_.copy())
        out = run(im)
        c.ok(not snap.diff(before, snap.img(im)), "find-input", "the search changed its input: %s" % snap.diff(before, snap.img(im)))
        c.ok(np.array_equal(out.data, im.data, equal_nan=True) and np.array_equal(out.err, im.err) and np.array_equal(out.dq, im.dq), "find-data", "the search changed data, error or flags")
        got = parse(out.ext_hdr)
        c.equal([g[0] for g in got], ["SNYX%03d" % i for i in range(len(got))], "find-keys", "header entries of the sources")
        c.ok(all(g[1] >= thr - .05 for g in got), "find-threshold", "a source below the threshold: %s" % (got,))
        for y, x in pos:
            c.ok(any(np.hypot(g[2] - y, g[3] - x) <= 1.5 for g in got), "find-missed", "source at (%d, %d) of %d not found in %s" % (y, x, n, got))
        for g in got:
            c.ok(any(np.hypot(g[2] - y, g[3] - x) <= 3 * fwhm for y, x in pos), "find-invented", "source reported at (%d, %d) with SNR %.1f, sources are at %s" % (g[2], g[3], g[1], pos))
        rest = lambda h: [(a, b) for a, b in h.items() if not a.upper().startswith("SNYX") and a != "DRPCTIME"]
        c.ok(rest(out.ext_hdr) == rest(im.ext_hdr), "find-header", "other header entries changed")
        comp = mc.parse_companions(out.ext_hdr)
        c.equal([(q["id"], q["y"], q["x"]) for q in comp], [(g[0], float(g[2]), float(g[3])) for g in got], "parse", "companions read from the header") if got else c.ok(comp == [], "parse")
        what = rng.choice(["scale", "rotate", "threshold"])
        if what == "scale":
            s = 10. ** rng.uniform(-8, 8)
            two = parse(run(frame(rng, d * s), psf, None if ref is None else ref * s).ext_hdr)
            c.ok([g[2:] for g in two] == [g[2:] for g in got] and all(abs(a[1] - b[1]) < .11 for a, b in zip(got, two)), "find-scale", "other sources in a scaled image: %s and %s" % (got, two))
        elif what == "rotate":
            two = parse(run(frame(rng, np.rot90(d).copy()), psf, None if ref is None else np.rot90(ref).copy()).ext_hdr)
            want = [(n - 1 - g[3], g[2]) for g in got]
            main = [i for i, g in enumerate(got) if any(np.hypot(g[2] - y, g[3] - x) <= 1.5 for y, x in pos)][:len(pos)]
            c.ok(all(any(np.hypot(a - t[2], b - t[3]) <= 1.5 and abs(t[1] - got[i][1]) < .15 * got[i][1] for t in two) for i, (a, b) in enumerate(want) if i in main), "find-rotate",
                 "sources of the rotated image %s, of the image %s" % (two, got))
        else:
            # nothing is above the highest value of the map, and the search ends there
            box = int(fwhm * 3)
            box += box % 2 == 0
            p = sampled((box, box), box // 2, box // 2, 1., fwhm) if psf is None else psf
            h = p.shape[0] // 2
            py, px = np.indices(p.shape) - h
            top = float(np.nanmax(fsrc.make_snmap(d.copy(), (np.hypot(px, py) <= fwhm * .5).astype(float), image_without_planet=ref)))
            for t in (top, np.nextafter(top, np.inf), top * 1.01):
                c.ok(cards(run(frame(rng, d), t=t).ext_hdr) == [], "find-none", "a source above the highest SNR")
            one = parse(run(frame(rng, d), t=top * .999).ext_hdr)
            c.ok(len(one) >= 1 and abs(one[0][1] - top) < .06, "find-top", "highest SNR %.2f reported as %s" % (top, one[:1]))
    c.see("sources injected", len(pos))
    c.see("sources reported", len(got))
    c.sig(n, len(pos), psf is None, ref is None, what)


@SUITE.workload(quick=6, thorough=40)
def edge(c):
    """Sources at the very edge are found too."""
    rng = c.rng
    n, fwhm = 45, 2.8
    d = rng.normal(0, 1, (n, n))
    along, side = int(rng.integers(12, 33)), int(rng.integers(0, 4))
    off = int(rng.integers(0, 4))
    y, x = [(off, along), (n - 1 - off, along), (along, off), (along, n - 1 - off)][side]
    ref = d.copy()
    d += sampled((n, n), x, y, 120., fwhm)
    yy, xx = np.indices((n, n))
    for a in (d, ref):
        a[np.hypot(yy - 22, xx - 22) < 5] = np.nan
    with quiet():
        got = parse(tda.find_source(frame(rng, d), fwhm=fwhm, nsigma_threshold=9., image_without_planet=ref).ext_hdr)
    # convolution near the border can move the maximum by a pixel or so; the outermost ring has no statistics
    if off >= 2:
        c.ok(any(np.hypot(g[2] - y, g[3] - x) <= 2 for g in got), "edge-missed", "source at (%d, %d) of %d not found in %s" % (y, x, n, got))
    c.ok(all(np.hypot(g[2] - y, g[3] - x) <= 3 * fwhm for g in got), "edge-invented", "source at (%d, %d), reported %s" % (y, x, got))
    c.see("edge sources")
    c.sig(side, off)


@SUITE.workload(quick=30, thorough=400)
def subtract(c):
    """Removing a scaled PSF leaves nothing of a source of that shape, wherever it is, and touches only its box."""
    rng = c.rng
    shape = (int(rng.integers(15, 40)), int(rng.integers(15, 40)))
    fwhm, b = rng.uniform(2, 4), int(rng.choice([5, 7, 9, 11]))
    y, x = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
    peak = 10. ** rng.uniform(-3, 4)
    d = sampled(shape, x, y, peak, fwhm)
    yy, xx = np.indices(shape)
    with quiet():
        psf = sampled((b, b), b // 2, b // 2, 1., fwhm)
        p0 = psf.copy()
        out = fsrc.psf_scalesub(d.copy(), (y, x), psf, fwhm)
    c.ok(np.array_equal(psf, p0), "sub-psf", "the PSF was changed")
    box = (abs(yy - y) <= b // 2) & (abs(xx - x) <= b // 2)
    r = np.hypot(yy - y, xx - x)
    c.ok(np.array_equal(out[~box], d[~box]), "sub-outside", "pixels outside the PSF box changed")
    c.ok(np.isnan(out[box & (r < fwhm)]).all(), "sub-core", "the core of the source is not masked")
    c.close(out[box & (r >= fwhm)], np.zeros((box & (r >= fwhm)).sum()), "sub-residual", "what is left of the source", rtol=0, atol=1e-9 * peak)
    c.see("PSFs subtracted")
    c.sig(b, y < b // 2, x < b // 2, y > shape[0] - 1 - b // 2, x > shape[1] - 1 - b // 2)


@SUITE.workload(quick=24, thorough=250)
def companions(c):
    rng = c.rng
    name, star = str(rng.choice(sorted(BANDS))), str(rng.choice(sorted(p28.BRIGHT)))
    n, stamp = int(rng.integers(50, 70)), 17
    method = ["L4", "None-aperture", "None-gauss2d"][c.index % 3]
    sx, sy = n / 2 + rng.uniform(-3, 3), n / 2 + rng.uniform(-3, 3)
    nm = int(rng.integers(1, 4))
    mode = int(rng.integers(-nm, nm))
    # the throughput falls off towards the mask: PSFs measured on spikes around the mask centre
    r0 = np.linspace(4, 24, 9)
    a0 = np.linspace(-np.pi, np.pi, 12, endpoint=False) + .1
    rr, aa = [v.ravel() for v in np.meshgrid(r0, a0)]
    fw = rng.uniform(2.5, 3.5)
    ctp = rng.uniform(100, 1000) * (.2 + .8 * rr / 24) * rng.uniform(.97, 1.03, len(rr))
    psf = np.array([sampled((stamp, stamp), stamp // 2, stamp // 2, p, fw) for p in ctp])
    m = rng.normal(0, .1, (2, 2, 2))
    fp, fs = rng.uniform(-5, 5, (2, 2))
    with quiet(), c.scratch():
        cal = B.ctcal(rng, rr * np.cos(aa) + sx, rr * np.sin(aa) + sy, ctp / ctp.max() * .5, psf, fpam=fp, fsam=fs)
        pam = data.FpamFsamCal(m)
        # host star, seen through a filter that passes a known part, or not
        hf, hpeak = fw if method == "None-gauss2d" else rng.uniform(2.5, 3.5), 10. ** rng.uniform(2, 6)
        hx, hy = rng.uniform(18, 26, 2)
        trans, ndc = 1., None
        if rng.random() < .4:
            # a transmission that changes linearly over the field
            t0, tx, ty = rng.uniform(.1, .5), rng.uniform(0, .02), rng.uniform(0, .02)
            trans = t0 + tx * hx + ty * hy
            p_, e_ = B.cal_headers(rng, FPAMNAME="ND225")
            gx, gy = [v.ravel() for v in np.meshgrid([0., 44.], [0., 44.])]
            ndc = data.NDFilterSweetSpotDataset(np.column_stack([t0 + tx * gx + ty * gy, gx, gy]), pri_hdr=p_, ext_hdr=e_, input_dataset=B._parents(rng, level="L3"))
        host = B.stack(rng, sampled((44, 44), hx, hy, hpeak * trans, hf)[None], np.full((1, 1, 44, 44), .1), np.zeros((1, 44, 44), np.uint16), "L3", ext=dict(CFAMNAME=name, EXPTIME=float(rng.choice([1., 5., 60.]))), pri=dict(TARGET=star))[0]
        # companions as the star itself would look there, times the flux ratio and the algorithm throughput
        kl_seps = np.array([3., 10., 18., 26.])
        thr = rng.uniform(.4, 1., (nm, 4))
        klt = np.zeros((nm + 1, 4, 2))
        klt[0] = kl_seps[:, None]
        klt[1:, :, 0], klt[1:, :, 1] = thr, fw
        ratios, where, img = [], [], np.zeros((nm, n, n))
        k = int(rng.integers(1, 4))
        pick = []
        for _ in range(200):
            i = int(rng.integers(len(rr)))
            if 6 < rr[i] < n / 2 - 12 and all(np.hypot(rr[i] * np.cos(aa[i]) - rr[j] * np.cos(aa[j]), rr[i] * np.sin(aa[i]) - rr[j] * np.sin(aa[j])) > 14 for j in pick):
                pick.append(i)
            if len(pick) == k:
                break
        hostratio = hpeak * hf ** 2 / (ctp.max() * fw ** 2)
        headers = rng.random() < .5
        for i in pick:
            cx, cy = rr[i] * np.cos(aa[i]) + sx, rr[i] * np.sin(aa[i]) + sy
            if headers:
                cx, cy = float(round(cx)), float(round(cy))
            sep = np.hypot(cx - sx, cy - sy)
            q = 10. ** rng.uniform(-8, -2)
            if method == "L4":              # all companions measurable over the wings of the others
                q = 10. ** -rng.uniform(5, 5.6)
            ratios.append(q)
            where.append((cx, cy))
            for j in range(nm):
                a = np.interp(sep, kl_seps, thr[j])
                img[j] += sampled((n, n), cx, cy, q * hostratio * ctp[i] * a * (1 + 3. * (j != mode % nm)), fw)
        if method != "L4" and len(pick) > 1:
            ratios, where, pick = ratios[:1], where[:1], pick[:1]
            img = np.zeros((nm, n, n))
            for j in range(nm):
                img[j] = sampled((n, n), *where[0], ratios[0] * hostratio * ctp[pick[0]] * np.interp(np.hypot(where[0][0] - sx, where[0][1] - sy), kl_seps, thr[j]) * (1 + 3. * (j != mode % nm)), fw)
        p, e = B.pri_header(rng), B.ext_header(rng, "L4", STARLOCX=sx, STARLOCY=sy, FPAM_H=float(fp[0]), FPAM_V=float(fp[1]), FSAM_H=float(fs[0]), FSAM_V=float(fs[1]))
        sub = data.Image(img, pri_hdr=p, ext_hdr=e, err=np.full((1,) + img.shape, 1e-3) * img.max(), dq=np.where((np.arange(nm) == mode % nm)[:, None, None], 0, rng.random(img.shape) < .3).astype(np.uint16))
        sub.filename = "CGI_0200001001001001001_20250216T0000000_L4_.fits"
        sub.add_extension_hdu("KL_THRU", data=klt)
        cand = None
        if headers:
            for i, (x, y) in enumerate(where):
                sub.ext_hdr["SNYX%03d" % i] = "%5.1f,%4d,%4d" % (10 + i, y, x)
        else:
            cand = [(np.hypot(x - sx, y - sy), np.degrees(np.arctan2(-(x - sx), y - sy))) for x, y in where]
        incat = rng.random() < .6
        fcal = None
        zp = rng.uniform(15, 25)
        if not incat:
            fcal = B.fluxcal(rng)
            fcal.ext_hdr["ZP"] = zp
        pm = "aperture" if method != "None-gauss2d" else "gauss2d"
        kw = dict(encircled_radius=5., frac_enc_energy=1.) if pm == "aperture" else dict(fwhm=fw, fit_shape=11)
        before = snap.img(sub), snap.img(host), snap.img(cal)
        call = lambda **k: mc.measure_companions(host, sub, cal, pam, **{**dict(nd_cal=ndc, phot_method=pm, photometry_kwargs=kw, fluxcal_factor=fcal, host_star_in_calspec=incat, thrp_corr=method.split("-")[0],
                                                                         kl_mode_idx=mode, cand_locs=cand, verbose=False), **k})
        tab = call()
        d = [snap.diff(a, snap.img(b)) for a, b in zip(before, (sub, host, cal))]
        c.ok(not any(d), "comp-input", "the measurement changed its inputs: %s" % d)
        c.ok(len(tab) == len(where), "comp-rows", "%d rows for %d companions" % (len(tab), len(where)))
        for row, (x, y), q, i in zip(tab, where, ratios, pick):
            a = np.interp(np.hypot(x - sx, y - sy), kl_seps, thr[mode])
            want = q if method == "L4" else q * a
            tol = .03 if method == "L4" else .03
            c.close([row["x"], row["y"]], [x, y], "comp-place", "place of the companion", rtol=0, atol=1e-6)
            c.close(row["counts_ratio"], want, "comp-ratio", "flux ratio (%s, mode %d of %d, %d companions)" % (method, mode, nm, len(where)), rtol=tol)
            tot = q * hostratio * ctp[i] * a * np.pi * fw ** 2 / 4 / np.log(2)
            c.close(row["measured companion counts"], tot, "comp-counts", "counts of the companion (%s)" % method, rtol=.06 if pm == "aperture" else .12)
            if incat:
                mag = -2.5 * np.log10(p28.irradiance(star, name) / p28.irradiance("Vega", name)) - 2.5 * np.log10(row["counts_ratio"])
            else:
                mag = zp - 2.5 * np.log10(row["measured companion counts"])
            c.close(row["companion estimated mag"], mag, "comp-mag", "magnitude of the companion", rtol=0, atol=3e-3)
        c.raises(ValueError, lambda: call(thrp_corr="FM"), "comp-method", "unknown throughput correction")
        c.raises(ValueError, lambda: call(host_star_in_calspec=False, fluxcal_factor=None), "comp-factor", "neither star nor factor known")
        if method != "L4":
            c.raises(ValueError, lambda: call(phot_method="psf"), "comp-phot", "unknown photometry")
    c.see("companions measured", len(where))
    c.sig(method, len(where), headers, incat, ndc is not None, nm, mode)


@SUITE.workload(quick=30, thorough=200)
def helpers(c):
    rng = c.rng
    with quiet():
        d = rng.normal(size=(3, 6, 7))
        e = rng.uniform(1, 2, (1, 3, 6, 7))
        dq = rng.integers(0, 4, (3, 6, 7)).astype(np.uint16)
        im = data.Image(d.copy(), pri_hdr=B.pri_header(rng), ext_hdr=B.ext_header(rng, "L4"), err=e.copy(), dq=dq.copy())
        im.filename = "a.fits"
        i = int(rng.integers(3))
        one = mc.extract_single_frame(im, i)
        c.ok(np.array_equal(one.data, d[i]) and np.array_equal(one.err[0], e[0, i]) and np.array_equal(one.dq, dq[i]), "extract", "frame %d extracted" % i)
        many = fits.Header()
        places = [tuple(int(v) for v in rng.integers(0, 1024, 2)) for _ in range(int(rng.choice([0, 1, 5, 130])))]
        for k, (y, x) in enumerate(places):
            many["SNYX%03d" % k] = "%5.1f,%4d,%4d" % (rng.uniform(5, 99), y, x)
            if k % 3 == 0:
                many["NOTE%03d" % k] = "1,2,3"
        got = mc.parse_companions(many)
        c.equal([(g["y"], g["x"]) for g in got], places, "parse", "companions listed in a header with %d of them" % len(places))
        x, y = [int(v) for v in rng.integers(0, 1024, 2)]
        o, nw = [tuple(int(v) for v in rng.integers(0, 1024, 2)) for _ in range(2)]
        im.ext_hdr["SNYX000"] = "%5.1f,%4d,%4d" % (12.3, y, x)
        out = mc.update_companion_location_in_cropped_image(im, "SNYX000", o, nw)
        s, yy, xx = out.ext_hdr["SNYX000"].split(",")
        c.equal([float(s), int(yy), int(xx)], [12.3, y - o[1] + nw[1], x - o[0] + nw[0]], "crop-place", "place of a companion after cropping")
        c.raises(KeyError, lambda: mc.update_companion_location_in_cropped_image(im, "SNYX009", o, nw), "crop-key", "unknown companion")
        c.raises(ValueError, lambda: mc.get_photometry_kwargs("psf"), "phot-kwargs", "unknown photometry")
        q = rng.uniform(.1, 1)
        fr = B.stack(rng, rng.normal(size=(1, 5, 5)), None, None, "L4")[0]
        c.close(mc.simplified_psf_sub(fr, None, 3., q).data, fr.data * q, "efficiency", "PSF scaled by the efficiency")
    c.see("helper calls", 4)
    c.sig(i)
