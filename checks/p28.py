"""P28: ND filter optical densities (sweet-spot product, lookup, transfer to a new location)."""
import os
import warnings
import numpy as np
import astropy.io.fits as fits
from scipy.integrate import simpson
from scipy.special import erf
import corgidrp.data as data
import corgidrp.fluxcal as fluxcal
import corgidrp.nd_filter_calibration as nd
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap
from checks.p27 import BANDS, FDIR

SUITE = Suite("P28", "one distinct situation = number of targets x frames per target x photometry x kind of factor x where the factor comes from; optical densities of synthetic stars of known "
              "brightness are recovered, lookups are compared with density fields for which interpolation is exact")

BRIGHT = ["Vega", "Eta Uma", "109 Vir", "Lam Lep", "KSI2 CETI"]
DIM = ["TYC 4433-1800-1", "TYC 4205-1677-1", "UCAC3 313-62260"]
SIGMA = 3 / 2.35482


def band(name):
    """Wavelength (AA) and transmission of a band, read without the code under test."""
    rows = [r.split(",") for r in open(os.path.join(FDIR, BANDS[name])).read().splitlines()[3:] if r.strip()]
    head = [h.strip() for h in rows[0]]
    a = np.array([[float(v) for v in r] for r in rows[1:]])
    return a[:, head.index("lambda_nm")] * 10, a[:, head.index("%T")] / 100


def star_in_band(star, name):
    w, t = band(name)
    ws, fs = B.calspec_spectrum(fluxcal.calspec_names[star])
    return w, t, np.interp(w, ws, fs)


def irradiance(star, name):
    w, t, f = star_in_band(star, name)
    return simpson(f * t, x=w)


def band_flux(star, name):
    w, t, f = star_in_band(star, name)
    return simpson(f * t * w, x=w) / simpson(t * w, x=w)


def psf(shape, x, y, total, sigma=SIGMA):
    """A Gaussian star integrated over the pixels."""
    def line(n, at):
        e = erf((np.arange(n + 1) - .5 - at) / sigma / np.sqrt(2))
        return np.diff(e) / 2
    return total * np.outer(line(shape[0], y), line(shape[1], x))


def centroid(img, r=5):
    py, px = np.unravel_index(np.argmax(img), img.shape)
    num = np.zeros(3)
    for y in range(max(0, py - r), min(img.shape[0], py + r + 1)):
        for x in range(max(0, px - r), min(img.shape[1], px + r + 1)):
            num += img[y, x] * np.array([1, x, y])
    return num[1] / num[0], num[2] / num[0]


def frames(rng, spec, shape, back=0.0):
    """spec: (count rate, ext keywords, target[, (x, y)])"""
    arr, pos = [], []
    for i, s in enumerate(spec):
        x, y = s[3] if len(s) > 3 else (rng.uniform(15, shape[1] - 16), rng.uniform(15, shape[0] - 16))
        pos.append((x, y))
        arr.append(psf(shape, x, y, s[0]) + back)
    arr = np.array(arr)
    err = np.full(arr.shape, 1e-3)[:, None] * np.abs(arr).max()
    return B.stack(rng, arr, err, np.zeros(arr.shape, np.uint16), "L3", ext_list=[s[1] for s in spec],
                   pri_list=[dict(TARGET=s[2]) for s in spec]), pos


def kwargs(rng, method, back):
    k = dict(encircled_radius=float(rng.choice([7, 8, 9]))) if method == "Aperture" else dict(fwhm=3.)
    if back:
        k.update(background_sub=True, r_in=10, r_out=14)
    return k


@SUITE.workload(quick=24, thorough=300)
def recover(c):
    rng = c.rng
    filt = str(rng.choice(sorted(BANDS)))
    nt, same = int(rng.integers(1, 4)), float(rng.choice([0, .004, .3]))
    method, fi = str(rng.choice(["Aperture", "Gaussian"])), str(rng.choice(["irr", "flux"]))
    given, back = rng.random() < .4, (0. if rng.random() < .5 else float(rng.uniform(.1, .5)))
    ndname = str(rng.choice(["ND225", "ND475"]))
    quantity = irradiance if fi == "irr" else band_flux
    fac = 10. ** rng.uniform(-15, -12)
    thr = .1
    targets = list(rng.choice(BRIGHT, nt, replace=False))
    h, v = rng.uniform(-20, 20, 2)
    wide = int(rng.integers(nt)) if same > .1 else -1        # only this target has a high variation
    spec, want = [], {}
    ext = lambda: dict(FPAMNAME=ndname, CFAMNAME=filt, FPAM_H=float(h + rng.uniform(-.5, .5)), FPAM_V=float(v + rng.uniform(-.5, .5)))
    lo = 1.5
    for k, t in enumerate(targets):
        n = int(rng.integers(2, 5)) if rng.random() < .7 else int(rng.integers(5, 10))
        od = rng.uniform(lo, lo + 3)
        ods = od + (rng.choice([-1, 1], n) * rng.uniform(.25, .5, n) if k == wide else same * rng.normal(size=n) * (same < .1))
        if k == wide and (n < 5 or rng.random() < .3):
            ods[0], ods[-1] = od - .3, od + .3
        elif k == wide:                                      # a single frame is off
            ods[:] = od + .004 * rng.normal(size=n)
            ods[rng.integers(n)] += rng.choice([-1, 1]) * rng.uniform(.6, .9)
        want[t] = ods
        for o in ods:
            spec.append((quantity(t, filt) / fac * 10 ** -o, ext(), t, None, o))
    # dim stars, each with its own factor; the mean counts
    ndim = 0 if given and rng.random() < .6 else int(rng.integers(1, 4))
    df = fac * rng.uniform(.9, 1.1, max(ndim, 1))
    if not given:
        df *= fac / df.mean()
    dims = []
    for k in range(ndim):
        t = str(rng.choice(DIM))
        dims.append((quantity(t, filt) / df[k], dict(FPAMNAME=str(rng.choice(["HOLE", "OPEN"])), CFAMNAME=filt, FPAM_H=0., FPAM_V=0.), t, None, None))
    order = rng.permutation(len(spec) + ndim)
    allspec = [(spec + dims)[i] for i in order]
    shape = (int(rng.integers(44, 52)), int(rng.integers(44, 52)))
    scale = min(s[0] for s in allspec)
    pos = [(rng.uniform(18, shape[1] - 19), rng.uniform(18, shape[0] - 19)) for _ in allspec]
    fallback = rng.random() < .15
    with quiet(), c.scratch():
        ds, _ = frames(rng, [(s[0], s[1], s[2], p) for s, p in zip(allspec, pos)], shape, back * scale / 100)
        if fallback:                    # the filter is in the other wheel, the first is not recorded
            for f in ds:
                f.ext_hdr['FSAMNAME'] = f.ext_hdr['FPAMNAME'] if f.ext_hdr['FPAMNAME'].startswith('ND') else 'OPEN'
                del f.ext_hdr['FPAMNAME']
        kw = kwargs(rng, method, back)
        fcal = None
        if given:
            fcal = B.fluxcal(rng, fac, fac / 100, cfam=filt)
        before = snap.ds(ds)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            res = nd.create_nd_filter_cal(ds, thr, method, fi, dict(kw), fcal)
        warned = any("OD variation" in str(r.message) for r in rec)
        c.ok(not snap.diff(before, snap.ds(ds)), "nd-input", "the ND calibration changed its input frames: %s" % (snap.diff(before, snap.ds(ds)),))
        rows = []
        for f, s in zip(ds, allspec):
            if s[4] is not None:
                rows.append((s[4],) + centroid(np.asarray(f.data)))
        got = np.asarray(res.data, float)
        c.ok(got.shape == (len(rows), 3), "nd-rows", "%s rows for %d ND frames" % (got.shape, len(rows)))
        if got.shape == (len(rows), 3):
            # match rows by centroid
            used = set()
            for o, x, y in rows:
                d = np.hypot(got[:, 1] - x, got[:, 2] - y)
                k = int(np.argmin(d))
                c.ok(d[k] < 2e-3 and k not in used, "nd-centroid", "no row for the star at (%.3f, %.3f): nearest %s" % (x, y, got[k]))
                used.add(k)
                c.close(got[k, 0], o, "nd-od", "optical density of the frame at (%.2f, %.2f), %s/%s" % (x, y, method, fi), rtol=0, atol=4e-3)
        high = wide >= 0
        c.ok(bool(res.ext_hdr['ODFLAG']) == high, "nd-flag", "ODFLAG %s but the spread is %s" % (res.ext_hdr['ODFLAG'], {t: float(np.std(o)) for t, o in want.items()}))
        c.ok(warned == high, "nd-warning", "warning about the spread: %s, expected %s" % (warned, high))
        c.ok(isinstance(res, data.NDFilterSweetSpotDataset) and res.ext_hdr['DATALVL'] == 'CAL', "nd-kind", "type or level of the product")
        if not fallback:
            c.ok(res.ext_hdr['FPAMNAME'] == ndname, "nd-name", "filter recorded as %s, is %s" % (res.ext_hdr['FPAMNAME'], ndname))
        c.ok(abs(res.ext_hdr['FPAM_H'] - h) < .6 and abs(res.ext_hdr['FPAM_V'] - v) < .6, "nd-fpam", "mask position of the product is not that of the ND frames")
        c.ok(res.ext_hdr['CFAMNAME'] == filt, "nd-cfam", "band recorded as %s" % res.ext_hdr['CFAMNAME'])
        c.ok(res.filename.endswith("_NDF_CAL.fits"), "nd-file", "file name %s" % res.filename)
        c.equal(sorted(v for k, v in res.ext_hdr.items() if k.startswith("FILE") and k[4:].isdigit()), sorted(f.filename for f in ds), "nd-parents", "recorded parents")
        res.save(".")
        back_ = data.NDFilterSweetSpotDataset(res.filename)
        c.ok(np.array_equal(back_.data, res.data) and np.array_equal(back_.od_values, got[:, 0]) and np.array_equal(back_.x_values, got[:, 1]) and np.array_equal(back_.y_values, got[:, 2]),
             "nd-reload", "the product read back differs")
    c.see("ND frames", len(rows))
    c.see("high spread" if high else "low spread")
    c.see("factor given" if given else "factor from dim stars")
    c.sig(nt, len(rows), method, fi, given, ndim, high, back > 0, fallback)


@SUITE.workload(quick=6, thorough=60)
def defaults(c):
    """The calibration runs with only the frames given."""
    rng = c.rng
    method = ["Aperture", "Gaussian"][c.index % 2]
    filt, fac, t = "3C", 10. ** rng.uniform(-15, -12), str(rng.choice(BRIGHT))
    od = rng.uniform(1.5, 4)
    ext = dict(FPAMNAME="ND225", CFAMNAME=filt)
    with quiet(), c.scratch():
        shape = (int(rng.integers(44, 50)), int(rng.integers(44, 50)))
        ds, _ = frames(rng, [(irradiance(t, filt) / fac * 10 ** -od, ext, t), (irradiance(DIM[0], filt) / fac, dict(ext, FPAMNAME="HOLE"), DIM[0])], shape)
        res = nd.create_nd_filter_cal(ds, phot_method=method) if method != "Aperture" or rng.random() < .5 else nd.create_nd_filter_cal(ds)
    c.close(res.data[0, 0], od, "nd-default", "optical density with default parameters (%s)" % method, rtol=0, atol=4e-3)
    c.see("default calls")
    c.sig(method, shape)


@SUITE.workload(quick=28, thorough=200)
def refused(c):
    """Inconsistent or unknown observations are refused; small repeatability offsets are not."""
    rng = c.rng
    what = ["within-h", "within-v", "within-name", "within-cfam", "between-h", "between-v", "between-name", "between-cfam", "star", "band", "method", "keyword", "ok-within", "ok-between"][c.index % 14]
    filt, fac = "3C", 1e-13
    t1, t2 = [str(t) for t in rng.choice(BRIGHT, 2, replace=False)]
    h, v = rng.uniform(-20, 20, 2)
    far = float(rng.choice([-1, 1]) * rng.uniform(1.4, 30))
    near = float(rng.choice([-1, 1]) * rng.uniform(.1, 1.0))
    base = dict(FPAMNAME="ND225", CFAMNAME=filt, FPAM_H=float(h), FPAM_V=float(v))
    change = {"h": dict(FPAM_H=float(h) + far), "v": dict(FPAM_V=float(v) + far), "name": dict(FPAMNAME="ND475"), "cfam": dict(CFAMNAME="1F"),
              "within": dict(FPAM_H=float(h) + near, FPAM_V=float(v) - near), "between": dict(FPAM_H=float(h) - near, FPAM_V=float(v) + near)}
    per, part = (what.split("-") + [""])[:2]
    spec = [[t1, dict(base)], [t1, dict(base)], [t2, dict(base)], [t2, dict(base)]]
    if per in ("within", "between") or per == "ok":
        which = [int(rng.integers(4)) if rng.random() < .3 else int(rng.choice([1, 3]))] if (per == "within" or part == "within") else ([0, 1] if rng.random() < .5 else [2, 3])
        for k in which:
            spec[k][1].update(change[part])
    if what == "star":
        spec[int(rng.integers(4))][0] = "Sirius C"
    if what == "band":
        for s in spec:
            s[1]["CFAMNAME"] = "9Z"
    with quiet(), c.scratch():
        ds, _ = frames(rng, [(1000., s[1], s[0]) for s in spec], (44, 44))
        fcal = B.fluxcal(rng, fac, fac / 100, cfam=filt)
        method = "PSF" if what == "method" else "Aperture"
        call = lambda: nd.create_nd_filter_cal(ds, 10., method, "irr", dict(encircled_radius=8.), fcal)
        if what == "keyword":
            c.raises(ValueError, lambda: nd.group_by_keyword(ds), "nd-keyword", "grouping without a keyword")
            g = nd.group_by_keyword(ds, prihdr_keyword="TARGET")
            c.equal({k: [f.filename for f in s] for k, s in g.items()}, {t: [f.filename for f in ds if f.pri_hdr["TARGET"] == t] for t in (t1, t2)}, "nd-group", "frames grouped by target")
        elif per == "ok":
            c.ok(call().data.shape == (4, 3), "nd-tolerance", "offsets of %.2f um within the repeatability are refused" % near)
        else:
            c.raises(ValueError, call, "nd-refused", "%s (far %.2f)" % (what, far))
            for k in (0, 1, 2, 3):                       # as far on the other side
                for key, ref in (("FPAM_H", h), ("FPAM_V", v)):
                    ds[k].ext_hdr[key] = 2 * float(ref) - ds[k].ext_hdr[key]
            c.raises(ValueError, call, "nd-refused", "%s (far %.2f)" % (what, -far))
    c.see("refusals" if per != "ok" else "tolerated offsets")
    c.sig(what)


def field(rng):
    a, bx, by = rng.uniform(2, 3), *rng.normal(0, .01, 2)
    return lambda x, y: a + bx * x + by * y


@SUITE.workload(quick=60, thorough=800)
def lookup(c):
    rng = c.rng
    n = int(rng.integers(4, 20))
    x, y = rng.uniform(10, 60, n), rng.uniform(10, 60, n)
    flat = rng.random() < .6
    f = field(rng)
    od = f(x, y) if flat else rng.uniform(1, 4, n)
    with quiet(), c.scratch():
        p, e = B.cal_headers(rng, FPAMNAME="ND225", FPAM_H=float(rng.uniform(-5, 5)), FPAM_V=float(rng.uniform(-5, 5)))
        cal = data.NDFilterSweetSpotDataset(np.column_stack([od, x, y]), pri_hdr=p, ext_hdr=e, input_dataset=B._parents(rng, level="L3"))
        k = int(rng.integers(n))
        w = rng.dirichlet(np.ones(n))
        qx, qy = float(w @ x), float(w @ y)
        for name, fn in (("function", lambda a, b: nd.interpolate_od(cal.data, a, b)), ("product", lambda a, b: cal.interpolate_od(a, b))):
            c.close(float(fn(float(x[k]), float(y[k]))), od[k], "nd-at-measured", "density at a measured place (%s)" % name, rtol=1e-9, atol=1e-9)
            got = float(fn(qx, qy))
            c.ok(od.min() - 1e-9 <= got <= od.max() + 1e-9, "nd-range", "density %.4f outside the measured range (%s)" % (got, name))
            if flat:
                c.close(got, f(qx, qy), "nd-linear", "density between measured places (%s)" % name, rtol=1e-9, atol=1e-9)
            c.ok(np.isnan(float(fn(float(x.max() + 5), 30.))), "nd-outside", "a density is invented outside the measured region (%s)" % name)
            many = np.asarray(fn(np.array([qx, x[k]]), np.array([qy, y[k]])), float)
            c.close(many, [got, od[k]], "nd-array", "array query (%s)" % name, rtol=1e-9, atol=1e-9)
        d = np.hypot(x - qx, y - qy)
        if np.sort(d)[1] - d.min() > .01:
            c.close(nd.interpolate_od(cal.data, qx, qy, method="nearest"), od[np.argmin(d)], "nd-nearest", "nearest measured density", rtol=0, atol=1e-12)
        # transfer to a new location
        m = rng.normal(0, .3, (2, 2))
        dh = rng.uniform(-6, 6, 2)
        off = m @ dh
        sx, sy = qx - off[0], qy - off[1]
        img = psf((72, 72), sx, sy, 1000.)
        inside = 12 < sx < 60 and 12 < sy < 60
        if inside:
            fr = B.stack(rng, img[None], np.zeros_like(img)[None, None], np.zeros_like(img)[None].astype(int), "L3", ext=dict(FPAM_H=float(cal.ext_hdr["FPAM_H"] + dh[0]), FPAM_V=float(cal.ext_hdr["FPAM_V"] + dh[1])))[0]
            if rng.random() < .5:
                fits.PrimaryHDU(m).writeto("m.fits")
            else:
                fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(m)]).writeto("m.fits")
            cx, cy = centroid(img)
            got = float(nd.calculate_od_at_new_location(fr, "m.fits", cal))
            want = f(cx + off[0], cy + off[1]) if flat else None
            if flat and not np.isnan(got):
                c.close(got, want, "nd-transfer", "density transferred to the new place", rtol=1e-9, atol=1e-9)
            if not flat:
                c.close(got, float(nd.interpolate_od(cal.data, float(cx + off[0]), float(cy + off[1]))), "nd-transfer", "density transferred to the new place", rtol=1e-9, atol=1e-9)
            elif np.isnan(got):
                from scipy.spatial import Delaunay
                hull = Delaunay(np.column_stack([x, y]))
                ins = all(hull.find_simplex([cx + off[0] + u, cy + off[1] + v]) >= 0 for u in (-.05, .05) for v in (-.05, .05))
                c.ok(not ins, "nd-transfer", "no density for a new place inside the measured region")
            c.see("transfers")
    c.see("queries", 8)
    c.sig(n, flat, inside)


@SUITE.workload(quick=10, thorough=60)
def badproduct(c):
    """A product must be N x 3 and labelled as such."""
    rng = c.rng
    with quiet(), c.scratch():
        p, e = B.cal_headers(rng)
        for shape in ((4, 2), (3, 4), (5,)):
            c.raises(ValueError, lambda: data.NDFilterSweetSpotDataset(rng.normal(size=shape), pri_hdr=p.copy(), ext_hdr=e.copy(), input_dataset=B._parents(rng)), "nd-shape", "array of shape %s" % (shape,))
        d = B.stack(rng, rng.normal(size=(1, 5, 3)), None, None, "L3")[0]
        d.save(".")
        c.raises(ValueError, lambda: data.NDFilterSweetSpotDataset(d.filename), "nd-label", "another file read as an ND product")
    c.see("refusals", 4)
    c.sig(c.index % 4)
