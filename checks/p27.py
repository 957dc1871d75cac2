"""P27: core throughput calibration, its interpolation, maps and nearest PSFs."""
import os
import numpy as np
import astropy.io.fits as fits
from scipy.interpolate import LinearNDInterpolator
from scipy.spatial import Delaunay
import corgidrp
import corgidrp.data as data
import corgidrp.corethroughput as ct
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P27", "one distinct situation = number of measured PSFs x layout x target class (measured place, inside, outside) x mapping; results are compared with an independent computation, "
              "with throughput fields for which interpolation is exact, and with the measurements themselves")

FDIR = os.path.join(os.path.dirname(corgidrp.__file__), "data", "filter_curves")
BANDS = {n.split("_")[2]: n for n in os.listdir(FDIR) if n.startswith("transmission")}


def curve(band):
    rows = [r.split(",") for r in open(os.path.join(FDIR, BANDS[band])).read().splitlines()[4:] if r.strip()]
    head = open(os.path.join(FDIR, BANDS[band])).read().splitlines()[3].split(",")
    iw, it = [h.strip() for h in head].index("lambda_nm"), [h.strip() for h in head].index("%T")
    w = np.array([float(r[iw]) for r in rows])
    t = np.array([float(r[it]) for r in rows])
    return w, t / t.max()


def lens_ratio(band):
    w, t = curve(band)

    def lens(name):
        a = np.loadtxt(os.path.join(FDIR, "%s_lens_v0.txt" % name), delimiter=",")
        return np.interp(w, a[:, 0] / 10, a[:, 1])
    return np.sum(lens("imaging") * t) / np.sum(lens("pupil") * t)


def observation(rng):
    """(coronagraphic dataset, PAM matrices, CT encoder values, FPM centre expected)"""
    loc = rng.uniform(20, 40, 2)
    fp, fs, cfp, cfs = rng.uniform(-30, 30, (4, 2))
    m = rng.normal(0, .15, (2, 2, 2))
    ds = B.dataset(rng, int(rng.integers(1, 3)), (6, 7), "L3", ext=dict(STARLOCX=float(loc[0]), STARLOCY=float(loc[1]), FPAM_H=float(fp[0]), FPAM_V=float(fp[1]),
                                                                     FSAM_H=float(fs[0]), FSAM_V=float(fs[1])))
    cen = [np.array([loc[0] + sum(m[k][0][j] * (c[j] - a[j]) for j in range(2)), loc[1] + sum(m[k][1][j] * (c[j] - a[j]) for j in range(2))])
           for k, (c, a) in enumerate(((cfp, fp), (cfs, fs)))]
    return ds, data.FpamFsamCal(m), cfp, cfs, cen


def layout(rng, kind):
    """Positions relative to the mask centre."""
    if kind == "spikes":
        nr, na = int(rng.integers(3, 6)), int(rng.integers(3, 7))
        r = np.sort(rng.uniform(3, 20, nr))
        a = np.sort(rng.uniform(-3, 3, na))
        rr, aa = [v.ravel() for v in np.meshgrid(r, a)]
    elif kind == "quadrant":
        n = int(rng.integers(8, 40))
        rr, aa = rng.uniform(3, 20, n), rng.uniform(.1, 1.5, n)
    else:
        n = int(rng.integers(8, 40))
        rr, aa = rng.uniform(3, 20, n), rng.uniform(-3.1, 3.1, n)
    return rr * np.cos(aa), rr * np.sin(aa)


def cal(rng, cen, cfp, cfs, x, y, val, psf=None):
    return B.ctcal(rng, x + cen[0][0], y + cen[0][1], val, psf, fpam=cfp, fsam=cfs)


def grid(cc, cen):
    return np.asarray(cc.ct_excam[0], float) - cen[0][0], np.asarray(cc.ct_excam[1], float) - cen[0][1]


@SUITE.workload(quick=40, thorough=400)
def position(c):
    rng = c.rng
    with quiet():
        ds, pam, cfp, cfs, cen = observation(rng)
        cc = B.ctcal(rng, fpam=cfp, fsam=cfs)
        got = cc.GetCTFPMPosition(ds, pam)
    for k, n in enumerate(("FPAM", "FSAM")):
        c.close(np.asarray(got[k]), cen[k], "mask-position", "mask centre from %s" % n, rtol=1e-12, atol=1e-9)
    d = data.FpamFsamCal([])
    c.close(np.asarray(d.data), np.array([[[0, .12285012], [-.12285012, 0]], [[0, -.09509319], [-.09509319, 0]]]), "default-matrices", "default matrices", rtol=1e-12, atol=0)
    c.sig(len(ds))


@SUITE.workload(quick=60, thorough=600)
def interpolation(c):
    rng = c.rng
    kind = str(rng.choice(["spikes", "quadrant", "disk"]))
    logr = bool(rng.random() < .4)
    field = str(rng.choice(["linear", "random"]))
    with quiet():
        ds, pam, cfp, cfs, cen = observation(rng)
        x, y = layout(rng, kind)
        r = np.hypot(x, y)
        az = np.arctan2(y, x)
        rho = np.log10(r) if logr else r
        if field == "linear":
            u = rng.uniform(-1, 1, 2)
            z = u[0] * (rho - rho.min()) / np.ptp(rho) + u[1] * (az - az.min()) / np.ptp(az)
            lo, hi = z.min(), z.max()
            val = .1 + .8 * (z - lo) / (hi - lo)
        else:
            val = rng.uniform(.05, .95, len(x))
        cc = cal(rng, cen, cfp, cfs, x, y, val)
        gx, gy = grid(cc, cc.GetCTFPMPosition(ds, pam))     # targets given exactly as measured
        gr, ga = np.hypot(gx, gy), np.arctan2(gy, gx)
        a0 = ga.min()
        amax = (ga - a0).max()
        # targets: measured places, random ones, and outside the radial range
        n = int(rng.integers(1, 30))
        tr = rng.uniform(.5 * gr.min(), 1.3 * gr.max(), n)
        ta = rng.uniform(-np.pi, np.pi, n)
        tx, ty = tr * np.cos(ta), tr * np.sin(ta)
        k = rng.integers(len(x), size=int(rng.integers(1, 6)))
        tx, ty = np.concatenate([tx, gx[k]]), np.concatenate([ty, gy[k]])
        own = np.concatenate([np.full(n, -1), k])
        p = rng.permutation(len(tx))
        tx, ty, own = tx[p], ty[p], own[p]
        keep = (tx.copy(), ty.copy())
        out = cc.InterpolateCT(tx, ty, ds, pam, logr=logr)
        c.ok(np.array_equal(tx, keep[0]) and np.array_equal(ty, keep[1]), "input", "targets changed")
        c.equal(np.shape(out)[0], 3, "result", "rows of the result")
        pts = np.c_[np.log10(gr) if logr else gr, ga - a0]
        tri = Delaunay(pts)
        ref = LinearNDInterpolator(tri, np.asarray(cc.ct_excam[2], float))
        tr = np.hypot(tx, ty)
        ta = np.arctan2(ty, tx) - a0
        ta = np.where((ta < 0) | (ta > amax), ta % amax, ta)
        q = np.c_[np.log10(tr) if logr else tr, ta]
        inside = (tr >= gr.min()) & (tr <= gr.max())
        # distance to the hull decides which targets are certainly in or out
        eq = _hull(pts)
        dist = (q @ eq[:, :-1].T + eq[:, -1]).max(axis=1)
        sure_in = inside & (dist < -1e-9)
        sure_out = ~inside | (dist > 1e-9)
        got = {(a, b): v for v, a, b in np.asarray(out).T}
        c.ok(len(got) == out.shape[1] or len({(a, b) for a, b in zip(tx, ty)}) < len(tx), "result", "targets reported twice")
        order = [(a, b) for _, a, b in np.asarray(out).T]
        c.ok(order == [t for t in zip(tx, ty) if t in got], "order", "targets not in their order")
        for i in range(len(tx)):
            t = (tx[i], ty[i])
            if own[i] >= 0:
                c.ok(t in got, "measured-missing", "measured place %s not returned" % (t,))
                if t in got:
                    c.close(got[t], cc.ct_excam[2][own[i]], "measured", "throughput at a measured place (azimuth %.4f of %.4f)" % (ta[i], amax), rtol=1e-9, atol=1e-9)
                c.see("measured places")
            elif sure_in[i]:
                c.ok(t in got, "missing", "target %s inside the measured region not returned" % (t,))
                if t in got:
                    if field == "linear":
                        want = val_linear(q[i], u, rho, az, lo, hi)
                    elif kind == "spikes":              # rectangles: the triangulation is not unique
                        jr, ja = [np.searchsorted(np.unique(np.round(pts[:, k], 9)), q[i][k]) for k in (0, 1)]
                        ur, ua = [np.unique(np.round(pts[:, k], 9)) for k in (0, 1)]
                        cell = np.isin(np.round(pts[:, 0], 9), ur[max(jr - 1, 0):jr + 1]) & np.isin(np.round(pts[:, 1], 9), ua[max(ja - 1, 0):ja + 1])
                        cv = np.asarray(cc.ct_excam[2])[cell]
                        c.ok(cv.min() - 1e-7 <= got[t] <= cv.max() + 1e-7, "cell", "value %s outside those around it (%s to %s)" % (got[t], cv.min(), cv.max()))
                        continue
                    else:
                        want = float(ref(q[i])[0])
                    c.close(got[t], want, "value", "%s field at %s" % (field, t), rtol=1e-6, atol=1e-7)
                c.see("inside")
            elif sure_out[i]:
                c.ok(t not in got, "extrapolated", "target %s outside the measured region returned" % (t,))
                c.see("outside")
        v = np.asarray(out[0], float)
        c.ok(v.min() >= cc.ct_excam[2].min() - 1e-9 and v.max() <= cc.ct_excam[2].max() + 1e-9, "range", "values outside the measured range")
        # scalar, list and array targets agree; a map holds the same values as x, y, throughput
        if sure_in.any():
            i = int(np.flatnonzero(sure_in)[0])
            for a, b in ((float(tx[i]), float(ty[i])), ([float(tx[i])], [float(ty[i])]), (np.array([tx[i]]), np.array([ty[i]]))):
                one = cc.InterpolateCT(a, b, ds, pam, logr=logr)
                c.close(float(one[0][0]), got[(tx[i], ty[i])], "form", "the same target given as %s" % type(a).__name__, rtol=1e-9, atol=1e-12)
        m = ct.CreateCTMap(ds, pam, cc, target_pix=np.array([tx, ty]), logr=logr)
        c.equal(np.asarray(m), np.asarray(out)[[1, 2, 0]], "map", "map (x, y, throughput)")
    c.sig(kind, logr, field, len(x))
    c.sample({"layout": kind, "logr": logr, "field": field})


def _hull(pts):
    from scipy.spatial import ConvexHull
    return ConvexHull(pts).equations


def val_linear(q, u, rho, az, lo, hi):
    z = u[0] * (q[0] - rho.min()) / np.ptp(rho) + u[1] * q[1] / np.ptp(az)
    return .1 + .8 * (z - lo) / (hi - lo)


@SUITE.workload(quick=15, thorough=100)
def maps(c):
    """Default grid, saved files."""
    rng = c.rng
    with quiet(), c.scratch() as d:
        ds, pam, cfp, cfs, cen = observation(rng)
        x, y = layout(rng, "disk")
        cc = cal(rng, cen, cfp, cfs, x, y, rng.uniform(.1, .9, len(x)))
        nx, ny = int(rng.integers(12, 24)), int(rng.integers(12, 24))
        xr, yr = [-rng.uniform(10, 20), rng.uniform(10, 20)], [-rng.uniform(10, 20), 15]
        path = os.path.join(str(d), "map.csv")
        m = ct.CreateCTMap(ds, pam, cc, x_range=xr, y_range=yr, n_gridx=nx, n_gridy=ny, filepath=path, save=True)
        gx, gy = np.linspace(*xr, nx), np.linspace(*yr, ny)
        want = cc.InterpolateCT(np.array([a for b in gy for a in gx]), np.array([b for b in gy for a in gx]), ds, pam)
        c.close(np.asarray(m), np.asarray(want)[[1, 2, 0]], "map-grid", "map on a grid", rtol=1e-9, atol=1e-12)
        c.ok(os.path.exists(path), "map-saved", "map not saved where asked")
        if os.path.exists(path):
            c.close(np.loadtxt(path, delimiter=",", ndmin=2), np.asarray(m), "map-saved", "saved map", rtol=1e-12, atol=1e-15)
        c.ok(not os.path.exists(os.path.join(str(d), "map2.csv")), "map-unsaved", "map saved without being asked")
        ct.CreateCTMap(ds, pam, cc, x_range=xr, y_range=yr, n_gridx=nx, n_gridy=ny, filepath=os.path.join(str(d), "map2.csv"))
        c.ok(not os.path.exists(os.path.join(str(d), "map2.csv")), "map-unsaved", "map saved without being asked")
    c.sig(nx, ny)


@SUITE.workload(quick=15, thorough=100)
def refusals(c):
    rng = c.rng
    with quiet():
        ds, pam, cfp, cfs, cen = observation(rng)
        x, y = layout(rng, "disk")
        cc = cal(rng, cen, cfp, cfs, x, y, rng.uniform(.1, .9, len(x)))
        gx, gy = grid(cc, cc.GetCTFPMPosition(ds, pam))
        r = np.hypot(gx, gy)
        for f in (cc.InterpolateCT, cc.GetPSF):
            n = f.__name__
            c.raises(ValueError, lambda: f(np.array([.5 * r.min()]), np.array([0.]), ds, pam), "below", "%s below the radial range" % n)
            c.raises(ValueError, lambda: f(np.array([1.5 * r.max()] * 3), np.zeros(3), ds, pam), "beyond", "%s beyond the radial range" % n)
            c.raises(ValueError, lambda: f(np.array([.5 * r.min(), 1.5 * r.max()]), np.zeros(2), ds, pam), "outside", "%s with all targets outside" % n)
            c.raises(ValueError, lambda: f("5", 5., ds, pam), "kind", "%s of text" % n)
            c.raises(ValueError, lambda: f(5., (5.,), ds, pam), "kind", "%s of a tuple" % n)
            c.raises(ValueError, lambda: f(np.array([5., 6.]), np.array([5.]), ds, pam), "length", "%s of different numbers of x and y" % n)
        c.raises(ValueError, lambda: cc.GetPSF(float(gx[0]), float(gy[0]), ds, pam, method="bilinear"), "method", "unknown method")
        v = np.array(cc.ct_excam[2])
        i = int(rng.integers(len(v)))
        for bad in (1.3, -.2):
            w = v.copy()
            w[i] = bad
            c2 = cal(rng, cen, cfp, cfs, x, y, w)
            if r[i] not in (r.min(), r.max()) and np.arctan2(gy, gx)[i] not in (np.arctan2(gy, gx).min(), np.arctan2(gy, gx).max()):
                q = np.c_[r, np.arctan2(gy, gx)]
                if (q[i] @ _hull(q)[:, :-1].T + _hull(q)[:, -1]).max() < -1e-6:
                    c.raises(ValueError, lambda: c2.InterpolateCT(gx[[i]], gy[[i]], ds, pam), "range", "throughput %s" % bad)
    c.sig(len(x))


def nearest(gx, gy, psf, tx, ty, ideal):
    """PSF for a target: index list to average. ideal: as documented (radii binned at a tenth of a pixel, shortest angle)."""
    r = np.hypot(gx, gy)
    t = np.hypot(tx, ty)
    d = np.abs(t - r)
    b = np.round(10 * d) / 10 if ideal else np.round(10 * d / 10)
    near = np.flatnonzero(b == b.min())
    if len(near) == 1:
        return list(near), True
    da = np.abs(np.arctan2(ty, tx) - np.arctan2(gy[near], gx[near]))
    if ideal:
        da = np.minimum(da, 2 * np.pi - da)
    s = 10 * t
    db = np.round(da * s)
    sel = near[db == db.min()]
    return list(sel), True


def edge(gx, gy, tx, ty):
    """Within rounding of a bin edge."""
    r, t = np.hypot(gx, gy), np.hypot(tx, ty)
    d = np.abs(t - r)
    da = np.abs(np.arctan2(ty, tx) - np.arctan2(gy, gx))
    da2 = np.minimum(da, 2 * np.pi - da)
    h = np.concatenate([(10 * d) % 1, d % 1, (da * 10 * t) % 1, (da2 * 10 * t) % 1])
    return bool((np.abs(h - .5) < 1e-6).any())


def judge_psf(c, gx, gy, cube, targets, got, px, py):
    r = np.hypot(gx, gy)
    tr = np.array([np.hypot(*t) for t in targets])
    ok = [t for t, q in zip(targets, tr) if r.min() <= q <= r.max()]
    c.ok(list(zip(px, py)) == ok, "psf-targets", "%d targets returned, %d within the radial range" % (len(px), len(ok)))
    for f, t in zip(got, ok):
        if edge(gx, gy, *t):
            c.see("edge")
            continue
        a, _ = nearest(gx, gy, cube, *t, True)
        wa = cube[a].mean(axis=0)
        c.see("psfs")
        if np.array_equal(np.asarray(f), wa) or np.allclose(f, wa, rtol=1e-12, atol=0):
            continue
        b, _ = nearest(gx, gy, cube, *t, False)
        if len(b) <= 2 and np.allclose(f, cube[b].mean(axis=0), rtol=1e-12, atol=0):
            # which of the two documented rules is not followed
            ra = np.abs(np.hypot(*t) - r)
            if round(float(ra[b[0]]) * 10) != round(float(ra[a[0]]) * 10):
                c.fail("getpsf-radial-bin", "GetPSF at (%.2f, %.2f) returns the PSF measured %.2f pixel off in radius, another one is %.2f pixel off" % (t + (ra[b[0]], ra[a[0]])))
            else:
                c.fail("getpsf-azimuth-wrap", "GetPSF at (%.2f, %.2f) compares azimuths without wrapping at +-180 degrees" % t)
        else:
            c.fail("getpsf", "GetPSF at (%.2f, %.2f): neither the documented nor the implemented nearest PSF" % t)


@SUITE.workload(quick=1, thorough=1, fixed=True)
def known_getpsf(c):
    """The two listed deviations from the documented choice of PSF, on fixed inputs."""
    rng = np.random.default_rng(1)
    with quiet():
        ds, pam, cfp, cfs, cen = observation(rng)
        for x, y, t in (([10., 0.], [0., 10.4], (7.4, 7.3)), ([-10., 0., 3.], [-.5, 10., 2.], (-9.99, .6))):
            x, y = np.array(x), np.array(y)
            psf = rng.normal(1, .2, (len(x), 5, 5))
            cc = cal(rng, cen, cfp, cfs, x, y, np.full(len(x), .5), psf)
            gx, gy = grid(cc, cc.GetCTFPMPosition(ds, pam))
            judge_psf(c, gx, gy, psf, [t], *cc.GetPSF(np.array([t[0]]), np.array([t[1]]), ds, pam))
    c.sig("fixed")


@SUITE.workload(quick=40, thorough=400)
def psfs(c):
    """Layouts on which documented and implemented choice agree: radii apart by more than two pixels, or one common radius."""
    rng = c.rng
    mode = str(rng.choice(["rings", "ring", "spread"]))
    with quiet():
        ds, pam, cfp, cfs, cen = observation(rng)
        if mode == "spread":
            r = np.arange(3, 30, 2.6)
            a = rng.uniform(-3, 3, len(r))
        elif mode == "ring":
            a = np.sort(rng.uniform(-1.4, 1.4, int(rng.integers(2, 9))))
            r = np.full(len(a), 12.)
        else:
            rr, aa = np.array([4., 8., 12.]), np.sort(rng.uniform(.05, 1.5, 4))
            r, a = [v.ravel() for v in np.meshgrid(rr, aa)]
        p = rng.permutation(len(r))
        r, a = r[p], a[p]
        x, y = r * np.cos(a), r * np.sin(a)
        if mode == "ring":
            x, y = np.append(x, [3., 25.]), np.append(y, [0., 0.])
        psf = rng.normal(1, .2, (len(x), 5, 5))
        cc = cal(rng, cen, cfp, cfs, x, y, np.full(len(x), .5), psf)
        gx, gy = grid(cc, cc.GetCTFPMPosition(ds, pam))
        n = int(rng.integers(1, 12))
        if mode == "spread":
            k = rng.integers(len(x), size=n)
            tr = np.hypot(gx, gy)[k] + rng.uniform(-.45, .45, n)
            ta = rng.uniform(-np.pi, np.pi, n)
        elif mode == "ring":
            tr = 12 + rng.uniform(-.4, .4, n)
            ta = rng.uniform(-1.5, 1.5, n)
        else:
            tr = rr[rng.integers(3, size=n)] + rng.uniform(-.4, .4, n)
            ta = rng.uniform(0, 1.57, n)
        t = [(float(q * np.cos(b)), float(q * np.sin(b))) for q, b in zip(tr, ta)]
        r0 = np.hypot(gx, gy)
        if not any(r0.min() <= np.hypot(*q) <= r0.max() for q in t):
            t.append((float(gx[np.argmax(r0)]), float(gy[np.argmax(r0)])))
        if rng.random() < .5:
            t.append((100., 3.))
            t.append((.1, .1))
        p = rng.permutation(len(t))
        t = [t[i] for i in p]
        f = cc.GetPSF(np.array([q[0] for q in t]), np.array([q[1] for q in t]), ds, pam)
        judge_psf(c, gx, gy, psf, t, *f)
        # a measured place gives its own PSF
        i = int(rng.integers(len(gx)))
        if (np.hypot(gx - gx[i], gy - gy[i]) > 1).sum() == len(gx) - 1 and mode != "ring":
            g = cc.GetPSF(float(gx[i]), float(gy[i]), ds, pam)
            if not edge(gx, gy, gx[i], gy[i]):
                c.close(np.asarray(g[0][0]), psf[i], "psf-measured", "PSF at its measured place", rtol=1e-12, atol=0)
    c.sig(mode, len(x), n)


# ------------------------------------------------------------------------------------------------ making the calibration
def ct_dataset(rng, shape, n, band, npup):
    yy, xx = np.indices(shape)
    fr = []
    base = dict(CFAMNAME=band, FPAM_H=float(rng.uniform(0, 10)), FPAM_V=float(rng.uniform(0, 10)), FSAM_H=float(rng.uniform(0, 10)), FSAM_V=float(rng.uniform(0, 10)))
    kinds = ["psf"] * n + ["pupil"] * npup
    rng.shuffle(kinds)
    ext, arr, truth = [], [], []
    w = curve(band)[0].mean()
    half = int(np.ceil(3 * w * 1e-9 / 2.36 * 180 / np.pi * 3600e3 / 21.8))
    for k in kinds:
        e = dict(base)
        if k == "pupil":
            e.update(DPAMNAME="PUPIL", LSAMNAME="OPEN", FSAMNAME="OPEN", FPAMNAME="OPEN_12")
            im = np.zeros(shape)
            im[4:12, 5:15] = rng.uniform(50, 90)
        else:
            # like a pupil frame in all but one respect
            odd = dict(DPAMNAME="PUPIL", LSAMNAME="OPEN", FSAMNAME="OPEN", FPAMNAME="OPEN_12")
            odd[str(rng.choice(list(odd)))] = "OTHER"
            e.update(odd)
            # a lone PSF may be cut by the edge of the frame
            m = half + 2 if n > 1 or rng.random() < .3 else 7
            x0, y0 = rng.uniform(m, shape[1] - m - 1), rng.uniform(m, shape[0] - m - 1)
            im = rng.uniform(50, 200) * np.exp(-((xx - x0) ** 2 + (yy - y0) ** 2) / 2 / 1.3 ** 2)
            truth.append((x0, y0))
        ext.append(e)
        arr.append(im)
    ds = B.stack(rng, np.array(arr), level="L3", ext_list=ext)
    return ds, kinds, truth, half


@SUITE.workload(quick=25, thorough=200)
def making(c):
    rng = c.rng
    band = str(rng.choice(sorted(BANDS)))
    n, npup = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    roi = int(rng.choice([3, 3, 4, 5]))
    with quiet():
        shape = tuple(int(v) for v in rng.choice([48, 52, 60], 2))
        ds, kinds, truth, half = ct_dataset(rng, shape, n, band, npup)
        before = [f.data.copy() for f in ds]
        cc = ct.generate_ct_cal(ds, roi_radius=roi)
        pos, val = ct.estimate_psf_pix_and_ct(ds, roi_radius=roi)
        off = [f for f, k in zip(ds, kinds) if k == "psf"]
        tot = np.mean([f.data.sum() for f, k in zip(ds, kinds) if k == "pupil"]) * lens_ratio(band)
        c.close(ct.di_over_pil_transmission(cfam_name=band), lens_ratio(band), "lens-ratio", "lens transmission ratio in %s" % band, rtol=1e-9, atol=0)
        c.equal(np.shape(cc.ct_excam), (3, n), "number", "one measurement per PSF")
        for i, (f, (x0, y0)) in enumerate(zip(off, truth)):
            py, px = np.unravel_index(np.argmax(f.data), f.data.shape)
            s = np.zeros(f.data.shape, bool)
            s[max(0, py - roi):py + roi + 1, max(0, px - roi):px + roi + 1] = True
            yy, xx = np.nonzero(s)
            v = f.data[s]
            want = (np.sum(xx * v) / v.sum(), np.sum(yy * v) / v.sum(), f.data[f.data >= f.data.max() / 2].sum() / tot)
            c.close(np.asarray(cc.ct_excam)[:, i], np.array(want), "measurement", "position and throughput of PSF %d" % i, rtol=1e-9, atol=1e-9)
            c.ok(np.hypot(want[0] - x0, want[1] - y0) < .35, "oracle", "centroid")
            c.ok(np.hypot(cc.ct_excam[0][i] - x0, cc.ct_excam[1][i] - y0) < .35, "position", "PSF put at (%.2f, %.2f), is at (%.2f, %.2f)" % (cc.ct_excam[0][i], cc.ct_excam[1][i], x0, y0))
            cx, cy = int(np.round(want[0])), int(np.round(want[1]))
            cut = (slice(max(cy - half, 0), cy + half + 1), slice(max(cx - half, 0), cx + half + 1))
            c.equal(np.asarray(cc.data[i]), f.data[cut], "cutout", "cut-out of PSF %d" % i)
            c.equal(np.asarray(cc.dq[i]), f.dq[cut], "cutout-dq", "flags of the cut-out of PSF %d" % i)
            c.see("psfs")
        c.close(np.asarray(pos).T, np.asarray(cc.ct_excam)[:2], "estimate", "positions", rtol=1e-12, atol=0)
        c.close(np.asarray(val), np.asarray(cc.ct_excam)[2], "estimate", "throughputs", rtol=1e-12, atol=0)
        h = ds[0].ext_hdr
        c.equal([float(v) for v in cc.ct_fpam], [h["FPAM_H"], h["FPAM_V"]], "encoders", "FPAM")
        c.equal([float(v) for v in cc.ct_fsam], [h["FSAM_H"], h["FSAM_V"]], "encoders", "FSAM")
        rec = sorted(cc.ext_hdr["FILE%d" % k] for k in range(int(cc.ext_hdr["DRPNFILE"])))
        c.ok(rec == sorted(f.filename for f in ds), "parents", "parents %s" % rec)
        c.ok(all(np.array_equal(f.data, b) for f, b in zip(ds, before)), "input", "input changed")
        # twice the unocculted light: half the throughput; scaling all: the same
        d2 = ds.copy()
        for f, k in zip(d2, kinds):
            if k == "pupil":
                f.data[:] *= 2
        c.close(np.asarray(ct.estimate_psf_pix_and_ct(d2, roi_radius=roi)[1]), np.asarray(val) / 2, "normalised", "twice the light of the star", rtol=1e-9, atol=0)
        # refusals
        d3 = ds.copy()
        if len(d3) > 1:
            d3[int(rng.integers(len(d3)))].ext_hdr["CFAMNAME"] = "9Z"
            c.raises(Exception, lambda: ct.generate_ct_cal(d3), "filters", "frames of different filters")
        c.raises(Exception, lambda: ct.generate_ct_cal(data.Dataset(off)), "no-pupil", "no pupil image")
        c.raises(Exception, lambda: ct.generate_ct_cal(data.Dataset([f for f, k in zip(ds, kinds) if k == "pupil"])), "no-psf", "no PSF")
        # a saved calibration gives the same product
        with c.scratch() as d:
            cc.save(filedir=str(d), filename="ct.fits")
            r = data.CoreThroughputCalibration(os.path.join(str(d), "ct.fits"))
            c.equal(np.asarray(r.ct_excam), np.asarray(cc.ct_excam), "saved", "saved measurements")
            c.equal(np.asarray(r.data), np.asarray(cc.data), "saved", "saved PSFs")
            c.equal([float(v) for v in r.ct_fpam] + [float(v) for v in r.ct_fsam], [float(v) for v in cc.ct_fpam] + [float(v) for v in cc.ct_fsam], "saved", "saved encoders")
    c.sig(band, n, npup, roi)
    c.sample({"band": band, "psfs": n, "pupils": npup})


@SUITE.workload(quick=25, thorough=150)
def radial(c):
    """Throughput against separation: the measurement nearest in separation."""
    rng = c.rng
    n = int(rng.integers(1, 30))
    with quiet():
        cen = rng.uniform(20, 40, 2)
        x, y = rng.uniform(0, 60, n), rng.uniform(0, 60, n)
        cc = B.ctcal(rng, x, y, rng.uniform(0, 1, n))
        x, y, v = [np.asarray(a, float) for a in cc.ct_excam]
        ext = dict(STARLOCX=float(cen[0]), STARLOCY=float(cen[1]))
        off = (0, 0)
        if rng.random() < .5:
            off = (int(rng.integers(0, 30)), int(rng.integers(0, 30)))
            ext.update(DETPIX0X=off[0], DETPIX0Y=off[1])
        f = B.image(rng, (5, 5), "L4", ext=ext)
        seps = rng.uniform(0, 40, int(rng.integers(1, 10)))
        out = np.asarray(ct.get_1d_ct(cc, f, seps))
        sep = np.hypot(x - (cen[0] + off[0] + .5), y - (cen[1] + off[1] + .5))
        c.equal(out.shape, (2, len(seps)), "shape", "shape")
        c.close(out[0], seps, "separations", "separations", rtol=1e-12, atol=0)
        for s, got in zip(seps, out[1]):
            c.ok(got in v[np.abs(np.abs(sep - s) - np.abs(sep - s).min()) < 1e-9], "radial", "throughput at separation %.3f" % s)
            c.see("separations")
        c.raises(NotImplementedError, lambda: ct.get_1d_ct(cc, f, seps, method="linear"), "method", "unknown method")
    c.sig(n, off == (0, 0))
