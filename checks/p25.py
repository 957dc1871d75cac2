"""P25: photon counting gives the rate that solves the threshold and coincidence-loss equation in every pixel."""
import math
import os
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data
import corgidrp.photon_counting as pc
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P25", "one distinct situation = number of frames x frames per bin x flag pattern x threshold/gain ratio x iterations x kind of frames; every pixel is recomputed by scalar "
              "arithmetic from the Poisson-gamma detection probability")


def eps(lam, x):
    """Detection probability above threshold x = t/g for at most three electrons."""
    e = math.exp(-x)
    q = (1.0, 1 + x, 1 + x + x * x / 2)
    den = sum(lam ** n / math.factorial(n) for n in range(4))
    num = sum(lam ** (n + 1) / math.factorial(n + 1) * q[n] for n in range(3))
    dden = sum(lam ** n / math.factorial(n) for n in range(3))
    dnum = sum(lam ** n / math.factorial(n) * q[n] for n in range(3))
    return e * num / den, e * (dnum * den - num * dden) / den ** 2


def rate(nobs, nfr, x, niter):
    if nfr == 0 or nobs == 0:
        return 0.0
    p = nobs / nfr
    a = 1 - p * math.exp(x)
    if abs(a) < 1e-12:
        return math.nan
    lam = -math.log(a) if a > 0 else p
    for _ in range(niter):
        f, d = eps(lam, x)
        if d == 0 or abs(lam) > 1e6:
            return math.nan
        lam -= (f - p) / d
    return lam


def variance(lam, nfr, t, g):
    """Binomial variance of the counts times the squared slope of the third-order inversion of the counts."""
    if nfr == 0:
        return math.nan
    x = t / g
    e = eps(lam, x)[0]
    k = nfr * e
    slope = math.exp(x) / nfr + 2 * k * math.exp(2 * x) * (g - t) / (2 * g * nfr ** 2) + 3 * k ** 2 * math.exp(3 * x) * (4 * g * g - 8 * g * t + 5 * t * t) / (12 * g * g * nfr ** 3)
    return nfr * e * (1 - e) * slope ** 2


def frames(rng, n, shape, g, rn, tf, vis="TDEMO", p=None, flags=True, gainkey=None):
    """n frames of counts around the threshold."""
    t = tf * rn
    if p is None:
        p = rng.uniform(0, .25, shape)
    arr = np.where(rng.random((n,) + shape) < p, t + rng.exponential(g, (n,) + shape) + 1, rng.normal(0, rn, (n,) + shape).clip(-4 * rn, t - 1))
    pick = rng.random(arr.shape)
    arr[pick < .03] = t                          # exactly at the threshold: not counted
    near = (pick > .03) & (pick < .08)
    arr[near] = t + rng.uniform(-2, 2, near.sum()) * rn
    err = np.abs(rng.normal(0, rn, arr.shape)) * (rng.random(arr.shape) < .7)
    dq = np.zeros(arr.shape, int)
    if flags:
        dq = np.where(rng.random(arr.shape) < rng.choice([.05, .3]), rng.choice([1, 4, 64, 128, 3, 256, 512], arr.shape), 0)
        r, q = rng.integers(shape[0]), rng.integers(shape[1])
        dq[:, r, q] = 1
    ext = dict(EXPTIME=.05, EMGAIN_C=float(g), EMGAIN_A=0.0, RN=float(rn), KGAINPAR=7.0, ISPC=True)
    which = rng.integers(3) if gainkey is None else gainkey
    if which == 1:
        ext.update(EMGAIN_A=float(g), EMGAIN_C=float(g) + 77)
    elif which == 2:
        ext.update(EMGAIN_M=float(g), EMGAIN_A=float(g) + 13, EMGAIN_C=float(g) + 77)
    return B.stack(rng, arr, err, dq, "L2a", ext=ext, pri=dict(VISTYPE=vis))


def expect(sub, t, g, niter):
    """(value, error, dq, judged, lowest, highest count) of one bin of frames given as arrays."""
    arr, err, dq = (np.array([np.asarray(getattr(f, k)) for f in sub]) for k in ("data", "err", "dq"))
    err = err[:, 0]
    shape = arr.shape[1:]
    val, e, jd = np.zeros(shape), np.zeros(shape), np.ones(shape, bool)
    low = np.inf
    sure = True
    n = (dq == 0).sum(axis=0)
    for ij in np.ndindex(*shape):
        m = dq[(slice(None),) + ij] == 0
        x = arr[(slice(None),) + ij][m]
        s = err[(slice(None),) + ij][m]
        r = [rate(int((y > t).sum()), int(m.sum()), t / g, niter) for y in (x, x + s, x - s)]
        if not all(np.isfinite(r)) or any(abs(v) > 50 for v in r) or any(0 < abs(v) < 1e-9 for v in r):
            jd[ij] = False
            sure = False
            continue
        if np.any(np.abs(np.abs(x - t) - s) < 1e-9 * max(t, 1)):
            jd[ij] = not np.any((np.abs(np.abs(x - t) - s) < 1e-9 * max(t, 1)) & (s > 0))
        sd = math.sqrt(variance(max(r[0], 0), int(m.sum()), t, g)) if m.any() else math.nan
        val[ij] = max(r[0], 0)
        e[ij] = max(r[1] - r[0], r[0] - r[2]) + sd
        low = min(low, *r)
    return val, e, (n == 0), jd, low, sure


def setup(rng, n=None):
    n = int(rng.integers(4, 40)) if n is None else n
    shape = (int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    g = float(rng.choice([1000, 2500, 5000, 6000]))
    tf = float(rng.choice([4, 5, 6.5, 5.0]))
    rn = float(rng.choice([80, 100, 130]))
    niter = int(rng.choice([1, 2, 2, 3, 6]))
    return n, shape, g, tf, rn, niter


def dark_cube(rng, k, shape, t, nfr):
    with quiet():
        pri, ext, eh = B.pri_header(rng, VISTYPE="DARK"), B.ext_header(rng, "L2a"), fits.Header()
        ds = B.dataset(rng, 2, shape, "L2a", pri=dict(VISTYPE="DARK"))
        ext["PC_STAT"] = "photon-counted master dark"
        ext["PCTHRESH"] = t
        ext["NUM_FR"] = nfr
        return data.Dark(rng.uniform(0, .1, (k,) + shape), pri, ext, ds, err=rng.uniform(0, .01, (1, k) + shape),
                         dq=(rng.random((k,) + shape) < .1).astype(int) * 4, err_hdr=eh)


def judge(c, frame, w, label, dark=None):
    val, e, never, jd, _, _ = w
    if dark is not None:
        val = val - dark[0]
        val[val < 0] = 0
        e = np.sqrt(e ** 2 + dark[1] ** 2)
    j = jd & ~never
    c.close(np.asarray(frame[0])[j], val[j], "rate", "%s: mean expected electrons" % label, rtol=1e-7, atol=1e-9)
    c.close(np.asarray(frame[1])[j], e[j], "error", "%s: error" % label, rtol=1e-6, atol=1e-9)
    want = never.astype(int)
    if dark is not None:
        want = want | dark[2]
    c.equal(np.asarray(frame[2]), want, "flags", "%s: flags" % label)
    c.see("pixels", int(j.sum()))


@SUITE.workload(quick=44, thorough=600)
def illuminated(c):
    rng = c.rng
    n, shape, g, tf, rn, niter = setup(rng)
    t = tf * rn
    b = int(rng.integers(1, n + 1)) if rng.random() < .6 else None
    with quiet():
        ds = frames(rng, n, shape, g, rn, tf)
        size = n if b is None else b
        nb = n // size
        dark = None
        if rng.random() < .5:
            k = int(rng.integers(1, 4))
            dark = dark_cube(rng, k, shape, t, size + int(rng.integers(0, 3)))
        own = [(t, g)] * nb
        if rng.random() < .5:
            # every bin may have settings of its own (a dark needs one threshold)
            own = []
            for i in range(nb):
                q = 1. if dark is not None else float(rng.choice([.5, 1, 1, 2]))
                gi = float(rng.choice([v for v in (1000., 2500., 5000., 6000.) if v > t * q]))
                own.append((t * q, gi))
                for f in ds[i * size:(i + 1) * size]:
                    f.data[:] *= q
                    f.err[:] *= q
                    f.ext_hdr["RN"] = rn * q
                    f.ext_hdr["EXPTIME"] = .05 + .01 * i
                    f.ext_hdr["EMGAIN_M" if "EMGAIN_M" in f.ext_hdr else "EMGAIN_A" if f.ext_hdr["EMGAIN_A"] > 0 else "EMGAIN_C"] = gi
        want = [expect(ds[i * size:(i + 1) * size], *own[i], niter) for i in range(nb)]
        low = min(w[4] for w in want)
        safe = bool(rng.random() < .5)
        before = [(f.data.copy(), f.dq.copy(), f.err.copy(), str(f.ext_hdr)) for f in ds]
        call = lambda: pc.get_pc_mean(ds, pc_master_dark=dark, T_factor=tf, pc_ecount_max=1e9, niter=niter, bin_size=b, safemode=safe)
        if low < 0 and safe:
            c.raises(pc.PhotonCountException, call, "negative", "a negative rate is not accepted")
            c.sig("negative")
            return
        if not all(w[5] for w in want) and safe:
            try:
                out = call()
            except pc.PhotonCountException:
                c.see("unjudged")
                return
        else:
            out = call()
        c.ok(len(out) == nb, "bins", "%d frames for %d bins" % (len(out), nb))
        for i in range(nb):
            sub = ds[i * size:(i + 1) * size]
            d = None
            if dark is not None:
                j = i % dark.data.shape[0]
                d = (dark.data[j], dark.err[0][j], dark.dq[j])
            f = out[i]
            judge(c, (f.data, f.err[0], f.dq), want[i], "bin %d" % i, d)
            c.close(f.ext_hdr["PCTHRESH"], own[i][0], "threshold", "recorded threshold")
            c.equal(f.ext_hdr["NUM_FR"], size, "count", "recorded number of frames")
            c.equal(f.filename, sub[-1].filename.replace("L2a", "L2b"), "name", "name")
            rec = [f.ext_hdr["FILE%d" % k] for k in range(int(f.ext_hdr["DRPNFILE"]))]
            c.ok(sorted(rec) == sorted(s.filename for s in sub), "parents", "parents %s" % rec)
            c.ok(any("hoton-counted" in str(h) for h in f.ext_hdr["HISTORY"]), "history", "history")
        c.ok(all(np.array_equal(f.data, a) and np.array_equal(f.dq, q) and np.array_equal(f.err, e) and str(f.ext_hdr) == h for f, (a, q, e, h) in zip(ds, before)), "input", "input changed")
    c.sig(n, size, niter, round(t / g, 3), dark is not None, len(set(own)))
    c.sample({"frames": n, "bin": size, "t/g": t / g, "settings": sorted(set(own))})


@SUITE.workload(quick=20, thorough=250)
def darks(c):
    rng = c.rng
    n, shape, g, tf, rn, niter = setup(rng)
    t = tf * rn
    b = int(rng.integers(1, n + 1)) if rng.random() < .7 else None
    with quiet():
        ds = frames(rng, n, shape, g, rn, tf, vis="DARK", p=rng.uniform(0, .1, shape))
        size = n if b is None else b
        nb = n // size
        want = [expect(ds[i * size:(i + 1) * size], t, g, niter) for i in range(nb)]
        call = lambda: pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=1e9, niter=niter, bin_size=b, inputmode="darks")
        if min(w[4] for w in want) < 0:
            c.raises(pc.PhotonCountException, call, "negative", "a negative rate is not accepted")
            return
        try:
            out = call()
        except pc.PhotonCountException:
            if all(w[5] for w in want):
                raise
            c.see("unjudged")
            return
        c.ok(type(out) is data.Dark, "type", "type %s" % type(out))
        c.equal(np.shape(out.data), (nb,) + shape, "cube", "shape of the dark")
        for i in range(nb):
            judge(c, (out.data[i], out.err[0][i], out.dq[i]), want[i], "slice %d" % i)
        c.equal(out.ext_hdr["PC_STAT"], "photon-counted master dark", "status", "status")
        c.close(out.ext_hdr["PCTHRESH"], t, "threshold", "recorded threshold")
        c.equal(out.ext_hdr["NUM_FR"], size, "count", "recorded number of frames")
        rec = [out.ext_hdr["FILE%d" % k] for k in range(int(out.ext_hdr["DRPNFILE"]))]
        c.ok(sorted(rec) == sorted(f.filename for f in ds[:nb * size]), "parents", "parents %s" % rec)
        # the dark is then accepted for illuminated frames of the same configuration, and no other threshold
        ill = frames(rng, size, shape, g, rn, tf, p=rng.uniform(0, .2, shape), flags=False)
        w = expect(ill, t, g, niter)
        if w[4] >= 0 and w[5]:
            f = pc.get_pc_mean(ill, pc_master_dark=out, T_factor=tf, pc_ecount_max=1e9, niter=niter)[0]
            j = w[3] & (out.dq[0] == 0)
            c.close(f.data[j], np.maximum(w[0] - out.data[0], 0)[j], "dark-subtracted", "dark-subtracted rate", rtol=1e-7, atol=1e-9)
            with np.errstate(all="ignore"):
                c.raises(pc.PhotonCountException, lambda: pc.get_pc_mean(ill, pc_master_dark=out, T_factor=tf + .5, pc_ecount_max=1e9), "other-threshold", "dark of another threshold")
            more = frames(rng, size + 1, shape, g, rn, tf, p=np.zeros(shape), flags=False)
            c.raises(pc.PhotonCountException, lambda: pc.get_pc_mean(more, pc_master_dark=out, T_factor=tf, pc_ecount_max=1e9), "few-darks", "dark made of fewer frames")
    c.sig(n, size, niter)


@SUITE.workload(quick=20, thorough=200)
def converged(c):
    """With many iterations the result solves the detection equation; and it is independent of how it is computed."""
    rng = c.rng
    nfr = int(rng.integers(20, 500))
    g = float(rng.uniform(500, 8000))
    t = float(g * rng.uniform(0.01, .3))
    x = t / g
    nobs = rng.integers(0, max(2, int(nfr * math.exp(-x) * .6)), (4, 5)).astype(float)
    fr = np.full(nobs.shape, float(nfr))
    with quiet():
        lam = pc.corr_photon_count(nobs.copy(), fr, t, g, np.ones(nobs.shape, bool), niter=30)
        for ij in np.ndindex(*nobs.shape):
            c.close(nfr * eps(float(lam[ij]), x)[0], nobs[ij], "solves", "expected counts at the reported rate", rtol=1e-7, atol=1e-7)
            c.see("pixels")
        order = np.argsort(nobs.ravel())
        c.ok((np.diff(np.asarray(lam).ravel()[order]) >= -1e-9).all(), "monotone", "rate not monotone in the counts")
    c.sig(nfr // 50, round(x, 2))


@SUITE.workload(quick=4, thorough=60)
def recovery(c):
    """The true rate of simulated Poisson-gamma frames comes back within the statistical error, and the stated error is the actual scatter."""
    rng = c.rng
    shape = (40, 40)
    n = 60
    g, rn, tf = 5000., 100., 5.
    lam = float(rng.choice([.02, .05, .1, .2]))
    with quiet():
        ne = rng.poisson(lam, (n,) + shape)
        arr = np.where(ne > 0, rng.gamma(np.maximum(ne, 1), g), 0.) + rng.normal(0, rn, ne.shape)
        ds = B.stack(rng, arr, np.zeros(arr.shape), np.zeros(arr.shape, int), "L2a", ext=dict(EXPTIME=.05, EMGAIN_C=g, EMGAIN_A=g, RN=rn, KGAINPAR=7.0, ISPC=True))
        f = pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=10)[0]
    sd = math.sqrt(lam / n) * 1.1
    c.ok(abs(f.data.mean() - lam) < 6 * sd / math.sqrt(f.data.size) + .002 * lam, "mean", "mean rate %.5f for a true rate %.5f" % (f.data.mean(), lam))
    ratio = float(np.std(f.data) / math.sqrt(np.mean(f.err[0] ** 2)))
    c.ok(.85 < ratio < 1.2, "scatter", "scatter of the rates is %.3f x the stated error" % ratio)
    c.see("pixels", f.data.size)
    c.sig(lam)


@SUITE.workload(quick=20, thorough=120)
def refusals(c):
    rng = c.rng
    n, shape, g, tf, rn, niter = setup(rng, n=int(rng.integers(4, 9)))
    E = pc.PhotonCountException
    p0 = np.full(shape, .02)

    def mk(**k):
        return frames(rng, n, shape, g, rn, tf, p=p0, flags=False, **k)
    with quiet():
        ds = mk()
        kw = dict(T_factor=tf, pc_ecount_max=1e9)
        for v in (0, -1, 1.5, "2", None):
            c.raises(E, lambda: pc.get_pc_mean(ds, niter=v, **kw), "niter", "niter %r" % (v,))
        for v in (0, -2, 1.5, "3"):
            c.raises(TypeError, lambda: pc.get_pc_mean(ds, bin_size=v, **kw), "bin-size", "bin size %r" % (v,))
        c.raises(ValueError, lambda: pc.get_pc_mean(ds, bin_size=n + 1, **kw), "bin-too-large", "bin larger than the dataset")
        c.raises(E, lambda: pc.get_pc_mean(ds, T_factor=-1., pc_ecount_max=1e9), "threshold-negative", "negative threshold")
        for k in ("EXPTIME", "EMGAIN_C", "KGAINPAR", "RN"):
            d = ds.copy()
            i = int(rng.integers(n))
            d[i].ext_hdr[k] = d[i].ext_hdr[k] * 1.5
            c.raises(E, lambda: pc.get_pc_mean(d, **kw), "mixed", "frames of different %s" % k)
            # in separate bins they may differ
            d = ds.copy()
            for f in d[:2]:
                f.ext_hdr["EXPTIME"] = 9.
            try:
                pc.get_pc_mean(d[:4], bin_size=2, **kw)
            except E as ex:
                c.ok("negative" in str(ex), "separate-bins", "bins of different exposure times refused: %s" % ex)
        d = ds.copy()
        d[int(rng.integers(n))].pri_hdr["VISTYPE"] = "DARK"
        c.raises(E, lambda: pc.get_pc_mean(d, **kw), "mixed-type", "darks and illuminated frames mixed")
        c.raises(E, lambda: pc.get_pc_mean(ds, inputmode="darks", **kw), "mode", "illuminated frames as darks")
        dk = mk(vis="DARK")
        c.raises(E, lambda: pc.get_pc_mean(dk, **kw), "mode", "darks as illuminated frames")
        cube = dark_cube(rng, 1, shape, tf * rn, n)
        c.raises(E, lambda: pc.get_pc_mean(dk, pc_master_dark=cube, inputmode="darks", **kw), "dark-for-darks", "dark subtraction of darks")
        d = ds.copy()
        for f in d:
            f.ext_hdr["ISPC"] = False
        c.raises(E, lambda: pc.get_pc_mean(d, **kw), "not-pc", "analog frames")
        for k, v in (("PC_STAT", "no"), ("PC_STAT", None), ("PCTHRESH", None), ("PCTHRESH", tf * rn + 1), ("NUM_FR", n - 1)):
            bad = dark_cube(rng, 1, shape, tf * rn, n)
            if v is None:
                del bad.ext_hdr[k]
            else:
                bad.ext_hdr[k] = v
            c.raises(E, lambda: pc.get_pc_mean(ds, pc_master_dark=bad, **kw), "dark-kind", "dark with %s %r" % (k, v))
        c.raises(Exception, lambda: pc.get_pc_mean(ds, T_factor=g / rn, pc_ecount_max=1e9), "threshold-gain", "threshold equal to the gain")
        c.raises(Exception, lambda: pc.get_pc_mean(ds, pc_master_dark=ds, **kw), "dark-type", "dataset as dark")
        d = ds.copy()
        for f in d:
            f.ext_hdr["RN"] = 0.
        c.raises(Exception, lambda: pc.get_pc_mean(d, **kw), "read-noise", "no read noise")
    c.sig(n, shape)


@SUITE.workload(quick=15, thorough=100)
def brightness(c):
    """The brightness limit looks only at the region of interest, and only warns when asked."""
    import warnings
    rng = c.rng
    n, shape, g, tf, rn, niter = setup(rng, n=int(rng.integers(20, 30)))
    t = tf * rn
    with quiet(), c.scratch() as d:
        ds = frames(rng, n, shape, g, rn, tf, p=np.full(shape, .02), flags=False)
        r, q = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
        for f in ds:
            f.data[r, q] = g * 50
            f.err[:] = 0
        if rng.random() < .6:                   # not all frames are equally bright there
            for f in ds:
                f.data[r, q] = g * 50 * rng.choice([.02, 1, 3])
            ds[0].data[r, q] = g * rng.choice([1, 150])
        mask = np.zeros(shape, int)
        mask[r, q] = 1
        path = os.path.join(str(d), "mask.fits")
        fits.writeto(path, mask, overwrite=True)
        inside = np.mean([f.data[mask == 0] for f in ds]) / g
        total = np.mean([f.data for f in ds]) / g
        lim = float(np.sqrt(max(inside, 1e-4) * total))
        if not inside < lim < total:
            c.see("unjudged")
            return
        c.raises(Exception, lambda: pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=lim), "bright", "too bright frames")
        w = expect(ds, t, g, 2)
        w[3][r, q] = False                      # not considered
        if min(rate(int((np.array([f.data[i, j] for f in ds]) > t).sum()), n, t / g, 2) for i, j in np.ndindex(*shape) if mask[i, j] == 0) >= 0:
            judge(c, (lambda f: (f.data, f.err[0], f.dq))(pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=lim, mask_filepath=path)[0]), w, "masked")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            f = pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=lim, safemode=False)[0]
        c.ok(any("pc_ecount_max" in str(x.message) for x in rec), "warned", "no warning about the brightness")
        judge(c, (f.data, f.err[0], f.dq), w, "unsafe")
    c.sig(n, shape)


@SUITE.workload(quick=10, thorough=60)
def unsafe_negative(c):
    """Counts for which the iteration ends below zero: refused, or only reported when asked; the reported rate is zero."""
    import warnings
    rng = c.rng
    n, shape, g, tf, rn, niter = setup(rng, n=40)
    t = tf * rn
    x = t / g
    bad = [k for k in range(1, n + 1) if rate(k, n, x, 2) < -1e-3]
    if not bad:
        c.see("none")
        return
    k = int(rng.choice(bad))
    with quiet():
        ds = frames(rng, n, shape, g, rn, tf, p=np.full(shape, .02), flags=False)
        r, q = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
        for i, f in enumerate(ds):
            f.err[:] = 0
            f.data[r, q] = t * 3 if i < k else 0.
        c.raises(pc.PhotonCountException, lambda: pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=1e9), "negative", "negative rate")
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            f = pc.get_pc_mean(ds, T_factor=tf, pc_ecount_max=1e9, safemode=False)[0]
        c.ok(any("negative" in str(y.message) for y in rec), "warned", "no warning about negative counts")
        c.close(f.data[r, q], 0., "clipped", "reported rate")
    c.see("negative")
    c.sig(k, round(x, 2))
