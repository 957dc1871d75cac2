"""P19: master darks averaged from a stack of darks (and the masked mean they rest on)."""
import numpy as np
import corgidrp
import corgidrp.darks as darks
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B
from checks.p18 import region, params

SUITE = Suite("P19", "one distinct situation = number of frames x masking pattern (none, some, exactly half, all) x output area x dtype of the flags; "
              "every pixel of the dark, its error and flag is recomputed from the frames")


def masked_mean(x, good):
    n = good.sum(0)
    return np.where(n > 0, np.where(good, x, 0).sum(0) / np.maximum(n, 1), 0), n


@SUITE.workload(quick=70, thorough=900)
def dark(c):
    rng = c.rng
    regions, area = region(rng)
    G = regions["SCI"]
    shp = (G["frame_rows"], G["frame_cols"])
    n = int(rng.integers(1, 8))
    full = bool(rng.random() < .5)
    im = G["image"]
    sl = (slice(None), slice(None)) if full else (slice(im["r0c0"][0], im["r0c0"][0] + im["rows"]), slice(im["r0c0"][1], im["r0c0"][1] + im["cols"]))
    H = shp[0]
    tel = (H, H)
    if rng.random() < .6:
        where = rng.random() < .7
        lo, hi = (im["r0c0"][0] + im["rows"], H) if where or im["r0c0"][0] == 0 else (0, im["r0c0"][0])
        if hi > lo:
            a = int(rng.integers(lo, hi))
            tel = (a, int(rng.integers(a, hi)) + 1)
    p = float(rng.choice([0, .1, .5]))
    dt = [int, np.uint16, np.uint8][int(rng.integers(3))]
    s = dict(EXPTIME=float(np.round(rng.uniform(.1, 50), 3)), EMGAIN_C=float(np.round(rng.uniform(1, 100), 3)), KGAINPAR=float(np.round(rng.uniform(2, 9), 3)))
    with quiet():
        nl = int(rng.integers(2, 4)) if rng.random() < .3 else 1
        corgidrp.track_individual_errors = nl > 1
        ds = B.dataset(rng, n, shp, "L2a", ext=s, extra=False, nlayers=nl)
        for f in ds:
            bad = rng.random(shp) < p
            q = np.zeros(shp, int)
            q[bad] = rng.choice(B.FLAGS[:8] if dt is np.uint8 else B.FLAGS, bad.sum())
            f.dq[:] = q
        k = rng.integers(0, [shp[0], shp[1]])
        for f in ds:
            f.dq[k[0], k[1]] = 4           # masked in every frame
        for i in range(0, n - n // 2):     # masked in half of the frames
            ds[i].dq[(k[0] + 1) % shp[0], k[1]] = 32
        raw = [f.data.copy() for f in ds]
        for f in ds:
            f.data[slice(*tel)] += 3000
        good = np.array([f.dq == 0 for f in ds])
        x = np.array([f.data.copy() for f in ds])
        x[:, slice(*tel)] = 0
        e = np.array([f.err[0] for f in ds])
        mu, cnt = masked_mean(x, good)
        var, _ = masked_mean((x - mu) ** 2, good)
        e2, _ = masked_mean(e ** 2, good)
        with np.errstate(all="ignore"):
            err = np.sqrt(e2 + var / cnt)
        md = darks.build_trad_dark(ds, params(*tel), regions, full)
        c.close(md.data, mu[sl], "dark-mean", "mean of the unmasked values", rtol=1e-9, atol=1e-9)
        ok = (cnt > 0)[sl]
        c.close(md.err[0][ok], err[sl][ok], "dark-error", "error", rtol=1e-9, atol=1e-9)
        want = np.where(cnt == 0, 1, np.where(cnt < n / 2, 256, 0))[sl]
        half = (cnt * 2 == n)[sl] & (want == 0)       # "half or more" in the documentation, "more than half" in the code: both accepted
        c.equal(np.where(half & (md.dq == 256), 0, md.dq), want, "dark-flags", "flags (n=%d)" % n)
        c.see("pixels", md.data.size)
        c.see("pixels masked in some frames", ((cnt < n) & (cnt > 0)).sum())
        c.ok(type(md) is data.Dark and md.ext_hdr["BUNIT"] == "Detected Electrons" and md.ext_hdr["EXPTIME"] == s["EXPTIME"] and md.ext_hdr["EMGAIN_C"] == s["EMGAIN_C"]
             and md.ext_hdr["KGAINPAR"] == s["KGAINPAR"] and (md.ext_hdr["NAXIS1"], md.ext_hdr["NAXIS2"]) == md.data.shape[::-1] and md.ext_hdr["DATATYPE"] == "Dark",
             "dark-headers", "headers")
        c.ok("PC_STAT" not in md.ext_hdr or "analog" in str(md.ext_hdr["PC_STAT"]), "dark-headers", "marked as photon-counted")
        pm = rng.permutation(n)
        md2 = darks.build_trad_dark(data.Dataset([ds[int(i)] for i in pm]), params(*tel), regions, full)
        c.close(md2.data, md.data, "dark-order", "another order of the frames", rtol=1e-9, atol=1e-9)
        c.equal(md2.dq, md.dq, "dark-order", "flags, another order")
        if c.index % 3 == 0:
            with c.scratch():
                md.save(filedir=".", filename="d.fits")
                back = data.Dark("d.fits")
                c.close(back.data, md.data, "dark-saved", "read back", rtol=1e-12)
                c.close(back.err, md.err, "dark-saved", "error read back", rtol=1e-12)
    c.sig(n, full, p, dt.__name__, tel[0] < H, nl)
    c.sample({"n": n, "full": full, "masked fraction": p})


@SUITE.workload(quick=60, thorough=800)
def combine(c):
    """mean_combine on lists, cubes and single frames."""
    rng = c.rng
    n = int(rng.integers(1, 9))
    shp = (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
    x = rng.normal(0, 100, (n,) + shp)
    b = (rng.random((n,) + shp) < rng.choice([0, .2, .5, .9])).astype(int)
    err = bool(rng.random() < .4)
    mode = str(rng.choice(["list", "cube", "single"])) if n == 1 else str(rng.choice(["list", "cube"]))
    a = {"list": (list(x), list(b)), "cube": (x, b), "single": (x[0], b[0])}[mode]
    keep = (x.copy(), b.copy())
    im, bp, cnt, enough = darks.mean_combine(a[0], a[1], err=err)
    good = np.asarray(b, int) == 0
    mu, k = masked_mean(x ** 2 if err else x, good)
    c.close(im, np.sqrt(mu) if err else mu, "mean", "masked mean of %d frames" % n, rtol=1e-10, atol=1e-10)
    c.equal(bp, (k == 0).astype(int), "mean-mask", "mask of the mean")
    c.equal(cnt, k, "mean-count", "number of frames per pixel")
    c.ok(bool(enough) == bool((k * 2 >= n).all()), "mean-enough", "enough: %s, fewest %d of %d" % (enough, k.min(), n))
    c.equal(x, keep[0], "mean-inplace", "input frames")
    c.equal(b, keep[1], "mean-inplace", "input masks")
    c.sig(n, mode, err, str(b.dtype), bool((k == 0).any()))


@SUITE.workload(quick=40, thorough=200)
def refusals(c):
    rng = c.rng
    kind = ["list", "mask-list", "length", "empty", "shape", "mask-shape", "values", "dims", "dtype", "exptime", "gain", "kgain", "telemetry"][c.index % 13]
    shp = (4, 5)
    x, b = [rng.normal(0, 1, shp) for _ in range(3)], [np.zeros(shp, int) for _ in range(3)]
    if kind in ("exptime", "gain", "kgain", "telemetry"):
        regions, area = region(rng)
        G = regions["SCI"]
        with quiet():
            ds = B.dataset(rng, 3, (G["frame_rows"], G["frame_cols"]), "L2a", extra=False)
        tel = (G["frame_rows"],) * 2
        if kind == "telemetry":
            a = G["image"]["r0c0"][0] + int(rng.integers(G["image"]["rows"]))
            tel = (a, a + 1)
        else:
            k = {"exptime": "EXPTIME", "gain": "EMGAIN_C", "kgain": "KGAINPAR"}[kind]
            ds[int(rng.integers(3))].ext_hdr[k] += .5
        c.raises(ValueError if kind == "telemetry" else Exception, lambda: darks.build_trad_dark(ds, params(*tel), regions, bool(rng.random() < .5)),
                 "refuse:" + kind, "stack with %s" % kind)
    else:
        if kind == "list":
            x = [tuple(x), "x", 3][int(rng.integers(3))]
        elif kind == "mask-list":
            b = [tuple(b), None, 3][int(rng.integers(3))]
        elif kind == "length":
            b = b[:-1] if rng.random() < .5 else b + b[:1]
        elif kind == "empty":
            x, b = [([], []), (np.array([]), np.array([]))][int(rng.integers(2))]
        elif kind == "shape":
            x[int(rng.integers(1, 3))] = np.zeros((5, 4))
        elif kind == "mask-shape":
            b[int(rng.integers(3))] = np.zeros((5, 4), int)
        elif kind == "values":
            b[int(rng.integers(3))][1, 2] = int(rng.choice([2, -1, 128]))
        elif kind == "dtype":
            b = [np.zeros(shp, [float, np.uint8, bool][int(rng.integers(3))]) for _ in range(3)]
        elif kind == "dims":
            x[int(rng.integers(3))] = np.zeros((2, 4, 5))
        c.raises(TypeError, lambda: darks.mean_combine(x, b), "refuse:" + kind, kind)
    c.sig(kind)
