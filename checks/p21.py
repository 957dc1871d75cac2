"""P21: which pixels are declared bad, and what happens to them."""
from unittest import mock
import numpy as np
import corgidrp.bad_pixel_calibration as bpc
import corgidrp.data as data
import corgidrp.darks as darks
import corgidrp.detector as detector
import corgidrp.l2a_to_l2b as l2
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P21", "one distinct situation = shape x box width (odd, even, wider than the frame) x thresholds x pixels lying exactly at a threshold (detection), or flag patterns "
              "x dtypes (replacement); every pixel is decided by a scalar implementation")


def local_mean(flat, r, k, w):
    rows = [i for i in range(r - w // 2, r - w // 2 + w) if 0 <= i < flat.shape[0]]
    cols = [j for j in range(k - w // 2, k - w // 2 + w) if 0 <= j < flat.shape[1]]
    return sum(flat[i, j] for i in rows for j in cols) / (len(rows) * len(cols))


@SUITE.workload(quick=60, thorough=700)
def detect(c):
    rng = c.rng
    shp = (int(rng.integers(2, 12)), int(rng.integers(2, 12)))
    with quiet():
        d = B.dark(rng, shp)
        if rng.random() < .5:
            d.data[:] = rng.integers(0, 4, shp)
        m = rng.random(shp) < .1
        d.data[m] += rng.uniform(3, 80, m.sum())
        fl = B.flat(rng, shp, zeros=False)
        if rng.random() < .5:
            fl.data[:] = rng.integers(6, 10, shp) / 8.
        m = rng.random(shp) < .2
        fl.data[m] *= rng.uniform(.3, 1, m.sum())
        for _ in range(int(rng.integers(0, 3))):             # both hot and dead
            at = tuple(rng.integers(0, n) for n in shp)
            d.data[at] += rng.uniform(100, 500)
            fl.data[at] *= .01
        kw = {}
        if rng.random() < .8:
            kw = dict(dthresh=float(rng.choice([0, 1, 2, 3, rng.uniform(0, 6)])), ffrac=float(rng.choice([0, .5, .8, rng.uniform(0, .99)])), fwidth=int(rng.integers(1, 16)))
        th, ff, fw = kw.get("dthresh", 5.), kw.get("ffrac", .8), kw.get("fwidth", 32)
        d0, f0 = d.data.copy(), fl.data.copy()
        d.filename, fl.filename = "dark_%d.fits" % c.index, "flat_%d.fits" % c.index
        bp = bpc.create_bad_pixel_map(None, d, fl, **kw)
        lim = d0.mean() + th * d0.std()
        want = np.zeros(shp, int)
        sure = np.ones(shp, bool)
        for r in range(shp[0]):
            for k in range(shp[1]):
                lm = local_mean(f0, r, k, fw)
                want[r, k] = (8 if d0[r, k] > lim else 0) | (4 if f0[r, k] < ff * lm else 0)
                if abs(d0[r, k] - lim) < 1e-9 * max(1, abs(lim)) or abs(f0[r, k] - ff * lm) < 1e-9:
                    sure[r, k] = False       # rounding decides
        c.equal(np.where(sure, bp.data, 0), np.where(sure, want, 0), "bad-pixels", "map (threshold %s, fraction %s, width %d)" % (th, ff, fw))
        c.see("pixels", sure.sum())
        c.see("pixels at a threshold", (~sure).sum())
        c.ok(type(bp) is data.BadPixelMap and np.asarray(bp.data).dtype.kind in "ui", "map-type", "type %s dtype %s" % (type(bp), bp.data.dtype))
        c.equal(d.data, d0, "input-changed", "the dark was modified")
        c.equal(fl.data, f0, "input-changed", "the flat was modified")
        h = "".join(map(str, bp.ext_hdr["HISTORY"])).replace("\n", "")
        c.ok(d.filename in h and fl.filename in h and bp.ext_hdr["DATALVL"] == "CAL", "map-headers", h[-200:])
        # helpers
        c.equal(np.where(sure, bpc.detect_hot_warm_pixels_from_dark(d0, th), 0), np.where(sure, want & 8 > 0, 0), "hot", "hot pixels")
        c.equal(np.where(sure, bpc.detect_dead_pixels_from_flat(f0, ff, fw), 0), np.where(sure, want & 4 > 0, 0), "dead", "dead pixels")
        if c.index % 3 == 0:
            with c.scratch():
                bp.save(filedir=".", filename="b.fits")
                c.equal(data.BadPixelMap("b.fits").data, bp.data, "map-saved", "map read back")
    c.sig(shp, fw % 2, fw > min(shp), th == 0, bool(want.any()))
    c.sample({"shape": shp, "dthresh": th, "ffrac": ff, "fwidth": fw})


@SUITE.workload(quick=20, thorough=200)
def metamorphic(c):
    """Scaling the flat, adding a constant to the dark, mirroring with odd boxes: the same pixels are bad."""
    rng = c.rng
    shp = (int(rng.integers(3, 12)), int(rng.integers(3, 12)))
    d, f = rng.normal(5, 2, shp), np.abs(rng.normal(1, .2, shp)) + .01
    w = 2 * int(rng.integers(0, 6)) + 1
    th, ff = float(rng.uniform(.5, 3)), float(rng.uniform(.5, .99))
    hot, dead = bpc.detect_hot_warm_pixels_from_dark(d, th), bpc.detect_dead_pixels_from_flat(f, ff, w)
    c.equal(bpc.detect_hot_warm_pixels_from_dark(d * 3 + 11, th), hot, "hot-affine", "scaled and shifted dark")
    c.equal(bpc.detect_dead_pixels_from_flat(f * 7, ff, w), dead, "dead-scale", "scaled flat")
    for tr in (lambda a: a[::-1], lambda a: a[:, ::-1], lambda a: a.T):
        c.equal(bpc.detect_dead_pixels_from_flat(tr(f), ff, w), tr(dead), "dead-symmetry", "mirrored or transposed flat, odd box %d" % w)
    c.ok(not (bpc.detect_dead_pixels_from_flat(f, ff * .8, w) & ~dead).any(), "dead-monotone", "a lower fraction finds new dead pixels")
    c.ok(not (bpc.detect_hot_warm_pixels_from_dark(d, th + .5) & ~hot).any(), "hot-monotone", "a higher threshold finds new hot pixels")
    c.sig(shp, w)


@SUITE.workload(quick=50, thorough=600)
def replace(c):
    """Every flagged or bad pixel becomes NaN and is flagged as replaced; no other pixel is touched."""
    rng = c.rng
    shp = (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
    dq_t = [int, np.uint16, np.uint32, np.uint64][int(rng.integers(4))]
    bp_t = [np.uint8, np.uint16, int, float][int(rng.integers(4))]
    with quiet():
        ds = B.dataset(rng, int(rng.integers(1, 4)), shp, "L2a", dq_dtype=dq_t)
        for f in ds:
            f.dq[:] = (B.dq_map(rng, shp, rng.choice([0, .2, .6]))).astype(f.dq.dtype)
        bad = B.dq_map(rng, shp, float(rng.choice([0, .2, .8])), flags=[4, 8, 1] + ([256] if bp_t is not np.uint8 else []))
        m = B.bpmap(rng, shp)
        m.data = bad.astype(bp_t)
        out = l2.correct_bad_pixels(ds, m)
        for f, r in zip(out, ds):
            q = r.dq.astype(np.int64) | bad
            c.equal(f.data, np.where(q != 0, np.nan, r.data), "replaced", "values (dq %s, map %s)" % (dq_t.__name__, bp_t.__name__))
            c.equal(f.dq.astype(np.int64), np.where(q != 0, q | 2, 0), "replaced-flags", "flags")
            c.equal(f.err, r.err, "replaced-err", "errors")
            c.see("pixels", f.data.size)
        c.equal(np.asarray(m.data, int), bad, "input-changed", "the map was modified")
    c.sig(dq_t.__name__, bp_t.__name__, bool(bad.any()), len(ds))


@SUITE.workload(quick=12, thorough=200)
def from_noise_maps(c):
    """Given the noise maps in place of a dark, the dark is the one they imply for the flat's gain and exposure time."""
    rng = c.rng
    h, w = int(rng.integers(10, 24)), int(rng.integers(10, 24))
    r0, c0 = int(rng.integers(0, 5)), int(rng.integers(8, 15))
    H, W = h + r0 + int(rng.integers(1, 5)), w + c0 + int(rng.integers(1, 5))
    sci = detector.detector_areas["SCI"]
    with quiet(), c.scratch(), mock.patch.dict(sci, dict(frame_rows=H, frame_cols=W, image=dict(rows=h, cols=w, r0c0=[r0, c0]))):
        maps = np.stack([rng.normal(30, 6, (H, W)), np.abs(rng.normal(.01, .002, (H, W))), np.abs(rng.normal(.003, .001, (H, W)))])
        g, t = float(rng.uniform(1, 50)), float(rng.uniform(1, 100))
        for k, big in enumerate((3e4, 200., 100.)):
            hot = tuple(rng.integers(0, n, 4) for n in (H, W))
            maps[k][hot] += big
        nm = B.noise_maps(rng, (H, W), maps=maps, dq=False)
        nm.filename = "maps_DNM_CAL.fits"
        fl = B.flat(rng, (h, w), zeros=False)
        m = rng.random((h, w)) < .01
        fl.data[m] *= .3
        fl.filename = "flat.fits"
        fl.ext_hdr.update(EXPTIME=t, EMGAIN_C=g, EMGAIN_A=-1.)
        for k in [k for k in fl.ext_hdr if k == "EMGAIN_M"]:
            del fl.ext_hdr[k]
        out = "." if rng.random() < .5 else None
        bp = bpc.create_bad_pixel_map(None, nm, fl, dark_outputdir=out)
        im = (slice(r0, r0 + h), slice(c0, c0 + w))
        d = maps[0][im] / g + t * maps[2][im] + maps[1][im]         # fixed pattern, clock-induced charge, dark current
        lim = d.mean() + 5 * d.std()
        sure = abs(d - lim) > 1e-6 * abs(lim)
        hot = np.asarray(bp.data, int) & 8 > 0
        c.equal(hot[sure], (d > lim)[sure], "maps-hot", "hot pixels from noise maps, gain %.2f, %.2f s" % (g, t))
        dead = np.asarray(bp.data, int) & 4 > 0
        c.equal(dead, bpc.detect_dead_pixels_from_flat(fl.data, .8, 32), "maps-dead", "dead pixels do not depend on the dark")
        if out:
            import glob
            got = [data.Dark(f) for f in glob.glob("*.fits")]
            c.ok(len(got) == 1, "maps-dark-saved", "%d darks written" % len(got))
            if got:
                c.close(got[0].data, d, "maps-dark", "the dark written out", rtol=1e-9, atol=1e-9)
        c.close(nm.data, maps, "input-changed", "the noise maps were modified", rtol=0, atol=0)
    c.see("pixels", d.size)
    c.sig("maps", bool(out), int(hot.sum()))
