"""P23: frame selection - exactly the frames violating a criterion are rejected, and the record says so."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.l2a_to_l2b as l2
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P23", "one distinct situation = set of criteria in use x discard or mark x which criteria reject frames x values exactly at a threshold; the decision on every frame is "
              "recomputed from its header and flags")


@SUITE.workload(quick=150, thorough=2000)
def select(c):
    rng = c.rng
    n = int(rng.integers(1, 8))
    shp = (int(rng.integers(2, 6)), int(rng.integers(2, 6)))
    size = shp[0] * shp[1]
    kw = {}
    if rng.random() < .6:
        kw["bpix_frac"] = float(rng.choice([int(rng.integers(0, size)) / size, np.round(rng.uniform(0, 1), 3), 1.0]))
        if rng.random() < .6:
            kw["allowed_bpix"] = int(rng.choice([1, 2, 4, 6, 8, 128, 255, 256, 32 + 4]))
    if rng.random() < .5:
        kw["overexp"] = bool(rng.random() < .8)
    if rng.random() < .5:
        kw["tt_rms_thres"] = float(rng.choice([0., 1., 2.5]))
    if rng.random() < .5:
        kw["tt_bias_thres"] = float(rng.choice([0., 1., 2.5]))
    if rng.random() < .5:
        kw["discard_bad"] = bool(rng.random() < .5)
    zs = [0., 1., 2.5, 2.4999, 2.5001, 7., .3]
    ext = [dict(OVEREXP=bool(rng.random() < .3), Z2VAR=float(rng.choice(zs)), Z3VAR=float(rng.choice(zs)), Z2RES=float(rng.choice(zs)), Z3RES=float(rng.choice(zs)), MARK=i)
           for i in range(n)]
    if rng.random() < .5:       # most frames fine
        for e in ext:
            if rng.random() < .6:
                e.update(OVEREXP=False, Z2VAR=0., Z3VAR=0., Z2RES=0., Z3RES=0.)
    with quiet():
        ds = B.dataset(rng, n, shp, "L2a", ext_list=ext)
        for f in ds:
            q = np.zeros(shp, int)
            m = rng.random(shp) < rng.choice([0, .2, .5, .9])
            q[m] = rng.choice([1, 2, 4, 6, 8, 32, 36, 128, 256, 260], m.sum())
            f.dq[:] = q
        frac, allow = kw.get("bpix_frac", 1.), kw.get("allowed_bpix", 0)
        bad = []
        for f in ds:
            h = f.ext_hdr
            why = []
            nb = sum(1 for v in f.dq.ravel() if int(v) & ~allow)
            if frac < 1 and nb / size > frac:
                why.append("pix")
            if kw.get("overexp") and h["OVEREXP"]:
                why.append("OVEREXP")
            for lim, a in ((kw.get("tt_rms_thres"), ("Z2VAR", "Z3VAR")), (kw.get("tt_bias_thres"), ("Z2RES", "Z3RES"))):
                if lim is not None:
                    why += [k for k in a if h[k] > lim]
            bad.append(why)
        c.see("frames judged", n)
        c.see("frames to reject", sum(1 for b in bad if b))
        if all(bad):
            c.raises(ValueError, lambda: l2.frame_select(ds, **kw), "none-left", "all %d frames are bad: %s" % (n, kw))
            c.sig("none left", sorted(kw))
            return
        before = [(f.data.copy(), f.err.copy(), f.dq.copy()) for f in ds]
        out = l2.frame_select(ds, **kw)
        keep = [i for i in range(n) if not bad[i]] if kw.get("discard_bad", True) else list(range(n))
        got = [f.ext_hdr["MARK"] for f in out]
        if not c.ok(got == keep, "selected", "frames %s kept, expected %s; reasons %s; criteria %s" % (got, keep, bad, kw)):
            return
        hist = "".join(map(str, out[0].ext_hdr["HISTORY"])).replace("\n", "")
        tail = hist.split("frames as bad")[-1].replace(" ", "")
        nb = sum(1 for b in bad if b)
        c.ok(("Removed" if kw.get("discard_bad", True) else "Marked") + " %d frames" % nb in hist, "recorded", "history %s" % hist[-200:])
        for i in range(n):
            c.ok((ds[i].filename in tail) == bool(bad[i]), "recorded", "frame %d (%s) in the history: %s" % (i, bad[i], tail))
        for b, part in zip([i for i in range(n) if bad[i]], [p for p in tail.split("CGI_")[1:]]):
            for k in bad[b]:
                c.ok(k in part, "recorded-reason", "reason %s of frame %d missing in %r" % (k, b, part))
            c.ok(("OVEREXP" in part, "pixfrac" in part) == ("OVEREXP" in bad[b], "pix" in bad[b]), "recorded-reason", "reasons %s written as %r" % (bad[b], part))
        for f in out:
            i = f.ext_hdr["MARK"]
            c.ok(bool(f.ext_hdr.get("IS_BAD", False)) == bool(bad[i]), "marked", "frame %d: IS_BAD %s, reasons %s" % (i, f.ext_hdr.get("IS_BAD"), bad[i]))
            h = f.ext_hdr
            want = (frac, kw.get("overexp", False), kw.get("tt_rms_thres"), kw.get("tt_rms_thres"), kw.get("tt_bias_thres"), kw.get("tt_bias_thres"))
            have = tuple(h["FRMSEL0%d" % k] for k in range(1, 7))
            c.ok(have == want, "criteria-recorded", "criteria recorded %s, used %s" % (have, want))
            c.equal(f.data, before[i][0], "frame-changed", "data of a selected frame")
            c.equal(f.err, before[i][1], "frame-changed", "errors of a selected frame")
            c.equal(f.dq, before[i][2], "frame-changed", "flags of a selected frame")
        c.ok(not any(f.ext_hdr.get("IS_BAD", False) for f in ds), "input-marked", "input frames marked as bad")
    c.sig(sorted(k for k in kw if k != "discard_bad"), kw.get("discard_bad"), sorted({k for b in bad for k in b}))
    c.sample({"criteria": kw, "reasons": bad})


@SUITE.workload(quick=30, thorough=300)
def history(c):
    """Frames selected step by step: each selection decides on its own criteria only."""
    rng = c.rng
    n = 6
    with quiet():
        ds = B.dataset(rng, n, (4, 4), "L2a", ext_list=[dict(MARK=i, OVEREXP=bool(rng.random() < .3), Z2VAR=float(rng.uniform(0, 2)), Z3RES=float(rng.uniform(0, 2))) for i in range(n)], dq=False)
        ds[0].ext_hdr["OVEREXP"] = False
        ds[0].ext_hdr["Z2VAR"] = ds[0].ext_hdr["Z3RES"] = 0.0
        a = l2.frame_select(l2.frame_select(l2.frame_select(ds, overexp=True), tt_rms_thres=1.0), tt_bias_thres=1.0)
        b = l2.frame_select(ds, overexp=True, tt_rms_thres=1.0, tt_bias_thres=1.0)
        p = l2.frame_select(l2.frame_select(ds, tt_bias_thres=1.0), overexp=True, tt_rms_thres=1.0)
        m = [f.ext_hdr["MARK"] for f in b]
        c.ok([f.ext_hdr["MARK"] for f in a] == m and [f.ext_hdr["MARK"] for f in p] == m, "selection-composes", "one by one %s, together %s" % ([f.ext_hdr["MARK"] for f in a], m))
        k = l2.frame_select(ds, overexp=True, tt_rms_thres=1.0, tt_bias_thres=1.0, discard_bad=False)
        c.ok([f.ext_hdr["MARK"] for f in k if not f.ext_hdr.get("IS_BAD", False)] == m, "marking-agrees", "marking and discarding disagree")
    c.sig(len(m))
