"""P07: a data-quality flag, once raised, is never lost; each step adds exactly its documented flags."""
import os
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.detector as detector
from vlib.core import Suite, quiet
from vlib import build as B
from vlib.steps import STEPS

SUITE = Suite("P07", "one distinct situation = step x DQ array type x frame count x calibration flags; the DQ map of every "
              "returned frame is compared bit by bit with the input map plus the documented additions")
NAMES = sorted(n for n in STEPS if n not in ("northup", "distortion_correction"))   # these move the flags with the pixels: P31
DTYPES = [np.int64, np.uint16, np.int32, ">i2", ">u2", ">i4"]


def locate(out, ref):
    """Offset of window `out` inside `ref` (values are unique random numbers)."""
    h, w = out.shape
    hit = np.argwhere(ref == out[0, 0])
    for r, c0 in hit:
        if r + h <= ref.shape[0] and c0 + w <= ref.shape[1] and np.array_equal(ref[r:r + h, c0:c0 + w], out):
            return r, c0
    return None


def combined_dq(dq, n):
    """Pixels with at least one good frame are clean; otherwise all flags of the group are kept."""
    res = []
    for g in range(0, len(dq), n):
        o = np.zeros(dq.shape[1:], dtype=np.int64)
        for r in range(dq.shape[1]):
            for c in range(dq.shape[2]):
                v = [int(x) for x in dq[g:g + n, r, c]]
                if 0 not in v:
                    for x in v:
                        o[r, c] |= x
        res.append(o)
    return np.array(res)


def expectation(name, ds, args, kw, out):
    """(flags that must be in each output frame, flags that may be)."""
    old = np.array([f.dq for f in ds]).astype(np.int64)
    must, may = old, np.zeros_like(old)
    if name == "prescan_biassub":
        R = B.SMALL["SCI"]["image"]
        r, c0 = R["r0c0"]
        if not kw.get("return_full_frame"):
            must = old[:, r:r + R["rows"], c0:c0 + R["cols"]]
        may = np.zeros_like(must)
    elif name == "detect_cosmic_rays":
        may = np.full_like(old, 32 | 128)
    elif name == "correct_nonlinearity":
        must = old | np.where(np.array([f.data for f in ds]) > kw["threshold"], 64, 0)
    elif name == "dark_subtraction":
        must = old | np.asarray(args[0].dq).astype(np.int64)
    elif name == "dark_subtraction_synth":
        q = np.asarray(args[0].dq).astype(np.int64)
        q = q[0] | q[1] | q[2]
        if old.shape[1:] != q.shape:
            R = B.SMALL["SCI"]["image"]
            r, c0 = R["r0c0"]
            q = q[r:r + R["rows"], c0:c0 + R["cols"]]
        must = old | q
    elif name == "flat_division":
        must = old | np.where(args[0].data == 0, 4, 0)
    elif name == "correct_bad_pixels":
        q = old | np.asarray(args[0].data).astype(np.int64)
        must = np.where(q != 0, q | 2, 0)
    elif name == "frame_select":
        byname = {f.filename: f.dq.astype(np.int64) for f in ds}
        must = np.array([byname[f.filename] for f in out])
        may = np.zeros_like(must)
    elif name == "combine_subexposures":
        must = combined_dq(old, len(ds))
        may = np.zeros_like(must)
    elif name == "crop":
        m = []
        for f, g in zip(ds, out):
            pos = locate(g.data, f.data)
            if pos is None:
                return None
            m.append(f.dq.astype(np.int64)[pos[0]:pos[0] + g.data.shape[0], pos[1]:pos[1] + g.data.shape[1]])
        must = np.array(m)
        may = np.zeros_like(must)
    return must, may


def judge(c, name, got, must, may):
    got = np.asarray(got)
    if not c.ok(got.shape == must.shape, "dq-shape:" + name, "%s: DQ shape %s, expected %s" % (name, got.shape, must.shape)):
        return
    g = got.astype(np.int64)
    c.ok(np.array_equal(g, got), "dq-not-integer:" + name, "%s: DQ values are not whole numbers" % name)
    lost = must & ~g
    c.see("dq_pixels", g.size)
    c.see("flagged_pixels", int((must != 0).sum()))
    if lost.any():
        i = tuple(np.argwhere(lost)[0])
        c.fail("flag-lost:" + name, "%s: %d pixels lost flags, e.g. %s had %d now %d" % (
            name, int((lost != 0).sum()), i, must[i], g[i]))
    added = g & ~(must | may)
    if added.any():
        i = tuple(np.argwhere(added)[0])
        c.fail("flag-invented:" + name, "%s: %d pixels got undocumented flags, e.g. %s expected %d now %d" % (
            name, int((added != 0).sum()), i, must[i], g[i]))
    c.ok(True, name)


@SUITE.workload(quick=6 * len(NAMES), thorough=60 * len(NAMES))
def steps(c):
    rng = c.rng
    st = STEPS[NAMES[c.index % len(NAMES)]]
    n = 1 + (c.index // len(NAMES)) % 3
    corgidrp.track_individual_errors = bool(rng.random() < .3)
    with quiet(), c.scratch():
        ds, args, kw = st.make(rng, n)
        dt = DTYPES[int(rng.integers(len(DTYPES)))]
        p = float(rng.choice([.05, .3, .9]))
        fr = list(ds.frames)
        for f in fr:
            f.dq = B.dq_map(rng, f.data.shape, p, dtype=dt)
        ds = data.Dataset(fr)
        if name_is(st, "determine_flux"):
            for f in ds:
                f.dq[:] = 0
                f.dq[:3, :5] = 128
        out = st.fn(ds, *args, **kw)
        e = expectation(st.name, ds, args, kw, out)
    if not c.ok(e is not None, "unlocatable:" + st.name, "%s: output is not a window of the input" % st.name):
        return
    judge(c, st.name, out.all_dq, *e)
    judge(c, st.name + ":frames", np.array([f.dq for f in out]), *e)
    c.sig(st.name, n, np.dtype(dt).str, p, sorted(k for k in kw))
    c.sample({"step": st.name, "frames": n, "dq_dtype": str(np.dtype(dt))})


def name_is(st, n):
    return st.name == n


@SUITE.workload(quick=16, thorough=200)
def chain(c):
    """L1 -> L2b with intermediate products written and read back: flags only accumulate."""
    from corgidrp import l1_to_l2a as l1, l2a_to_l2b as l2, l2b_to_l3 as l3, l3_to_l4 as l4
    from vlib.steps import _det, distortion_coeffs
    rng = c.rng
    R = B.SMALL["SCI"]
    full, im = (R["frame_rows"], R["frame_cols"]), (R["image"]["rows"], R["image"]["cols"])
    n = int(rng.integers(1, 4))
    dt = DTYPES[int(rng.integers(len(DTYPES)))]
    ds = B.dataset(rng, n, full, "L1", dq_dtype=dt, ext=dict(EXPTIME=2.0, EMGAIN_C=1.0))
    kg = B.kgain(rng)
    dp, bp, fl, nl = _det(), B.bpmap(rng, im, p=.02), B.flat(rng, im), B.nonlin(rng)
    dk = B.dark(rng, im, 2.0, 1.0, kg.value)
    r, c0 = R["image"]["r0c0"]
    win = (slice(None), slice(r, r + im[0]), slice(c0, c0 + im[1]))
    seq = [("prescan", lambda d: l1.prescan_biassub(d, None, detector_regions=B.SMALL), lambda q, d: q[win]),
           ("cr", lambda d: l1.detect_cosmic_rays(d, dp, kg, detector_regions=B.SMALL), None),
           ("nonlin", lambda d: l1.correct_nonlinearity(d, nl, threshold=110.), None),
           ("l2a", l1.update_to_l2a, lambda q, d: q),
           ("select", l2.frame_select, lambda q, d: q),
           ("electrons", lambda d: l2.convert_to_electrons(d, kg), lambda q, d: q),
           ("emgain", l2.em_gain_division, lambda q, d: q),
           ("dark", lambda d: l2.dark_subtraction(d, dk), lambda q, d: q | dk.dq.astype(np.int64)),
           ("flat", lambda d: l2.flat_division(d, fl), lambda q, d: q | np.where(fl.data == 0, 4, 0)),
           ("badpix", lambda d: l2.correct_bad_pixels(d, bp),
            lambda q, d: np.where((q | bp.data.astype(np.int64)) != 0, q | bp.data.astype(np.int64) | 2, 0)),
           ("desmear", lambda d: l2.desmear(d, dp), lambda q, d: q), ("l2b", l2.update_to_l2b, lambda q, d: q),
           ("wcs", lambda d: l3.create_wcs(d, B.astrom(np.random.default_rng(1))), lambda q, d: q),
           ("exptime", l3.divide_by_exptime, lambda q, d: q), ("l3", l3.update_to_l3, lambda q, d: q)]
    cur = ds
    hist = ""
    with c.scratch() as d, quiet():
        for k, (nm, f, exp) in enumerate(seq):
            before = np.array([x.dq for x in cur]).astype(np.int64)
            out = f(cur)
            now = np.array([x.dq for x in out]).astype(np.int64)
            if exp is None:
                add = now & ~before
                ok = {"cr": 32 | 128, "nonlin": 64}[nm]
                c.ok(not (before & ~now).any(), "flag-lost:chain:" + nm, "chain step %s lost flags" % nm)
                c.ok(not (add & ~ok).any(), "flag-invented:chain:" + nm, "chain step %s invented flags" % nm)
            else:
                judge(c, "chain:" + nm, now, exp(before, cur), np.zeros_like(now))
            cur = out
            if rng.random() < .3:
                os.makedirs("s%d" % k)
                cur.save(filedir="s%d" % k)
                back = data.Dataset([os.path.join("s%d" % k, x.filename) for x in cur])
                judge(c, "reload", np.array([x.dq for x in back]), now, np.zeros_like(now))
                cur = back
                hist += nm + ","
    c.sig("chain", n, np.dtype(dt).str, hist)


@SUITE.workload(quick=24, thorough=200)
def nan_marking(c):
    """flagging NaN pixels and masking flagged pixels keeps every other flag and pixel."""
    rng = c.rng
    n = int(rng.integers(1, 4))
    shp = (int(rng.integers(3, 12)), int(rng.integers(3, 12)))
    ds = B.dataset(rng, n, shp, "L3", dq_dtype=DTYPES[int(rng.integers(len(DTYPES)))])
    if rng.random() < .5:
        ds.all_data[rng.random(ds.all_data.shape) < .2] = np.nan
    q = ds.all_dq.astype(np.int64).copy()
    d, e = ds.all_data.copy(), ds.all_err.copy()
    flag = int(rng.choice(B.FLAGS))
    out = detector.flag_nans(ds, flag_val=flag) if rng.random() < .7 else detector.flag_nans(ds)
    if out.all_dq is None:
        return
    judge(c, "flag_nans", out.all_dq, q, np.where(np.isnan(d), 511, 0))
    added = np.where(np.isnan(d), out.all_dq.astype(np.int64), -1)
    c.ok(np.all(added != 0), "nan-unflagged", "a NaN pixel is left without any flag")
    c.equal(out.all_data, d, "flag_nans-data", "flag_nans changed the data")
    thr = int(rng.choice([1, 2, 8, 200]))
    m = detector.nan_flags(ds, threshold=thr)
    bad = q >= thr
    c.equal(np.isnan(m.all_data), np.isnan(d) | bad, "nan_flags-mask", "wrong set of pixels masked (threshold %d)" % thr)
    c.close(m.all_data[~bad], d[~bad], "nan_flags-data", "unflagged pixels changed")
    c.close(np.where(bad, 0, m.all_err[:, 0]), np.where(bad, 0, e[:, 0]), "nan_flags-err", "errors of unflagged pixels changed")
    judge(c, "nan_flags", m.all_dq, q, np.zeros_like(q))
    c.sig(n, flag, thr, int(bad.any()), int(np.isnan(d).any()))
