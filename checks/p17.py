"""P17: nonlinearity correction - the right factor for every count value and gain, at and beyond the table's edges."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.detector as detector
import corgidrp.l1_to_l2a as l1
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P17", "one distinct situation = table size x where the gain lies (below, on a node, inside, above) x where counts lie x "
              "source of the gain; every pixel is recomputed with a scalar two-stage linear interpolation")


def lin(xs, ys, x):
    """Piecewise linear, constant outside."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    i = int(np.searchsorted(xs, x, side="right")) - 1
    t = (x - xs[i]) / (xs[i + 1] - xs[i])
    return ys[i] * (1 - t) + ys[i + 1] * t


def factor(table, gain, counts):
    g, n, rel = table[0, 1:], table[1:, 0], table[1:, 1:]
    curve = [lin(g, rel[k], gain) for k in range(len(n))]
    return np.array([[lin(n, curve, v) for v in row] for row in counts])


def where(xs, x):
    return "below" if x < xs[0] else "above" if x > xs[-1] else "node" if x in xs else "inside"


@SUITE.workload(quick=120, thorough=1500)
def step(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shp = (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
    with quiet():
        t = B.nonlin_table(rng)
        g, cn = t[0, 1:], t[1:, 0]
        ext, gains = [], []
        for i in range(n):
            k = rng.random()
            gain = float(rng.choice(g)) if k < .25 else float(rng.uniform(g[0], g[-1])) if k < .6 else float(g[0] * .5) if k < .8 else float(g[-1] * 2)
            src = str(rng.choice(["C", "A", "M", "M0"]))
            e = dict(EMGAIN_C=gain, EMGAIN_A=float(rng.choice([-1., 0.])))
            if src == "A":
                e = dict(EMGAIN_C=gain * 3.3, EMGAIN_A=gain)
            elif src == "M":
                e = dict(EMGAIN_C=gain * 3.3, EMGAIN_A=gain * 1.7, EMGAIN_M=gain)
            elif src == "M0":
                e = dict(EMGAIN_C=gain * 3.3, EMGAIN_A=-1., EMGAIN_M=gain)
            ext.append(e)
            gains.append(gain)
        ds = B.dataset(rng, n, shp, "L1", ext_list=ext)
        span = cn[-1] - cn[0]
        for f in ds:
            f.data[:] = rng.uniform(cn[0] - .4 * span, cn[-1] + .4 * span, shp)
            m = rng.random(shp) < .3
            f.data[m] = rng.choice(cn, m.sum())
        thr = float(rng.choice([np.inf, rng.uniform(cn[0], cn[-1]), cn[0]]))
        cal = B.nonlin(rng, t)
        if rng.random() < .3:
            with c.scratch():
                cal.save(filedir=".", filename="n.fits")
                cal = data.NonLinearityCalibration("n.fits")
        kw = {} if np.isinf(thr) else dict(threshold=thr)
        out = l1.correct_nonlinearity(ds, cal, **kw)
        for i in range(n):
            want = factor(t, gains[i], ds[i].data)
            c.close(out[i].data, ds[i].data * want, "corrected", "frame %d, gain %s (%s) table gains %s" % (i, gains[i], ext[i], g), rtol=1e-9, atol=1e-9)
            c.close(detector.get_relgains(ds[i].data, gains[i], cal), want, "relative-gain", "relative gains", rtol=1e-9)
            c.equal(out[i].dq, ds[i].dq | np.where(ds[i].data > thr, 64, 0), "flag", "flags above threshold %s" % thr)
            c.equal(out[i].err, ds[i].err, "err-touched", "errors changed by the nonlinearity correction")
            c.see("pixels", out[i].data.size)
    c.sig(t.shape, [where(list(g), x) for x in gains], np.isinf(thr))
    c.sample({"table": list(t.shape), "gains": gains})


@SUITE.workload(quick=30, thorough=300)
def invalid(c):
    """Tables that are not valid are refused; no table means no correction."""
    rng = c.rng
    shp = (3, 4)
    kind = ["gain-axis", "count-axis", "low", "high", "none", "equal", "no-gain"][c.index % 7]
    with quiet():
        t = B.nonlin_table(rng, gains=np.sort(rng.uniform(1, 100, 4)), counts=np.sort(rng.uniform(0, 1e4, 5)))
        ds = B.dataset(rng, 2, shp, "L1")
        j = int(rng.integers(1, 5))
        if kind == "gain-axis":
            a, b = sorted(rng.choice(4, 2, replace=False) + 1)
            t[0, a], t[0, b] = t[0, b], t[0, a]
        elif kind == "equal":
            if rng.random() < .5:
                t[0, 2] = t[0, 1]
            else:
                t[2, 0] = t[1, 0]
        elif kind == "count-axis":
            a, b = sorted(rng.choice(5, 2, replace=False) + 1)
            t[a, 0], t[b, 0] = t[b, 0], t[a, 0]
        elif kind == "low":
            t[1:, j] = rng.uniform(.5, .99, 5)
        elif kind == "high":
            t[1:, j] = rng.uniform(1.01, 1.5, 5)
        if kind == "none":
            out = l1.correct_nonlinearity(ds, None)
            c.equal(out.all_data, ds.all_data, "none-corrects", "data changed without a calibration")
            return
        if kind == "no-gain":
            for f in ds:
                del f.ext_hdr["EMGAIN_C"]
        def go():
            l1.correct_nonlinearity(ds, B.nonlin(rng, t))
        c.raises(ValueError, go, "invalid-table-accepted:" + kind, "table %s" % kind)
    c.sig(kind, j)


@SUITE.workload(quick=20, thorough=200)
def metamorphic(c):
    """A table of ones is the identity; refining the table on its own interpolation changes nothing; a constant factor scales."""
    rng = c.rng
    with quiet():
        t = B.nonlin_table(rng)
        g, n = t[0, 1:], t[1:, 0]
        gain = float(rng.uniform(g[0] * .5, g[-1] * 1.5))
        ds = B.dataset(rng, 1, (5, 6), "L1", ext=dict(EMGAIN_C=gain))
        ds[0].data[:] = rng.uniform(n[0] - 100, n[-1] + 100, (5, 6))
        one = t.copy()
        one[1:, 1:] = 1.0
        c.close(l1.correct_nonlinearity(ds, B.nonlin(rng, one))[0].data, ds[0].data, "identity", "a table of ones", rtol=1e-12)
        k = int(rng.integers(len(g) - 1))
        mid = (g[k] + g[k + 1]) / 2
        fine = np.insert(t, k + 2, np.concatenate([[mid], (t[1:, k + 1] + t[1:, k + 2]) / 2]), axis=1)
        k = int(rng.integers(len(n) - 1))
        row = np.concatenate([[(n[k] + n[k + 1]) / 2], (fine[k + 1, 1:] + fine[k + 2, 1:]) / 2])
        fine = np.insert(fine, k + 2, row, axis=0)
        a = detector.get_relgains(ds[0].data, gain, B.nonlin(rng, t))
        # refined table may have no column touching 1 exactly: only compare when it is valid
        if not ((fine[1:, 1:].min(0) > 1).any() or (fine[1:, 1:].max(0) < 1).any()):
            b = detector.get_relgains(ds[0].data, gain, B.nonlin(rng, fine))
            c.close(a, b, "refinement", "inserting interpolated nodes changes the factors", rtol=1e-9)
    c.sig(t.shape)
