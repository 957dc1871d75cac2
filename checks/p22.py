"""P22: combination of sub-exposures - values, errors, flags and bookkeeping of every group."""
import numpy as np
import corgidrp
import corgidrp.combine as combine
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P22", "one distinct situation = frames x group size x mean/median x scaling x error layers x flag pattern (incl. never and always flagged); every combined pixel is "
              "recomputed from the frames of its group")


@SUITE.workload(quick=120, thorough=1500)
def groups(c):
    rng = c.rng
    size = int(rng.integers(1, 6))
    ng = int(rng.integers(1, 4))
    n = size * ng
    shp = (int(rng.integers(2, 7)), int(rng.integers(2, 7)))
    track = bool(rng.random() < .4)
    corgidrp.track_individual_errors = track
    nl = int(rng.integers(1, 4)) if track else 1
    mode = str(rng.choice(["mean", "median", "Mean", "MEDIAN"]))
    scale = bool(rng.random() < .5)
    with quiet():
        ds = B.dataset(rng, n, shp, str(rng.choice(["L2b", "L3"])), ext_list=[dict(EXPTIME=1. + i, MARK=i) for i in range(n)], nlayers=nl)
        for i, f in enumerate(ds):
            f.err_hdr["MARK"], f.dq_hdr["MARK"] = i, i
        p = float(rng.choice([0, .2, .6]))
        for f in ds:
            q = np.zeros(shp, int)
            m = rng.random(shp) < p
            q[m] = rng.choice([1, 2, 4, 8, 34, 128, 256], m.sum())
            f.dq[:] = q
            f.data[m & (rng.random(shp) < .5)] = np.nan
        y, x = int(rng.integers(shp[0])), int(rng.integers(shp[1]))
        for f in ds:                       # a pixel without a good value in any frame
            f.dq[y, x] |= int(rng.choice([4, 8, 128]))
        kw = {}
        if not (ng == 1 and rng.random() < .5):
            kw["num_frames_per_group"] = size
        if mode != "mean" or rng.random() < .5:
            kw["collapse"] = mode
        if not scale or rng.random() < .5:
            kw["num_frames_scaling"] = scale
        out = combine.combine_subexposures(ds, **kw)
        if not c.ok(len(out) == ng, "groups", "%d frames from %d groups" % (len(out), ng)):
            return
        for k in range(ng):
            fr = [ds[i] for i in range(k * size, (k + 1) * size)]
            good = np.array([f.dq == 0 for f in fr])
            cnt = good.sum(0)
            d = np.array([f.data for f in fr])
            e = np.array([f.err for f in fr])
            want, werr = np.full(shp, np.nan), np.full(e.shape[1:], np.nan)
            for r in range(shp[0]):
                for q in range(shp[1]):
                    g = good[:, r, q]
                    if not g.any():
                        continue
                    v = sorted(d[g, r, q])
                    m = len(v)
                    med = mode.lower() == "median"
                    want[r, q] = (v[(m - 1) // 2] + v[m // 2]) / 2 if med else sum(v) / m
                    werr[:, r, q] = np.sqrt((e[g, :, r, q] ** 2).sum(0)) / m * (np.sqrt(np.pi / 2) if med else 1)
            if scale:
                want, werr = want * size, werr * size
            o = out[k]
            c.close(o.data, want, "combined", "group %d/%d of %d frames, %s, scaling %s" % (k, ng, size, mode, scale), rtol=1e-9, atol=1e-9)
            c.close(o.err, werr, "combined-error", "errors of group %d" % k, rtol=1e-9, atol=1e-12)
            c.equal(o.dq, np.where(cnt > 0, 0, np.bitwise_or.reduce([f.dq for f in fr])), "combined-flags", "flags of group %d" % k)
            c.ok(o.ext_hdr["NUM_FR"] == size, "combined-number", "NUM_FR %s for groups of %d" % (o.ext_hdr["NUM_FR"], size))
            c.ok(o.ext_hdr["MARK"] == k * size and o.ext_hdr["EXPTIME"] == 1. + k * size, "combined-header", "header of frame %s" % o.ext_hdr["MARK"])
            c.ok(o.filename == fr[-1].filename, "combined-name", "%s instead of %s" % (o.filename, fr[-1].filename))
            par = [o.ext_hdr["FILE%d" % i] for i in range(int(o.ext_hdr["DRPNFILE"]))]
            c.ok(sorted(par) == sorted(f.filename for f in fr), "combined-parents", "%s" % par)
            c.ok([x.name for x in o.hdu_list] == [x.name for x in fr[0].hdu_list], "combined-extensions", "extensions lost")
            c.ok(o.err_hdr.get("MARK") == k * size and o.dq_hdr.get("MARK") == k * size, "combined-header", "headers of errors and flags of frames %s and %s in group %d" % (o.err_hdr.get("MARK"), o.dq_hdr.get("MARK"), k))
            for a, b in zip(o.hdu_list, fr[0].hdu_list):
                c.ok((a.data is None) == (b.data is None) and (a.data is None or np.array_equal(a.data, b.data)), "combined-extensions", "extension %s is not that of the first frame of group %d" % (a.name, k))
            c.see("pixels", o.data.size)
            c.see("pixels with some frames flagged", ((cnt > 0) & (cnt < size)).sum())
    c.sig(size, ng, mode.lower(), scale, nl, p)
    c.sample({"frames": n, "group": size, "mode": mode, "scaling": scale})


@SUITE.workload(quick=20, thorough=150)
def refusals(c):
    rng = c.rng
    n = int(rng.integers(2, 9))
    with quiet():
        ds = B.dataset(rng, n, (3, 4), "L2b")
        bad = [k for k in range(2, n + 4) if n % k]
        k = int(rng.choice(bad))
        c.raises(ValueError, lambda: combine.combine_subexposures(ds, num_frames_per_group=k), "refuse-group", "%d frames in groups of %d" % (n, k))
        name = str(rng.choice(["sum", "average", "", "means", "mode", "max"]))
        c.raises(ValueError, lambda: combine.combine_subexposures(ds, collapse=name), "refuse-collapse", "collapse %r" % name)
    c.sig(n, k, name)


@SUITE.workload(quick=30, thorough=300)
def relations(c):
    """Mean is linear; constants are preserved; scaling multiplies by the number of frames; one frame per group changes nothing but flagged pixels."""
    rng = c.rng
    n = int(rng.integers(2, 6))
    with quiet():
        ds = B.dataset(rng, n, (4, 5), "L2b")
        for mode in ("mean", "median"):
            a = combine.combine_subexposures(ds, collapse=mode, num_frames_scaling=False)[0]
            b = combine.combine_subexposures(ds, collapse=mode, num_frames_scaling=True)[0]
            c.close(b.data, a.data * n, "scaling", "scaling data", rtol=1e-10)
            c.close(b.err, a.err * n, "scaling", "scaling errors", rtol=1e-10)
            d2 = ds.copy()
            for f in d2:
                f.data += 7.5
            c.close(combine.combine_subexposures(d2, collapse=mode, num_frames_scaling=False)[0].data, a.data + 7.5, "shift", "constant added to all frames", rtol=1e-9, atol=1e-9)
            p = rng.permutation(n)
            e = combine.combine_subexposures(data.Dataset([ds[int(i)] for i in p]), collapse=mode, num_frames_scaling=False)[0]
            c.close(e.data, a.data, "order", "order of frames", rtol=1e-10, atol=1e-10)
            c.equal(e.dq, a.dq, "order", "flags, order of frames")
        one = combine.combine_subexposures(ds, num_frames_per_group=1)
        for f, r in zip(one, ds):
            c.close(f.data, np.where(r.dq > 0, np.nan, r.data), "single", "groups of one", rtol=1e-12)
            c.equal(f.dq, r.dq, "single", "flags of groups of one")
    c.sig(n)
