"""P04: a Dataset's cubes and its frames are one and the same data, and copies are independent."""
import numpy as np
import astropy.io.fits as fits
import corgidrp
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B, snap
from vlib.steps import STEPS

SUITE = Suite("P04", "one distinct situation = sequence of operation kinds applied to a family of related datasets "
              "(copies, header-only copies, subsets), each followed by a full comparison against an independent shadow model")


class Shadow:
    """Plain-numpy model of one dataset: what it must contain."""

    def __init__(self, ds):
        self.d = np.array([f.data for f in ds.frames])
        self.e = np.array([f.err for f in ds.frames])
        self.q = np.array([f.dq for f in ds.frames])

    def copy(self):
        s = Shadow.__new__(Shadow)
        s.d, s.e, s.q = self.d.copy(), self.e.copy(), self.q.copy()
        return s


def heads(f):
    """Everything of a header except the automatic creation stamps."""
    out = []
    for h in (f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr):
        out.append(tuple((k.keyword, str(k.value)) for k in h.cards if k.keyword not in ("DRPCTIME", "DRPVERSN")))
    return out


def judge(c, live, trail):
    for name, ds, sh, hd in live:
        bad = snap.coherent(ds)
        c.see("coherence_checks")
        c.ok(not bad, "incoherent:%s" % trail[-1], "after %s dataset %s: frames and cube disagree (%s)" % (
            trail[-3:], name, bad))
        for nm, cube, exp in (("data", ds.all_data, sh.d), ("err", ds.all_err, sh.e), ("dq", ds.all_dq, sh.q)):
            same = cube.shape == exp.shape and np.allclose(cube, exp, rtol=1e-12, atol=0, equal_nan=True)
            c.ok(same, "values:%s:%s" % (nm, trail[-1]), "after %s dataset %s holds wrong %s" % (trail[-3:], name, nm))
        if hd is not None:
            now = [heads(f) for f in ds]
            c.ok(now == hd, "headers:%s" % trail[-1], "after %s the headers of dataset %s changed" % (trail[-3:], name))


@SUITE.workload(quick=60, thorough=2500)
def histories(c):
    rng = c.rng
    corgidrp.track_individual_errors = bool(rng.random() < .5)
    n = int(rng.integers(1, 5))
    shape = (int(rng.integers(3, 7)), int(rng.integers(3, 7)))
    if rng.random() < .25:
        shape = (3,) + shape        # data cubes (e.g. spectral or roll cubes)
    first = B.dataset(rng, n, shape, "L2a", extra=bool(rng.random() < .5))
    live = [["0", first, Shadow(first), [heads(f) for f in first]]]
    trail = ["start"]
    judge(c, live, trail)
    for k in range(int(rng.integers(4, 14))):
        item = live[int(rng.integers(len(live)))]
        name, ds, sh, _ = item
        nf = len(ds)
        i = int(rng.integers(nf))
        pix = tuple(int(rng.integers(s)) for s in shape)
        ops = ["cube", "frame", "frame_err", "cube_dq", "whole_frame", "addterm", "addterm_each", "update", "update_all",
               "copy", "copy_headers", "subset", "iterate", "header"]
        if len(shape) == 2:
            ops += ["rescale", "rescale_each"]
        op = str(rng.choice(ops))
        v = float(rng.normal())
        if op == "cube":
            ds.all_data[(i,) + pix] = v
            sh.d[(i,) + pix] = v
        elif op == "frame":
            ds[i].data[pix] = v
            sh.d[(i,) + pix] = v
        elif op == "frame_err":
            ds.frames[i].err[(0,) + pix] = abs(v)
            sh.e[(i, 0) + pix] = abs(v)
        elif op == "cube_dq":
            ds.all_dq[(i,) + pix] = 128
            sh.q[(i,) + pix] = 128
        elif op == "whole_frame":
            ds.frames[i].data[...] *= v
            sh.d[i] = sh.d[i] * v
        elif op == "iterate":
            for j, f in enumerate(ds):
                f.data[pix] += j
                sh.d[(j,) + pix] += j
        elif op in ("addterm", "addterm_each"):
            each = op.endswith("each")
            t = np.abs(rng.normal(1, .3, ((nf,) if each else ()) + shape))
            ds.add_error_term(t, "term%d" % k)
            tt = t if each else np.broadcast_to(t, (nf,) + shape)
            sh.e[:, 0] = np.sqrt(sh.e[:, 0] ** 2 + tt ** 2)
            if corgidrp.track_individual_errors:
                sh.e = np.concatenate([sh.e, tt[:, None]], axis=1)
            item[3] = [heads(f) for f in ds]
        elif op in ("rescale", "rescale_each"):
            each = op.endswith("each")
            t = np.abs(rng.normal(1, .3, ((nf,) if each else ()) + shape))
            ds.rescale_error(t, "scale%d" % k)
            sh.e = sh.e * (t[:, None] if each else t)
            item[3] = [heads(f) for f in ds]
        elif op == "update":
            ds.update_after_processing_step("step %d" % k)
            item[3] = [heads(f) for f in ds]
        elif op == "update_all":
            nd = rng.normal(0, 1, sh.d.shape)
            ne = np.abs(rng.normal(1, .1, sh.e.shape))
            nq = np.where(rng.random(sh.q.shape) < .2, 4, 0)
            which = rng.integers(1, 8)
            ds.update_after_processing_step("step %d" % k, new_all_data=nd.copy() if which & 1 else None,
                                            new_all_err=ne.copy() if which & 2 else None,
                                            new_all_dq=nq.copy() if which & 4 else None, header_entries={"UPD": k})
            if which & 1:
                sh.d = nd
            if which & 2:
                sh.e = ne
            if which & 4:
                sh.q = nq
            item[3] = [heads(f) for f in ds]
        elif op == "copy":
            if len(live) < 6:
                new = ds.copy()
                live.append([name + "c", new, sh.copy(), [heads(f) for f in new]])
        elif op == "copy_headers":
            # a copy meant for header work: changing its headers must leave the original's headers alone
            new = ds.copy(copy_data=False)
            for f in new:
                for h in (f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr):
                    h["MARK"] = k
                f.ext_hdr["HISTORY"] = "marked"
            c.ok(all(np.array_equal(a.data, b.data, equal_nan=True) for a, b in zip(ds, new)), "values:headercopy",
                 "header copy does not show the same data")
            # the original may now share memory with the copy: only its headers are at stake
            live = [x for x in live if x is item]
        elif op == "subset":
            sel = sorted(int(x) for x in rng.choice(nf, int(rng.integers(1, nf + 1)), replace=False))
            how = rng.integers(3)
            if how == 0:
                sel = list(range(sel[0], sel[-1] + 1))
                sub = ds[sel[0]:sel[-1] + 1]
            elif how == 1:
                sub = ds[sel]
            else:
                sub = ds[np.array(sel)]
            c.ok(len(sub) == len(sel), "subset:length", "subset of %s has %d frames" % (sel, len(sub)))
            c.ok([f.filename for f in sub] == [ds.frames[j].filename for j in sel], "subset:frames", "wrong frames in subset")
            c.ok(np.array_equal(sub.all_data, sh.d[sel], equal_nan=True) and np.array_equal(sub.all_dq, sh.q[sel]),
                 "subset:values", "subset shows other values than the selected frames")
            c.ok(not snap.coherent(sub), "incoherent:subset-result", "subset: %s" % snap.coherent(sub))
        elif op == "header":
            ds[i].ext_hdr["EDIT"] = k
            ds[i].pri_hdr["EDIT"] = k
            item[3] = [heads(f) for f in ds]
        trail.append(op)
        judge(c, live, trail)
    c.see("operations", len(trail) - 1)
    c.sig("-".join(t[:4] for t in trail[1:7]), n, len(shape), corgidrp.track_individual_errors)
    c.sample({"operations": trail, "shape": shape, "frames": n})


@SUITE.workload(quick=2 * len(STEPS), thorough=40 * len(STEPS))
def step_outputs(c):
    """What a pipeline step returns is coherent, and stays so when it is edited."""
    rng = c.rng
    st = STEPS[sorted(STEPS)[c.index % len(STEPS)]]
    n = int(rng.integers(1, 4))
    corgidrp.track_individual_errors = bool(rng.random() < .5)
    ds, args, kw = st.make(rng, n)
    with c.scratch(), quiet():
        out = st.fn(ds, *args, **kw)
    bad = snap.coherent(out)
    c.see("step_outputs")
    c.ok(not bad, "incoherent:step:" + st.name, "output of %s: frames and cube disagree (%s)" % (st.name, bad))
    bad = snap.coherent(ds)
    c.ok(not bad, "incoherent:input:" + st.name, "%s disconnected its input's frames from the cube (%s)" % (st.name, bad))
    if not len(out):
        return
    i = int(rng.integers(len(out)))
    out.frames[i].data[..., 0] = 12345.
    out.all_err[i, 0, ..., 0] = 77.
    c.ok(np.all(out.all_data[i][..., 0] == 12345.), "edit:frame:" + st.name, "editing a frame does not edit the cube")
    c.ok(np.all(out.frames[i].err[0, ..., 0] == 77.), "edit:cube:" + st.name, "editing the cube does not edit the frame")
    c.sig(st.name, n, corgidrp.track_individual_errors)


CAL_MAKERS = {"Dark": lambda r: B.dark(r, (5, 6)), "FlatField": lambda r: B.flat(r, (5, 6)), "KGain": lambda r: B.kgain(r),
              "NonLinearityCalibration": lambda r: B.nonlin(r), "BadPixelMap": lambda r: B.bpmap(r, (5, 6)),
              "DetectorNoiseMaps": lambda r: B.noise_maps(r, (5, 6)), "AstrometricCalibration": lambda r: B.astrom(r),
              "TrapCalibration": lambda r: B.trapcal(r), "FluxcalFactor": lambda r: B.fluxcal(r),
              "CoreThroughputCalibration": lambda r: B.ctcal(r), "NDFilterSweetSpotDataset": lambda r: B.ndsweet(r),
              "Image": lambda r: B.image(r, (5, 6), nlayers=1)}


@SUITE.workload(quick=3 * len(CAL_MAKERS), thorough=80 * len(CAL_MAKERS))
def image_copies(c):
    """Copies of single products share nothing (full copy) or only arrays (header copy)."""
    rng = c.rng
    name = sorted(CAL_MAKERS)[c.index % len(CAL_MAKERS)]
    obj = CAL_MAKERS[name](rng)
    before = snap.img(obj)

    def strip(s):
        s = dict(s)
        for k in ("pri_hdr", "ext_hdr"):
            if k in s:
                s[k] = tuple(x for x in s[k] if x[0] not in ("DRPCTIME", "DRPVERSN"))
        return s
    full = obj.copy()
    c.ok(type(full) is type(obj), "copy-type:" + name, "copy of %s is a %s" % (name, type(full).__name__))
    d = snap.diff(strip(before), strip(snap.img(full)))
    c.ok(not d, "copy-differs:" + name, "copy of %s differs from the original in %s" % (name, d))
    for k, v in vars(full).items():
        if isinstance(v, np.ndarray) and v.dtype != object and v.size:
            v.flags.writeable and v.__setitem__(Ellipsis, 0 if v.dtype.kind in "iu" else -3)
        if isinstance(v, fits.Header):
            v["MARK"] = 1
    for h in full.hdu_list:
        h.header["MARK"] = 1
        if h.data is not None:
            h.data[...] = -9
    full.filename = "x.fits"
    d = snap.diff(before, snap.img(obj))
    c.ok(not d, "copy-aliases:" + name, "editing the copy of a %s changed the original: %s" % (name, d))
    half = obj.copy(copy_data=False)
    for k, v in vars(half).items():
        if isinstance(v, fits.Header):
            v["MARK"] = 2
    half.filename = "y.fits"
    half.hdu_names.append("ZZ") if hasattr(half, "hdu_names") else None
    half.hdu_list.append(fits.ImageHDU(np.zeros(2), name="ZZ"))
    d = snap.diff(before, snap.img(obj))
    c.ok(not d, "headercopy-aliases:" + name, "editing the headers of a header copy of a %s changed the original: %s" % (name, d))
    c.see("image_copies", 2)
    c.sig(name)
