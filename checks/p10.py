"""P10: a frame's result does not depend on which other frames share its dataset, nor on their order."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.darks as darks
import corgidrp.detector as detector
import corgidrp.flat as flat
from vlib.core import Suite, quiet
from vlib import build as B
from vlib.steps import STEPS

SUITE = Suite("P10", "one distinct situation = step x number of frames x which frames differ in gain/exposure/pointing; the "
              "result of each frame alone, in the batch and in a permuted batch is compared bit for bit (headers included)")
NAMES = sorted(n for n, s in STEPS.items() if s.per_frame and n != "frame_select")
IGNORE = {"DRPCTIME", "DRPVERSN", "HISTORY", "COMMENT", ""}


def cards(h):
    return {k.keyword: repr(k.value) for k in h.cards if k.keyword not in IGNORE}


def vary(rng, st, ds):
    """Give the frames different headers where the step allows it."""
    n = len(ds)
    what = []
    for i, f in enumerate(ds):
        f.ext_hdr["FRAMENO"] = i
    if st.name in ("crop",) and rng.random() < .8:
        for f in ds:
            s = f.data.shape
            f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = float(rng.uniform(9, s[1] - 9)), float(rng.uniform(9, s[0] - 9))
        what.append("star")
    if st.name == "northup":
        for f in ds:
            f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"] = float(rng.uniform(3, 8)), float(rng.uniform(3, 8))
        what.append("star")
    if st.name == "convert_to_flux":
        for f in ds:
            f.ext_hdr["COL_COR"] = float(rng.uniform(.5, 2))
        if rng.random() < .3:
            del ds[int(rng.integers(n))].ext_hdr["COL_COR"]
        what.append("color")
    if st.name in ("em_gain_division", "add_photon_noise", "correct_nonlinearity", "detect_cosmic_rays"):
        what.append("gain")
    if st.name in ("divide_by_exptime", "desmear"):
        what.append("exptime")
    return what


@SUITE.workload(quick=6 * len(NAMES), thorough=60 * len(NAMES))
def steps(c):
    rng = c.rng
    st = STEPS[NAMES[c.index % len(NAMES)]]
    n = int(rng.integers(2, 5))
    corgidrp.track_individual_errors = bool(rng.random() < .3)
    with c.scratch(), quiet():
        ds, args, kw = st.make(rng, n)
        what = vary(rng, st, ds)
        names = [f.filename for f in ds]
        out = st.fn(ds.copy(), *args, **kw)
        perm = rng.permutation(n)
        out_p = st.fn(data.Dataset([ds[int(i)].copy() for i in perm]), *args, **kw)
        for i in range(n):
            alone = st.fn(data.Dataset([ds[i].copy()]), *args, **kw)[0]
            j = int(np.where(perm == i)[0][0])
            for lab, o in (("batch", out[i]), ("permuted batch", out_p[j])):
                c.see("frame_comparisons")
                for k in ("data", "err", "dq"):
                    c.close(getattr(o, k), getattr(alone, k), "%s-depends-on-batch:%s" % (k, st.name),
                            "%s: %s of frame %d in %s of %d vs alone" % (st.name, k, i, lab, n), rtol=1e-12, atol=0)
                for k in ("pri_hdr", "ext_hdr", "err_hdr"):
                    a, b = cards(getattr(o, k)), cards(getattr(alone, k))
                    d = [x for x in sorted(set(a) | set(b)) if a.get(x) != b.get(x)]
                    c.ok(not d, "header-depends-on-batch:" + st.name, "%s: %s cards %s of frame %d differ in %s: %s vs %s" % (
                        st.name, k, d[:5], i, lab, [a.get(x) for x in d[:3]], [b.get(x) for x in d[:3]]))
                c.ok(o.filename == alone.filename, "name-depends-on-batch:" + st.name, "%s vs %s" % (o.filename, alone.filename))
                hn = {h.name: h.data for h in o.hdu_list}
                for h in alone.hdu_list:
                    c.ok(h.name in hn and np.array_equal(hn[h.name], h.data), "hdu-depends-on-batch:" + st.name,
                         "%s: extension %s of frame %d differs in %s" % (st.name, h.name, i, lab))
    c.sig(st.name, n, what, corgidrp.track_individual_errors, list(perm) == list(range(n)))
    c.sample({"step": st.name, "frames": n, "varied": what})


@SUITE.workload(quick=30, thorough=300)
def selection(c):
    """Frame selection judges each frame on its own, and keeps the order."""
    from corgidrp import l2a_to_l2b as l2
    rng = c.rng
    n = int(rng.integers(2, 8))
    ext = [dict(OVEREXP=bool(rng.random() < .3), Z2VAR=float(rng.uniform(0, 10)), Z3VAR=float(rng.uniform(0, 10)),
                Z2RES=float(rng.uniform(0, 10)), Z3RES=float(rng.uniform(0, 10))) for _ in range(n)]
    ds = B.dataset(rng, n, (6, 7), "L2a", ext_list=ext)
    kw = dict(overexp=bool(rng.random() < .6), tt_rms_thres=float(rng.uniform(3, 9)) if rng.random() < .6 else None,
              tt_bias_thres=float(rng.uniform(3, 9)) if rng.random() < .6 else None, bpix_frac=float(rng.choice([1., .2, .1])))
    alone = []
    for i in range(n):
        try:
            l2.frame_select(data.Dataset([ds[i].copy()]), **kw)
            alone.append(ds[i].filename)
        except ValueError:
            pass
    if not alone:
        c.raises(ValueError, lambda: l2.frame_select(ds, **kw), "empty-selection", "no frame is good")
    else:
        out = l2.frame_select(ds, **kw)
        c.ok([f.filename for f in out] == alone, "selection-depends-on-batch", "kept %s, individually good %s" % (
            [f.filename for f in out], alone))
        p = rng.permutation(n)
        out = l2.frame_select(data.Dataset([ds[int(i)].copy() for i in p]), **kw)
        c.ok([f.filename for f in out] == [ds[int(i)].filename for i in p if ds[int(i)].filename in alone],
             "selection-order", "order of a permuted batch")
    c.sig(n, len(alone), sorted(k for k, v in kw.items() if v))


@SUITE.workload(quick=30, thorough=300)
def combinations(c):
    """Products made from a set of frames do not depend on the order of the frames."""
    rng = c.rng
    kind = ["mean_combine", "trad_dark", "flatfield", "combine_mean", "combine_median"][c.index % 5]
    R = B.SMALL["SCI"]
    full = (R["frame_rows"], R["frame_cols"])
    n = int(rng.integers(2, 7))
    ds = B.dataset(rng, n, full, "L2b" if kind == "flatfield" else "L2a", ext=dict(TELRSTRT=-3, TELREND=30))
    perm = [int(i) for i in rng.permutation(n)]
    pd = data.Dataset([ds[i].copy() for i in perm])
    with quiet():
        if kind == "mean_combine":
            def run(d):
                m, q = detector_free_mean(d)
                return m + q
        elif kind == "trad_dark":
            def run(d):
                k = darks.build_trad_dark(d, _dp(), detector_regions=B.SMALL, full_frame=True)
                return [k.data, k.err, k.dq]
        elif kind == "flatfield":
            def run(d):
                k = flat.create_flatfield(d)
                return [k.data, k.err]
        else:
            import corgidrp.combine as combine

            def run(d):
                k = combine.combine_subexposures(d, collapse=kind.split("_")[1])
                return [k[0].data, k[0].err, k[0].dq]
        a, b = run(ds.copy()), run(pd)
    for x, y in zip(a, b):
        c.close(x, y, "order-matters:" + kind, "%s of %d frames in another order" % (kind, n), rtol=1e-9, atol=1e-9)
    c.sig(kind, n)


def _dp():
    from vlib.steps import _det
    return _det()


def detector_free_mean(d):
    r = darks.mean_combine(list(d.all_data), list((d.all_dq > 0).astype(int)))
    e = darks.mean_combine(list(d.all_err[:, 0]), list((d.all_dq > 0).astype(int)), err=True)
    return list(r), list(e)
