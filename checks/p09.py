"""P09: data levels are climbed one rung at a time; file names follow."""
import os
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.darks as darks
import corgidrp.bad_pixel_calibration as bpc
from corgidrp import l1_to_l2a as l1, l2a_to_l2b as l2, l2b_to_l3 as l3, l3_to_l4 as l4, l4_to_tda as tda
from vlib.core import Suite, quiet
from vlib import build as B, snap
from vlib.steps import STEPS

SUITE = Suite("P09", "one distinct situation = (promotion, level of each frame of the dataset) or calibration class x input "
              "file name; acceptance, new level, new name, untouched content and refusal are all judged")
LEVELS = ["L1", "L2a", "L2b", "L3", "L4", "TDA", "CAL"]
TOKEN = {"L1": "_L1_", "L2a": "_L2a", "L2b": "_L2b", "L3": "_L3_", "L4": "_L4_", "TDA": "_TDA_", "CAL": "_CAL"}
UP = {("L1", "L2a"): lambda d, r: l1.update_to_l2a(d), ("L2a", "L2b"): lambda d, r: l2.update_to_l2b(d),
      ("L2b", "L3"): lambda d, r: l3.update_to_l3(d), ("L3", "L4"): lambda d, r: l4.update_to_l4(d, r[0], r[1]),
      ("L4", "TDA"): lambda d, r: tda.update_to_tda(d)}
PAIRS = [(u, lv) for u in sorted(UP) for lv in LEVELS]


def name_of(i, level, rng, style):
    base = "CGI_0200001001001001%03d_20250216T0000%02d%d%s" % (rng.integers(1000), rng.integers(60), i, TOKEN[level])
    return base + {0: ".fits", 1: "_sub.fits", 2: "_L9_.fits", 3: TOKEN[level] + "x.fits", 4: "_old%sx.fits" % TOKEN[level]}[style]


def frames(rng, levels):
    ds = B.dataset(rng, len(levels), (5, 6), "L1")
    for i, (f, lv) in enumerate(zip(ds, levels)):
        f.ext_hdr["DATALVL"] = lv
        f.filename = name_of(i, lv, rng, int(rng.integers(0, 5)))
        if rng.random() < .5:
            f.ext_hdr["CTCALFN"] = "former_CTP_CAL.fits"
    return ds


def cals(rng):
    ct = B.ctcal(rng) if rng.random() < .6 else None
    fc = B.fluxcal(rng)
    if ct is not None:
        ct.filename = "some_CTP_CAL.fits"
    fc.filename = "some_ABF_CAL.fits"
    return ct, fc


@SUITE.workload(quick=2 * len(PAIRS), thorough=30 * len(PAIRS))
def promote(c):
    rng = c.rng
    (src, dst), lv = PAIRS[c.index % len(PAIRS)]
    n = int(rng.integers(1, 5))
    with quiet():
        ds = frames(rng, [lv] * n)
        ref = cals(rng)
        if lv != src:
            c.raises(ValueError, lambda: UP[(src, dst)](ds, ref), "wrong-level-accepted:%s" % dst,
                     "promotion %s->%s of %s data" % (src, dst, lv))
            c.ok(all(f.ext_hdr["DATALVL"] == lv for f in ds), "level-touched", "refused data was relabelled")
        else:
            before = [(f.filename, f.data.copy(), f.err.copy(), f.dq.copy()) for f in ds]
            out = UP[(src, dst)](ds, ref)
            c.ok(len(out) == n, "promote-count", "%d frames became %d" % (n, len(out)))
            for f, (nm, d, e, q) in zip(out, before):
                c.ok(f.ext_hdr["DATALVL"] == dst, "level:" + dst, "level is %s after promotion to %s" % (f.ext_hdr["DATALVL"], dst))
                want = nm.replace(TOKEN[src], TOKEN[dst], 1)
                c.ok(f.filename == want, "name:" + dst, "file %s became %s, expected %s" % (nm, f.filename, want))
                c.equal(f.data, d, "data:" + dst, "promotion changed the data")
                c.equal(f.err, e, "err:" + dst, "promotion changed the errors")
                c.equal(f.dq, q, "dq:" + dst, "promotion changed the DQ")
                if dst == "L4":
                    c.ok(f.ext_hdr["CTCALFN"] == ("some_CTP_CAL.fits" if ref[0] is not None else ""), "ctcal-name",
                         "core throughput calibration recorded as %r" % f.ext_hdr["CTCALFN"])
                    c.ok(f.ext_hdr["FLXCALFN"] == "some_ABF_CAL.fits", "fluxcal-name",
                         "flux calibration recorded as %r" % f.ext_hdr["FLXCALFN"])
    c.see("promotions")
    c.sig(src, dst, lv, n)


@SUITE.workload(quick=40, thorough=300)
def mixed(c):
    """One frame of another level anywhere in the dataset: the whole promotion is refused."""
    rng = c.rng
    (src, dst) = sorted(UP)[c.index % len(UP)]
    n = int(rng.integers(2, 6))
    pos = int(rng.integers(0, n))
    other = str(rng.choice([x for x in LEVELS if x != src]))
    levels = [src] * n
    levels[pos] = other
    with quiet():
        ds = frames(rng, levels)
        ref = cals(rng)
        c.raises(ValueError, lambda: UP[(src, dst)](ds, ref), "mixed-level-accepted:%s" % dst,
                 "promotion to %s with a %s frame at position %d of %d" % (dst, other, pos, n))
    c.sig(src, dst, other, pos, n)


@SUITE.workload(quick=10, thorough=100)
def ladder(c):
    """All the way up through files: level and name at each rung, and what is on disk."""
    rng = c.rng
    n = int(rng.integers(1, 4))
    with c.scratch(), quiet():
        ds = frames(rng, ["L1"] * n)
        names = [f.filename for f in ds]
        cur = "L1"
        for nxt in LEVELS[1:6]:
            ds = UP[(cur, nxt)](ds, cals(rng))
            names = [x.replace(TOKEN[cur], TOKEN[nxt], 1) for x in names]
            c.ok([f.filename for f in ds] == names, "ladder-name:" + nxt, "%s" % [f.filename for f in ds])
            if rng.random() < .5:
                ds.save(filedir=".")
                c.ok(all(os.path.exists(x) for x in names), "ladder-file:" + nxt, "files %s" % os.listdir("."))
                ds = data.Dataset(list(names))
            c.ok(all(f.ext_hdr["DATALVL"] == nxt for f in ds), "ladder-level:" + nxt, "level")
            c.raises(ValueError, lambda: UP[(cur, nxt)](ds, cals(rng)), "promoted-twice:" + nxt, "promoting to %s twice" % nxt)
            cur = nxt
    c.sig("ladder", n)


CALS = {"Dark": (lambda r, p: B.dark(r, (5, 6), parents=p), "_DRK_CAL"), "FlatField": (lambda r, p: B.flat(r, (5, 6), parents=p), "_FLT_CAL"),
        "NonLinearityCalibration": (lambda r, p: B.nonlin(r, parents=p), "_NLN_CAL"),
        "KGain": (lambda r, p: B.kgain(r, parents=p), "_KRN_CAL"), "BadPixelMap": (lambda r, p: B.bpmap(r, (5, 6), parents=p), "_BPM_CAL"),
        "NDFilterSweetSpotDataset": (lambda r, p: B.ndsweet(r, parents=p), "_NDF_CAL"),
        "DetectorNoiseMaps": (lambda r, p: B.noise_maps(r, (5, 6), parents=p), "_DNM_CAL")}


@SUITE.workload(quick=4 * len(CALS), thorough=40 * len(CALS))
def calibrations(c):
    """New calibration products are level CAL and are named after their last input file and their kind."""
    rng = c.rng
    nm = sorted(CALS)[c.index % len(CALS)]
    mk, tag = CALS[nm]
    lv = str(rng.choice(["L1", "L2a", "L2b", "L3"]))
    n = int(rng.integers(1, 5))
    with c.scratch(), quiet():
        ds = frames(rng, [lv] * n)
        for i, f in enumerate(ds):
            f.filename = name_of(i, lv, rng, 0)
        p = mk(rng, ds)
        stem = ds[-1].filename.split(TOKEN[lv])[0]
        c.ok(p.ext_hdr["DATALVL"] == "CAL", "cal-level:" + nm, "%s has level %s" % (nm, p.ext_hdr["DATALVL"]))
        c.ok(p.ext_hdr["DATATYPE"] == nm, "cal-type:" + nm, "%s has type %s" % (nm, p.ext_hdr["DATATYPE"]))
        c.ok(p.filename == stem + tag + ".fits", "cal-name:" + nm, "%s from %s is called %s" % (nm, ds[-1].filename, p.filename))
        p.save(filedir=".")
        c.ok(os.path.exists(stem + tag + ".fits"), "cal-file:" + nm, "%s" % os.listdir("."))
    c.sig(nm, lv, n)


@SUITE.workload(quick=6, thorough=60)
def synthesized(c):
    """A dark made from noise maps, or a map made from a dark and a flat, is named after its source, once."""
    rng = c.rng
    with c.scratch(), quiet():
        lv = str(rng.choice(["L1", "L2a"]))
        src = frames(rng, [lv] * int(rng.integers(1, 4)))
        for i, f in enumerate(src):
            f.filename = name_of(i, lv, rng, 0)
        shp = B.SMALL["SCI"]["frame_rows"], B.SMALL["SCI"]["frame_cols"]
        nm = B.noise_maps(rng, shp, parents=src)
        stem = src[-1].filename.split(TOKEN[lv])[0]
        c.ok(nm.filename == stem + "_DNM_CAL.fits", "cal-name:DetectorNoiseMaps", "%s" % nm.filename)
        full = bool(rng.random() < .5)
        im = B.SMALL["SCI"]["image"]
        ds = B.dataset(rng, 1, shp if full else (im["rows"], im["cols"]), "L2a")
        md = darks.build_synthesized_dark(ds, nm, B.SMALL, full)
        c.ok(md.filename == stem + "_DRK_CAL.fits", "cal-name:Dark", "dark from %s is called %s" % (nm.filename, md.filename))
        c.ok(md.ext_hdr["DATALVL"] == "CAL" and md.ext_hdr["DATATYPE"] == "Dark", "cal-level:Dark", "level %s" % md.ext_hdr["DATALVL"])
        # a bad-pixel map made from a dark and a flat carries the flat's name
        flats = frames(rng, [lv] * int(rng.integers(1, 4)))
        for i, f in enumerate(flats):
            f.filename = name_of(i, lv, rng, 0)
        fl = B.flat(rng, md.data.shape, parents=flats)
        base = flats[-1].filename.split(TOKEN[lv])[0]
        c.ok(fl.filename == base + "_FLT_CAL.fits", "cal-name:FlatField", "%s" % fl.filename)
        bp = bpc.create_bad_pixel_map(ds, md, fl, fwidth=4)
        c.ok(bp.filename == base + "_BPM_CAL.fits", "cal-name:BadPixelMap", "map from %s and %s is called %s" % (md.filename, fl.filename, bp.filename))
        c.ok(bp.ext_hdr["DATALVL"] == "CAL" and bp.ext_hdr["DATATYPE"] == "BadPixelMap", "cal-level:BadPixelMap", "level %s" % bp.ext_hdr["DATALVL"])
    c.sig("synthesized", lv, full)


@SUITE.workload(quick=2 * len(STEPS), thorough=15 * len(STEPS))
def other_steps(c):
    """Steps that do not promote leave level and file name alone (combining keeps the last name of each group)."""
    rng = c.rng
    st = STEPS[sorted(STEPS)[c.index % len(STEPS)]]
    if st.level:
        return
    with c.scratch(), quiet():
        ds, args, kw = st.make(rng, int(rng.integers(1, 4)))
        names = {f.filename for f in ds}
        lv = ds[0].ext_hdr["DATALVL"]
        out = st.fn(ds, *args, **kw)
        for f in out:
            c.ok(f.filename in names, "step-renames:" + st.name, "%s named its output %s" % (st.name, f.filename))
            c.ok(f.ext_hdr["DATALVL"] == lv, "step-relevels:" + st.name, "%s changed the level to %s" % (st.name, f.ext_hdr["DATALVL"]))
    c.sig(st.name)
