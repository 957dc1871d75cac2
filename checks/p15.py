"""P15: bias subtraction - row by row, from the right pixels, for every detector geometry."""
import copy
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.detector as detector
import corgidrp.l1_to_l2a as l1
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P15", "one distinct situation = geometry (random or flight, frame type, prescan side) x output area x offset x "
              "existing error layers; every output pixel, error and bias value is recomputed from the raw frame")
TYPES = ["SCI", "ENG", "ENG_EM", "ENG_CONV"]


def geometry(rng):
    """A random consistent detector: prescan on either side, image inside the rest."""
    right = bool(rng.random() < .4)
    pre, ser = int(rng.integers(4, 14)), int(rng.integers(1, 5))
    top, par = int(rng.integers(0, 5)), int(rng.integers(1, 6))
    above = int(rng.integers(0, 4))
    ih, iw = int(rng.integers(2, 12)), int(rng.integers(2, 12))
    ml, mr = int(rng.integers(0, 4)), int(rng.integers(0, 4))
    H, W = top + ih + above + par, pre + ml + iw + mr + ser
    c0 = ser if right else pre            # first column of the imaging area
    st = int(rng.integers(0, pre - 2))
    en = int(rng.integers(st + 2, pre + 1))
    p0 = W - pre if right else 0
    return {"frame_rows": H, "frame_cols": W,
            "image": {"rows": ih, "cols": iw, "r0c0": [top, c0 + ml]},
            "prescan": {"rows": H, "cols": pre, "r0c0": [0, p0], "col_start": st, "col_end": en},
            "prescan_reliable": {"rows": H, "cols": en - st, "r0c0": [0, p0 + st]},
            "parallel_overscan": {"rows": par, "cols": W - pre - ser, "r0c0": [H - par, c0]},
            "serial_overscan": {"rows": H, "cols": ser, "r0c0": [0, 0 if right else W - ser]},
            "_area": (0, H - par, c0, c0 + ml + iw + mr), "_cols": (p0 + st, p0 + en), "_right": right}


FLIGHT = {"SCI": (1200, 2200, (13, 13 + 1024, 1088, 1088 + 1024), (0, 1037, 1088, 2144), (800, 1000)),
          "ENG": (2200, 2200, (13, 13 + 1024, 1088, 1088 + 1024), (0, 1037, 1088, 2144), (800, 1000)),
          "ENG_EM": (2200, 2200, (13, 13 + 2048, 1088, 1088 + 1024), (0, 2070, 1088, 2144), (800, 1000)),
          "ENG_CONV": (2200, 2200, (13, 13 + 2048, 48, 48 + 1024), (0, 2070, 16, 1072), (1200, 1400))}


def judge(c, ds, out, area, bias_cols, off, off_err, track, where):
    r0, r1, c0, c1 = area
    for raw, f in zip(ds, out):
        pre = raw.data[r0:r1, bias_cols[0]:bias_cols[1]].astype(float)
        srt = np.sort(pre, axis=1)
        m = pre.shape[1]
        bias = (srt[:, (m - 1) // 2] + srt[:, m // 2]) / 2 - off
        if not c.ok(f.data.shape == (r1 - r0, c1 - c0), "area", "%s: output is %s, expected %s" % (where, f.data.shape, (r1 - r0, c1 - c0))):
            return
        c.see("pixels", f.data.size)
        c.close(f.data, raw.data[r0:r1, c0:c1] - bias[:, None], "bias-subtracted", "%s: data" % where, rtol=1e-9, atol=1e-7)
        se = np.sqrt(((pre - pre.mean(1, keepdims=True)) ** 2).mean(1) / m + off_err ** 2)
        se = np.repeat(se[:, None], c1 - c0, axis=1)
        e0 = raw.err[:, r0:r1, c0:c1]
        c.close(f.err[0], np.sqrt(e0[0] ** 2 + se ** 2), "bias-error", "%s: total error" % where, rtol=1e-9, atol=1e-9)
        if track:
            c.ok(f.err.shape[0] == e0.shape[0] + 1 and f.err_hdr["Layer_%d" % f.err.shape[0]] == "prescan_bias_sub", "bias-error-layer",
                 "%s: error layers %s" % (where, f.err.shape))
            c.close(f.err[-1], se, "bias-error-layer", "%s: bias error layer" % where, rtol=1e-9, atol=1e-9)
            c.close(f.err[1:-1], e0[1:], "other-layers", "%s: existing layers" % where)
        c.equal(f.dq, raw.dq[r0:r1, c0:c1], "dq-area", "%s: dq" % where)
        h = [x for x in f.hdu_list if x.name == "BIAS"]
        if c.ok(len(h) == 1, "bias-extension", "%s: %d BIAS extensions" % (where, len(h))):
            c.close(h[0].data, bias, "bias-extension", "%s: BIAS extension" % where, rtol=1e-5, atol=1e-4)
        c.ok((f.ext_hdr["NAXIS1"], f.ext_hdr["NAXIS2"]) == (c1 - c0, r1 - r0), "naxis", "%s: NAXIS %s %s" % (where, f.ext_hdr["NAXIS1"], f.ext_hdr["NAXIS2"]))


@SUITE.workload(quick=120, thorough=1500)
def small(c):
    """Random geometries, every frame type, rows with their own bias, outliers in the prescan."""
    rng = c.rng
    t = TYPES[c.index % 4]
    g = geometry(rng)
    area, cols = g.pop("_area"), g.pop("_cols")
    right = g.pop("_right")
    regions = {t: g}
    other = [x for x in TYPES if x != t][int(rng.integers(3))]
    o = geometry(rng)
    for k in ("_area", "_cols", "_right"):
        o.pop(k)
    if rng.random() < .7:
        regions[other] = o
    n = int(rng.integers(1, 4))
    track = bool(rng.random() < .4)
    corgidrp.track_individual_errors = track
    nl = int(rng.integers(1, 4)) if track else 1
    mode = str(rng.choice(["image", "area", "full"]))
    if mode == "image" and rng.random() < .4:
        # a prescan section that covers only part of the rows, the image's among them
        up = int(rng.integers(0, g["image"]["r0c0"][0] + 1))
        down = int(rng.integers(g["image"]["r0c0"][0] + g["image"]["rows"], g["frame_rows"] + 1))
        for k in ("prescan", "prescan_reliable"):
            g[k].update(rows=down - up, r0c0=[up, g[k]["r0c0"][1]])
    with quiet():
        ds = B.dataset(rng, n, (g["frame_rows"], g["frame_cols"]), "L1", ext=dict(ARRTYPE=t), nlayers=nl)
        for f in ds:
            f.data += rng.normal(0, 500, (g["frame_rows"], 1))
            if rng.random() < .5:
                f.data[rng.random(f.data.shape) < .03] = 60000.0
            if rng.random() < .4:
                f.data[:] = np.round(f.data)
        off, oe = 0.0, 0.0
        nm = None
        if rng.random() < .6:
            off, oe = float(rng.normal(0, 5)), float(rng.uniform(0, 3))
            nm = B.noise_maps(rng, (3, 4), b_o=off, b_o_err=oe)
            off, oe = float(nm.bias_offset), float(nm.bias_offset_err)
        keep = copy.deepcopy(regions)
        out = l1.prescan_biassub(ds, nm, return_full_frame=mode == "full", detector_regions=regions, use_imaging_area=mode == "area")
        c.ok(regions == keep, "regions-changed", "the geometry dictionary was modified")
        r, cc = g["image"]["r0c0"]
        a = {"image": (r, r + g["image"]["rows"], cc, cc + g["image"]["cols"]), "area": area,
             "full": (0, g["frame_rows"], 0, g["frame_cols"])}[mode]
        judge(c, ds, out, a, cols, off, oe, track, "%s %s" % (t, mode))
        c.ok("ubtracted" in str(out[0].ext_hdr["HISTORY"][-1]), "history", "history %s" % out[0].ext_hdr["HISTORY"][-1:])
    c.sig(t, mode, right, nm is None, nl, n)
    c.sample({"geometry": {k: v for k, v in g.items()}, "mode": mode})


@SUITE.workload(quick=4, thorough=12)
def flight(c):
    """The flight geometry of each frame type (the default)."""
    rng = c.rng
    t = TYPES[c.index % 4]
    H, W, image, area, cols = FLIGHT[t]
    modes = ["image", "area", "full"] if c.tier == "thorough" else ["image", "area"]
    raw = (rng.standard_normal((H, W), dtype=np.float32) * 30 + rng.normal(0, 300, (H, 1))).astype(float)
    with quiet():
        ds = B.dataset(rng, 1, (H, W), "L1", ext=dict(ARRTYPE=t), data_arr=raw, err=False, extra=False)
        for m in modes:
            out = l1.prescan_biassub(ds, None, return_full_frame=m == "full", use_imaging_area=m == "area")
            judge(c, ds, out, {"image": image, "area": area, "full": (0, H, 0, W)}[m], cols, 0.0, 0.0, False, "flight %s %s" % (t, m))
    c.sig(t, "flight")


@SUITE.workload(quick=24, thorough=150)
def refusals(c):
    """Frames that do not fit are refused."""
    rng = c.rng
    t = TYPES[c.index % 4]
    g = geometry(rng)
    for k in ("_area", "_cols", "_right"):
        g.pop(k)
    H, W = g["frame_rows"], g["frame_cols"]
    kind = ["rows", "cols", "type", "swapped"][(c.index // 4) % 4]
    shp = {"rows": (H + int(rng.choice([-1, 1])), W), "cols": (H, W + int(rng.choice([-1, 1]))), "type": (H, W), "swapped": (W, H)}[kind]
    if kind == "swapped" and W == H:
        return
    with quiet():
        ds = B.dataset(rng, int(rng.integers(1, 3)), shp, "L1", ext=dict(ARRTYPE="XYZ" if kind == "type" else t))
        c.raises(Exception, lambda: l1.prescan_biassub(ds, detector_regions={t: g, "XYZ": g}), "unfit-accepted:" + kind,
                 "%s frame of shape %s with geometry %s" % (ds[0].ext_hdr["ARRTYPE"], shp, (H, W)))
    c.sig(t, kind)


@SUITE.workload(quick=30, thorough=300)
def invariance(c):
    """Adding a constant to a whole row changes nothing; a contaminated minority of prescan pixels hardly matters."""
    rng = c.rng
    g = geometry(rng)
    for k in ("_area", "_right"):
        g.pop(k)
    cols = g.pop("_cols")
    H, W = g["frame_rows"], g["frame_cols"]
    raw = np.round(rng.normal(1000, 50, (H, W)))
    row = np.round(rng.normal(0, 1000, (H, 1)))
    full = bool(rng.random() < .5)
    with quiet():
        a, b = [l1.prescan_biassub(B.dataset(rng, 1, (H, W), "L1", data_arr=x.copy()), detector_regions={"SCI": g}, return_full_frame=full)[0].data
                for x in (raw, raw + row)]
        c.close(a, b, "row-offset-leaks", "a constant added to each row changes the result", rtol=0, atol=1e-6)
        n = cols[1] - cols[0]
        k = (n - 1) // 2
        if k:
            bad = raw.copy()
            for r in range(H):
                bad[r, cols[0] + rng.choice(n, k, replace=False)] = 1e7
            d = l1.prescan_biassub(B.dataset(rng, 1, (H, W), "L1", data_arr=bad), detector_regions={"SCI": g})[0].data
            e = l1.prescan_biassub(B.dataset(rng, 1, (H, W), "L1", data_arr=raw.copy()), detector_regions={"SCI": g})[0].data
            lim = raw[:, cols[0]:cols[1]].max() - raw[:, cols[0]:cols[1]].min()
            r0, c0 = g["image"]["r0c0"]
            hh, ww = g["image"]["rows"], g["image"]["cols"]
            c.ok(np.all(np.abs(bad - raw)[r0:r0 + hh, c0:c0 + ww].max() > 1e6) or np.all(np.abs(d - e) <= lim + 1e-6), "bias-not-robust",
                 "contaminating %d of %d bias pixels moves the bias by more than their spread" % (k, n))
    c.sig(full, cols[1] - cols[0])


@SUITE.workload(quick=30, thorough=300)
def regions(c):
    """A section put back into an otherwise constant frame lands where it was cut, and what does not fit is refused."""
    rng = c.rng
    t = TYPES[c.index % 4]
    g = geometry(rng)
    for k in ("_area", "_cols", "_right"):
        g.pop(k)
    full = rng.normal(0, 1, (g["frame_rows"], g["frame_cols"]))
    keep = copy.deepcopy(g)
    for key in ("image", "prescan", "prescan_reliable", "parallel_overscan", "serial_overscan"):
        r, k = g[key]["r0c0"]
        at = (slice(r, r + g[key]["rows"]), slice(k, k + g[key]["cols"]))
        cut = detector.slice_section(full, t, key, {t: g})
        c.equal(np.array(cut), full[at], "section", "%s %s" % (t, key))
        pad = float(rng.choice([0, 1, -3.5, np.nan]))
        got = detector.embed(np.array(cut), t, key, pad, {t: g})
        want = np.full(full.shape, pad)
        want[at] = full[at]
        c.equal(got, want, "embedded", "%s %s with %s" % (t, key, pad))
        c.raises(Exception, lambda: detector.embed(np.ones((g[key]["rows"] + 1, g[key]["cols"] + 2)), t, key, pad, {t: g}), "embed-misfit", "too large a section")
        rows, cols, r0 = detector.unpack_geom(t, key, {t: g})
        c.equal([int(rows), int(cols), int(r0[0]), int(r0[1])], [g[key]["rows"], g[key]["cols"], r, k], "unpack", key)
    c.ok(g == keep, "regions-changed", "the geometry was modified")
    c.see("sections", 5)
    c.sig("regions", t, full.shape)
