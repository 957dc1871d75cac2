"""P16: saturation and cosmic-ray flags mark exactly the pixels they should."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.detector as detector
import corgidrp.l1_to_l2a as l1
from astropy.time import Time
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P16", "one distinct situation = where the hits lie (column 0, end of row, corners, next to each other), filter/box/tail "
              "lengths, image or full frame, gain; the DQ map is compared pixel by pixel with a brute-force flagging")


def filtered(row, size):
    """Running median, window clipped by repeating the edge (upper of the middle two for even sizes)."""
    n = len(row)
    out = []
    for i in range(n):
        w = sorted(row[min(max(j, 0), n - 1)] for j in range(i - size // 2, i - size // 2 + size))
        out.append(w[size // 2])
    return out


def plateau_starts(row, hi, lo, filt):
    starts = set()
    for i, v in enumerate(filtered(row, filt + 1)):
        if v < hi:
            continue
        b = i
        while b > 0 and row[b] >= lo:
            b -= 1
        if row[b] < lo:
            b += 1
        starts.add(b)
    return starts


def cosmic(frame, hi, lo, filt, box, tail, area, wrap, inclusive):
    """Brute-force mask. area: rows/cols of the image; wrap: tails run into the next row.
    inclusive: also count the row/column just past the area as belonging to it (the documentation leaves it open)."""
    H, W = frame.shape
    m = np.zeros((H, W), bool)
    r0, r1, c0, c1 = area
    x = 1 if inclusive and wrap else 0
    for r in range(H):
        if not r0 <= r < r1 + x or max(frame[r]) < hi:
            continue
        for b in plateau_starts(frame[r], hi, lo, filt):
            if not c0 <= b < c1 + x:
                continue
            end = b + filt + tail + 1
            m[r, b:min(end, W)] = True
            for rr in range(max(r - box, r0), min(r + box, r1 + x - 1) + 1):
                for q in range(max(b - box, c0), min(b + box, c1 + x - 1) + 1):
                    if rr < H and q < W:
                        m[rr, q] = True
            if wrap and end > W and r + 1 < H:
                k = end - W - (0 if inclusive else 1)
                m[r + 1, :max(k, 0)] = True
    return m


def paint(rng, frame, top, lo, hi):
    """Hits of every kind."""
    H, W = frame.shape
    kinds = []
    for _ in range(int(rng.integers(0, 6))):
        k = str(rng.choice(["plain", "col0", "end", "corner", "single", "ramp", "double", "edgevalue", "column"]))
        kinds.append(k)
        r, q = int(rng.integers(0, H)), int(rng.integers(0, W))
        L = int(rng.integers(1, 7))
        v = top * float(rng.uniform(1.01, 1.6))
        if k == "plain":
            frame[r, q:q + L] = v
        elif k == "col0":
            frame[r, :L] = v
        elif k == "end":
            frame[r, W - L:] = v
        elif k == "corner":
            frame[int(rng.choice([0, H - 1])), int(rng.choice([0, W - 1]))] = v
        elif k == "single":
            frame[r, q] = v
        elif k == "ramp":
            frame[r, max(q - 3, 0):q] = (lo + hi) / 2 if lo < hi else hi * .99
            frame[r, q:q + L] = v
        elif k == "double":
            frame[r, q:q + L] = v
            frame[r, q + L + 1:q + 2 * L + 1] = v
        elif k == "edgevalue":
            frame[r, q:q + L] = float(rng.choice([hi, np.nextafter(hi, 0), lo, np.nextafter(lo, 0)]))
        elif k == "column":
            frame[:, q] = v
    return kinds


def params(rng, pp, em, kg):
    p = data.DetectorParams({}, date_valid=Time("2023-11-01T00:00:00", scale="utc"))
    p.params.update(FWC_PP_E=pp, FWC_EM_E=em, KGAINPAR=kg)
    return p


@SUITE.workload(quick=150, thorough=2500)
def step(c):
    """The whole step, image and full frames, all options, gains from all sources."""
    rng = c.rng
    full = bool(rng.random() < .4)
    R = B.SMALL["SCI"]
    shp = (R["frame_rows"], R["frame_cols"]) if full else (int(rng.integers(5, 16)), int(rng.integers(8, 30)))
    n = int(rng.integers(1, 4))
    dflt = rng.random() < .2
    # powers of two: thresholds are exact however they are computed
    kg = float(rng.choice([4, 8, 16]))
    pp, em = float(rng.choice([65536, 131072])), float(rng.choice([131072, 262144]))
    sat = .7 if dflt else float(rng.choice([.5, .75, .875]))
    plat = .7 if dflt else float(rng.choice([.5, .75, .25]))
    plat = min(plat, sat) if rng.random() < .8 else plat
    filt, box, tail = (1, 3, 10) if dflt else (int(rng.integers(1, 5)), int(rng.integers(0, 5)), int(rng.integers(0, 25)))
    hi, lo = sat * (em / kg), plat * (em / kg)
    ext, gains = [], []
    for i in range(n):
        e = dict(EMGAIN_C=float(rng.choice([1, 2, 4, 1024])), EMGAIN_A=float(rng.choice([-1, 0, 2, 1, 512])))
        g = e["EMGAIN_A"] if e["EMGAIN_A"] > 0 else e["EMGAIN_C"]
        if rng.random() < .3:
            e["EMGAIN_M"] = g = float(rng.choice([1, 2, .5]))
        ext.append(e)
        gains.append(g)
    regions = dict(B.SMALL)
    if full and rng.random() < .5:
        # frames of another kind with an image area of their own
        rows, cols = int(rng.integers(4, shp[0])), int(rng.integers(4, shp[1]))
        regions["ENG"] = dict(R, image=dict(rows=rows, cols=cols, r0c0=[int(rng.integers(0, shp[0] - rows)), int(rng.integers(0, shp[1] - cols))]))
        for e in ext:
            e["ARRTYPE"] = str(rng.choice(["SCI", "ENG"]))
    with quiet():
        ds = B.dataset(rng, n, shp, "L1", ext_list=ext)
        kinds = []
        for f in ds:
            f.data[:] = rng.normal(0, .01 * hi, shp)
            kinds += paint(rng, f.data, hi, lo, hi)
        use_k = bool(rng.random() < .5)
        det = params(rng, pp, em, kg if not use_k else kg * 2)
        kgo = B.kgain(rng, kg, .1) if use_k else None
        kw = dict(detector_regions=regions) if full or rng.random() < .5 else {}
        if not dflt:
            kw.update(sat_thresh=sat, plat_thresh=plat, cosm_filter=filt, cosm_box=box, cosm_tail=tail)
        out = l1.detect_cosmic_rays(ds, det, kgo, mode="full" if full else "image", **kw)
        for i, (a, b) in enumerate(zip(ds, out)):
            I = regions[a.ext_hdr["ARRTYPE"]]["image"]
            r, q = I["r0c0"]
            area = (r, r + I["rows"], q, q + I["cols"]) if full else (0, shp[0], 0, shp[1])
            thr = sat * min(gains[i] * pp / kg, em / kg)
            c.close(b.ext_hdr["SAT_DN"], thr, "sat-threshold", "recorded saturation threshold (gain %s)" % gains[i], rtol=1e-12)
            c.ok(b.ext_hdr["FWC_PP_E"] == pp and b.ext_hdr["FWC_EM_E"] == em, "fwc-header", "full-well values in the header")
            got = b.dq & ~a.dq
            want = a.data >= thr
            near = np.abs(a.data / thr - 1) < 1e-12
            ok_exact = not dflt
            bad = ((b.dq & 32) > 0) != (want | ((a.dq & 32) > 0))
            if not ok_exact:
                bad &= ~near
            c.ok(not bad.any(), "saturation", "frame %d: saturation flag wrong at %s (data %s, threshold %s)" % (
                i, np.argwhere(bad)[:2].tolist(), a.data[bad][:2], thr))
            must = cosmic(a.data, hi, lo, filt, box, tail, area, full, False)
            may = cosmic(a.data, hi, lo, filt, box, tail, area, full, True) if full else must
            is_ = (b.dq & 128) > 0
            old = (a.dq & 128) > 0
            miss, extra = must & ~is_, is_ & ~may & ~old
            if dflt and near.any():
                continue
            c.ok(not miss.any(), "cosmic-missed", "frame %d (%s, filter %d box %d tail %d, hits %s): not flagged at %s" % (
                i, "full" if full else "image", filt, box, tail, kinds, np.argwhere(miss)[:3].tolist()))
            c.ok(not extra.any(), "cosmic-extra", "frame %d (%s, filter %d box %d tail %d, hits %s): flagged without cause at %s" % (
                i, "full" if full else "image", filt, box, tail, kinds, np.argwhere(extra)[:3].tolist()))
            c.see("flagged_pixels", int(is_.sum()))
            c.ok(not (got & ~(32 | 128)).any(), "other-flags", "flags other than saturation and cosmic ray were raised")
            c.equal(b.data, a.data, "data-touched", "cosmic ray detection changed the data")
    c.sig(sorted(set(kinds)), full, filt, min(box, 4), tail > 10, min(gains))
    c.sample({"hits": kinds, "filter": filt, "box": box, "tail": tail, "mode": "full" if full else "image"})


@SUITE.workload(quick=200, thorough=3000)
def plateaus(c):
    """The plateau finder on single rows, including rows full of hits."""
    rng = c.rng
    W = int(rng.integers(3, 40))
    fwc, sat, plat = 1024.0, float(rng.choice([.5, .75, 1.])), float(rng.choice([.25, .5, .75]))
    filt = int(rng.integers(1, 6))
    row = np.zeros(W)
    p = float(rng.uniform(.1, .9))
    i = 0
    while i < W:
        L = int(rng.integers(1, 8))
        row[i:i + L] = rng.choice([0., plat * fwc, sat * fwc, 2 * fwc, np.nextafter(sat * fwc, 0), np.nextafter(plat * fwc, 0)]) if rng.random() < p else 0
        i += L
    with quiet():
        got = detector.find_plateaus(row, fwc, sat, plat, filt)
        want = sorted(plateau_starts(row, sat * fwc, plat * fwc, filt))
        c.ok((got is None and not want) or (got is not None and [int(x) for x in got] == want), "plateau-start",
             "row %s (filter %d): starts %s, expected %s" % ((row / fwc).tolist(), filt, got, want))
        c.see("plateaus", len(want))
    c.sig(W // 8, filt, len(want), sat > plat)


@SUITE.workload(quick=40, thorough=400)
def thresholds(c):
    """The saturation threshold is the lower of the two full wells."""
    rng = c.rng
    n = int(rng.integers(1, 6))
    g, pp, em, s = rng.uniform(1, 5000, n), rng.uniform(1e3, 1e5, n), rng.uniform(1e3, 1e5, n), float(rng.uniform(.1, 1))
    with quiet():
        got = detector.calc_sat_fwc(g, pp, em, s)
    c.close(got, [s * (a * b if a * b < d else d) for a, b, d in zip(g, pp, em)], "sat-threshold", "thresholds", rtol=1e-12)
    c.sig(n, (g * pp < em).tolist())


@SUITE.workload(quick=30, thorough=300)
def metamorphic(c):
    """More hits never mean fewer flags; scaling data and full well together changes nothing."""
    rng = c.rng
    shp = (int(rng.integers(6, 14)), int(rng.integers(10, 30)))
    em, kg = 131072.0, 8.0
    with quiet():
        ds = B.dataset(rng, 1, shp, "L1", dq=False)
        ds[0].data[:] = rng.normal(0, 10, shp)
        hi = .75 * em / kg
        paint(rng, ds[0].data, hi, hi * .9, hi)
        kw = dict(sat_thresh=.75, plat_thresh=.5, cosm_filter=int(rng.integers(1, 4)), cosm_box=int(rng.integers(0, 4)), cosm_tail=int(rng.integers(0, 12)))
        a = l1.detect_cosmic_rays(ds, params(rng, em, em, kg), **kw)[0].dq
        b2 = ds.copy()
        b2.all_data[:] *= 4
        b = l1.detect_cosmic_rays(b2, params(rng, em * 4, em * 4, kg), **kw)[0].dq
        c.equal(a, b, "scaling", "scaling data and full wells by 4 changes the flags")
        d2 = B.dataset(rng, 1, (shp[0] * 2, shp[1]), "L1", dq=False)
        d2[0].data[:] = np.concatenate([ds[0].data, ds[0].data])
        d = l1.detect_cosmic_rays(d2, params(rng, em, em, kg), **dict(kw, cosm_box=0))[0].dq
        e = l1.detect_cosmic_rays(ds, params(rng, em, em, kg), **dict(kw, cosm_box=0))[0].dq
        c.equal(d, np.concatenate([e, e]), "rows-independent", "rows influence each other without a box")
    c.sig(shp[1] // 5, sorted(kw.items())[0:2])
