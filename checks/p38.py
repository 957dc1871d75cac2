"""P38: frames of a pupil-imaging campaign are sorted into mean frame, K-gain and non-linearity sets."""
import numpy as np
import corgidrp.data as data
import corgidrp.sorting as sorting
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P38", "one distinct situation = order of the blocks of a campaign x kind of calibration x decoys present x order of the frames: the sets chosen must be exactly the blocks taken for them")


def campaign(rng, decoys=None):
    """Blocks of (gain, exposure time, set) in the order taken."""
    times = lambda n, lo=0.: np.cumsum(np.round(rng.uniform(.05, 2, n), 3) + .001).round(3) + lo
    nk, per = int(rng.integers(3, 9)), int(rng.integers(2, 6))
    nmean = 2 * per + nk + int(rng.integers(4, 14))
    kt = times(nk)
    mean_t = float(np.round(rng.uniform(1, 20), 3)) + .0005
    blocks = [[(1., mean_t, "MNFRAME")] * nmean]
    blocks.append([(1., float(t), "KGAIN") for t in list(kt) + [kt[int(rng.integers(0, nk - 1))]] for _ in range(per)])
    kinds = ["emgain", "meanlike", "kshort", "kbroken", "kuneven", "single", "nlshort", "nlother"]
    decoys = sorted(str(v) for v in rng.choice(kinds, int(rng.integers(0, 5)), replace=False)) if decoys is None else decoys
    gains = np.round(1.5 + np.cumsum(rng.uniform(.5, 50, int(rng.integers(1, 5)))), 2)
    same = rng.random() < .5
    t0 = times(int(rng.integers(4 if "nlshort" in decoys else 2, 10)))
    nl = []
    for g in gains:
        t = t0 if same else times(int(rng.integers(4 if "nlshort" in decoys else 2, 10)))
        one = [(float(g), float(v), "NONLIN") for v in list(t) + [t[int(rng.integers(0, min(5, len(t) - 1)))]]]
        if "nlshort" in decoys and rng.random() < .6:
            # a shorter series of the same gain, starting with a shorter exposure
            u = np.concatenate([[t[0] / 2 if rng.random() < .5 else t[0] / 3], t[:len(t) - 2] + .0003])
            short = [(float(g), float(v), "") for v in list(u) + [u[0]]]
            one = one + short if rng.random() < .5 else [(a, b * (1 + 20 * t[-1]), n) for a, b, n in short] + one
        if "nlother" in decoys and rng.random() < .6:
            # frames of the same gain for something else
            other = [(float(g), float(t[-1] + 1.7), "")] * int(rng.integers(1, 4))
            one = one + other if "nlshort" in decoys or rng.random() < .5 else other + one
        nl += one
    blocks.append(nl)
    if "emgain" in decoys:
        b = [(1., mean_t if rng.random() < .5 else 2 * mean_t, "")] * int(rng.integers(1, 4))
        for g in np.round(rng.uniform(1.001, 1.49, int(rng.integers(2, 12))), 4):
            b = b + [(float(g), mean_t, "")] * int(rng.integers(1, 6))
        blocks.append(b)
    if "meanlike" in decoys:
        blocks.append([(1., mean_t, "")] * int(rng.integers(1, nmean - 1)))
    if "kshort" in decoys:
        # a shorter series of the same make
        t = times(nk - 1)
        blocks.append([(1., float(v), "") for v in list(t) + [t[0]] for _ in range(per)])
    if "kbroken" in decoys:
        t = times(nk + 3)[::-1]
        blocks.append([(1., float(v), "") for v in t for _ in range(per)])
    if "kuneven" in decoys:
        t = times(nk + 2)
        blocks.append([(1., float(v), "") for i, v in enumerate(list(t) + [t[0]]) for _ in range(per + 1 + (i % 2))])
    if "single" in decoys:
        blocks.append([(1., float(v), "") for v in rng.permutation(times(4, 30.))])
    return blocks, decoys


def frames(rng, blocks, order):
    """Dataset of a campaign in any order and the set each frame number was taken for."""
    fid, rows = int(rng.integers(0, 10 ** int(rng.integers(1, 10)))), []
    for b in order:
        for r in blocks[b]:
            rows.append((fid,) + r)
            fid += 1
        fid += int(rng.integers(1, 4))
    how = int(rng.integers(0, 3))
    if how:
        rows = [rows[i] for i in rng.permutation(len(rows))] if how == 1 else rows[::-1]
    pre = str(rng.choice(["CGI_EXCAM_L1_", "CGI_0200001_v2.1_", "x_"]))
    out = []
    for n, g, t, _ in rows:
        f = B.image(rng, (2, 3), "L1", ext=dict(EMGAIN_C=g, EXPTIME=t), pri=dict(VISTYPE="PUPILIMG", OBSNAME="none"))
        f.filename = "%s%010d.fits" % (pre, n)
        f.filedir = str(rng.choice(["a", "b_1.5"]))
        out.append(f)
    return data.Dataset(out), {r[0]: r[3] for r in rows}, how


NAMES = ["k-gain", "kgain", "K-Gain", "KGAIN", "non-lin", "nonlin", "Non-Linearity", "nonlinearity", "NONLIN"]


@SUITE.workload(quick=60, thorough=3000)
def sort(c):
    rng = c.rng
    blocks, decoys = campaign(rng)
    order = rng.permutation(len(blocks)) if rng.random() < .6 else np.arange(len(blocks))
    with quiet():
        ds, truth, how = frames(rng, blocks, order)
        kind = str(rng.choice(NAMES))
        before = [snap.img(f) for f in ds]
        at = {f.filename: i for i, f in enumerate(ds)}
        out = sorting.sort_pupilimg_frames(ds, kind) if rng.random() < .5 else sorting.sort_pupilimg_frames(ds, cal_type=kind)
    nonlin = kind.lower().startswith("non")
    what = "%s, blocks %s with %s" % (kind, [blocks[b][0][2] or "decoy" for b in order], decoys)
    got = {}
    for f in out:
        c.ok(f.filename in at, "frame", "%s is no frame of the campaign" % f.filename)
        got.setdefault(f.pri_hdr["OBSNAME"], []).append(sorting.extract_frame_id(f.filename))
        i = at[f.filename]
        c.ok(f is not ds[i] and not np.shares_memory(f.data, ds[i].data), "shared", "the sorted frames are the input frames")
        old = ds[i]
        c.ok(np.array_equal(f.data, old.data) and np.array_equal(f.err, old.err) and np.array_equal(f.dq, old.dq), "pixels", "pixels of %s changed" % f.filename)
        c.ok(all(f.ext_hdr[k] == old.ext_hdr[k] for k in ("EXPTIME", "EMGAIN_C")), "header", "header of %s changed" % f.filename)
    for name in ("MNFRAME", "KGAIN", "NONLIN"):
        want = sorted(n for n, s in truth.items() if s == name and (nonlin or s != "NONLIN"))
        c.equal(sorted(got.get(name, [])), want, name.lower(), what)
    c.ok(set(got) <= {"MNFRAME", "KGAIN", "NONLIN"}, "names", "sets %s" % sorted(got))
    c.ok(not any(snap.diff(a, snap.img(f)) for a, f in zip(before, ds)), "input", "the campaign's frames changed")
    hist = " ".join(str(v) for v in out[0].ext_hdr["HISTORY"])
    c.ok(kind.upper() in hist and all(kind.upper() in " ".join(str(v) for v in f.ext_hdr["HISTORY"]) for f in out), "history", hist[-100:])
    c.ok(not snap.coherent(out), "coherent", "%s" % (snap.coherent(out),))
    c.see("frames sorted", len(ds))
    c.see("frames chosen", len(out))
    c.sig(tuple(int(v) for v in order) if len(order) < 5 else tuple(int(v) for v in order[:3]), nonlin, tuple(decoys), how)


@SUITE.workload(quick=40, thorough=600)
def names(c):
    rng = c.rng
    n = int(rng.integers(0, 10 ** int(rng.integers(1, 11))))
    name = "%s_%s.fits" % ("_".join(str(v) for v in rng.choice(["CGI", "EXCAM", "L1", "v1.2", "0001", "a.b"], int(rng.integers(1, 5)))), str(n).zfill(int(rng.choice([1, 10]))))
    c.equal(sorting.extract_frame_id(name), n, "frame-id", name)
    blocks, _ = campaign(rng, [])
    ds, _, _ = frames(rng, blocks[:2], [0, 1])
    bad = str(rng.choice(["", "gain", "k_gain", "dark", "lin", "k-gain2", "nlin"]))
    with quiet():
        c.raises(Exception, lambda: sorting.sort_pupilimg_frames(ds, bad), "kind", "kind of calibration %r" % bad)
    c.see("names read")
    c.sig(name.count("_"), name.count("."), bad)
