"""P18: detector noise maps, the darks synthesized from them, and dark subtraction."""
import os
import numpy as np
import corgidrp
import corgidrp.darks as darks
import corgidrp.data as data
import corgidrp.l2a_to_l2b as l2
from vlib.core import Suite, quiet
from vlib import build as B
from checks.p15 import geometry

SUITE = Suite("P18", "one distinct situation = number of stacks x frames x source of the gain x masking pattern x geometry (maps), or frame size x gain x "
              "kind of dark (use); every pixel of the three maps, their errors and flags is recomputed with an independent per-pixel fit")


def region(rng):
    while True:
        g = geometry(rng)
        if not g["_right"]:
            break
    area, cols = g.pop("_area"), g.pop("_cols")
    g.pop("_right")
    return {"SCI": g}, area


def params(t0, t1):
    return data.DetectorParams({"TELRSTRT": t0, "TELREND": t1})


def stacks(rng, regions, area, M, N, exact=False, masks=True, full_masks=0, srcs=("C", "A", "M"), kvary=True, telem=True):
    g = regions["SCI"]
    shp = (g["frame_rows"], g["frame_cols"])
    while True:
        gs = np.round(rng.uniform(1, 60, M), 3)
        ts = np.round(rng.uniform(0, 40, M), 3)
        k = rng.random()
        if k < .5:      # a few shared settings, as in a real campaign
            gs, ts = rng.choice(gs[:max(2, M - 2)], M), rng.choice(ts[:max(2, M - 2)], M)
        X = np.array([np.ones(M), gs, gs * ts]).T
        if len(set(zip(gs, ts))) == M and len(set(gs)) > 1 and len(set(ts)) > 1 and np.linalg.svd(X / np.abs(X).max(0))[1][-1] > 3e-2:
            break
    F, C, D = rng.normal(30, 8, shp), rng.uniform(.5, 4, shp), rng.uniform(.01, .4, shp)
    C, D = C * float(rng.choice([1, .01])), D * float(rng.choice([1, 1e-3]))     # the real detector is about this quiet
    if not exact:
        m = rng.random(shp) < .2
        C[m] *= -1
        m = rng.random(shp) < .2
        D[m] *= -1
    pm = np.ones(shp, bool)
    pm[area[0]:area[1], area[2]:area[3]] = False
    D[pm] = 0
    k0 = float(rng.uniform(2, 12))
    src = str(rng.choice(list(srcs)))
    frames = []
    hdr = []
    cmd = {}
    for j in range(M):
        e = dict(EXPTIME=float(ts[j]), EMGAIN_C=float(gs[j]), EMGAIN_A=float(rng.choice([-1., 0.])), KGAINPAR=k0 + (.5 * (j % 2) if kvary else 0))
        if src == "A":
            e.update(EMGAIN_C=float(2 * gs[j]), EMGAIN_A=float(gs[j]))
        elif src == "M":
            e.update(EMGAIN_C=float(2 * gs[j]), EMGAIN_A=float(gs[j] * 1.5), EMGAIN_M=float(gs[j]))
        hdr.append(e)
        full = np.zeros(shp, bool)
        for i in range(N):
            d = F + gs[j] * C + gs[j] * ts[j] * D
            if not exact:
                d = d + rng.normal(0, 20, shp)
            fr = B.image(rng, shp, "L2a", j * N + i, data_arr=d, dq=False, extra=False, ext=e, nlayers=1)
            if masks:
                q = B.dq_map(rng, shp, .25)
                if i == 0:
                    q[:] = 0        # each stack keeps one good frame, unless masked on purpose below
                fr.dq = q.astype(fr.dq.dtype)
            frames.append(fr)
    # pixels without any good frame in some stacks (never in the prescan, where the offset is measured)
    for _ in range(full_masks):
        r, c = int(rng.integers(area[0], area[1])), int(rng.integers(area[2], area[3]))
        bad = rng.choice(M, int(rng.integers(1, M + 1)), replace=False)
        for f, fr in enumerate(frames):
            if f // N in bad:
                fr.dq[r, c] = int(rng.choice(B.FLAGS))
    t0 = max(area[1], g["image"]["r0c0"][0] + g["image"]["rows"])
    H = shp[0]
    tel = (H, H)
    if telem and rng.random() < .7:
        a = int(rng.integers(g["image"]["r0c0"][0] + g["image"]["rows"], H))
        tel = (a, int(rng.integers(a, H)) + 1)
    order = rng.permutation(len(frames))
    for i, o in enumerate(order):
        frames[o].filename = B.fname(i, "L2a")
    frames = [frames[o] for o in order]
    group = [int(o) // N for o in order]
    for fr in frames:
        fr.data[slice(*tel)] += 5000       # telemetry
    return frames, group, hdr, gs, ts, (F, C, D), tel, src


def model(frames, group, hdr, gs, ts, tel, area, shp):
    M = len(gs)
    n = len(frames) // M
    means, errs, good = [], [], []
    for j in range(M):
        fr = [f for f, k in zip(frames, group) if k == j]
        w = np.array([f.dq == 0 for f in fr]).astype(float)
        x = np.array([f.data for f in fr])
        e = np.array([f.err[0] for f in fr])
        x = x.copy()
        x[:, slice(*tel)] = 0
        cnt = w.sum(0)
        mu = (w * x).sum(0) / cnt
        var = (w * (x - mu) ** 2).sum(0) / cnt
        er2 = (w * e ** 2).sum(0) / cnt       # the package's convention: mean of the variances
        means.append(mu)
        errs.append(er2 + var / cnt)
        good.append(cnt)
    means, errs, good = np.array(means), np.array(errs), np.array(good)
    means[:, slice(*tel)] = np.nan
    X = np.array([np.ones(M), gs, gs * ts]).T
    out = np.zeros((3,) + shp)
    sd = np.zeros((3,) + shp)
    res = np.full((M,) + shp, np.nan)
    cov = np.linalg.inv(X.T @ X)
    for r in range(shp[0]):
        for c in range(shp[1]):
            y = means[:, r, c]
            ok = good[:, r, c] > 0       # a stack without a good frame says nothing about the pixel
            if np.isnan(y[ok]).any() or ok.sum() < 4 or np.linalg.matrix_rank(X[ok]) < 3:
                out[:, r, c] = sd[:, r, c] = np.nan
                continue
            b = np.linalg.lstsq(X[ok], y[ok], rcond=None)[0]
            res[ok, r, c] = y[ok] - X[ok] @ b
            s2 = (res[ok, r, c] ** 2).sum() / (ok.sum() - 3)
            out[:, r, c] = b
            sd[:, r, c] = np.sqrt(s2 * np.diag(cov if ok.all() else np.linalg.inv(X[ok].T @ X[ok])))
    return means, errs, good, out, sd, res


def check_maps(c, nm, frames, group, hdr, gs, ts, tel, regions, area, skip=None):
    g = regions["SCI"]
    shp = (g["frame_rows"], g["frame_cols"])
    M = len(gs)
    N = len(frames) // M
    means, errs, good, out, sd, res = model(frames, group, hdr, gs, ts, tel, area, shp)
    empty = (good == 0)
    X = np.array([np.ones(M), gs, gs * ts]).T
    rank = np.array([[np.linalg.matrix_rank(X[~empty[:, r, k]]) if 0 < empty[:, r, k].sum() < M else 3 for k in range(shp[1])] for r in range(shp[0])])
    unfit = (empty.sum(0) >= M - 3)
    use = ~unfit & (rank == 3)
    c.see("pixels fitted without some stacks", (use & empty.any(0)).sum())
    F, C, D = out
    inim = np.zeros(shp, bool)
    inim[area[0]:area[1], area[2]:area[3]] = True
    telm = np.zeros(shp, bool)
    telm[slice(*tel)] = True
    def cmp(got, want, key, tol=1e-6, use=use):
        c.close(got[use], want[use], key, key, rtol=tol, atol=tol)
        c.see("pixels", use.sum())
    cmp(nm.FPN_map, F, "F-map")
    cmp(nm.CIC_map, np.where(C < 0, 0, C), "C-map")
    wantD = np.where(inim, np.where(D < 0, 0, D), np.where(telm, np.nan, 0))
    cmp(nm.DC_map, wantD, "D-map")
    cmp(nm.FPN_err, sd[0], "F-error", 1e-5)
    st = np.sqrt(errs.sum(0) / np.sqrt(M))
    cmp(nm.CIC_err, np.sqrt(sd[1] ** 2 + st ** 2), "C-error", 1e-5, use & ~empty.any(0))
    cmp(nm.DC_err, np.where(inim, sd[2], 0), "D-error", 1e-5)
    few = (good < N / 2).sum(0) >= M - 3
    none = unfit | (rank < 3)
    want = np.where(none, 1, np.where(few, 256, 0))
    for k in range(3):
        c.equal(nm.dq[k], want, "map-flags", "flags of map %d (M=%d, N=%d)" % (k, M, N))
    p = g["prescan"]
    r0, c0 = p["r0c0"]
    sl = (slice(r0, r0 + p["rows"]), slice(c0, c0 + p["cols"]))
    k = np.array([h["KGAINPAR"] for h in hdr])
    bo = np.mean([np.nanmedian(res[j][sl]) / k[j] for j in range(M)])
    c.close(nm.ext_hdr["B_O"], bo, "bias-offset", "bias offset", rtol=1e-6, atol=1e-8)
    up, lo = [], []
    for j in range(M):
        spread = st + gs[j] * sd[1] + sd[0] + gs[j] * ts[j] * sd[2]
        up.append(np.nanmedian((res[j] + spread)[sl]) / k[j])
        lo.append(np.nanmedian((res[j] - spread)[sl]) / k[j])
    c.close(nm.ext_hdr["B_O_ERR"], max(np.mean(up) - bo, bo - np.mean(lo)), "bias-offset-error", "bias offset error", rtol=1e-5, atol=1e-8)
    c.ok(nm.ext_hdr["B_O_UNIT"] == "DN" and nm.ext_hdr["BUNIT"] == "Detected Electrons" and nm.ext_hdr["EXPTIME"] is None and
         nm.ext_hdr["EMGAIN_C"] is None and nm.ext_hdr["KGAINPAR"] is None and nm.ext_hdr.get("EMGAIN_M") is None, "map-headers",
         "headers of the noise maps: %s" % {x: nm.ext_hdr.get(x) for x in ("B_O_UNIT", "BUNIT", "EXPTIME", "EMGAIN_C", "KGAINPAR")})
    c.ok(type(nm) is data.DetectorNoiseMaps and nm.data.shape == (3,) + shp, "map-shape", "type %s shape %s" % (type(nm), nm.data.shape))


@SUITE.workload(quick=36, thorough=400)
def maps(c):
    """Random campaigns of darks; every pixel of every map against an independent fit."""
    rng = c.rng
    regions, area = region(rng)
    M, N = int(rng.integers(4, 8)), int(rng.integers(1, 6))
    masks = bool(rng.random() < .7)
    fm = int(rng.integers(0, 4)) if rng.random() < .6 else 0
    with quiet():
        frames, group, hdr, gs, ts, truth, tel, src = stacks(rng, regions, area, M, N, masks=masks, full_masks=fm)
        ds = data.Dataset(frames)
        nm = darks.calibrate_darks_lsq(ds, params(*tel), regions)
        check_maps(c, nm, frames, group, hdr, gs, ts, tel, regions, area)
        c.ok(nm.filename == frames[-1].filename.replace("_L2a.fits", "_DNM_CAL.fits").replace("_L2a", ""), "map-name", nm.filename)
        if c.index % 3 == 0:
            with c.scratch():
                nm.save(filedir=".", filename="d_DNM_CAL.fits")
                back = data.DetectorNoiseMaps("d_DNM_CAL.fits")
                c.close(back.data, nm.data, "map-saved", "maps read back", rtol=1e-12)
                c.close(back.bias_offset, nm.ext_hdr["B_O"], "map-saved", "offset read back", rtol=1e-10)
    c.sig(M, N, masks, min(fm, 2), src, tel[0] == tel[1])
    c.sample({"gains": list(map(float, gs)), "times": list(map(float, ts)), "frames": N})


@SUITE.workload(quick=12, thorough=120)
def recovery(c):
    """Frames made exactly from three maps give these maps back, with zero fit error, whatever the order of the frames."""
    rng = c.rng
    regions, area = region(rng)
    M, N = int(rng.integers(4, 8)), int(rng.integers(1, 4))
    with quiet():
        frames, group, hdr, gs, ts, (F, C, D), tel, src = stacks(rng, regions, area, M, N, exact=True)
        nm = darks.calibrate_darks_lsq(data.Dataset(frames), params(*tel), regions)
        ok = np.ones(F.shape, bool)
        ok[slice(*tel)] = False
        for got, want, k in ((nm.FPN_map, F, "F"), (nm.CIC_map, C, "C"), (nm.DC_map, D, "D")):
            c.close(got[ok], want[ok], "recover-" + k, k, rtol=1e-4, atol=1e-4 if k == "F" else 1e-6)
        c.close(nm.ext_hdr["B_O"], 0, "recover-offset", "offset", atol=1e-4)
        # a bias common to the prescan of a frame set shows up in F there, the offset stays the residual
        p = rng.permutation(len(frames))
        nm2 = darks.calibrate_darks_lsq(data.Dataset([frames[i] for i in p]), params(*tel), regions)
        c.close(nm2.data, nm.data, "map-order", "another order of the frames", rtol=1e-7, atol=1e-6)
        c.close(nm2.err, nm.err, "map-order", "errors, another order of the frames", rtol=1e-6, atol=1e-6)
    c.sig(M, N, src)


@SUITE.workload(quick=6, thorough=30)
def empty_substack(c):
    """A pixel without any good frame in one stack (such as one saturating at high gain): fitted from the others, or flagged."""
    rng = c.rng
    regions, area = region(rng)
    M, N = 7, 2
    with quiet():
        frames, group, hdr, gs, ts, (F, C, D), tel, src = stacks(rng, regions, area, M, N, exact=True, masks=False)
        r, col = int(rng.integers(area[0], area[1])), int(rng.integers(area[2], area[3]))
        while tel[0] <= r < tel[1]:
            r = int(rng.integers(area[0], area[1]))
        j = int(np.argmax(gs))
        for f, k in zip(frames, group):
            if k == j:
                f.dq[r, col] = 32
        nm = darks.calibrate_darks_lsq(data.Dataset(frames), params(*tel), regions)
        got = np.array([nm.FPN_map[r, col], nm.CIC_map[r, col], nm.DC_map[r, col]])
        want = np.array([F[r, col], C[r, col], D[r, col]])
        if nm.dq[0, r, col] == 0 and not np.allclose(got, want, rtol=1e-3, atol=1e-3):
            X = np.array([np.ones(M), gs, gs * ts]).T
            y = X @ want
            y[j] = 0
            asis = np.linalg.lstsq(X, y, rcond=None)[0]
            asis[1:] = np.maximum(asis[1:], 0)
            same = np.allclose(got, asis, rtol=1e-3, atol=1e-3)
            c.fail("empty-substack" + ("-counted-as-zero" if same else ""), "pixel masked in all frames of 1 of %d stacks: maps %s, truth %s, flag 0" % (M, got, want))
    c.sig(M, src)


@SUITE.workload(quick=36, thorough=300)
def refusals(c):
    """Campaigns that cannot be fitted are refused."""
    rng = c.rng
    regions, area = region(rng)
    kinds = ["three", "uneven", "one-gain", "low-gain", "one-time", "neg-time", "kgain", "duplicate", "telemetry"]
    kind = kinds[c.index % len(kinds)]
    M, N = int(rng.integers(4, 6)), 2
    exc = darks.CalDarksLSQException
    with quiet():
        frames, group, hdr, gs, ts, truth, tel, src = stacks(rng, regions, area, M, N, srcs=("C",), kvary=False, telem=False)
        j = int(rng.integers(M))
        mine = [f for f, k in zip(frames, group) if k == j]
        if kind == "three":
            keep = rng.choice(M, 3, replace=False)
            frames = [f for f, k in zip(frames, group) if k in keep]
        elif kind == "uneven":
            frames = [f for f in frames if f is not mine[0]]
        elif kind == "one-gain":
            for f, k in zip(frames, group):
                f.ext_hdr["EMGAIN_C"] = 5.0
                f.ext_hdr["EXPTIME"] = 1.0 + k
        elif kind == "low-gain":
            for f in mine:
                f.ext_hdr["EMGAIN_C"] = float(rng.choice([.5, .999, 0.]))
        elif kind == "one-time":
            for f, k in zip(frames, group):
                f.ext_hdr["EMGAIN_C"] = 1.0 + k
                f.ext_hdr["EXPTIME"] = 3.0
        elif kind == "neg-time":
            for f in mine:
                f.ext_hdr["EXPTIME"] = -float(rng.uniform(.01, 3))
        elif kind == "kgain":
            for f in mine:
                f.ext_hdr["KGAINPAR"] = float(rng.choice([0., -1.]))
        elif kind == "duplicate":
            o = (j + 1) % M
            how = rng.random() < .5
            for f in mine:     # same gain and time as another stack, told apart only by the k gain or the commanded gain
                f.ext_hdr["EXPTIME"] = float(ts[o])
                if how:
                    f.ext_hdr["EMGAIN_C"] = float(gs[o])
                    f.ext_hdr["KGAINPAR"] = f.ext_hdr["KGAINPAR"] + 1.0
                else:
                    f.ext_hdr["EMGAIN_C"] = float(gs[o]) + 3.0
                    f.ext_hdr["EMGAIN_A"] = float(gs[o])
        elif kind == "telemetry":
            im = regions["SCI"]["image"]
            a = im["r0c0"][0] + int(rng.integers(im["rows"]))
            tel = (a, a + int(rng.integers(1, 4)))
            exc = ValueError
        ds = data.Dataset(frames)
        c.raises(exc, lambda: darks.calibrate_darks_lsq(ds, params(*tel), regions), "refuse:" + kind, "campaign with %s" % kind)
    c.sig(kind, M)


def gains(rng):
    g = float(np.round(rng.uniform(1, 100), 3)) if rng.random() < .9 else 1.0
    src = str(rng.choice(["C", "A", "M", "Mlow"]))
    e = dict(EMGAIN_C=g, EMGAIN_A=float(rng.choice([-1., 0.])))
    if src == "A":
        e = dict(EMGAIN_C=3 * g, EMGAIN_A=g)
    elif src == "M":
        e = dict(EMGAIN_C=3 * g, EMGAIN_A=2 * g, EMGAIN_M=g)
    elif src == "Mlow":
        e = dict(EMGAIN_C=3 * g, EMGAIN_A=-1., EMGAIN_M=g)
    return g, src, e


@SUITE.workload(quick=60, thorough=800)
def synthesized(c):
    """Dark built from noise maps, and its use on frames."""
    rng = c.rng
    regions, area = region(rng)
    G = regions["SCI"]
    shp = (G["frame_rows"], G["frame_cols"])
    full = bool(rng.random() < .5)
    track = bool(rng.random() < .4)
    corgidrp.track_individual_errors = track
    g, src, e = gains(rng)
    t = float(rng.choice([0., float(np.round(rng.uniform(.01, 200), 3))]))
    n = int(rng.integers(1, 4))
    im = G["image"]
    sl = (slice(im["r0c0"][0], im["r0c0"][0] + im["rows"]), slice(im["r0c0"][1], im["r0c0"][1] + im["cols"])) if not full else (slice(None), slice(None))
    with quiet():
        nm = B.noise_maps(rng, shp)
        F, C, D = nm.data
        eF, eC, eD = nm.err[0]
        qq = nm.dq[0] | nm.dq[1] | nm.dq[2]
        want = (F / g + t * D + C)[sl]
        werr = np.sqrt((eF / g) ** 2 + (t * eD) ** 2 + eC ** 2)[sl]
        fs = want.shape
        ds = B.dataset(rng, n, fs, "L2a", ext=dict(EXPTIME=t, KGAINPAR=4.2, **e), nlayers=int(rng.integers(1, 3)) if track else 1)
        md = darks.build_synthesized_dark(ds, nm, regions, full)
        c.close(md.data, want, "synthesized-data", "gain %s (%s) time %s full %s" % (g, src, t, full), rtol=1e-10, atol=1e-12)
        c.close(md.err[0], werr, "synthesized-error", "errors", rtol=1e-10, atol=1e-12)
        c.equal(md.dq, qq[sl], "synthesized-flags", "flags")
        c.ok(md.ext_hdr["EXPTIME"] == t and abs(md.ext_hdr["EMGAIN_C"] - g) < 1e-12 and md.ext_hdr["NAXIS1"] == fs[1] and md.ext_hdr["NAXIS2"] == fs[0] and
             md.ext_hdr["DATATYPE"] == "Dark", "synthesized-headers", "headers")
        with c.scratch() as d:
            os.mkdir("out")
            os.mkdir("cwd")
            os.chdir("cwd")
            kw = dict(outputdir=os.path.join(d, "out")) if rng.random() < .7 else {}
            if rng.random() < .3:
                nm.save(filedir=d, filename="x_DNM_CAL.fits")
                nm = data.DetectorNoiseMaps(os.path.join(d, "x_DNM_CAL.fits"))
            out = l2.dark_subtraction(ds, nm, detector_regions=regions, **kw)
            wrote, other = (os.listdir(os.path.join(d, "out")), os.listdir(os.path.join(d, "cwd")))
            if not kw:
                wrote, other = other, wrote
            if c.ok(len(wrote) == 1 and not other, "dark-saved", "files written: %s, elsewhere %s" % (wrote, other)):
                sv = data.Dark(os.path.join(d, "out" if kw else "cwd", wrote[0]))
                c.close(sv.data, want, "dark-saved", "dark written by the step", rtol=1e-10, atol=1e-10)
                c.equal(sv.dq, qq[sl], "dark-saved", "its flags")
                c.close(sv.err[0], werr, "dark-saved", "its errors", rtol=1e-10)
            c.equal(np.array(nm.data), np.stack([F, C, D]), "maps-changed", "the noise maps were modified")
            subtracted(c, ds, out, want, werr, qq[sl], track, wrote[0] if wrote else "")
    c.sig(full, src, t == 0, track, n)
    c.sample({"gain": g, "time": t, "shape": list(shp)})


def subtracted(c, ds, out, d, e, q, track, name):
    for raw, f in zip(ds, out):
        c.close(f.data, raw.data - d, "dark-subtracted", "data minus dark", rtol=1e-10, atol=1e-10)
        c.close(f.err[0], np.sqrt(raw.err[0] ** 2 + e ** 2), "dark-error", "errors in quadrature", rtol=1e-10, atol=1e-12)
        if track:
            c.ok(f.err.shape[0] == raw.err.shape[0] + 1, "dark-error-layer", "%d layers from %d" % (f.err.shape[0], raw.err.shape[0]))
            c.close(f.err[-1], e, "dark-error-layer", "the dark's error layer", rtol=1e-10)
        c.equal(f.dq, raw.dq | q, "dark-flags", "flags combined")
        c.ok(f.ext_hdr["BUNIT"] == "Photoelectrons" == f.err_hdr.get("BUNIT"), "dark-unit", "data in %s, errors in %s" % (f.ext_hdr["BUNIT"], f.err_hdr.get("BUNIT")))
        c.ok(name in "".join(map(str, f.ext_hdr["HISTORY"])).replace("\n", ""), "dark-history", "history does not name the dark %s" % name)
        c.see("pixels", f.data.size)


@SUITE.workload(quick=40, thorough=400)
def traditional(c):
    """Subtraction of a given master dark; darks with other settings are refused."""
    rng = c.rng
    shp = (int(rng.integers(3, 9)), int(rng.integers(3, 9)))
    track = bool(rng.random() < .4)
    corgidrp.track_individual_errors = track
    s = dict(EXPTIME=float(np.round(rng.uniform(.1, 50), 3)), EMGAIN_C=float(np.round(rng.uniform(1, 100), 3)), KGAINPAR=float(np.round(rng.uniform(2, 9), 3)))
    kind = ["fine", "fine", "fine", "EXPTIME", "EMGAIN_C", "KGAINPAR", "pc", "mixed", "type", "analog"][c.index % 10]
    with quiet():
        ds = B.dataset(rng, int(rng.integers(2, 4)), shp, "L2a", ext=s, nlayers=int(rng.integers(1, 3)) if track else 1)
        d = B.dark(rng, shp, s["EXPTIME"], s["EMGAIN_C"], s["KGAINPAR"])
        with c.scratch():
            if kind in ("EXPTIME", "EMGAIN_C", "KGAINPAR"):
                d.ext_hdr[kind] = s[kind] * (1 + float(rng.choice([-1, 1])) * 10 ** float(rng.uniform(-6, 0)) * .9)
            elif kind == "pc":
                d.ext_hdr["PC_STAT"] = "photon-counted master dark"
            elif kind == "analog":
                d.ext_hdr["PC_STAT"] = "analog master dark"
            elif kind == "mixed":
                k = str(rng.choice(list(s)))
                ds[-1].ext_hdr[k] = s[k] + 1
            elif kind == "type":
                d = B.flat(rng, shp)
            if kind in ("fine", "analog"):
                d.filename = "my_dark_%d.fits" % c.index
                if rng.random() < .3:
                    d.save(filedir=".", filename=d.filename)
                    d = data.Dark(d.filename)
                before = (d.data.copy(), d.err.copy(), d.dq.copy())
                out = l2.dark_subtraction(ds, d)
                subtracted(c, ds, out, before[0], before[1][0], before[2], track, d.filename)
                c.ok(not [f for f in os.listdir(".") if f != d.filename], "dark-rewritten", "files appear when a given dark is subtracted: %s" % os.listdir("."))
            else:
                c.raises(Exception, lambda: l2.dark_subtraction(ds, d), "refuse-dark:" + kind, "dark/frames with %s" % kind)
    c.sig(kind, track)


@SUITE.workload(quick=21, thorough=140)
def synth_refusals(c):
    """Noise maps or frames that do not fit are refused."""
    rng = c.rng
    regions, area = region(rng)
    G = regions["SCI"]
    shp = (G["frame_rows"], G["frame_cols"])
    kind = ["negC", "negD", "lowgain", "rows", "cols", "mixed", "frame"][c.index % 7]
    with quiet():
        nm = B.noise_maps(rng, shp)
        ds = B.dataset(rng, 2, shp, "L2a", ext=dict(EXPTIME=1.0, EMGAIN_C=2.0))
        y, x = int(rng.integers(shp[0])), int(rng.integers(shp[1]))
        if kind == "negC":
            nm.CIC_map[y, x] = -1e-6
        elif kind == "negD":
            nm.DC_map[y, x] = -1e-6
        elif kind == "lowgain":
            g = float(rng.choice([.5, .99]))
            e = [dict(EMGAIN_C=g), dict(EMGAIN_A=g, EMGAIN_C=10.), dict(EMGAIN_M=g, EMGAIN_C=10.)][int(rng.integers(3))]
            for f in ds:
                for k, v in e.items():
                    f.ext_hdr[k] = v
        elif kind in ("rows", "cols"):
            nm = B.noise_maps(rng, (shp[0] + (kind == "rows"), shp[1] + (kind == "cols")))
        elif kind == "mixed":
            k = str(rng.choice(["EXPTIME", "EMGAIN_C", "KGAINPAR"]))
            ds[1].ext_hdr[k] = ds[1].ext_hdr[k] + 1
        with c.scratch():
            if kind == "frame":
                ds = B.dataset(rng, 2, (shp[0] - 1, shp[1]), "L2a", ext=dict(EXPTIME=1.0, EMGAIN_C=2.0))
                c.raises(Exception, lambda: l2.dark_subtraction(ds, nm, detector_regions=regions), "refuse-synth:" + kind, kind)
            else:
                exc = Exception if kind == "mixed" else TypeError
                c.raises(exc, lambda: darks.build_synthesized_dark(ds, nm, regions, bool(rng.random() < .5)), "refuse-synth:" + kind, kind)
                c.raises(exc, lambda: l2.dark_subtraction(ds, nm, detector_regions=regions), "refuse-synth:" + kind, kind + " (subtraction)")
    c.sig(kind)
