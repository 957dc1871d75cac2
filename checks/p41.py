"""P41: the flux-ratio noise curve is the companion-to-star flux ratio of the noise, corrected for throughput."""
import numpy as np
import corgidrp.data as data
import corgidrp.l4_to_tda as tda
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P41", "one distinct situation = number of frames and KL modes x default or requested separations (outside, unsorted) x width given or not x star guess given or not x order of measured separations x flags: "
              "every value of the curve is recomputed from known noise, star flux and throughputs")
LN = 4 * np.log(2)


def gauss(shape, x, y, w, amp):
    yy, xx = np.indices(shape)
    return amp * np.exp(-LN * ((xx - x) ** 2 + (yy - y) ** 2) / w ** 2)


def line(x, xp, yp):
    """Straight lines through the points, continued outside."""
    o = np.argsort(xp)
    xp, yp = np.asarray(xp, float)[o], np.asarray(yp, float)[o]
    j = np.clip(np.searchsorted(xp, x) - 1, 0, len(xp) - 2)
    return yp[j] + (yp[j + 1] - yp[j]) * (np.asarray(x) - xp[j]) / (xp[j + 1] - xp[j])


def product(rng, nk, kseps, cseps, shape, scale):
    """A PSF-subtracted frame with its throughputs: frame, KLIP throughput, widths, core throughput."""
    yy, xx = np.indices(shape)
    star = np.array([shape[1] // 2, shape[0] // 2]) + (rng.uniform(-3, 3, 2) if rng.random() < .5 else 0)
    r = np.hypot(xx - star[0], yy - star[1])
    cube = rng.normal(0, 1, (nk,) + shape) * (10 / (r + 3)) * (1 + np.arange(nk))[:, None, None] * 10. ** rng.uniform(-3, 1)
    cube[:, rng.random(shape) < .03] = np.nan
    p, e = B.pri_header(rng), B.ext_header(rng, "L4")
    e.update(STARLOCX=float(star[0]), STARLOCY=float(star[1]), PLTSCALE=scale)
    f = data.Image(cube, pri_hdr=p, ext_hdr=e, err=np.full((1,) + cube.shape, np.nan), dq=np.isnan(cube).astype(np.uint16))
    f.filename = B.fname(int(rng.integers(0, 1000)), "L4")
    kt = rng.uniform(.4, .95, (nk, len(kseps)))
    fw = rng.uniform(2, 5, (nk, len(kseps)))
    ct = rng.uniform(.1, .6, len(cseps))
    f.add_extension_hdu("KL_THRU", data=np.concatenate([np.array([kseps, kseps]).T[None], np.stack([kt, fw], 2)]))
    f.add_extension_hdu("CT_THRU", data=np.array([cseps, ct]))
    return f, kt, fw, ct


def observed(rng):
    """Frames, star frames and ND calibration, with what is true of them."""
    n, nk = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(48, 64, 2))
    scale = float(rng.uniform(15, 30))
    frames, stars, truth = [], [], []
    same = rng.random() < .4
    sshape = tuple(int(v) for v in rng.integers(28, 50, 2))
    for i in range(n):
        m = int(rng.integers(2, 6))
        if i == 0 or not same:
            kseps = np.sort(rng.choice(np.arange(5, 21, 2.5), m, replace=False)) + rng.uniform(-.5, .5, m)
            if rng.random() < .4:
                kseps = rng.permutation(kseps)
            cseps = kseps.copy() if rng.random() < .7 else np.sort(rng.choice(np.arange(4, 22, 3.), int(rng.integers(2, 6)), replace=False))
            if i and rng.random() < .5:
                scale = float(rng.uniform(15, 30))
        f, kt, fw, ct = product(rng, nk, kseps, cseps, shape, scale)
        frames.append(f)
        x, y = rng.uniform(11, sshape[1] - 12), rng.uniform(11, sshape[0] - 12)
        w, amp = rng.uniform(4, 8), 10. ** rng.uniform(1, 4)
        im = gauss(sshape, x, y, w, amp) + rng.normal(0, 1e-4 * amp, sshape)
        dq = np.zeros(sshape, np.uint16)
        if rng.random() < .4:
            bad = rng.random(sshape) < .02
            bad[int(round(y)), int(round(x))] = False
            bad &= np.hypot(*(np.indices(sshape) - np.array([y, x])[:, None, None])) > 2
            dq[bad] = int(rng.choice([1, 4, 32]))
            im[bad] += .3 * amp * rng.uniform(-1, 1, bad.sum())
        s = B.stack(rng, im[None], None, dq[None], "L3")[0]
        stars.append(s)
        truth.append(dict(kseps=kseps, cseps=cseps, kt=kt, fw=fw, ct=ct, x=x, y=y, flux=amp * np.pi * w ** 2 / LN, flagged=bool(dq.any()), scale=scale))
    g = np.linspace(-5, 60, 5)
    nx, ny = [v.ravel() for v in np.meshgrid(g, g)]
    a, b, k = rng.uniform(.005, .02), rng.uniform(-5e-5, 5e-5), rng.uniform(-5e-5, 5e-5)
    p, e = B.cal_headers(rng, FPAMNAME="ND225")
    nd = data.NDFilterSweetSpotDataset(np.array([a + b * nx + k * ny, nx, ny]).T, pri_hdr=p, ext_hdr=e, input_dataset=B._parents(rng, level="L3"))
    for t in truth:
        t["nd"] = a + b * t["x"] + k * t["y"]
    return data.Dataset(frames), data.Dataset(stars), nd, truth


def noise_of(f, seps, hw):
    yy, xx = np.indices(f.data.shape[-2:])
    r = np.hypot(xx - f.ext_hdr["STARLOCX"], yy - f.ext_hdr["STARLOCY"])
    out = np.full((len(f.data), len(seps)), np.nan)
    for i, s in enumerate(seps):
        ring = (r > s - hw) & (r < s + hw)
        for k, q in enumerate(f.data):
            v = q[ring]
            v = v[np.isfinite(v)]
            if v.size:
                out[k, i] = v.std()
    return out


@SUITE.workload(quick=60, thorough=2000)
def curve(c):
    rng = c.rng
    with quiet():
        ds, stars, nd, truth = observed(rng)
    how = rng.random()
    seps = None if how < .4 else rng.uniform(3, 23, int(rng.integers(1, 7))) if how < .7 else np.sort(rng.uniform(5, 20, int(rng.integers(2, 7))))
    hw = None if rng.random() < .4 else float(rng.uniform(.7, 3))
    guess = None
    given = rng.random()
    if given < .5:
        guess = np.array([[round(t["y"]) for t in truth], [round(t["x"]) for t in truth]], dtype=float if given < .25 else int)
        guess = guess + rng.integers(-1, 2, guess.shape) + (rng.uniform(-.4, .4, guess.shape) if given < .15 else 0)
    before = snap.ds(ds), snap.ds(stars), snap.obj(nd), None if seps is None else seps.copy()
    kw = {}
    if seps is not None:
        kw["requested_separations"] = seps
    if hw is not None:
        kw["halfwidth"] = hw
    if guess is not None:
        kw["unocculted_star_loc"] = guess
    with quiet():
        out = tda.compute_flux_ratio_noise(ds, nd, stars, **kw)
    c.equal(len(out), len(ds), "frames")
    for i, (o, f, t) in enumerate(zip(out, ds, truth)):
        want_seps = t["kseps"] if seps is None else seps
        step = min(np.diff(np.sort(t["kseps"])).min(), np.diff(np.sort(t["cseps"])).min())
        w = step / 2 if hw is None else hw
        what = "frame %d of %d, KLIP separations %s, core %s, requested %s, halfwidth %s, star at %.1f, %.1f (guess %s) of %s" % (
            i, len(ds), np.round(t["kseps"], 2), np.round(t["cseps"], 2), seps, hw, t["x"], t["y"], None if guess is None else guess[:, i], stars[i].data.shape)
        got = o.hdu_list["FRN_CRV"].data
        nk = len(f.data)
        if not c.ok(got.shape == (2 + nk, len(want_seps)), "shape", "%s: %s" % (got.shape, what)):
            continue
        c.ok(np.array_equal(got[0], want_seps), "separations", "%s: %s" % (got[0], what))
        c.close(got[1], np.asarray(want_seps) * t["scale"], "angles", what, rtol=1e-12)
        noise = noise_of(f, want_seps, w)
        kt = np.array([line(want_seps, t["kseps"], v) for v in t["kt"]])
        fw = np.array([line(want_seps, t["kseps"], v) for v in t["fw"]])
        ct = line(want_seps, t["cseps"], t["ct"])
        want = noise * np.pi * fw ** 2 / LN / (t["nd"] * t["flux"]) / (kt * ct)
        ok = np.isfinite(want)
        c.ok(np.array_equal(np.isfinite(got[2:]), ok), "defined", what)
        rel = (got[2:] / want)[ok]
        c.ok(np.all(np.abs(rel - 1) < (.01 if t["flagged"] else .004)), "value", "ratios %s to the expected curve: %s" % (np.round(rel, 4), what))
        # the flux of the star is the same for every separation: other values are exact
        if rel.size:
            c.ok(np.ptp(rel) < 1e-9 * abs(rel[0]), "shape-of-curve", "ratios %s to the expected curve: %s" % (rel, what))
        c.equal(o.hdu_list["FRN_CRV"].header["BUNIT"], "Fp/Fs", "unit")
        c.ok("FRN_CRV" in str(o.ext_hdr["HISTORY"][-1]), "history")
        c.ok(np.array_equal(o.data, f.data, equal_nan=True) and np.array_equal(o.dq, f.dq) and np.array_equal(o.err, f.err, equal_nan=True), "pixels", "the image changed")
        for n in ("KL_THRU", "CT_THRU"):
            c.ok(np.array_equal(o.hdu_list[n].data, f.hdu_list[n].data), "kept-" + n)
        c.see("curve values recomputed", want.size)
    c.ok(not snap.diff(before[0], snap.ds(ds)) and not snap.diff(before[1], snap.ds(stars)) and not snap.diff(before[2], snap.obj(nd)), "input", "an input changed")
    c.ok(seps is None or np.array_equal(before[3], seps), "input", "the requested separations changed")
    c.see("curves", len(ds))
    c.sig(len(ds), len(ds[0].data), None if seps is None else bool(np.any(np.diff(seps) < 0)), hw is None, None if guess is None else guess.dtype.kind, tuple(np.argsort(truth[0]["kseps"])) == tuple(range(len(truth[0]["kseps"]))),
          np.array_equal(truth[0]["kseps"], truth[0]["cseps"]), truth[0]["flagged"])


@SUITE.workload(quick=30, thorough=600)
def independent(c):
    """A curve does not depend on the other frames, and scales as it must."""
    rng = c.rng
    with quiet():
        ds, stars, nd, truth = observed(rng)
        kw = {} if rng.random() < .5 else dict(requested_separations=np.sort(rng.uniform(6, 19, 3)))
        full = tda.compute_flux_ratio_noise(ds, nd, stars, **kw)
        i = int(rng.integers(0, len(ds)))
        one = tda.compute_flux_ratio_noise(data.Dataset([ds[i]]), nd, data.Dataset([stars[i]]), **kw)
        c.ok(np.array_equal(full[i].hdu_list["FRN_CRV"].data, one[0].hdu_list["FRN_CRV"].data, equal_nan=True), "others", "the curve of frame %d of %d depends on the other frames" % (i, len(ds)))
        a, b = rng.uniform(.1, 10, 2)
        f, s = ds[i].copy(), stars[i].copy()
        f.data *= a
        s.data *= b
        k = rng.uniform(.2, 1)
        f.hdu_list["CT_THRU"].data[1] *= k
        two = tda.compute_flux_ratio_noise(data.Dataset([f]), nd, data.Dataset([s]), **kw)
    c.close(two[0].hdu_list["FRN_CRV"].data[2:], one[0].hdu_list["FRN_CRV"].data[2:] * a / b / k, "scale", "noise times %s, star times %s, throughput times %s" % (a, b, k), rtol=1e-4)
    c.see("curves", len(ds) + 2)
    c.sig("independent", len(ds), bool(kw))


@SUITE.workload(quick=12, thorough=120)
def refused(c):
    rng = c.rng
    with quiet():
        ds, stars, nd, truth = observed(rng)
        what = ["count", "halfwidth", "place"][c.index % 3]
        if what == "count":
            other = data.Dataset(list(stars) + [stars[0].copy()])
            c.raises(ValueError, lambda: tda.compute_flux_ratio_noise(ds, nd, other), "count", "one star frame too many")
        elif what == "halfwidth":
            hw = [0, -1., np.nan][int(rng.integers(0, 2))]
            c.raises(ValueError, lambda: tda.compute_flux_ratio_noise(ds, nd, stars, halfwidth=hw), "halfwidth", "%s" % hw)
        else:
            g = np.array([[round(t["y"]) for t in truth], [round(t["x"]) for t in truth]])
            j, k = int(rng.integers(0, 2)), int(rng.integers(0, len(ds)))
            g[j, k] = stars[k].data.shape[j] + int(rng.integers(1, 30)) if rng.random() < .6 else stars[k].data.shape[j]
            c.raises(ValueError, lambda: tda.compute_flux_ratio_noise(ds, nd, stars, unocculted_star_loc=g), "place", "star guess %s outside %s" % (g[:, k], stars[k].data.shape))
    c.see("requests refused")
    c.sig("refused", what)
