"""P39: the star behind the coronagraph is found from its satellite spots."""
import copy
import numpy as np
import corgidrp.l3_to_l4 as l4
import corgidrp.star_center as sc
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P39", "one distinct situation = mode x rotation of the spots x kept or dropped frames x kind of guess x outlier x shape parity: frames with spots painted around a known star, the position found must be that of the star")
DEFAULTS = copy.deepcopy(sc.satellite_spot_parameters_defaults)
MODES = sorted(DEFAULTS)


def spots(rng, mode=None, far=2.):
    """Science and satellite-spot frames in any order around a known star: dataset, keywords, truth."""
    mode = str(rng.choice(MODES, p=[.4, .25, .25, .1])) if mode is None else mode
    sep = DEFAULTS[mode]["offset"]["spotSepPix"]
    half = sep + 12
    shape = tuple(int(2 * half + v) for v in rng.integers(0, 12, 2))
    guess = None if rng.random() < .4 else (shape[1] // 2 + float(rng.uniform(-2, 2)), shape[0] // 2 + float(rng.uniform(-2, 2)))
    at = (shape[1] // 2, shape[0] // 2) if guess is None else guess
    star = np.array(at) + rng.uniform(-far, far, 2)
    theta = 0. if rng.random() < .25 else float(rng.uniform(-60, 60))
    fwhm = rng.uniform(3.5, 5.5)
    amp = 10. ** rng.uniform(1.5, 4)
    bg = rng.uniform(-.2, 1) * amp
    yy, xx = np.indices(shape)
    im = np.zeros(shape)
    for a in DEFAULTS[mode]["offset"]["probeRotVecDeg"]:
        for b in (0, 180):
            t = np.radians(a + b + theta)
            im += amp * np.exp(-((xx - star[0] - sep * np.cos(t)) ** 2 + (yy - star[1] - sep * np.sin(t)) ** 2) / 2 / (fwhm / 2.35482) ** 2)
    # the light left around the star is in both kinds of frames
    halo = bg + rng.uniform(0, 5) * amp * np.exp(-np.hypot(xx - star[0], yy - star[1]) / 6)
    nsci, nsat = int(rng.integers(1, 5)), int(rng.integers(1, 5))
    kind = rng.permutation([0] * nsci + [1] * nsat)
    arr = np.array([halo + k * im + rng.normal(0, amp / 300, shape) for k in kind])
    out = []
    for k, n in ((0, nsci), (1, nsat)):
        if n >= 3 and rng.random() < .7:
            i = int(rng.choice(np.where(kind == k)[0]))
            arr[i, int(rng.integers(0, shape[0] - 4)):, int(rng.integers(0, shape[1] - 4)):] += 20 * amp
            out.append(k)
    ds = B.stack(rng, arr, None, None, "L3", pri_list=[dict(SATSPOTS=int(k)) for k in kind], ext=dict(FSMPRFL=mode))
    # a coarser search than the default one, to save time
    par = {"offset": {"nSubpixels": int(rng.choice([7, 10])), "nSteps": int(rng.choice([5, 7])), "nIter": 6}, "separation": {"nSubpixels": 5, "nSteps": 11, "stepSize": .5, "nIter": 2}}
    kw = dict(star_coordinate_guess=guess, thetaOffsetGuess=theta + (float(rng.uniform(-2, 2)) if rng.random() < .5 else 0.), satellite_spot_parameters=par, drop_satspots_frames=bool(rng.random() < .6))
    return ds, kw, dict(mode=mode, star=star, theta=theta, kind=kind, out=tuple(out), shape=shape)


@SUITE.workload(quick=16, thorough=900)
def star(c):
    with quiet():
        ds, kw, par = spots(c.rng)
        names = [f.filename for f in ds]
        frames = [snap.img(f) for f in ds]
        pars = copy.deepcopy(kw)
        out = l4.find_star(ds, **kw)
    c.equal(kw, pars, "arguments", "the parameters changed")
    c.ok(sc.satellite_spot_parameters_defaults == DEFAULTS, "defaults", "the parameters of one call became the defaults of the next ones")
    if sc.satellite_spot_parameters_defaults != DEFAULTS:
        for m in MODES:
            for k in DEFAULTS[m]:
                sc.satellite_spot_parameters_defaults[m][k].update(copy.deepcopy(DEFAULTS[m][k]))
    keep = [i for i, k in enumerate(par["kind"]) if not (k and kw["drop_satspots_frames"])]
    c.equal([f.filename for f in out], [names[i] for i in keep], "frames", "frames kept when satellite-spot frames are %s" % ("dropped" if kw["drop_satspots_frames"] else "kept"))
    what = "%s, star at %s in %s, spots turned by %.1f, guesses %s and %.1f" % (par["mode"], np.round(par["star"], 3), par["shape"], par["theta"], kw["star_coordinate_guess"], kw["thetaOffsetGuess"])
    for f, i in zip(out, keep):
        got = np.array([f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]], float)
        c.ok(np.abs(got - par["star"]).max() < .15, "position", "found at %s: %s" % (got, what))
        now = snap.img(f)
        c.ok(np.array_equal(f.data, ds[i].data) and np.array_equal(f.err, ds[i].err) and np.array_equal(f.dq, ds[i].dq), "pixels", "the pixels of a frame changed")
        c.ok(any("tar" in str(h) for h in f.ext_hdr["HISTORY"]), "history")
    c.ok(snap.coherent(out) is None if not isinstance(snap.coherent(out), (list, bool)) else not snap.coherent(out), "coherent", "frames and cube: %s" % (snap.coherent(out),))
    c.ok(not any(snap.diff(a, snap.img(f)) for a, f in zip(frames, ds)), "input", "the input frames changed")
    c.see("stars found from spots")
    c.sig(par["mode"], int(par["theta"] // 30), kw["drop_satspots_frames"], kw["star_coordinate_guess"] is None, par["out"], par["shape"][0] % 2, par["shape"][1] % 2)


@SUITE.workload(quick=2, thorough=25)
def default(c):
    """The default parameters of every mode, after calls with other parameters."""
    mode = MODES[c.index % len(MODES)] if c.tier == "thorough" else ["NFOV", "SPEC660"][c.index % 2]
    with quiet():
        ds, kw, par = spots(c.rng, mode)
        kw["satellite_spot_parameters"] = None
        out = l4.find_star(ds, **kw)
    got = np.array([out[0].ext_hdr["STARLOCX"], out[0].ext_hdr["STARLOCY"]], float)
    c.ok(np.abs(got - par["star"]).max() < .1, "position-default", "found at %s, star at %s in %s" % (got, par["star"], par["shape"]))
    c.see("stars found with default parameters")
    c.sig("default", mode)


@SUITE.workload(quick=12, thorough=200)
def refused(c):
    rng = c.rng
    with quiet():
        ds, kw, par = spots(rng, "NFOV")
        what = ["flag", "mode", "key", "subkey"][c.index % 4]
        i = int(rng.integers(0, len(ds)))
        if what == "flag":
            ds[i].pri_hdr["SATSPOTS"] = int(rng.choice([2, -1, 5]))
            c.raises(AssertionError, lambda: l4.find_star(ds, **kw), "flag", "SATSPOTS %s" % ds[i].pri_hdr["SATSPOTS"])
        elif what == "mode":
            ds[i].ext_hdr["FSMPRFL"] = "WFOV"
            c.raises(AssertionError, lambda: l4.find_star(ds, **kw), "mode", "mixed modes")
        elif what == "key":
            kw["satellite_spot_parameters"] = {"offsets": {"nSteps": 3}}
            c.raises(KeyError, lambda: l4.find_star(ds, **kw), "unknown-key")
        else:
            kw["satellite_spot_parameters"] = {"offset": {"nIter": 2, "steps": 3}}
            c.raises(KeyError, lambda: l4.find_star(ds, **kw), "unknown-subkey")
    c.ok(sc.satellite_spot_parameters_defaults == DEFAULTS, "defaults-refused", "a refused call changed the default parameters")
    c.see("requests refused")
    c.sig("refused", what, i == 0)


@SUITE.workload(quick=80, thorough=3000)
def parts(c):
    """Aperture, optima and the separation of the spots."""
    rng = c.rng
    nx, ny = (int(v) for v in rng.integers(9, 40, 2))
    sx, sy = rng.uniform(-3, 3, 2)
    r = rng.uniform(.8, 8)
    sub = int(rng.choice([5, 10, 20]))
    m = sc.circle(nx, ny, r, sx, sy, nSubpixels=sub)
    yy, xx = np.indices((ny, nx))
    dx, dy = abs(xx - nx // 2 - sx), abs(yy - ny // 2 - sy)
    near, farc = np.hypot(np.maximum(dx - .5, 0), np.maximum(dy - .5, 0)), np.hypot(dx + .5, dy + .5)
    c.ok(m.shape == (ny, nx) and m.min() >= 0 and m.max() <= 1, "circle-range", "values from %s to %s" % (m.min(), m.max()))
    c.ok(np.all(m[farc < r] == 1) and np.all(m[near > r] == 0), "circle-inside", "pixels inside or outside of a circle of radius %s at %s, %s" % (r, sx, sy))
    # share of each pixel inside the circle, on a fine grid
    u = (np.arange(60) - 29.5) / 60
    X = (xx - nx // 2 - sx)[..., None, None] + u
    Y = (yy - ny // 2 - sy)[..., None, None] + u[:, None]
    c.ok(np.abs(m - (np.hypot(X, Y) <= r).mean((2, 3))).max() < 1.5 / sub, "circle-edge", "share of the edge pixels, %d subpixels" % sub)
    x = np.sort(rng.uniform(-3, 3, int(rng.integers(4, 9))))
    x0, k, o = rng.uniform(-4, 4), rng.choice([-1, 1]) * rng.uniform(.2, 3), rng.uniform(30, 400)
    c.close(sc.find_optimum_1d(x, k * (x - x0) ** 2 + o), x0, "optimum-1d", "of a parabola", atol=1e-6)
    y = np.sort(rng.uniform(-3, 3, int(rng.integers(4, 9))))
    y0, k2 = rng.uniform(-4, 4), k * rng.uniform(.3, 3)
    k3 = rng.uniform(-1, 1) * 1.6 * np.sqrt(k * k2)
    X, Y = np.meshgrid(x, y)
    z = k * (X - x0) ** 2 + k2 * (Y - y0) ** 2 + k3 * (X - x0) * (Y - y0) * np.sign(k) + o
    mask = np.ones(z.shape, int)
    if rng.random() < .5 and z.size > 20:
        w = rng.choice(z.size, 5, replace=False)
        mask.flat[w] = 0
        z.flat[w] += rng.normal(0, 50, 5)
    c.close(np.array(sc.find_optimum_2d(x, y, z, mask)), np.array([x0, y0]), "optimum-2d", "of a paraboloid", rtol=1e-5, atol=1e-4)
    c.raises(ValueError, lambda: sc.find_optimum_1d(x, np.ones(len(x) + 1)), "length")
    p = {"a": {"x": 1, "y": [2]}, "b": {"z": 3}}
    new = {"a": {"x": 5}} if rng.random() < .5 else {"b": {"z": 7}, "a": {"y": [1, 2]}}
    want = {k: dict(v, **new.get(k, {})) for k, v in p.items()}
    c.equal(sc.update_parameters(p, new), want, "update", "with %s" % new)
    c.equal(p, {"a": {"x": 1, "y": [2]}, "b": {"z": 3}}, "update-original", "the original parameters changed")
    c.see("parts of the search checked", 6)
    c.sig("parts", nx % 2, ny % 2, sub, int(mask.min()))


@SUITE.workload(quick=6, thorough=250)
def separation(c):
    rng = c.rng
    sep = rng.uniform(8, 16)
    n = int(2 * (sep + 11))
    shape = (n, n + int(rng.integers(0, 7)))
    off = rng.uniform(-2, 2, 2)
    yy, xx = np.indices(shape)
    angles = [[0], [0, 90], [20, 110], [-35]][int(rng.integers(0, 4))]
    im = np.zeros(shape)
    for a in angles:
        for b in (0, 180):
            t = np.radians(a + b)
            im += 1000 * np.exp(-((xx - shape[1] // 2 - off[0] - sep * np.cos(t)) ** 2 + (yy - shape[0] // 2 - off[1] - sep * np.sin(t)) ** 2) / 2 / 2. ** 2)
    par = dict(spotSepPix=sep + rng.uniform(-1, 1), roiRadiusPix=3., probeRotVecDeg=angles, nSubpixels=10, nSteps=9, stepSize=.4, nIter=5)
    with quiet():
        got = sc.calc_spot_separation(im, off[0], off[1], par)
        x, y = sc.calc_star_location_from_spots(im, off[0] + rng.uniform(-1, 1), off[1] + rng.uniform(-1, 1), dict(par, spotSepPix=sep, stepSize=.8))
        (sx, sy), places = sc.star_center_from_satellite_spots(np.zeros(shape), im, (shape[1] // 2 + off[0], shape[0] // 2 + off[1]), 0., {"offset": dict(par, spotSepPix=sep, stepSize=.8), "separation": par})
    c.ok(abs(got - sep) < .1, "separation", "%s for spots at %s, turned by %s" % (got, sep, angles))
    c.ok(abs(x - off[0]) < .1 and abs(y - off[1]) < .1, "offset", "%s, %s for %s, spots turned by %s" % (x, y, off, angles))
    c.ok(abs(sx - shape[1] // 2 - off[0]) < .1 and abs(sy - shape[0] // 2 - off[1]) < .1, "absolute", "star at %s, %s" % (sx, sy))
    c.ok(len(places) == 2 * len(angles), "places", "%d spots" % len(places))
    d = np.array(places) - (np.array(places).mean(0))
    want = np.array([[sep * np.cos(np.radians(a + b)), sep * np.sin(np.radians(a + b))] for a in angles for b in (0, 180)])
    c.ok(all(np.hypot(*(d - w).T).min() < .2 for w in want), "places", "spots around %s, not %s" % (d, want))
    c.see("separations measured")
    c.sig("separation", len(angles), angles[0])
