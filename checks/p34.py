"""P34: flat fields are the sensitivity pattern of the detector."""
import numpy as np
from scipy.ndimage import gaussian_filter
import corgidrp.data as data
import corgidrp.flat as flat
import corgidrp.l2a_to_l2b as l2
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P34", "one distinct situation = image size x number of dithers x planet x band x sky handling x padding; or number of frames x missing values: a planet image multiplied by a known sensitivity pattern is "
              "placed at known dither positions, and the resulting flat is compared with the pattern")


@SUITE.workload(quick=60, thorough=1500)
def mean(c):
    rng = c.rng
    n = int(rng.integers(1, 8))
    shape = tuple(int(v) for v in rng.integers(4, 30, 2))
    d = rng.normal(1, .1, (n,) + shape) * 10. ** rng.uniform(-3, 4)
    holes = rng.random() < .5
    if holes:
        d[rng.random(d.shape) < .15] = np.nan
    with quiet():
        ds = B.stack(rng, d, np.ones_like(d), np.zeros(d.shape), "L2a")
        before = [snap.img(f) for f in ds]
        out = flat.create_flatfield(ds)
    q = [snap.diff(a, snap.img(f)) for a, f in zip(before, ds)]
    c.ok(not any(q), "mean-input", "the frames changed: %s" % q)
    ok = np.isfinite(d)
    k = ok.sum(0)
    with np.errstate(all="ignore"):
        m = np.where(ok, d, 0).sum(0) / k
        s = np.sqrt(np.where(ok, (d - m) ** 2, 0).sum(0) / k)
    c.ok(isinstance(out, data.FlatField) and out.data.shape == shape and out.err.shape == (1,) + shape, "mean-shape", "flat %s, error %s" % (out.data.shape, out.err.shape))
    c.close(out.data[k > 0], m[k > 0], "mean-data", "mean of the frames", rtol=1e-9)
    c.ok(np.isnan(out.data[k == 0]).all(), "mean-nothing", "a value where no frame has one")
    c.close(out.err[0][k == n], (s / np.sqrt(n))[k == n], "mean-err", "standard error of the mean", rtol=1e-8, atol=1e-12 * np.nanmax(abs(m)))
    part = (k < n) & (k > 0)
    lo, hi = (s / np.sqrt(n))[part], (s / np.sqrt(np.maximum(k, 1)))[part]
    c.ok(np.all((out.err[0][part] >= lo * (1 - 1e-8)) & (out.err[0][part] <= hi * (1 + 1e-8) + 1e-12)), "mean-err-part", "standard error with missing values")
    c.ok(out.ext_hdr["DATATYPE"] == "FlatField" and out.ext_hdr["DATALVL"] == "CAL", "mean-type")
    c.see("flats averaged")
    c.sig(n, holes)


@SUITE.workload(quick=16, thorough=300)
def raster(c):
    rng = c.rng
    planet, band = str(rng.choice(["Neptune", "URANUS", "neptune", "Uranus"])), str(rng.choice(["1F", "4F", "1"]))
    standard = c.index % 6 == 1            # the radius that goes with the planet
    p = (65 if planet.lower() == "uranus" else 50) if standard else int(rng.integers(13, 20))
    up = p + 5
    n = int(rng.integers(75, 100)) * 2 + (2 * int(np.sqrt(2) * up) - 30 if standard else 0)
    true = np.sqrt(2) * up + 20
    f = rng.normal(1, .05, (n, n))
    nd = int(rng.integers(4, 10))
    reach = min(14, (n - 2 * true) / 2 - 3)
    yy, xx = np.indices((n, n))
    bright = 10. ** rng.uniform(0, 5)
    sky = rng.random() < .6
    img, cen = [], []
    while len(img) < nd:
        y, x = n / 2 + rng.uniform(-reach, reach, 2)
        s = bright * rng.uniform(.1, .25) if sky else 0.
        a = (np.hypot(yy - y, xx - x) < true) * bright * f + s
        cy, cx = (yy * a).sum() / a.sum(), (xx * a).sum() / a.sum()
        if min(cy % 1, 1 - cy % 1, cx % 1, 1 - cx % 1) > .01:
            img.append(a)
            cen.append((int(cy), int(cx)))
    img = np.array(img)
    n_pix = int(rng.integers(15, 45)) + (30 if standard else 0)
    default = c.index % 4 == 0
    n_pad = int(rng.integers(0, 30))
    kw = dict(up_radius=up, N=1, n_pix=n_pix)
    if not standard:
        kw["planet_rad"] = p
    elif p == 50 and rng.random() < .5:
        kw.pop("up_radius")
    if not default:
        kw["n_pad"] = n_pad
    # the annulus lies outside the planet, wherever it is
    rin = (true + 9) / p
    kw.update(dict(sky_annulus_rin=rin, sky_annulus_rout=rin + 30. / p) if sky else dict(sky_annulus_rin=None, sky_annulus_rout=None))
    if rng.random() < .5:
        kw.update(planet=planet, band=band)
    with quiet():
        ds = B.stack(rng, img, np.ones_like(img), np.zeros(img.shape), "L2b", pri=dict(TARGET=planet), ext=dict(CFAMNAME=band))
        before = [snap.img(q) for q in ds]
        out = flat.create_onsky_flatfield(ds, **kw)
        q = [snap.diff(a, snap.img(q)) for a, q in zip(before, ds)]
        c.ok(not any(q), "raster-input", "the frames changed: %s" % q)
        pad = (1024 - n) // 2 if default else n_pad
        c.ok(out.data.shape == (n + 2 * pad,) * 2, "raster-shape", "flat of %s for images of %d%s" % (out.data.shape, n, " (padded to 1024 by default)" if default else ""))
        c.ok(out.err.shape == (1,) + out.data.shape, "raster-err-shape", "error of %s" % (out.err.shape,))
        if out.data.shape != (n + 2 * pad,) * 2:
            return
        core = out.data[pad:pad + n, pad:pad + n]
        edge = np.ones(out.data.shape, bool)
        edge[pad:pad + n, pad:pad + n] = False
        c.ok(np.all(out.data[edge] == 1), "raster-pad", "padding is not one")
        r = np.hypot(yy - n / 2, xx - n / 2)
        c.ok(np.all(core[r > n_pix] == 1), "raster-outside", "not one outside the field of view")
        seen = np.zeros((n, n), bool)
        for y, x in cen:
            seen |= np.hypot(yy - y, xx - x) < p
        fov = r <= n_pix
        c.ok(np.isnan(core[fov & ~seen]).all(), "raster-unseen", "a value where the planet never was")
        g = fov & seen
        c.ok(np.isfinite(core[g]).all(), "raster-missing", "%d of %d pixels the planet covered have no value" % ((~np.isfinite(core[g])).sum(), g.sum()))
        c.close(core[g], f[g], "raster-value", "flat (%d dithers, sky %s)" % (nd, sky), rtol=0, atol=.03)
        rms = np.sqrt(np.mean((core[g] - f[g]) ** 2))
        c.ok(g.sum() < 200 or rms < .009, "raster-value", "flat differs from the pattern by %.4f rms (%d dithers, sky %s)" % (rms, nd, sky))
        v = np.isfinite(core) & g
        if v.sum() > 100:
            slope = np.polyfit(f[v] - 1, core[v] - 1, 1)[0]
            c.close(slope, 1, "raster-contrast", "contrast of the flat (sky %s)" % sky, rtol=.03)
        two = flat.create_onsky_flatfield(B.stack(rng, img * 7.3, np.ones_like(img), np.zeros(img.shape), "L2b", pri=dict(TARGET=planet), ext=dict(CFAMNAME=band)), **kw)
        c.close(two.data, out.data, "raster-scale", "flat from frames 7.3 times as bright", rtol=1e-9)
        # dividing a frame with this pattern by the flat makes it uniform
        if not default and v.any():
            lamp = np.ones(out.data.shape)
            lamp[pad:pad + n, pad:pad + n] = f
            fl = l2.flat_division(B.stack(rng, 100 * lamp[None], np.ones((1,) + lamp.shape), np.zeros((1,) + lamp.shape), "L2a"), out)
            c.close(fl[0].data[pad:pad + n, pad:pad + n][v], np.full(v.sum(), 100.), "raster-divide", "uniform light after the division", rtol=0, atol=2.)
    c.see("raster scans", 1)
    c.see("pixels compared with the pattern", int(v.sum()))
    c.sig(nd, sky, default, planet, band, "planet" in kw, standard)


@SUITE.workload(quick=30, thorough=500)
def residuals(c):
    rng = c.rng
    groups, per = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    shape = tuple(int(v) for v in rng.integers(15, 40, 2))
    img = [rng.uniform(50, 60) * rng.normal(1, .1, shape) for _ in range(groups * per)]
    keep = [a.copy() for a in img]
    with quiet():
        out = flat.flatfield_residuals(img, N=groups)
    c.ok(all(np.array_equal(a, b) for a, b in zip(img, keep)), "residual-input", "the images changed")
    c.ok(len(out) == len(img), "residual-count")
    for j, a in enumerate(out):
        m = np.median(img[j // per * per:(j // per + 1) * per], axis=0)
        c.close(a, img[j] / gaussian_filter(m, 3), "residual", "image over the smoothed median of its group", rtol=1e-9)
    c.see("residual images", len(out))
    c.sig(groups, per)
