"""P35: plate scale, orientation, pointing and distortion are recovered from images of a known star field."""
import itertools
import os
import re
import astropy.table
import astropy.wcs
import numpy as np
import corgidrp.astrom as astrom
import corgidrp.data as data
import corgidrp.l2b_to_l3 as l3
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P35", "one distinct situation = image shape x number of stars x frames x half-plane of the north angle x pointing error x way of matching x combined frames x order of the distortion: an image of stars at known places on the sky is made "
              "with a known scale, orientation, pointing and distortion, and the calibration measured from it is compared with them")
LEG = np.polynomial.legendre.legval2d


def plane(p, theta, centre, radec):
    """Tangent-plane coordinates of a detector with scale p [mas], north angle theta and the sky position radec at pixel centre."""
    t = np.radians(theta)
    w = astropy.wcs.WCS(naxis=2)
    w.wcs.crpix = [centre[0] + 1, centre[1] + 1]
    w.wcs.cd = np.array([[-np.cos(t), np.sin(t)], [np.sin(t), np.cos(t)]]) * p * 1e-3 / 3600
    w.wcs.ctype = ["RA---TAN", "DEC--TAN"]
    w.wcs.crval = list(radec)
    return w


def mid(shape):
    return (shape[1] - 1) // 2, (shape[0] - 1) // 2


def scatter(rng, n, shape, first, gap=18, edge=12):
    pos = [np.array(first, float)]
    for _ in range(20000):
        if len(pos) == n:
            break
        q = rng.uniform([edge, edge], [shape[1] - edge, shape[0] - edge])
        if all(np.hypot(*(q - z)) > gap for z in pos):
            pos.append(q)
    return np.array(pos)


def paint(rng, shape, pos, amp, fwhm=3., noise=1 / 3000):
    yy, xx = np.indices(shape)
    s = fwhm / np.sqrt(8 * np.log(2))
    im = sum(a * np.exp(-((xx - x) ** 2 + (yy - y) ** 2) / 2 / s ** 2) for a, (x, y) in zip(amp, pos))
    return im + rng.normal(0, noise * max(amp), shape)


def sides(q):
    return np.sort([np.hypot(*(q[i] - q[j])) for i, j in ((0, 1), (1, 2), (2, 0))])


def peaks(shape, pos, amp):
    """Value of the brightest pixel of each star."""
    f = pos - np.rint(pos)
    return amp * np.exp(-(f ** 2).sum(1) / 2 * 8 * np.log(2) / 9.)


def distinct(pos, amp, shape):
    """The brightest triangle is unlike any other one, and its sides are unequal."""
    order = np.argsort(-peaks(shape, pos, amp))
    s = sides(pos[order[:3]])
    if min(s[1] - s[0], s[2] - s[1]) < .06 * s[2] or s[0] + s[1] < 1.05 * s[2]:
        return False
    r = s / s.sum()
    for t in itertools.combinations(range(len(pos)), 3):
        if set(t) != set(order[:3]):
            u = sides(pos[list(t)])
            if np.abs(u / u.sum() - r).max() < .004 and np.all(np.abs(u / s - 1) < .25):
                return False
    return True


def starfield(rng, frames=None, vary=False):
    """Frames of star fields around slightly missed targets: dataset, catalogue, truth per frame, keywords.
    With vary, every frame has its own scale, orientation and miss, near those of the field."""
    nf = int(rng.integers(1, 4)) if frames is None else frames
    a = 2 * int(rng.integers(75, 105))
    shape = (a, a) if rng.random() < .6 else (a, 2 * int(rng.integers(75, 105)))
    p = 21.8 * rng.uniform(.94, 1.06)
    theta = rng.uniform(-180, 180) if rng.random() < .8 else float(rng.choice([-179.9, 179.9, -90, 90, 180, 0, 89.99, 45, -135]))
    n = int(rng.integers(8, 12))
    base = np.array([rng.uniform(1, 359), rng.uniform(-75, 75)])
    miss = rng.uniform(-3, 3, 2) if rng.random() < .8 else np.zeros(2)
    cat, imgs, truth = [], [], []
    p0, theta0, miss0, ps, thetas = p, theta, miss, [], []
    for f in range(nf):
        if vary:
            p, theta, miss = p0 * rng.uniform(.994, 1.006), theta0 + rng.uniform(-.6, .6), miss0 + rng.uniform(-1.5, 1.5, 2)
        ps.append(p)
        thetas.append(theta)
        # fields far enough apart for a star to be in one search field only
        tgt = base + np.array([0, 0.05 * f])
        sky = plane(p, theta, mid(shape), tgt)
        first = np.array(mid(shape)) + miss
        while True:
            pos = scatter(rng, n, shape, first)
            mag = rng.uniform(14, 17, n)
            amp = 10 ** (-.4 * (mag - 22.5)) * 10
            if len(pos) == n and distinct(pos, amp, shape):
                break
        # the target is seen at mid + miss, so that all the sky is shifted by miss
        w = plane(p, theta, first, tgt)
        rd = w.all_pix2world(pos, 0)
        rd[0] = tgt
        cat += [(r, d, m) for (r, d), m in zip(rd, mag)]
        imgs.append(paint(rng, shape, pos, amp))
        truth.append(dict(target=tgt, pos=pos, rd=rd, wcs=w, order=np.argsort(-peaks(shape, pos, amp)), centre=w.all_pix2world([mid(shape)], 0)[0], tab=astropy.table.Table(
            {"x": pos[:, 0], "y": pos[:, 1], "RA": rd[:, 0], "DEC": rd[:, 1]})))
    cat = [cat[i] for i in rng.permutation(len(cat))]
    table = astropy.table.Table(rows=cat, names=["RA", "DEC", "VMAG"])
    pri = [dict(RA=float(t["target"][0]), DEC=float(t["target"][1])) for t in truth]
    ds = B.stack(rng, np.array(imgs), None, np.zeros((nf,) + shape), "L2b", pri_list=pri)
    return ds, table, truth, dict(find_threshold=n, comparison_threshold=n), dict(
        p=float(np.mean(ps)), theta=thetas[0] + float(np.mean(np.array(thetas) - thetas[0])), miss=miss0, shape=shape, n=n)


def wrap(d):
    return (d + 180) % 360 - 180


def pixels_off(w, radec, pixel):
    return float(np.hypot(*(w.all_world2pix([radec], 0)[0] - np.array(pixel))))


def frame_position(hdr, key):
    """The position recorded for a frame: a pair, its text, or right ascension with the declination as comment."""
    v = hdr.get(key)
    if v is None:
        return None
    text = str(v) + (" " + str(hdr.comments[key]) if isinstance(v, (int, float)) else "")
    v = [float(x) for x in re.findall(r"[-+]?\d+\.?\d*(?:[eE][-+]?\d+)?", text)]
    return np.array(v) if len(v) == 2 else None


@SUITE.workload(quick=16, thorough=600)
def calibrate(c):
    rng = c.rng
    with quiet():
        vary = rng.random() < .5
        ds, table, truth, kw, par = starfield(rng, int(rng.integers(2, 5)) if vary else None, vary)
    given = int(rng.integers(0, 3)) if rng.random() < .4 else -1
    nf = len(ds)
    with c.scratch(), quiet():
        path = os.path.join(os.getcwd(), "field.csv")
        table.write(path, format="ascii.csv")
        if given == 0:
            kw["field_matches"] = [t["tab"] for t in truth]
        elif given > 0:
            kw["field_matches"] = []
            for i, t in enumerate(truth):
                t["tab"].write("m%d.csv" % i, format="ascii.csv")
                kw["field_matches"].append("m%d.csv" % i)
        if given >= 0:
            # without a usable catalogue, only the given matches can lead to the truth
            other = table.copy()
            other["RA"] = other["RA"] + rng.uniform(-.001, .001, len(other))
            other.write(path, format="ascii.csv", overwrite=True)
        before = snap.ds(ds)
        cal = astrom.boresight_calibration(ds, field_path=path, **kw)
        c.equal(snap.diff(before, snap.ds(ds)), [], "calibrate-input", "the input frames changed")
    names = "%s, north angle %.3f, scale %.4f, missed by %s pixels" % (par["shape"], par["theta"], par["p"], np.round(par["miss"], 2))
    c.ok(isinstance(cal, data.AstrometricCalibration), "calibrate-type")
    c.ok(np.all(np.abs(np.array(cal.platescale) / par["p"] - 1) < 5e-4), "scale", "plate scale %s for %s" % (cal.platescale, names))
    c.ok(abs(wrap(cal.northangle - par["theta"])) < .05, "north", "north angle %.4f for %s" % (cal.northangle, names))
    for i, t in enumerate(truth):
        got = np.array(cal.boresight) if i == 0 else None
        pos = frame_position(cal.ext_hdr, "F%dPOS" % i)
        for which, v in (("boresight", got), ("position of frame %d" % i, pos)):
            if v is not None:
                c.ok(pixels_off(t["wcs"], v, mid(par["shape"])) < .1, "pointing", "%s %s, centre of the image at %s: %s" % (which, v, t["centre"], names))
    off = np.mean([t["target"] - t["centre"] for t in truth], axis=0)
    d = (np.array(cal.avg_offset) - off) * 3.6e6 / par["p"] * np.array([np.cos(np.radians(truth[0]["target"][1])), 1])
    c.ok(np.hypot(*d) < .1, "offset", "average offset %s, target minus centre %s: %s" % (cal.avg_offset, off, names))
    # no distortion was asked for: the identity
    k = int(cal.distortion_coeffs[-1]) + 1
    tot = np.arange(k)[:, None] + np.arange(k)[None]
    cx, cy = (np.array(v).reshape(k, k) / 500. ** tot for v in (cal.distortion_coeffs[:k * k], cal.distortion_coeffs[k * k:-1]))
    g = rng.uniform(-500, 500, (2, 20))
    c.ok(np.allclose(LEG(g[0], g[1], cx), g[0]) and np.allclose(LEG(g[0], g[1], cy), g[1]), "identity", "a distortion nobody asked for")
    # the coordinates put into the headers point at the stars (the reference pixel counts from 0 or 1)
    with quiet():
        out = l3.create_wcs(ds, cal)
    for f, t in [] if vary else zip(out, truth):
        h = {k: f.ext_hdr[k] for k in ("CD1_1", "CD1_2", "CD2_1", "CD2_2", "CRPIX1", "CRPIX2", "CTYPE1", "CTYPE2", "CRVAL1", "CRVAL2")}
        with quiet():
            d = astropy.wcs.WCS(h).all_world2pix(t["rd"], 0) - t["pos"]
        c.ok(np.ptp(d, axis=0).max() < .3 and np.abs(d.mean(0)).max() < 1.2, "header", "the header coordinates miss the stars by %s to %s pixels: %s" % (d.min(0), d.max(0), names))
    c.see("images of star fields calibrated", nf)
    c.see("stars", nf * par["n"])
    c.sig(par["shape"][0] == par["shape"][1], par["n"], nf, int(wrap(par["theta"]) // 90), bool(par["miss"].any()), given, vary)


@SUITE.workload(quick=10, thorough=200)
def combined(c):
    """Consecutive frames averaged before the measurement: names, pointing and number of the groups."""
    rng = c.rng
    with quiet():
        ds, table, truth, kw, par = starfield(rng, frames=int(rng.integers(1, 3)))
    group = int(rng.integers(1, 4))
    last = int(rng.integers(1, group + 1))
    imgs, pri = [], []
    for i, t in enumerate(truth):
        m = group if i < len(truth) - 1 else last
        for _ in range(m):
            w = rng.uniform(.3, 2)
            imgs.append(ds[i].data * w + rng.normal(0, ds[i].data.max() / 8000, ds[i].data.shape))
            pri.append(dict(RA=float(t["target"][0]), DEC=float(t["target"][1])))
    with c.scratch(), quiet():
        path = os.path.join(os.getcwd(), "field.csv")
        table.write(path, format="ascii.csv")
        many = B.stack(rng, np.array(imgs), None, np.zeros(np.shape(imgs)), "L2b", pri_list=pri)
        before = snap.ds(many)
        cal = astrom.boresight_calibration(many, field_path=path, frames_to_combine=group, **kw)
        c.equal(snap.diff(before, snap.ds(many)), [], "combined-input", "the input frames changed")
    c.ok(np.all(np.abs(np.array(cal.platescale) / par["p"] - 1) < 5e-4), "combined-scale", "plate scale %s, true %s" % (cal.platescale, par["p"]))
    c.ok(abs(wrap(cal.northangle - par["theta"])) < .05, "combined-north", "north angle %s, true %s" % (cal.northangle, par["theta"]))
    c.ok(pixels_off(truth[0]["wcs"], cal.boresight, mid(par["shape"])) < .1, "combined-pointing", "boresight %s, centre %s" % (cal.boresight, truth[0]["centre"]))
    off = np.mean([t["target"] - t["centre"] for t in truth], axis=0)
    d = (np.array(cal.avg_offset) - off) * 3.6e6 / par["p"] * np.array([np.cos(np.radians(truth[0]["target"][1])), 1])
    c.ok(np.hypot(*d) < .1, "combined-offset", "average offset %s, true %s" % (cal.avg_offset, off))
    c.see("groups of frames combined", len(truth))
    c.sig("combined", group, last, len(truth))


@SUITE.workload(quick=25, thorough=600)
def match(c):
    """Every source is found where it is, brightest first, and gets its own sky position."""
    rng = c.rng
    with quiet():
        ds, table, truth, kw, par = starfield(rng, frames=1)
        t = truth[0]
        im = ds[0].data.copy()
        src = astrom.find_source_locations(ds[0].data, threshold=par["n"])
    c.ok(np.array_equal(im, ds[0].data), "sources-input", "the image changed")
    got = np.array([src["x"], src["y"]]).T
    c.ok(got.shape == t["pos"].shape, "sources-number", "%d sources for %d stars" % (len(got), par["n"]))
    want = t["pos"][t["order"]]
    # stars of nearly the same brightness may trade places
    near = np.array([np.argmin(np.hypot(*(want - g).T)) for g in got])
    c.ok(len(set(near.tolist())) == len(near), "sources-twice", "a star was found twice")
    c.ok(np.hypot(*(want[near] - got).T).max() < .05, "sources-place", "%s found at %s" % (want[near], got))
    pk = np.array([ds[0].data[int(round(y)), int(round(x))] for x, y in want])[near]
    c.ok(np.all(np.diff(pk) <= .02 * pk[:-1]), "sources-order", "brightness of the sources %s" % pk)
    part = int(rng.integers(3, par["n"] + 1))
    shuffled = src[:part]
    tail = rng.permutation(np.arange(3, part))
    shuffled = src[np.concatenate([rng.permutation(3), tail]).astype(int)]
    with c.scratch(), quiet():
        path = os.path.join(os.getcwd(), "field.csv")
        table.write(path, format="ascii.csv")
        m = astrom.match_sources(ds[0], shuffled, path, comparison_threshold=par["n"])
    c.ok(len(m) == part, "match-number", "%d of %d sources" % (len(m), part))
    for r, s in zip(m, shuffled):
        i = int(np.argmin(np.hypot(t["pos"][:, 0] - s["x"], t["pos"][:, 1] - s["y"])))
        c.ok(abs(r["x"] - s["x"]) + abs(r["y"] - s["y"]) < 1e-9, "match-rows", "the sources changed their order")
        c.ok(abs(r["RA"] - t["rd"][i, 0]) + abs(r["DEC"] - t["rd"][i, 1]) < 1e-7, "match", "the star at %s was matched to %s, %s, not %s (north angle %.2f)" % (t["pos"][i], r["RA"], r["DEC"], t["rd"][i], par["theta"]))
    c.see("sources matched", part)
    c.sig("match", par["shape"][0] == par["shape"][1], part, int(wrap(par["theta"]) // 90))


def distorted(rng, order, nf):
    shape = tuple(2 * int(v) for v in rng.integers(90, 130, 2))
    p, theta, radec = 21.8 * rng.uniform(.95, 1.05), rng.uniform(-180, 180), np.array([rng.uniform(1, 359), rng.uniform(-75, 75)])
    k = order + 1
    tot = np.arange(k)[:, None] + np.arange(k)[None]
    cx, cy = np.zeros((k, k)), np.zeros((k, k))
    cx[1, 0] = cy[0, 1] = 500.
    for m in (cx, cy):
        m += np.where((tot >= 2) & (tot <= order), rng.uniform(-.4, .4, (k, k)) * (500. / (min(shape) / 2)) ** tot, 0)
    cen = np.array(mid(shape))
    corr = lambda q: np.stack([LEG(q[:, 0] - cen[0], q[:, 1] - cen[1], m / 500. ** tot) for m in (cx, cy)], 1)
    zero = corr(cen[None])[0]
    w = plane(p, theta, (0, 0), radec)
    imgs, tabs = [], []
    for f in range(nf):
        n = int(rng.integers(26, 34))
        pos = scatter(rng, n, shape, cen + rng.uniform(-20, 20, 2), gap=15)
        rd = w.all_pix2world(corr(pos) - zero, 0)
        imgs.append(paint(rng, shape, pos, rng.uniform(5e3, 2e4, len(pos))))
        tabs.append(astropy.table.Table({"x": pos[:, 0], "y": pos[:, 1], "RA": rd[:, 0], "DEC": rd[:, 1]}))
    ds = B.stack(rng, np.array(imgs), None, np.zeros((nf,) + shape), "L2b", pri=dict(RA=float(radec[0]), DEC=float(radec[1])))
    return ds, tabs, dict(p=p, theta=theta, radec=radec, shape=shape, corr=corr, zero=zero, wcs=w)


@SUITE.workload(quick=5, thorough=90)
def distortion(c):
    """The distortion, together with the scale and orientation, maps every place of the detector to its place on the sky."""
    rng = c.rng
    order = int(rng.choice([2, 3, 3]))
    nf = int(rng.integers(2, 4))
    err = None if rng.random() < .5 else float(rng.uniform(.2, 2))
    with c.scratch(), quiet():
        ds, tabs, par = distorted(rng, order, nf)
        astropy.table.Table({"RA": [0.], "DEC": [0.], "VMAG": [1.]}).write("field.csv", format="ascii.csv")
        extra = {} if err is None else {"position_error": err}
        cal = astrom.boresight_calibration(ds, field_path="field.csv", field_matches=tabs if nf > 1 else tabs[:1], find_distortion=True, fitorder=order, **extra)
    k = order + 1
    c.ok(int(cal.distortion_coeffs[-1]) == order and len(cal.distortion_coeffs) == 2 * k * k + 1, "distortion-order", "%d coefficients, order %s" % (len(cal.distortion_coeffs) - 1, cal.distortion_coeffs[-1]))
    tot = np.arange(k)[:, None] + np.arange(k)[None]
    m = [np.array(v).reshape(k, k) / 500. ** tot for v in (cal.distortion_coeffs[:k * k], cal.distortion_coeffs[k * k:-1])]
    cen = np.array(mid(par["shape"]))
    q = rng.uniform([15, 15], [par["shape"][1] - 15, par["shape"][0] - 15], (60, 2))
    fit = lambda q: np.stack([LEG(q[:, 0] - cen[0], q[:, 1] - cen[1], v) for v in m], 1)
    scale = float(np.mean(cal.platescale))
    sky = plane(scale, cal.northangle, (0, 0), par["radec"]).all_pix2world(fit(q) - fit(cen[None])[0], 0)
    back = par["wcs"].all_world2pix(sky, 0)
    res = np.hypot(*(back - (par["corr"](q) - par["zero"])).T)
    size = np.hypot(*(par["corr"](q) - par["zero"] - (q - cen)).T)
    c.ok(res.max() < .05, "distortion", "places off by up to %.3f pixels (distortion up to %.2f), order %d, error %s, shape %s" % (res.max(), size.max(), order, err, par["shape"]))
    c.see("distortions fitted")
    c.sig("distortion", order, nf, err is None, par["shape"][0] == par["shape"][1])


@SUITE.workload(quick=120, thorough=4000)
def geometry(c):
    rng = c.rng
    f = astrom
    # position angles and separations
    sep, pa, x0, y0 = rng.uniform(0, 100, 3), rng.uniform(-720, 720, 3), rng.uniform(-50, 50), rng.uniform(-50, 50)
    d = f.seppa2dxdy(sep, pa)
    z = sep * np.exp(1j * np.radians(pa + 90))
    c.close(d, np.array([z.real, z.imag]), "seppa", "separation %s, angle %s" % (sep, pa), atol=1e-10)
    c.close(f.seppa2xy(sep, pa, x0, y0), np.array([z.real + x0, z.imag + y0]), "seppa-xy", atol=1e-10)
    c.close(f.get_polar_dist((sep[0], pa[0]), (sep[1], pa[1])), abs(z[0] - z[1]), "polar", atol=1e-6)
    p1 = rng.uniform(-50, 50, 2)
    a = rng.uniform(0, 360) if rng.random() < .7 else float(rng.choice([0, 90, 180, 270, 45, 135]))
    p2 = p1 + rng.uniform(1, 80) * np.array([-np.sin(np.radians(a)), np.cos(np.radians(a))])
    with np.errstate(all="ignore"):
        c.ok(abs(wrap(f.angle_between(tuple(p1), tuple(p2)) - a)) < 1e-8, "angle", "angle %s for %s" % (f.angle_between(tuple(p1), tuple(p2)), a))
    n, r = int(rng.integers(1, 9)), int(rng.integers(1, 5))
    c.equal([tuple(int(v) for v in t) for t in f.compute_combinations(np.zeros(n), r)], list(itertools.combinations(range(n), r)), "combinations", "of %d from %d" % (r, n))
    # centroids
    shape = tuple(int(v) for v in rng.integers(15, 40, 2))
    im = rng.uniform(0, 1, shape)
    yy, xx = np.indices(shape)
    c.close(f.centroid(im), ((xx * im).sum() / im.sum(), (yy * im).sum() / im.sum()), "centroid", rtol=1e-9)
    im[int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))] = 50
    roi = int(rng.integers(1, 8))
    guess = None if rng.random() < .5 else (float(rng.uniform(0, shape[1] - 1)), float(rng.uniform(0, shape[0] - 1)))
    py, px = np.unravel_index(np.argmax(im), shape) if guess is None else (int(round(guess[1])), int(round(guess[0])))
    box = (abs(yy - py) <= roi) & (abs(xx - px) <= roi)
    c.close(f.centroid_with_roi(im, roi, guess), ((xx * im)[box].sum() / im[box].sum(), (yy * im)[box].sum() / im[box].sum()), "centroid-roi", "within %d of %s, %s" % (roi, px, py), rtol=1e-9)
    # masks
    cen = None if rng.random() < .4 else tuple(float(v) for v in rng.uniform([0, 0], [shape[1], shape[0]]))
    rad = None if rng.random() < .3 else float(rng.uniform(1, 15))
    cx, cy = ((shape[1] - 1) / 2, (shape[0] - 1) / 2) if cen is None else cen
    m = f.create_circular_mask(shape, center=cen, r=rad)
    dist = np.hypot(xx - cx, yy - cy)
    if rad is not None:
        sure = abs(dist - rad) > 1e-9
        c.ok(m.shape == shape and np.array_equal(m[sure], (dist <= rad)[sure]), "mask", "mask of radius %s around %s" % (rad, cen))
    else:
        # within half a pixel of the largest circle inside the array
        big = min(cx, cy, shape[1] - 1 - cx, shape[0] - 1 - cy)
        c.ok(np.all(m[dist <= big - 1e-9]) and not m[dist > big + 1.0001].any(), "mask-largest", "largest mask around %s in %s" % (cen, shape))
    c.see("relations checked", 8)
    c.sig("geometry", cen is None, rad is None, guess is None, n, r)


@SUITE.workload(quick=25, thorough=600)
def offsets(c):
    """The offset between two stars is found from a rough guess."""
    rng = c.rng
    shape = (90, 110)
    a = rng.uniform(20, 40, 2)
    b = a + rng.uniform(18, 30, 2)
    with quiet():
        im = paint(rng, shape, np.array([a, b]), np.array([1e4, 1e4]) * rng.uniform(.5, 2, 2), noise=1e-5)
        guess = b - a + rng.uniform(-.8, .8, 2)
        got, _ = astrom.measure_offset(im, a[0], a[1], guess[0], guess[1])
    c.ok(np.hypot(*(np.array(got) - (b - a))) < .05, "measured", "offset %s, true %s, guess %s" % (got, b - a, guess))
    c.see("offsets measured")
    c.sig("offset")
