"""P31: cropping, rotating, undistorting and the sky coordinates describe one and the same sky."""
import contextlib
import numpy as np
import corgidrp
from astropy.wcs import WCS
import corgidrp.data as data
import corgidrp.l2b_to_l3 as l3
import corgidrp.l3_to_l4 as l4
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap
from vlib.steps import distortion_coeffs

SUITE = Suite("P31", "one distinct situation = operation x frame shape class x parity x rotation centre x angle octant, crop size and position class, distortion order; point sources, smooth scenes and flag patterns "
              "with known places are followed through every operation, on the detector and on the sky")


@contextlib.contextmanager
def tracking(on):
    old = corgidrp.track_individual_errors
    corgidrp.track_individual_errors = on
    try:
        yield
    finally:
        corgidrp.track_individual_errors = old


def scene(rng, shape, n=5, w=(2.2, 3.5), margin=3):
    """Analytic smooth image: (function of x, y), sources."""
    s = [(rng.uniform(margin, shape[1] - margin), rng.uniform(margin, shape[0] - margin), rng.uniform(.5, 2), rng.uniform(*w)) for _ in range(n)]
    return (lambda x, y: sum(a * np.exp(-((x - u) ** 2 + (y - v) ** 2) / 2 / q ** 2) for u, v, a, q in s)), s


def frames(rng, n, shape, level, layers=1, ext=None, pri=None, fns=None):
    yy, xx = np.indices(shape)
    fns = fns or [scene(rng, shape)[0] for _ in range(n)]
    d = np.array([f(xx, yy) for f in fns])
    efn = [[scene(rng, shape, w=(4, 6))[0] for _ in range(layers)] for _ in range(n)]
    e = np.array([[1 + g(xx, yy) for g in q] for q in efn])
    dq = np.where(rng.random((n,) + shape) < .3, rng.choice([1, 2, 4, 8, 32, 64, 128], (n,) + shape), 0).astype(np.uint16)
    ds = B.dataset(rng, n, shape, level, ext_list=ext, pri_list=pri)
    for i, f in enumerate(ds):
        f.data[:] = d[i]
        f.dq[:] = dq[i]
    if layers > 1 or ds[0].err.shape[0] != layers:
        ds = data.Dataset([_with(f, d[i], e[i], dq[i]) for i, f in enumerate(ds)])
    for i, f in enumerate(ds):
        f.err[:] = e[i]
    return ds, fns, efn, d, e, dq


def _with(f, d, e, q):
    im = data.Image(d.copy(), pri_hdr=f.pri_hdr, ext_hdr=f.ext_hdr, err=e.copy(), dq=q.copy())
    im.filename = f.filename
    return im


def pointing(rng, n, roll=True):
    return [dict(RA=float(rng.uniform(0, 360)), DEC=float(rng.uniform(-80, 80)), ROLL=float(rng.uniform(-180, 180)) if roll else 0.) for _ in range(n)]


def sky(hdr, x, y):
    """World coordinates as unit vectors; the reference pixel counts like the pixels of the frame."""
    h = hdr.copy()
    with quiet():
        w = WCS(naxis=2)
    w.wcs.crpix = [h["CRPIX1"] + 1, h["CRPIX2"] + 1]
    w.wcs.cd = [[h["CD1_1"], h["CD1_2"]], [h["CD2_1"], h["CD2_2"]]]
    w.wcs.crval = [h["CRVAL1"], h["CRVAL2"]]
    w.wcs.ctype = [h["CTYPE1"], h["CTYPE2"]]
    r, d = np.radians(w.wcs_pix2world(np.atleast_1d(x).astype(float), np.atleast_1d(y).astype(float), 0))
    return np.array([np.cos(d) * np.cos(r), np.cos(d) * np.sin(r), np.sin(d)])


def apart(a, b):
    """Largest distance in mas."""
    return float(np.max(np.sqrt(((a - b) ** 2).sum(0)))) * 206264806.


def untouched(c, ds, before, what):
    d = [snap.diff(a, snap.img(f)) for a, f in zip(before, ds)]
    c.ok(not any(d), what + "-input", "%s changed its input: %s" % (what, d))


@SUITE.workload(quick=120, thorough=6000)
def wcs(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(20, 70, 2))
    ps, na = rng.uniform(5, 60), rng.uniform(-180, 180)
    off = rng.uniform(-2e-3, 2e-3, 2)
    point = pointing(rng, n)
    layers = int(rng.integers(1, 3))
    with quiet(), tracking(layers > 1):
        ds, _, _, d, e, dq = frames(rng, n, shape, "L2b", layers, pri=point)
        cal = B.astrom(rng, platescale=(ps, ps), northangle=na, offset=off)
        before = [snap.img(f) for f in ds]
        out = l3.create_wcs(ds, cal)
    untouched(c, ds, before, "wcs")
    c.ok(len(out) == n, "wcs-count")
    c.ok(np.array_equal(out.all_data, d) and np.array_equal(out.all_err, e) and np.array_equal(out.all_dq, dq), "wcs-pixels", "pixels changed")
    for f, p in zip(out, point):
        h = f.ext_hdr
        x0, y0 = (shape[1] - 1) // 2, (shape[0] - 1) // 2
        c.close([h["CRPIX1"], h["CRPIX2"]], [x0, y0], "wcs-center", "reference pixel")
        c.close([h["CRVAL1"], h["CRVAL2"]], [p["RA"] - off[0], p["DEC"] - off[1]], "wcs-target", "sky position of the reference pixel", rtol=1e-12)
        c.equal([h["CTYPE1"], h["CTYPE2"]], ["RA---TAN", "DEC--TAN"], "wcs-type")
        c.close([h["CDELT1"], h["CDELT2"], h["PLTSCALE"]], [ps / 3.6e6, ps / 3.6e6, ps], "wcs-scale", "plate scale", rtol=1e-12)
        v = np.radians(na + p["ROLL"])
        # a step of k pixels towards north (east) in the image goes north (east) on the sky by k plate scales
        k = rng.uniform(1, 5)
        a, d_ = np.radians(p["RA"] - off[0]), np.radians(p["DEC"] - off[1])
        o = np.array([np.cos(d_) * np.cos(a), np.cos(d_) * np.sin(a), np.sin(d_)])
        east = np.array([-np.sin(a), np.cos(a), 0])
        north = np.array([-np.sin(d_) * np.cos(a), -np.sin(d_) * np.sin(a), np.cos(d_)])
        for dx, dy, way, nm in ((np.sin(v), np.cos(v), north, "north"), (-np.cos(v), np.sin(v), east, "east")):
            s = sky(h, x0 + k * dx, y0 + k * dy)[:, 0]
            want = o + way * k * ps / 206264806.
            c.ok(apart(s[:, None], want[:, None]) < 1e-3 * ps, "wcs-" + nm, "%.2f pixels towards %s (angle %.1f deg) lead elsewhere, by %.3g mas" % (k, nm, np.degrees(v), apart(s[:, None], want[:, None])))
    c.see("WCS written", n)
    c.sig(n, shape[0] % 2, shape[1] % 2, shape[0] > shape[1], int(na // 45))


def nearest(dq, sx, sy):
    """Value of the nearest pixel and whether that is beyond doubt."""
    ix, iy = np.rint(sx).astype(int), np.rint(sy).astype(int)
    ins = (ix >= 0) & (iy >= 0) & (ix < dq.shape[1]) & (iy < dq.shape[0])
    v = np.where(ins, dq[np.clip(iy, 0, dq.shape[0] - 1), np.clip(ix, 0, dq.shape[1] - 1)], 0)
    sure = (abs(sx - ix) < .48) & (abs(sy - iy) < .48) & (ins & (sx >= 0) & (sy >= 0) & (sx <= dq.shape[1] - 1) & (sy <= dq.shape[0] - 1) | (sx < -1) | (sy < -1) | (sx > dq.shape[1]) | (sy > dq.shape[0]))
    return v, sure


@SUITE.workload(quick=120, thorough=6000)
def northup(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    quarter = c.index % 4 == 0
    if quarter:
        m = int(rng.integers(15, 35)) * 2 + 1
        shape = (m, m)
    else:
        shape = tuple(int(v) for v in rng.integers(30, 70, 2))
    use_wcs = rng.random() < .7
    layers = int(rng.integers(1, 4))
    ps = 21.8
    point = pointing(rng, n)
    if quarter:
        for p in point:
            p["ROLL"] = float(rng.choice([0, 90, 180, 270, -90]))
    na = 0. if quarter else rng.uniform(-180, 180)
    star = [(rng.uniform(.3, .7) * shape[1], rng.uniform(.3, .7) * shape[0]) for _ in range(n)]
    how = ["im_center", "starloc", "manual"][c.index % 3]
    hasstar = how == "starloc" or rng.random() < .7
    fns, src = zip(*[scene(rng, shape) for _ in range(n)])
    with quiet(), tracking(True):
        ext = [dict(STARLOCX=float(sx), STARLOCY=float(sy)) if hasstar else {} for sx, sy in star]
        ds, _, efn, d, e, dq = frames(rng, n, shape, "L2b", layers, ext=ext, pri=point, fns=list(fns))
        if not hasstar:
            for f in ds:
                for k in ("STARLOCX", "STARLOCY"):
                    if k in f.ext_hdr:
                        del f.ext_hdr[k]
        ds = l3.create_wcs(ds, B.astrom(rng, platescale=(ps, ps), northangle=na))
        arg = how if how != "manual" else (float(rng.uniform(.3, .7) * shape[1]), float(rng.uniform(.3, .7) * shape[0]))
        before = [snap.img(f) for f in ds]
        out = l4.northup(ds, use_wcs=use_wcs, rot_center=arg)
    untouched(c, ds, before, "northup")
    c.ok(len(out) == n, "northup-count")
    yy, xx = np.indices(shape)
    for i, f in enumerate(out):
        ang = np.radians((na + point[i]["ROLL"]) if use_wcs else point[i]["ROLL"])
        x0, y0 = ((shape[1] - 1) // 2, (shape[0] - 1) // 2) if how == "im_center" else star[i] if how == "starloc" else arg
        # where each pixel of the rotated frame was before
        sx = (xx - x0) * np.cos(ang) + (yy - y0) * np.sin(ang) + x0
        sy = -(xx - x0) * np.sin(ang) + (yy - y0) * np.cos(ang) + y0
        inner = (sx > 2) & (sy > 2) & (sx < shape[1] - 3) & (sy < shape[0] - 3)
        outer = (sx < -1) | (sy < -1) | (sx > shape[1]) | (sy > shape[0])
        c.close(f.data[inner], fns[i](sx, sy)[inner], "northup-data", "rotated data (%s, %.1f deg)" % (how, np.degrees(ang)), rtol=0, atol=.02)
        if c.ok(f.err.shape == (layers,) + shape, "northup-err-layers", "error array of shape %s for %d layers" % (f.err.shape, layers)):
            for k in range(layers):
                c.close(f.err[k][inner], 1 + efn[i][k](sx, sy)[inner], "northup-err", "rotated error layer %d (%s, %.1f deg)" % (k, how, np.degrees(ang)), rtol=0, atol=.02)
        c.ok(not np.any(np.nan_to_num(f.data[outer])), "northup-outside", "values where the sky was not imaged")
        want, sure = nearest(dq[i], sx, sy)
        bad = sure & (f.dq != want)
        c.ok(not bad.any(), "northup-dq", "%d of %d flags are not those of the rotated pixels (%s, %.1f deg, shape %s)" % (bad.sum(), sure.sum(), how, np.degrees(ang), shape))
        if quarter and how == "im_center":
            k = int(round(np.degrees(ang) / 90)) % 4
            c.ok(np.array_equal(f.dq, np.rot90(dq[i], -k)), "northup-quarter-dq", "flags after %d quarter turns" % k)
            v = np.rot90(d[i], -k)
            g = np.isfinite(f.data)
            c.ok(g[1:-1, 1:-1].all(), "northup-quarter-lost", "pixels lost in %d quarter turns" % k)
            c.close(f.data[g], v[g], "northup-quarter", "data after %d quarter turns" % k, rtol=0, atol=1e-8)
        if hasstar:
            dx, dy = star[i][0] - x0, star[i][1] - y0
            c.close([f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]], [x0 + dx * np.cos(ang) - dy * np.sin(ang), y0 + dx * np.sin(ang) + dy * np.cos(ang)], "northup-star", "star location (%s)" % how, rtol=0, atol=1e-6)
        if use_wcs:
            h = f.ext_hdr
            c.close([h["CD1_2"], h["CD2_1"]], [0, 0], "northup-north", "north is up", rtol=0, atol=1e-9 * ps / 3.6e6)
            c.close([h["CD1_1"], h["CD2_2"]], [-ps / 3.6e6, ps / 3.6e6], "northup-east", "east is left", rtol=1e-9)
            a = sky(ds[i].ext_hdr, sx[inner], sy[inner])
            b = sky(h, xx[inner], yy[inner])
            c.ok(apart(a, b) < 1e-4 * ps, "northup-sky", "places on the sky move by %.3g mas (%s)" % (apart(a, b), how))
        c.sig(how, use_wcs, shape[0] % 2, shape[1] % 2, int(np.degrees(ang) // 45), quarter)
    c.ok([f.filename for f in out] == [f.filename for f in ds], "northup-order", "frames in another order")
    c.see("frames rotated", n)


@SUITE.workload(quick=200, thorough=12000)
def crop(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(24, 80, 2))
    cube = rng.random() < .3
    k = int(rng.integers(2, 4))
    layers = int(rng.integers(1, 3))
    same = rng.random() < .4
    size = [int(rng.integers(2, (s - 6) // 2)) * 2 for s in shape[::-1]]
    if rng.random() < .4:
        size = [min(size)] * 2
    # places of the lower left corner that keep the box inside
    corner = [[int(rng.integers(0, shape[1] - size[0] + 1)), int(rng.integers(0, shape[0] - size[1] + 1))] for _ in range(n)]
    if rng.random() < .3:
        corner[0] = [int(rng.choice([0, shape[1] - size[0]])), int(rng.choice([0, shape[0] - size[1]]))]
    if same:
        corner = [corner[0]] * n
    off = rng.uniform(-.45, .45, (n, 2)) if rng.random() < .6 else np.zeros((n, 2))
    cen = [np.array(q) + np.array(size) / 2 - .5 + (off[0] if same else off[i]) for i, q in enumerate(corner)]
    given = same and rng.random() < .6
    point = pointing(rng, n)
    ext = [dict(STARLOCX=float(q[0]), STARLOCY=float(q[1]), LSAMNAME="NFOV") for q in cen]
    with quiet(), tracking(layers > 1):
        ds, _, _, d, e, dq = frames(rng, n, shape, "L2b", layers, ext=ext, pri=point)
        wcs_in = rng.random() < .6
        if wcs_in:
            ds = l3.create_wcs(ds, B.astrom(rng))
        hasdet = rng.random() < .5
        inpri = rng.random() < .4
        for f in ds:
            if inpri:
                f.pri_hdr["CRPIX1"], f.pri_hdr["CRPIX2"] = float(rng.uniform(0, shape[1])), float(rng.uniform(0, shape[0]))
            for q in ("DETPIX0X", "DETPIX0Y"):
                if q in f.ext_hdr:
                    del f.ext_hdr[q]
            if hasdet:
                f.ext_hdr["DETPIX0X"], f.ext_hdr["DETPIX0Y"] = 100, 200
            if given and rng.random() < .5 and "STARLOCX" in f.ext_hdr:
                del f.ext_hdr["STARLOCX"], f.ext_hdr["STARLOCY"]
        if cube:
            fr = []
            for i, f in enumerate(ds):
                im = data.Image(np.array([d[i] + j for j in range(k)]), pri_hdr=f.pri_hdr, ext_hdr=f.ext_hdr, err=np.array([[e[i, q] + j for j in range(k)] for q in range(layers)]), dq=np.array([dq[i]] * k))
                im.filename = f.filename
                fr.append(im)
            ds = data.Dataset(fr)
        kw = dict(sizexy=size[0] if size[0] == size[1] and rng.random() < .5 else list(size))
        if given:
            kw["centerxy"] = [float(v) for v in cen[0]]
        before = [snap.img(f) for f in ds]
        out = l4.crop(ds, **kw)
    untouched(c, ds, before, "crop")
    c.ok(len(out) == n, "crop-count")
    for i, (f, g) in enumerate(zip(out, ds)):
        x, y = corner[i]
        s = (Ellipsis, slice(y, y + size[1]), slice(x, x + size[0]))
        for nm in ("data", "err", "dq"):
            a, b = getattr(f, nm), getattr(g, nm)[s]
            c.ok(a.shape == b.shape and np.array_equal(a, b), "crop-" + nm, "%s of the cropped frame (size %s, corner %s, of %s) is %s" % (nm, size, (x, y), shape, a.shape))
        h, o = f.ext_hdr, g.ext_hdr
        if "STARLOCX" in o:
            c.close([h["STARLOCX"], h["STARLOCY"]], [o["STARLOCX"] - x, o["STARLOCY"] - y], "crop-star", "star location in the cropped frame", rtol=0, atol=1e-9)
            if not given:
                c.ok(abs(h["STARLOCX"] - (size[0] - 1) / 2) <= .5 and abs(h["STARLOCY"] - (size[1] - 1) / 2) <= .5, "crop-centered", "the star is not in the middle")
        else:
            c.ok("STARLOCX" not in h, "crop-star-invented")
        if inpri:
            c.close([f.pri_hdr["CRPIX1"], f.pri_hdr["CRPIX2"]], [g.pri_hdr["CRPIX1"] - x, g.pri_hdr["CRPIX2"] - y], "crop-reference", "reference pixel in the primary header", rtol=0, atol=1e-9)
        c.equal([h["DETPIX0X"], h["DETPIX0Y"]], [x + 100 * hasdet, y + 200 * hasdet], "crop-detpix", "detector place of the first pixel")
        c.equal([h["NAXIS1"], h["NAXIS2"]], size, "crop-axes", "size in the header")
        if wcs_in:
            px, py = rng.uniform(0, size[0], 5), rng.uniform(0, size[1], 5)
            c.ok(apart(sky(o, px + x, py + y), sky(h, px, py)) < .01, "crop-sky", "places on the sky move by %.3g mas" % apart(sky(o, px + x, py + y), sky(h, px, py)))
        rest = lambda q: {a: b for a, b in q.items() if a not in ("STARLOCX", "STARLOCY", "DETPIX0X", "DETPIX0Y", "CRPIX1", "CRPIX2", "HISTORY", "DRPCTIME") and not a.startswith("NAXIS")}
        c.equal(rest(h), rest(o), "crop-header", "other header entries")
        c.ok(f.filename == g.filename, "crop-name")
    with quiet(), tracking(layers > 1):
        # cropping twice around the same place is cropping once
        if min(size) > 8 and not given:
            small = [s - 4 for s in size]
            one = l4.crop(ds, sizexy=small)
            two = l4.crop(out, sizexy=small)
            c.ok(all(np.array_equal(a.data, b.data) and np.array_equal(a.err, b.err) and np.array_equal(a.dq, b.dq) and
                     all(abs(a.ext_hdr[q] - b.ext_hdr[q]) < 1e-6 for q in ("STARLOCX", "STARLOCY", "DETPIX0X", "DETPIX0Y") + (("CRPIX1", "CRPIX2") if wcs_in else ())) for a, b in zip(one, two)),
                 "crop-twice", "cropping in two steps gives something else")
        # a box that sticks out is refused, on every side
        side = int(rng.integers(4))
        q = np.array(corner[0]) + np.array(size) / 2 - .5
        q[side % 2] = (size[side % 2] / 2 - .5 - int(rng.integers(1, 6))) if side < 2 else (shape[::-1][side % 2] - size[side % 2] / 2 - .5 + int(rng.integers(1, 6)))
        c.raises(ValueError, lambda: l4.crop(ds, sizexy=list(size), centerxy=[float(v) for v in q]), "crop-outside", "box beyond side %d" % side)
        c.raises(UserWarning, lambda: l4.crop(ds, sizexy=[size[0], size[1] - 1]), "crop-odd", "odd size")
        nostar = ds.copy()
        for f in nostar:
            for w in ("STARLOCX", "STARLOCY"):
                if w in f.ext_hdr:
                    del f.ext_hdr[w]
        c.raises(ValueError, lambda: l4.crop(nostar, sizexy=list(size)), "crop-nostar", "no place to crop around")
    c.see("frames cropped", n)
    c.sig(cube, layers, same, given, size[0] == size[1], corner[0][0] == 0, corner[0][1] == 0, corner[0][0] + size[0] == shape[1], corner[0][1] + size[1] == shape[0], wcs_in, n)


@SUITE.workload(quick=12, thorough=100)
def cropdefault(c):
    rng = c.rng
    shape = (int(rng.integers(70, 90)), int(rng.integers(70, 90)))
    star = (float(rng.integers(30, shape[1] - 31)) + .5, float(rng.integers(30, shape[0] - 31)) + .5)
    with quiet():
        ds, _, _, d, e, dq = frames(rng, 2, shape, "L3", ext=[dict(STARLOCX=star[0], STARLOCY=star[1], LSAMNAME="NFOV")] * 2)
        out = l4.crop(ds)
        x, y = int(star[0] - 29.5), int(star[1] - 29.5)
        c.ok(all(f.data.shape == (60, 60) and np.array_equal(f.data, d[i][y:y + 60, x:x + 60]) for i, f in enumerate(out)), "default-size", "default field of view")
        for f in ds:
            f.ext_hdr["LSAMNAME"] = str(rng.choice(["WFOV", "SPEC", "OPEN"]))
        c.raises(UserWarning, lambda: l4.crop(ds), "default-unknown", "no default size")
    c.see("default crops")
    c.sig(shape[0] % 2, shape[1] % 2)


def legendre(x, m):
    p = [np.ones_like(x), x]
    for k in range(1, m):
        p.append(((2 * k + 1) * x * p[k] - k * p[k - 1]) / (k + 1))
    return p


@SUITE.workload(quick=60, thorough=2500)
def distortion(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(35, 90, 2))
    if rng.random() < .4:
        shape = (shape[0], shape[0])
    order = int(rng.integers(1, 5))
    co = distortion_coeffs(rng, order=order, amp=rng.uniform(.5, 3))
    zero = c.index % 6 == 0
    if zero:
        co = distortion_coeffs(rng, order=order, amp=0.)
    layers = int(rng.integers(1, 3))
    with quiet(), tracking(layers > 1):
        ds, fns, efn, d, e, dq = frames(rng, n, shape, "L3", layers)
        cal = B.astrom(rng, coeffs=co)
        before = [snap.img(f) for f in ds]
        keep = cal.data.copy()
        out = l4.distortion_correction(ds, cal)
    untouched(c, ds, before, "distortion")
    c.ok(np.array_equal(cal.data, keep), "distortion-cal", "the calibration changed")
    yy, xx = np.indices(shape).astype(float)
    x, y = xx - shape[1] // 2, yy - shape[0] // 2
    m = (order + 1) ** 2
    px, py = legendre(x, order), legendre(y, order)
    disp = []
    for q, own in ((co[:m], x), (co[m:2 * m], y)):
        q = np.reshape(q, (order + 1, order + 1))
        disp.append(sum(q[i, j] / 500. ** (i + j) * px[i] * py[j] for i in range(order + 1) for j in range(order + 1)) - own)
    sx, sy = xx - disp[0], yy - disp[1]
    inner = (sx > 3) & (sy > 3) & (sx < shape[1] - 4) & (sy < shape[0] - 4)
    for i, f in enumerate(out):
        c.ok(f.data.shape == shape, "distortion-shape")
        c.close(f.data[inner], fns[i](sx, sy)[inner], "distortion-data", "undistorted data (order %d, up to %.2f pixels)" % (order, abs(np.array(disp)).max()), rtol=0, atol=.01)
        c.ok(f.err.shape == e[i].shape, "distortion-err-shape", "error layers: %s" % (f.err.shape,))
        for j in range(layers):
            c.close(f.err[j][inner], 1 + efn[i][j](sx, sy)[inner], "distortion-err", "undistorted error", rtol=0, atol=.1)
        want, sure = nearest(dq[i], sx, sy)
        bad = sure & inner & (f.dq != want)
        c.ok(not bad.any(), "distortion-dq", "%d of %d flags are not those of the moved pixels (order %d)" % (bad.sum(), (sure & inner).sum(), order))
        if zero:
            c.close(f.data, d[i], "distortion-none", "image without distortion", rtol=0, atol=1e-8)
            c.ok(np.array_equal(f.dq, dq[i]), "distortion-none-dq", "flags without distortion")
    c.see("frames undistorted", n)
    c.see("largest displacement (1/100 pixel)", int(100 * abs(np.array(disp)).max()))
    c.sig(order, shape[0] > shape[1], shape[0] < shape[1], n, layers, zero)
