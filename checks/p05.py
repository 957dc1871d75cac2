"""P05: what is saved to FITS is what is read back, for every product."""
import os
import numpy as np
import astropy.io.fits as fits
from astropy.time import Time
import corgidrp
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B, snap

SUITE = Suite("P05", "one distinct situation = product class x array dtype x error layers/tracking x header content x "
              "second-generation save; every array value, header card, extension and derived attribute is compared")

SKIP = {"SIMPLE", "XTENSION", "BITPIX", "NAXIS", "NAXIS1", "NAXIS2", "NAXIS3", "NAXIS4", "EXTEND", "PCOUNT", "GCOUNT",
        "BZERO", "BSCALE", "COMMENT", "EXTNAME", "TRK_ERRS"}


def keyvals(h):
    out = {}
    for k in h.cards:
        if k.keyword in SKIP or k.keyword == "" or k.keyword == "HISTORY":
            continue
        out[k.keyword] = k.value
    return out


def history(h):
    return "".join(str(x) for x in h.get("HISTORY", [])) if "HISTORY" in h else ""


def same_val(a, b):
    if isinstance(a, float) or isinstance(b, float):
        try:
            return a == b or (a != a and b != b) or abs(float(a) - float(b)) <= 2e-12 * max(abs(float(a)), abs(float(b)))
        except (TypeError, ValueError):
            return False
    if a is None or isinstance(a, fits.card.Undefined):
        return b is None or isinstance(b, fits.card.Undefined)
    if isinstance(a, str) and isinstance(b, str):
        return a.rstrip() == b.rstrip()
    return a == b and isinstance(a, (bool, np.bool_)) == isinstance(b, (bool, np.bool_))


def cmp_headers(c, a, b, key, msg):
    ka, kb = keyvals(a), keyvals(b)
    lost = [k for k in ka if k not in kb]
    c.ok(not lost, key + ":lost", "%s: keywords lost %s" % (msg, lost[:5]))
    chg = [(k, ka[k], kb[k]) for k in ka if k in kb and not same_val(ka[k], kb[k])]
    c.ok(not chg, key + ":changed", "%s: keywords changed %s" % (msg, chg[:3]))
    new = [k for k in kb if k not in ka and k not in ("DESMEAR", "CTI_CORR", "IS_BAD", "ORIGIN", "RN", "RN_ERR", "PC_STAT",
                                                     "BUNIT", "PCHECK", "CHECKSUM", "DATASUM", "LONGSTRN")]
    c.ok(not new, key + ":invented", "%s: keywords invented %s" % (msg, new[:5]))
    c.ok(history(b).startswith(history(a)) or history(a).replace(" ", "") == history(b).replace(" ", ""),
         key + ":history", "%s: history changed from %r to %r" % (msg, history(a)[-80:], history(b)[-80:]))
    c.see("header_cards_compared", len(ka))


def cmp_arr(c, a, b, key, msg):
    if a is None or b is None:
        c.ok((a is None) == (b is None), key, msg + ": array lost")
        return
    a, b = np.asarray(a), np.asarray(b)
    c.see("pixels_compared", a.size)
    if not c.ok(a.shape == b.shape, key + ":shape", "%s: shape %s became %s" % (msg, a.shape, b.shape)):
        return
    ok = np.array_equal(a, b, equal_nan=True) if a.dtype.kind == "f" else np.array_equal(a, b)
    c.ok(ok, key, "%s: values changed (dtype %s -> %s)" % (msg, a.dtype, b.dtype))
    c.ok(a.dtype.kind == b.dtype.kind and a.dtype.itemsize == b.dtype.itemsize, key + ":dtype",
         "%s: dtype %s became %s" % (msg, a.dtype, b.dtype))


SCALARS = (int, float, np.floating, np.integer, str, bool)


def cmp_objs(c, name, a, b, skip=(), track=True):
    c.ok(type(a) is type(b), "class:" + name, "%s came back as %s" % (name, type(b).__name__))
    cmp_arr(c, a.data, b.data, "data:" + name, name + " data")
    ea = a.err
    if not track and np.ndim(ea) and ea.shape[0] > 1 and np.ndim(ea) == np.ndim(a.data) + 1:
        ea = ea[:1]
    if "err" not in skip:
        cmp_arr(c, ea, b.err, "err:" + name, name + " err")
    if "dq" not in skip:
        cmp_arr(c, a.dq, b.dq, "dq:" + name, name + " dq")
    for h in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"):
        if h == "dq_hdr" and "dq" in skip:
            continue
        x, y = getattr(a, h), getattr(b, h)
        if h == "err_hdr" and not track:
            x = x.copy()
            for k in [k for k in x if k.upper().startswith("LAYER_") and k.upper() != "LAYER_1"]:
                del x[k]
        cmp_headers(c, x, y, "%s:%s" % (h, name), "%s %s" % (name, h))
    if "hdus" not in skip:
        na, nb = [h.name for h in a.hdu_list], [h.name for h in b.hdu_list]
        if c.ok(na == nb, "hdus:" + name, "%s extensions %s became %s" % (name, na, nb)):
            for x, y in zip(a.hdu_list, b.hdu_list):
                cmp_arr(c, x.data, y.data, "hdudata:%s" % name, "%s extension %s" % (name, x.name))
                cmp_headers(c, x.header, y.header, "hduhdr:%s" % name, "%s extension %s" % (name, x.name))
    # derived attributes of the product
    for k, v in vars(a).items():
        if k in ("data", "err", "dq", "filedir", "filename", "hdu_list", "hdu_names", "_bitpix"):
            continue
        w = getattr(b, k, None)
        if isinstance(v, np.ndarray):
            cmp_arr(c, v, w, "attr:%s:%s" % (name, k), "%s.%s" % (name, k))
        elif isinstance(v, dict):
            c.ok(set(v) == set(w) and all(same_val(v[i], w[i]) for i in v), "attr:%s:%s" % (name, k),
                 "%s.%s: %r became %r" % (name, k, v, w))
        elif isinstance(v, SCALARS):
            c.ok(same_val(v, w), "attr:%s:%s" % (name, k), "%s.%s: %r became %r" % (name, k, v, w))
        c.see("attributes_compared")


def hostile(rng, a):
    """NaN, infinities, denormals, extremes."""
    f = a.reshape(-1)
    for v in (np.nan, np.inf, -np.inf, 5e-324, 1.7e308, -0.0):
        if rng.random() < .5 and f.size:
            f[rng.integers(f.size)] = v
    return a


def decorate(rng, h):
    """Header content that is awkward to store."""
    if rng.random() < .7:
        h["MYSTR"] = ("x" * int(rng.integers(0, 68)), "comment")
    if rng.random() < .4:
        h["LONGS"] = "a long value with ' quotes & ampersands " * 4
    if rng.random() < .5:
        h["MYINT"] = int(rng.integers(-2 ** 40, 2 ** 40))
    if rng.random() < .5:
        h["MYFLT"] = float(rng.normal() * 10.0 ** rng.integers(-25, 25))
    if rng.random() < .5:
        h["MYBOOL"] = bool(rng.random() < .5)
    if rng.random() < .4:
        h["HISTORY"] = "a long history entry " * int(rng.integers(1, 12))
    if rng.random() < .3:
        h["LOWER"] = "MiXed caSe"


DQT = [np.int64, np.int32, np.uint8, np.uint16, np.uint32, np.int16]
DT = [np.float64, np.float32, np.int32, np.uint16, np.int64]


@SUITE.workload(quick=70, thorough=2500)
def images(c):
    rng = c.rng
    track = bool(rng.random() < .5)
    corgidrp.track_individual_errors = track
    nd = int(rng.choice([1, 2, 2, 2, 3]))
    shape = tuple(int(x) for x in rng.integers(1, 7, nd))
    dt, dqt = DT[int(rng.integers(len(DT)))], DQT[int(rng.integers(len(DQT)))]
    d = rng.normal(0, 1000, shape)
    d = hostile(rng, d).astype(dt) if np.dtype(dt).kind == "f" else np.abs(d).astype(dt)
    flags = [f for f in B.FLAGS if f <= np.iinfo(dqt).max]
    dq = B.dq_map(rng, shape, .5, flags=flags, dtype=dqt)
    nl = int(rng.integers(1, 4)) if nd > 1 else 1
    hdus = [fits.ImageHDU(rng.normal(0, 1, tuple(rng.integers(1, 4, int(rng.integers(1, 4))))), name="EXTRA%d" % k)
            for k in range(int(rng.integers(0, 3)))]
    level = str(rng.choice(["L1", "L2a", "L2b", "L3", "L4"]))
    img = data.Image(d, pri_hdr=B.pri_header(rng), ext_hdr=B.ext_header(rng, level),
                     err=hostile(rng, np.abs(rng.normal(1, .2, (1,) + shape))), dq=dq,
                     input_hdulist=fits.HDUList(hdus) if hdus else None)
    for h in (img.pri_hdr, img.ext_hdr, img.err_hdr, img.dq_hdr):
        decorate(rng, h)
    if nd > 1:
        for k in range(nl - 1):
            img.add_error_term(np.abs(rng.normal(1, .2, shape)), "layer%d" % k)
    if rng.random() < .4:
        img.add_extension_hdu("LATER", data=rng.normal(0, 1, (3, 3)))
    img.filename = B.fname(3, level)
    with c.scratch() as wd:
        os.mkdir("sub")
        which = rng.integers(4)
        if which == 0:
            img.save(filedir="sub")
            path = os.path.join("sub", B.fname(3, level))
        elif which == 1:
            img.save(filedir=wd, filename="other.fits")
            path = os.path.join(wd, "other.fits")
        elif which == 2:
            img.save(filename="other.fits")
            path = "other.fits"
        else:
            img.save()
            path = B.fname(3, level)
        if not c.ok(os.path.exists(path), "path", "not saved where it was asked to: %s" % path):
            return
        c.ok(os.path.abspath(img.filepath) == os.path.abspath(path), "filepath", "filepath %s after saving to %s" % (
            img.filepath, path))
        again = data.Image(path)
        c.ok(again.filename == os.path.basename(path), "readname", "read back with name %s from %s" % (again.filename, path))
        c.ok(os.path.abspath(again.filepath) == os.path.abspath(path), "readpath", "read back with path %s" % again.filepath)
        cmp_objs(c, "Image", img, again)
        # overwriting replaces, a second generation is identical
        again.save()
        third = data.Image(path)
        cmp_objs(c, "Image:2nd", again, third)
        n = len(fits.open(path))
        c.ok(n == 4 + len(img.hdu_list), "hducount", "%d HDUs in the file" % n)
        # tracking switched off on reading: only the combined layer remains
        if track and nl > 1:
            corgidrp.track_individual_errors = False
            off = data.Image(path)
            cmp_objs(c, "Image:untracked", img, off, track=False)
            c.ok(off.err.shape[0] == 1, "untracked:layers", "%d error layers without tracking" % off.err.shape[0])
            corgidrp.track_individual_errors = True
        if not track and nl > 1:
            corgidrp.track_individual_errors = True
            on = data.Image(path)
            cmp_arr(c, img.err, on.err, "err:retracked", "err")
    c.sig(nd, np.dtype(dt).name, np.dtype(dqt).name, nl, track, len(img.hdu_list))
    c.sample({"shape": shape, "dtype": np.dtype(dt).name, "dq": np.dtype(dqt).name, "layers": nl, "tracking": track})


def detpars(rng):
    p = {}
    if rng.random() < .8:
        p["KGAINPAR"] = float(rng.uniform(5, 10))
    if rng.random() < .5:
        p["TELRSTRT"] = int(rng.integers(-5, 1000))
    if rng.random() < .5:
        p["TELREND"] = int(rng.integers(1000, 1200))
    if rng.random() < .5:
        p["ROWREADT"] = float(rng.uniform(1e-5, 1e-3))
    return data.DetectorParams(p, date_valid=Time("2024-0%d-01T00:00:00" % rng.integers(1, 9), scale="utc"))


CALS = {"Dark": lambda r: B.dark(r, (5, 6)), "FlatField": lambda r: B.flat(r, (5, 6)), "KGain": lambda r: B.kgain(r),
        "NonLinearityCalibration": lambda r: B.nonlin(r),
        "BadPixelMap": lambda r: B.bpmap(r, (5, 6), dtype=r.choice([np.uint8, np.uint16, np.int64])),
        "DetectorNoiseMaps": lambda r: B.noise_maps(r, (5, 6)),
        "AstrometricCalibration": lambda r: B.astrom(r, offset=tuple(r.normal(0, .01, 2)), coeffs=r.normal(0, 1, int(r.integers(0, 9)))),
        "TrapCalibration": lambda r: B.trapcal(r, int(r.integers(1, 9))), "FluxcalFactor": lambda r: B.fluxcal(
            r, cfam=str(r.choice(["1F", "3C", "4A"])), fpam=str(r.choice(["HOLE", "ND225", "ND475"]))),
        "CoreThroughputCalibration": lambda r: B.ctcal(r), "NDFilterSweetSpotDataset": lambda r: B.ndsweet(r),
        "DetectorParams": detpars,
        "FpamFsamCal": lambda r: data.FpamFsamCal([] if r.random() < .3 else r.normal(0, 1, (2, 2, 2)),
                                                  date_valid=Time("2024-03-01T00:00:00", scale="utc"))}


@SUITE.workload(quick=4 * len(CALS), thorough=120 * len(CALS))
def calibrations(c):
    rng = c.rng
    name = sorted(CALS)[c.index % len(CALS)]
    with quiet():
        obj = CALS[name](rng)
    plain = name in ("DetectorParams", "FpamFsamCal")
    for h in (obj.pri_hdr, obj.ext_hdr):
        decorate(rng, h)
    if rng.random() < .3 and obj.data.dtype.kind == "f" and not plain and name not in (
            "KGain", "FluxcalFactor", "NonLinearityCalibration", "AstrometricCalibration"):
        hostile(rng, obj.data)
    skip = ("dq", "hdus") if name == "KGain" else ()
    if plain:
        skip = ("err", "dq", "hdus")
    with c.scratch() as wd:
        obj.save(filedir=wd)
        p1 = obj.filepath
        c.ok(os.path.exists(p1), "path:" + name, "not saved at %s" % p1)
        again = type(obj)(p1)
        cmp_objs(c, name, obj, again, skip)
        auto = data.autoload(p1)
        cmp_objs(c, name + ":autoload", obj, auto, skip)
        again.save(filename="second.fits")
        third = type(obj)(os.path.join(wd, "second.fits"))
        cmp_objs(c, name + ":2nd", again, third, skip)
    c.sig(name, obj.data.dtype.name)


@SUITE.workload(quick=12, thorough=300)
def datasets(c):
    """Whole datasets: names, order and values."""
    rng = c.rng
    n = int(rng.integers(1, 6))
    ds = B.dataset(rng, n, (4, 5), "L2a")
    with c.scratch() as wd:
        if rng.random() < .5:
            names = ["f%d.fits" % i for i in rng.permutation(n)]
            ds.save(wd, names)
        else:
            names = [f.filename for f in ds]
            ds.save(wd)
        c.ok(sorted(os.listdir(wd)) == sorted(names), "dataset:files", "files %s, expected %s" % (sorted(os.listdir(wd)), sorted(names)))
        order = list(rng.permutation(n))
        back = data.Dataset([os.path.join(wd, names[i]) for i in order])
        c.ok(len(back) == n, "dataset:length", "")
        for j, i in enumerate(order):
            cmp_objs(c, "Dataset", ds[int(i)], back[j])
        bad = snap.coherent(back)
        c.ok(not bad, "dataset:incoherent", "a dataset read from files is not coherent: %s" % bad)
    c.sig(n)
