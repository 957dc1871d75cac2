"""P42: content hashes, masked views and pickled images say exactly what the image holds."""
import copy
import pickle
import numpy as np
import astropy.io.fits as fits
from astropy.time import Time
import corgidrp
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B, snap
from checks.p05 import CALS, detpars

SUITE = Suite("P42", "one distinct situation = kind of object x array dtypes x dimensions x what was edited (one value, one error, "
              "one flag, a header, the name) x error tracking")

DT = [np.float64, np.float32, np.int32, np.uint16]
DQT = [np.int64, np.int32, np.uint8, np.uint16, np.uint32]


def random_image(rng, nd=None):
    nd = int(rng.choice([1, 2, 2, 2, 3])) if nd is None else nd
    shape = tuple(int(x) for x in rng.integers(2, 8, nd))
    dt, dqt = DT[int(rng.integers(len(DT)))], DQT[int(rng.integers(len(DQT)))]
    d = (rng.normal(0, 1000, shape) if np.dtype(dt).kind == "f" else rng.integers(0, 60000, shape)).astype(dt)
    dq = B.dq_map(rng, shape, .4, flags=[f for f in B.FLAGS if f <= np.iinfo(dqt).max], dtype=dqt)
    img = data.Image(d, pri_hdr=B.pri_header(rng), ext_hdr=B.ext_header(rng, "L2a"), err=np.abs(rng.normal(1, .2, (1,) + shape)), dq=dq)
    img.filename = B.fname(3, "L2a")
    if nd > 1:
        for k in range(int(rng.integers(0, 3))):
            img.add_error_term(np.abs(rng.normal(1, .2, shape)), "layer%d" % k)
    return img


@SUITE.workload(quick=60, thorough=3000)
def hashes(c):
    """Equal content gives the same hash, one changed number another one."""
    rng = c.rng
    corgidrp.track_individual_errors = track = bool(rng.random() < .5)
    a = random_image(rng)
    h = a.get_hash()
    c.ok(h == a.get_hash(), "hash:repeat", "asking twice gives two hashes")
    c.ok(isinstance(h, str) and len(h) > 0, "hash:type", "hash %r" % (h,))
    b = data.Image(a.data.copy(), pri_hdr=B.pri_header(rng), ext_hdr=B.ext_header(rng, "L2b"), err=a.err.copy(), dq=a.dq.copy())
    b.filename = "other.fits"
    c.ok(b.get_hash() == h, "hash:equal", "same data, errors and flags under other headers and name have another hash")
    c.ok(a.copy().get_hash() == h and copy.deepcopy(a).get_hash() == h, "hash:copy", "a copy has another hash")
    # a frame of a dataset (its arrays are views of the cube) has the hash it had
    ds = data.Dataset([a.copy(), b.copy()])
    c.ok(ds[0].get_hash() == h and ds[1].get_hash() == h, "hash:dataset", "the hash changes when the image joins a dataset")
    seen = {h}
    for where in ("data", "err", "dq"):
        for pos in ("first", "last", "any", "any"):
            x = a.copy()
            arr = getattr(x, where).reshape(-1)
            i = {"first": 0, "last": arr.size - 1, "any": int(rng.integers(arr.size))}[pos]
            if arr.dtype.kind == "f":
                arr[i] = np.nextafter(arr[i], np.inf) if rng.random() < .5 else arr[i] + 1
            elif where == "dq":
                arr[i] ^= 1 << int(rng.integers(0, 8))
            else:
                arr[i] ^= 1
            g = x.get_hash()
            c.ok(g != h, "hash:blind:" + where, "changing %s value %d of %d keeps the hash" % (where, i, arr.size))
            seen.add(g)
            c.see("edits_hashed")
    # exchanging the values of two pixels is a change as well
    x = a.copy()
    f = x.data.reshape(-1)
    if f.size > 1 and f[0] != f[-1]:
        f[0], f[-1] = f[-1], f[0]
        c.ok(x.get_hash() != h, "hash:order", "exchanging two pixels keeps the hash")
    c.ok(a.get_hash() == h, "hash:stable", "the hash of the untouched image changed")
    c.see("distinct_hashes", len(seen))
    c.sig("hash", a.data.dtype.name, a.dq.dtype.name, a.data.ndim, track)


@SUITE.workload(quick=20, thorough=600)
def parameters(c):
    """Detector parameters: the hash follows every single one of them."""
    rng = c.rng
    with quiet():
        a = detpars(rng)
        b = data.DetectorParams({k: v for k, v in a.params.items()}, date_valid=Time("2025-05-05T00:00:00", scale="utc"))
    h = a.get_hash()
    c.ok(b.get_hash() == h, "params:equal", "the same parameters at another date have another hash")
    for k, v in a.params.items():
        p = dict(a.params)
        p[k] = v + 1 if isinstance(v, (int, float)) else v + "x" if isinstance(v, str) else 7
        with quiet():
            x = data.DetectorParams(p, date_valid=Time("2025-05-05T00:00:00", scale="utc"))
        c.ok(x.get_hash() != h, "params:blind", "changing %s from %r to %r keeps the hash" % (k, v, p[k]))
        c.see("edits_hashed")
    with c.scratch() as wd:
        a.save(filedir=wd)
        one, two = data.DetectorParams(a.filepath), data.DetectorParams(a.filepath)
        c.ok(one.get_hash() == two.get_hash(), "params:reload", "read twice from one file, the parameters have two hashes")
    c.sig("params", len(a.params))


@SUITE.workload(quick=40, thorough=1500)
def masks(c):
    """The masked view."""
    rng = c.rng
    a = random_image(rng)
    before = snap.img(a)
    m = a.get_masked_data()
    want = a.dq != 0
    got = np.ma.getmaskarray(m)
    bad = np.argwhere(got != want)
    c.ok(bad.size == 0, "mask", "%d pixels masked wrongly, e.g. flags %s" % (len(bad), [int(a.dq[tuple(i)]) for i in bad[:4]]))
    c.ok(np.array_equal(np.ma.getdata(m), a.data), "mask:values", "the values under the view differ from the data")
    good = a.data[~want]
    if good.size:
        c.close(float(m.astype(float).sum()), float(good.astype(float).sum()), "mask:sum", "sum of the unmasked values", rtol=1e-6, atol=1e-6)
        c.ok(m.count() == good.size, "mask:count", "%d values left, expected %d" % (m.count(), good.size))
    d = snap.diff(before, snap.img(a))
    c.ok(not d, "mask:input", "taking the view changed the image: %s" % str(d)[:200])
    c.see("pixels_masked", int(want.sum()))
    c.sig("mask", a.dq.dtype.name, a.data.ndim, bool(want.any()), bool(want.all()))


@SUITE.workload(quick=2 * (len(CALS) + 2), thorough=60 * (len(CALS) + 2))
def pickles(c):
    """Pickled and restored: everything is there, nothing is shared."""
    rng = c.rng
    corgidrp.track_individual_errors = track = bool(rng.random() < .5)
    names = sorted(CALS) + ["Image", "Image"]
    name = names[c.index % len(names)]
    with quiet():
        obj = random_image(rng) if name == "Image" else CALS[name](rng)
        if name == "Image" and rng.random() < .5:
            obj.add_extension_hdu("LATER", data=rng.normal(0, 1, (3, 3)))
    obj.ext_hdr["HISTORY"] = "pickled"
    from_file = bool(rng.random() < .4)
    with c.scratch() as wd:
        if from_file:
            obj.save(filedir=wd)
            obj = type(obj)(obj.filepath)
        for h in (obj.pri_hdr, obj.ext_hdr):        # cards without a value are restored as another 'undefined' object
            for k in [x.keyword for x in h.cards if x.keyword and isinstance(x.value, fits.card.Undefined)]:
                h[k] = "undefined"
        before = snap.img(obj)
        with quiet():
            new = pickle.loads(pickle.dumps(obj, protocol=int(rng.integers(2, 6))))
        c.ok(type(new) is type(obj), "pickle:class:" + name, "%s restored as %s" % (name, type(new).__name__))
        d = snap.diff(before, snap.img(new))
        c.ok(not d, "pickle:" + name, "restored %s differs: %s" % (name, str(d)[:300]))
        d = snap.diff(before, snap.img(obj))
        c.ok(not d, "pickle:input:" + name, "pickling changed the %s: %s" % (name, str(d)[:300]))
        new.data = np.asarray(new.data)
        if new.data.size and new.data.flags.writeable:
            new.data.reshape(-1)[0] = 0
        new.ext_hdr["NEWKEY"] = 1
        d = snap.diff(before, snap.img(obj))
        c.ok(not d, "pickle:shared:" + name, "editing the restored %s changed the original: %s" % (name, str(d)[:300]))
        c.see("objects_pickled")
    c.sig("pickle", name, from_file, track)
