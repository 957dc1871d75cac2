"""Deep snapshots of corgidrp objects, and their comparison."""
import hashlib
import numpy as np
import astropy.io.fits as fits
import pandas as pd
import corgidrp.data as data

HDRS = ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr")


def arr(a):
    if a is None:
        return None
    a = np.asarray(a)
    if a.dtype == object:
        return repr(a.tolist())
    return (str(a.dtype.newbyteorder("=")), a.shape, hashlib.sha1(np.ascontiguousarray(a.astype(a.dtype.newbyteorder("=")))
                                                                  .tobytes()).hexdigest())


def cards(h):
    return None if h is None else tuple((c.keyword, repr(c.value), c.comment) for c in h.cards)


def img(x):
    s = {}
    for k in ("data", "err", "dq"):
        if hasattr(x, k):
            s[k] = arr(getattr(x, k))
    for k in HDRS:
        if hasattr(x, k):
            s[k] = cards(getattr(x, k))
    s["filename"] = getattr(x, "filename", None)
    s["filedir"] = getattr(x, "filedir", None)
    if hasattr(x, "hdu_list"):
        s["hdus"] = tuple((h.name, arr(h.data), cards(h.header)) for h in x.hdu_list)
    if hasattr(x, "hdu_names"):
        s["hdu_names"] = tuple(x.hdu_names)
    for k, v in vars(x).items():        # subclass attributes (params, value, ptc, Fij maps ...)
        if k in s or k in HDRS or k in ("hdu_list", "hdu_names", "_filename"):
            continue
        s["attr:" + k] = value(v)
    return s


def value(v):
    if isinstance(v, np.ndarray):
        return arr(v)
    if isinstance(v, fits.Header):
        return cards(v)
    if isinstance(v, (data.Image,)):
        return tuple(sorted(img(v).items(), key=lambda t: t[0]))
    if isinstance(v, data.Dataset):
        return tuple(sorted(ds(v).items(), key=lambda t: t[0]))
    if isinstance(v, dict):
        return tuple((repr(k), value(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return tuple(value(x) for x in v)
    if isinstance(v, pd.DataFrame):
        return v.to_csv()
    if isinstance(v, fits.HDUList):
        return tuple((h.name, arr(h.data), cards(h.header)) for h in v)
    return repr(v)


def ds(d):
    s = {"n": len(d.frames), "all_data": arr(d.all_data), "all_err": arr(d.all_err), "all_dq": arr(d.all_dq)}
    for i, f in enumerate(d.frames):
        for k, v in img(f).items():
            s["frame%d.%s" % (i, k)] = v
    return s


def obj(o):
    if isinstance(o, data.Dataset):
        return ds(o)
    if isinstance(o, data.Image):
        return img(o)
    return {"value": value(o)}


def diff(a, b):
    """Names of the parts that differ."""
    out = []
    for k in sorted(set(a) | set(b)):
        if a.get(k) != b.get(k):
            out.append(k)
    return out


def header_diff(a, b):
    """Which keywords differ between two card tuples."""
    if a is None or b is None:
        return ["<missing>"]
    da, db = {}, {}
    for k, v, c in a:
        da.setdefault(k, []).append((v, c))
    for k, v, c in b:
        db.setdefault(k, []).append((v, c))
    return sorted(k for k in set(da) | set(db) if da.get(k) != db.get(k))


def coherent(d):
    """Dataset cubes and frames show the same numbers, and are the same memory."""
    bad = []
    for i, f in enumerate(d.frames):
        for nm, cube in (("data", d.all_data), ("err", d.all_err), ("dq", d.all_dq)):
            x = getattr(f, nm)
            if i >= len(cube) or np.shape(x) != np.shape(cube[i]):
                bad.append("%s:shape" % nm)
            elif not np.array_equal(x, cube[i], equal_nan=(nm != "dq")):
                bad.append("%s:values" % nm)
            elif x.size and not np.shares_memory(x, cube[i]):
                bad.append("%s:not-a-view" % nm)
    if len(d.all_data) != len(d.frames):
        bad.append("length")
    return sorted(set(bad))
