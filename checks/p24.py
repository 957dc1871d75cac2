"""P24: splitting a dataset by keywords is a partition of its frames."""
import numpy as np
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P24", "one distinct situation = kinds of the keyword values (int, float, text, logical, undefined, mixed) x number of keywords x headers used x number of groups; the groups are compared "
              "with a dictionary keyed by the header values")


def values(rng, kind):
    k = int(rng.integers(1, 4))
    if kind == "int":
        return [int(v) for v in rng.integers(-3, 1000, k)]
    if kind == "float":
        v = [float(x) for x in rng.choice([0.1, .1 + 1e-12, 1., 1e-30, 2.5, 1e5, 1234.5678901], k)]
        return v
    if kind == "text":
        return [str(x) for x in rng.choice(["A", "a", "TDEMO", "PUPILIMG", "1F", "3C", "12", "A B", "NONE", "nan", "a long value of more than thirty-two letters X",
                                            "a long value of more than thirty-two letters Y"], k)]
    if kind == "bool":
        return [True, False]
    if kind == "number":        # integers and reals in one keyword
        return [1, 1.5, 2, 2.0]
    if kind == "undefined":
        return [None, 1.5, 2.5]
    return [None, "A", "B"]


@SUITE.workload(quick=150, thorough=2000)
def partition(c):
    rng = c.rng
    n = int(rng.integers(1, 10))
    nk = int(rng.integers(1, 4))
    kinds = [str(rng.choice(["int", "float", "text", "bool", "number", "undefined", "undefined-text"])) for _ in range(nk)]
    where = [str(rng.choice(["pri", "ext"])) for _ in range(nk)]
    vals = [values(rng, k) for k in kinds]
    with quiet():
        ds = B.dataset(rng, n, (2, 3), "L1")
        for f in ds:
            for j in range(nk):
                (f.pri_hdr if where[j] == "pri" else f.ext_hdr)["KEY%d" % j] = vals[j][int(rng.integers(len(vals[j])))]
        pk = ["KEY%d" % j for j in range(nk) if where[j] == "pri"]
        ek = ["KEY%d" % j for j in range(nk) if where[j] == "ext"]
        kw = {}
        if pk or rng.random() < .2:
            kw["prihdr_keywords"] = pk
        if ek or rng.random() < .2:
            kw["exthdr_keywords"] = ek
        want = {}
        for i, f in enumerate(ds):
            key = tuple(f.pri_hdr[k] for k in pk) + tuple(f.ext_hdr[k] for k in ek)
            want.setdefault(key, []).append(i)
        parts, uniq = ds.split_dataset(**kw)
        idx = {id(f): i for i, f in enumerate(ds)}
        names = {f.filename: i for i, f in enumerate(ds)}
        got = [[idx.get(id(f), names[f.filename]) for f in p] for p in parts]
        c.see("frames", n)
        c.see("groups", len(want))
        flat = sorted(i for g in got for i in g)
        c.ok(flat == list(range(n)), "partition", "frames in the groups %s of %d frames; values %s" % (got, n, list(want)))
        c.ok(sorted(map(sorted, got)) == sorted(want.values()), "groups", "groups %s, expected %s; values %s" % (got, list(want.values()), list(want)))
        c.ok(all(g == sorted(g) for g in got), "order", "order within groups %s" % got)
        c.ok(len(uniq) == len(parts), "labels", "%d labels, %d groups" % (len(uniq), len(parts)))
        for p, u, g in zip(parts, uniq, got):
            f = ds[g[0]]
            key = tuple(f.pri_hdr[k] for k in pk) + tuple(f.ext_hdr[k] for k in ek)
            u = tuple(u) if isinstance(u, (tuple, list)) else (u,)
            c.ok(len(u) == len(key) and all(same(a, b) for a, b in zip(u, key)), "labels", "label %s for values %s" % (u, key))
            c.ok(isinstance(p, data.Dataset) and np.array_equal(p.all_data, np.array([ds[i].data for i in g])) and np.array_equal(p.all_err, np.array([ds[i].err for i in g]))
                 and np.array_equal(p.all_dq, np.array([ds[i].dq for i in g])), "arrays", "arrays of a group differ from its frames")
    c.sig(kinds, where, len(want), n)
    c.sample({"kinds": kinds, "groups": [list(map(str, k)) for k in want]})


def same(a, b):
    if b is None:
        return a is None or a != a or str(a) in ("None", "nan")
    if isinstance(b, str):
        return str(a) == b
    try:
        return float(a) == float(b)
    except ValueError:
        return str(a) in (str(b), str(float(b)))


@SUITE.workload(quick=10, thorough=60)
def refusals(c):
    rng = c.rng
    with quiet():
        ds = B.dataset(rng, 3, (2, 3), "L1")
        c.raises(ValueError, lambda: ds.split_dataset(), "no-keywords", "no keywords")
        k = "MISS%d" % int(rng.integers(100))
        c.raises(KeyError, lambda: ds.split_dataset(exthdr_keywords=["EXPTIME", k]), "missing-keyword", "keyword absent from all frames")
        for f in list(ds)[:2]:
            f.ext_hdr[k] = 1
        c.raises(KeyError, lambda: ds.split_dataset(exthdr_keywords=[k]), "missing-keyword", "keyword absent from one frame")
    c.sig(k)
