"""P26: desmearing removes exactly the signal collected while the rows are read out."""
import numpy as np
import corgidrp.data as data
import corgidrp.l2a_to_l2b as l2
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P26", "one distinct situation = frame shape x ratio of row time to exposure x number of frames; smeared scenes are made by an independent row-by-row model and must be "
              "restored exactly")


def smear(scene, a):
    """Signal of a row = own exposure + a x (all rows read before it)."""
    out = np.zeros_like(scene)
    acc = np.zeros(scene.shape[1])
    for r in range(scene.shape[0]):
        acc = acc + scene[r]
        out[r] = scene[r] + a * acc
    return out


def params(rr):
    return data.DetectorParams({"ROWREADT": rr})


@SUITE.workload(quick=60, thorough=600)
def restore(c):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shp = (int(rng.integers(1, 25)), int(rng.integers(1, 8)))
    rr = float(10 ** rng.uniform(-5, -1))
    ext = [dict(EXPTIME=float(np.round(10 ** rng.uniform(-2, 2), 4))) for _ in range(n)]
    with quiet():
        ds = B.dataset(rng, n, shp, "L2a", ext_list=ext)
        scenes = []
        for f in ds:
            s = rng.uniform(0, 100, shp) * (rng.random(shp) < .6)
            scenes.append(s)
            f.data[:] = smear(s, rr / f.ext_hdr["EXPTIME"])
        default = rng.random() < .2
        p = data.DetectorParams({}) if default else params(rr)
        if default:
            rr = p.params["ROWREADT"]
            for f, s in zip(ds, scenes):
                f.data[:] = smear(s, rr / f.ext_hdr["EXPTIME"])
        out = l2.desmear(ds, p)
        for f, s, r in zip(out, scenes, ds):
            a = rr / r.ext_hdr["EXPTIME"]
            # the correction estimates the scene from the smeared rows: S_r = sum_{s<=r} a(1+a)^(s-r-1) data_s
            want = np.zeros(shp)
            for row in range(shp[0]):
                want[row] = r.data[row] - sum(a * (1 + a) ** (k - row - 1) * r.data[k] for k in range(row + 1))
            c.close(f.data, want, "desmear", "closed form", rtol=1e-9, atol=1e-9)
            c.close(f.data, s, "scene-restored", "scene, ratio %g" % a, rtol=1e-7, atol=1e-6)
            c.equal(f.err, r.err, "err", "errors")
            c.equal(f.dq, r.dq, "dq", "flags")
            c.ok(f.ext_hdr["DESMEAR"] is True, "recorded", "DESMEAR %s" % f.ext_hdr.get("DESMEAR"))
            c.see("pixels", f.data.size)
    c.sig(shp, int(np.log10(rr)), n)
    c.sample({"shape": shp, "row time": rr})


@SUITE.workload(quick=20, thorough=200)
def relations(c):
    """Linear, column by column, causal, additive over frames' own exposure times."""
    rng = c.rng
    shp = (int(rng.integers(2, 15)), int(rng.integers(2, 8)))
    rr = float(10 ** rng.uniform(-4, -1))
    with quiet():
        ds = B.dataset(rng, 2, shp, "L2a", ext=dict(EXPTIME=1.0))
        d3 = ds.copy()
        d3[0].data[:] = 2 * ds[0].data + 3 * ds[1].data
        a, b = l2.desmear(ds, params(rr)), l2.desmear(d3, params(rr))
        c.close(b[0].data, 2 * a[0].data + 3 * a[1].data, "linear", "linear combination", rtol=1e-9, atol=1e-8)
        d4 = ds.copy()
        k = int(rng.integers(shp[1]))
        r = int(rng.integers(shp[0]))
        d4[0].data[r, k] += 1000
        e = l2.desmear(d4, params(rr))
        diff = e[0].data != a[0].data
        m = np.zeros(shp, bool)
        m[r:, k] = True
        c.ok(not (diff & ~m).any(), "causal", "a change in one pixel affects other columns or earlier rows")
        d5 = ds.copy()
        d5[0].ext_hdr["EXPTIME"] = 2.0
        c.close(l2.desmear(d5, params(2 * rr))[0].data, a[0].data, "ratio", "same ratio of row time to exposure", rtol=1e-9, atol=1e-9)
    c.sig(shp)
