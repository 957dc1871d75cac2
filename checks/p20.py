"""P20: unit conversions from counts to photoelectrons per second - values, errors and recorded units."""
import numpy as np
import corgidrp
import corgidrp.data as data
import corgidrp.l2a_to_l2b as l2
import corgidrp.l2b_to_l3 as l3
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P20", "one distinct situation = step x source of the gain x error layers x tracking x zeros in the flat; every pixel, error and unit is recomputed, "
              "each frame with its own header")


def gains(rng):
    g = float(rng.choice([1.0, 1.000001, np.round(rng.uniform(1, 5000), 3), np.round(rng.uniform(1, 3), 3)]))
    src = str(rng.choice(["C", "A", "M", "M0", "MA"]))
    return g, src, {"C": dict(EMGAIN_C=g, EMGAIN_A=float(rng.choice([-1., 0.]))), "A": dict(EMGAIN_C=g * 1.3 + 1, EMGAIN_A=g),
                    "M": dict(EMGAIN_C=g * 1.3 + 1, EMGAIN_A=g * 1.7 + 1, EMGAIN_M=g), "M0": dict(EMGAIN_C=1.0, EMGAIN_A=-1., EMGAIN_M=g),
                    "MA": dict(EMGAIN_C=1.0, EMGAIN_A=g, EMGAIN_M=g)}[src]


def frames(c, level="L2a", **kw):
    rng = c.rng
    n = int(rng.integers(1, 4))
    shp = (int(rng.integers(2, 9)), int(rng.integers(2, 9)))
    track = bool(rng.random() < .4)
    corgidrp.track_individual_errors = track
    nl = int(rng.integers(1, 4)) if track else 1
    gs = [gains(rng) for _ in range(n)]
    ext = [dict(EXPTIME=float("%.6g" % 10 ** rng.uniform(-5, 4)), **g[2]) for g in gs]
    ds = B.dataset(rng, n, shp, level, ext_list=ext, nlayers=nl, **kw)
    return ds, gs, track, shp


def quad(*a):
    return np.sqrt(sum(np.asarray(x) ** 2 for x in a))


def layers(c, f, raw, scale, term, track, key):
    """All layers scaled, one term added in quadrature to the total (and as a layer when tracking)."""
    c.close(f.err[0], quad(raw.err[0] * scale, term) if term is not None else raw.err[0] * scale, key, "total error", rtol=1e-9, atol=0)
    k = raw.err.shape[0]
    c.close(f.err[1:k], raw.err[1:] * scale, key, "existing error layers", rtol=1e-9, atol=0)
    want = k + (1 if (track and term is not None) else 0)
    if c.ok(f.err.shape[0] == want, key, "%d error layers from %d" % (f.err.shape[0], k)) and want > k:
        c.close(f.err[-1], term, key, "added error layer", rtol=1e-9, atol=0)


@SUITE.workload(quick=40, thorough=500)
def photon_noise(c):
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c)
        for f in ds:
            f.data[:] = np.abs(f.data) * (rng.random(shp) > .1)
        out = l2.add_photon_noise(ds)
        for f, r, g in zip(out, ds, gs):
            c.equal(f.data, r.data, "photon-noise-data", "data changed")
            layers(c, f, r, 1.0, np.sqrt(r.data * (2 if g[0] > 1 else 1)), track, "photon-noise")
            c.see("pixels", f.data.size)
    c.sig([g[1] for g in gs], track, [g[0] > 1 for g in gs])


def named(c, ds):
    """Errors that already carry the unit of an earlier step."""
    for f in ds:
        if c.rng.random() < .6:
            f.err_hdr["BUNIT"] = str(c.rng.choice(["DN", "detected EM electrons", "Photoelectrons"]))


@SUITE.workload(quick=40, thorough=500)
def electrons(c):
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c)
        rn, rne = float(np.round(rng.uniform(50, 200), 3)), float(np.round(rng.uniform(0, 9), 3))
        k = B.kgain(rng, rn=rn, rn_err=rne, err=float(rng.choice([0, rng.uniform(0, 1)])))
        named(c, ds)
        v, s = float(k.data.ravel()[0]), float(k.err.ravel()[0])
        if rng.random() < .3:
            with c.scratch():
                k.save(filedir=".", filename="k.fits")
                k = data.KGain("k.fits")
        out = l2.convert_to_electrons(ds, k)
        for f, r in zip(out, ds):
            c.close(f.data, r.data * v, "electrons", "data", rtol=1e-10)
            c.close(f.err[0], quad(r.err[0] * v, r.data * s), "electrons-error", "error", rtol=1e-9, atol=0)
            c.close(f.err[1:r.err.shape[0]], r.err[1:] * v, "electrons-error", "layers", rtol=1e-9, atol=0)
            c.equal(f.dq, r.dq, "electrons-dq", "flags")
            h = f.ext_hdr
            c.ok(f.err_hdr.get("BUNIT") == h["BUNIT"], "electrons-error-unit", "errors in %s, data in %s" % (f.err_hdr.get("BUNIT"), h["BUNIT"]))
            c.ok(h["BUNIT"] == "detected EM electrons" and abs(h["KGAINPAR"] - v) < 1e-9 * v and abs(h["KGAIN_ER"] - s) <= 1e-9 * s and h["RN"] == rn and h["RN_ERR"] == rne,
                 "electrons-headers", "headers %s" % {x: h.get(x) for x in ("BUNIT", "KGAINPAR", "KGAIN_ER", "RN", "RN_ERR")})
            c.see("pixels", f.data.size)
    c.sig(track, s == 0, ds[0].err.shape[0])


@SUITE.workload(quick=50, thorough=600)
def emgain(c):
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c)
        named(c, ds)
        out = l2.em_gain_division(ds)
        for f, r, g in zip(out, ds, gs):
            c.close(f.data, r.data / g[0], "emgain", "data, gain %s from %s" % (g[0], g[1]), rtol=1e-10)
            layers(c, f, r, 1 / g[0], None, track, "emgain-error")
            c.equal(f.dq, r.dq, "emgain-dq", "flags")
            c.ok(f.ext_hdr["BUNIT"] == "detected electrons" == f.err_hdr.get("BUNIT"), "emgain-unit", "data in %s, errors in %s" % (f.ext_hdr["BUNIT"], f.err_hdr.get("BUNIT")))
            c.see("pixels", f.data.size)
    c.sig([g[1] for g in gs], track)


@SUITE.workload(quick=40, thorough=500)
def exptime(c):
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c, "L2b")
        named(c, ds)
        out = l3.divide_by_exptime(ds)
        for f, r in zip(out, ds):
            t = r.ext_hdr["EXPTIME"]
            c.close(f.data, r.data / t, "exptime", "data", rtol=1e-10)
            layers(c, f, r, 1 / t, None, track, "exptime-error")
            c.ok(f.ext_hdr["BUNIT"] == "photoelectrons/s" and f.ext_hdr["EXPTIME"] == t, "exptime-unit", f.ext_hdr["BUNIT"])
            c.ok(f.err_hdr.get("BUNIT") == "photoelectrons/s", "exptime-unit", "errors in %s" % f.err_hdr.get("BUNIT"))
            c.equal(f.dq, r.dq, "exptime-dq", "flags")
            c.see("pixels", f.data.size)
    c.sig(track, len(ds))


@SUITE.workload(quick=50, thorough=600)
def flat(c):
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c)
        zeros = bool(rng.random() < .5)
        fl = B.flat(rng, shp, zeros=False)
        fl.data[:] = np.abs(fl.data) + .05
        if zeros:
            fl.data[rng.random(shp) < .15] = 0.0
        fd, fe = fl.data.copy(), fl.err[0].copy()
        fl.filename = "flat_%d.fits" % c.index
        out = l2.flat_division(ds, fl)
        ok = fd != 0
        for f, r in zip(out, ds):
            with np.errstate(all="ignore"):
                c.close(f.data[ok], (r.data / fd)[ok], "flat", "data", rtol=1e-10)
                c.close(f.err[0][ok], quad(r.err[0] / fd, r.data * fe / fd ** 2)[ok], "flat-error", "error", rtol=1e-9, atol=0)
                k = r.err.shape[0]
                c.close(f.err[1:k][:, ok], (r.err[1:] / fd)[:, ok], "flat-error", "existing layers", rtol=1e-9, atol=0)
                if c.ok(f.err.shape[0] == k + track, "flat-error", "%d layers from %d" % (f.err.shape[0], k)) and track:
                    c.close(f.err[-1][ok], (r.data * fe / fd ** 2)[ok], "flat-error", "added layer", rtol=1e-9, atol=0)
            c.ok(not np.isfinite(f.data[~ok]).any(), "flat-zero", "finite values where the flat is zero")
            c.equal(f.dq, r.dq | np.where(ok, 0, 4), "flat-flags", "flags")
            c.ok(fl.filename in "".join(map(str, f.ext_hdr["HISTORY"])).replace("\n", ""), "flat-history", "flat not named in the history")
            c.see("pixels", f.data.size)
        c.equal(fl.data, fd, "flat-changed", "the flat was modified")
    c.sig(track, zeros, ds[0].err.shape[0])


@SUITE.workload(quick=30, thorough=400)
def chain(c):
    """Whole chain against the closed form; scaling relations that must hold whatever the convention."""
    rng = c.rng
    with quiet():
        ds, gs, track, shp = frames(c)
        k = B.kgain(rng, rn=100.0)
        named(c, ds)
        v, s = float(k.data.ravel()[0]), float(k.err.ravel()[0])
        fl = B.flat(rng, shp, zeros=False)
        fl.data[:] = np.abs(fl.data) + .1
        out = l3.divide_by_exptime(l2.flat_division(l2.em_gain_division(l2.convert_to_electrons(ds, k)), fl))
        for f, r, g in zip(out, ds, gs):
            t = r.ext_hdr["EXPTIME"]
            sc = v / g[0] / fl.data / t
            c.close(f.data, r.data * sc, "chain", "data", rtol=1e-9)
            c.close(f.err[0], quad(r.err[0] * sc, r.data * s / g[0] / fl.data / t, r.data * sc * fl.err[0] / fl.data), "chain-error", "error", rtol=1e-8, atol=0)
            c.see("pixels", f.data.size)
        # twice the counts with twice the errors: twice everything
        d2 = ds.copy()
        for f in d2:
            f.data *= 2
            f.err *= 2
        o2 = l3.divide_by_exptime(l2.flat_division(l2.em_gain_division(l2.convert_to_electrons(d2, k)), fl))
        for f, g in zip(o2, out):
            c.close(f.data, 2 * g.data, "chain-linear", "data", rtol=1e-9)
            c.close(f.err[0], 2 * g.err[0], "chain-linear", "error", rtol=1e-9, atol=0)
    c.sig([g[1] for g in gs], track)
