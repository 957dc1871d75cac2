"""P12: the database hands out the right calibration for a frame."""
import os
import numpy as np
import corgidrp.caldb as caldb
import corgidrp.data as data
from astropy.time import Time
from vlib.core import Suite, quiet
from vlib import build as B, dbmodel as M, snap
from checks.p05 import CALS
from checks.p11 import make, EXPTIMES

SUITE = Suite("P12", "one distinct situation = requested type x how many candidates and of which types/exposures are registered x "
              "request (science frame, nothing); the returned object is compared with a brute-force choice from the model")
NAMES = sorted(CALS)


def brute(models, typ, frame):
    """Paths of acceptable answers (several only when they are equally good)."""
    cand = [m for m in models if m["Type"] == M.TYPE.get(typ, typ)]
    if frame is None:
        if not cand:
            return []
        best = max(m["Date Created"] for m in cand)
        return [m["Filepath"] for m in cand if m["Date Created"] >= best - 1e-9]
    if typ == "Dark":
        cand = [m for m in cand if m["EXPTIME"] == frame.ext_hdr["EXPTIME"]]
    if not cand:
        return []
    t = Time(frame.ext_hdr["SCTSRT"]).mjd
    best = min(abs(m["MJD"] - t) for m in cand)
    return [m["Filepath"] for m in cand if abs(m["MJD"] - t) <= best + 1e-9]


def ask(c, h, model, typ, frame, where, **kw):
    cls = getattr(data, typ)
    want = brute(model.values(), typ, frame)
    if not want:
        c.raises(ValueError, lambda: h.get_calib(frame, cls, **kw), "nothing-suitable-accepted:" + typ, "%s: no suitable %s exists" % (where, typ))
        c.sig(typ, "none", frame is None)
        return
    got = h.get_calib(frame, cls, **kw)
    c.see("calibrations_chosen")
    c.ok(type(got) is cls, "wrong-class:" + typ, "%s: asked for %s, got %s" % (where, typ, type(got).__name__))
    p = os.path.abspath(got.filepath)
    c.ok(p in want, "wrong-choice:" + typ, "%s: got %s (MJD %s, EXPTIME %s, created %s), best is %s" % (
        where, os.path.basename(p), model.get(p, {}).get("MJD"), model.get(p, {}).get("EXPTIME"), model.get(p, {}).get("Date Created"),
        [(os.path.basename(w), model[w]["MJD"]) for w in want]))
    ref = cls(p)
    c.ok(not [k for k in snap.diff(snap.img(ref), snap.img(got)) if k not in ("filedir",)], "content:" + typ,
         "%s: returned object differs from the file" % where)
    c.sig(typ, min(len([m for m in model.values() if m["Type"] == M.TYPE.get(typ, typ)]), 4), frame is None)


def science(rng, i=0):
    f = B.image(rng, (6, 7), "L2a", i=i, extra=False)
    f.ext_hdr["SCTSRT"] = "20%02d-%02d-%02dT%02d:30:00" % (rng.integers(24, 27), rng.integers(1, 13), rng.integers(1, 28), rng.integers(0, 24))
    f.ext_hdr["EXPTIME"] = float(rng.choice(EXPTIMES))
    return f


@SUITE.workload(quick=40, thorough=400)
def choose(c):
    """Many candidates of one or two types."""
    rng = c.rng
    typ = NAMES[c.index % len(NAMES)]
    with c.scratch() as d, quiet():
        path = os.path.join(d, "db.csv")
        h = caldb.CalDB(filepath=path)
        model = {}
        other = str(rng.choice(NAMES))
        for k in range(int(rng.integers(0, 8))):
            nm = typ if rng.random() < .75 else other
            o = make(rng, nm, d, k)
            o.ext_hdr["SCTSRT"] = "20%02d-%02d-%02dT%02d:00:00.%03d" % (rng.integers(24, 27), rng.integers(1, 13), rng.integers(1, 28),
                                                                     rng.integers(0, 24), rng.integers(0, 1000))
            o.ext_hdr["DRPCTIME"] = "2025-%02d-%02dT%02d:11:%02d" % (rng.integers(1, 13), rng.integers(1, 28), rng.integers(0, 24), rng.integers(0, 60))
            o.save()
            h.create_entry(o)
            model[M.row(o)["Filepath"]] = M.row(o)
        hh = caldb.CalDB(filepath=path) if rng.random() < .5 else h
        for q in range(4):
            f = science(rng)
            ask(c, hh, model, typ, f, "science frame %s EXPTIME %s" % (f.ext_hdr["SCTSRT"], f.ext_hdr["EXPTIME"]))
        ask(c, hh, model, typ, None, "no frame")
        ask(c, hh, model, other, science(rng), "other type")
    c.sample({"type": typ, "registered": len(model)})


@SUITE.workload(quick=10, thorough=150)
def darks(c):
    """Many darks, of exposure times that are equal, close or far: only those of exactly the frame's own exposure count."""
    rng = c.rng
    with c.scratch() as d, quiet():
        path = os.path.join(d, "db.csv")
        h, model, times = caldb.CalDB(filepath=path), {}, []
        t0 = float(rng.choice([1.0, 60.0, 1 / 30, 300.0]))
        pool = [t0, t0, t0 + 5e-4, t0 * (1 + 1e-6), float("%.16G" % rng.uniform(1, 200)), t0 + 1]
        for k in range(int(rng.integers(3, 9))):
            o = make(rng, "Dark", d, k)
            o.ext_hdr["EXPTIME"] = float(rng.choice(pool))
            o.ext_hdr["SCTSRT"] = "2025-03-%02dT%02d:00:00" % (rng.integers(1, 28), rng.integers(0, 24))
            o.save()
            o = data.Dark(o.filepath)
            times.append(o.ext_hdr["EXPTIME"])
            h.create_entry(o)
            model[M.row(o)["Filepath"]] = M.row(o)
        hh = caldb.CalDB(filepath=path)
        for q in range(5):
            f = science(rng)
            f.ext_hdr["SCTSRT"] = "2025-03-%02dT%02d:30:00" % (rng.integers(1, 28), rng.integers(0, 24))
            f.ext_hdr["EXPTIME"] = float(rng.choice(times if q else pool))
            ask(c, hh if q % 2 else h, model, "Dark", f, "frame of %r s among darks of %s" % (f.ext_hdr["EXPTIME"], sorted(times)), to_disk=bool(q % 3))
    c.see("dark requests", 5)
    c.sig("darks", len(set(times)), len(times))


@SUITE.workload(quick=16, thorough=150)
def history(c):
    """The choice follows the database through additions, updates and removals made by another handle."""
    rng = c.rng
    typ = str(rng.choice(["Dark", "KGain", "FlatField", "BadPixelMap", "FluxcalFactor"]))
    with c.scratch() as d, quiet():
        path = os.path.join(d, "db.csv")
        a, b = caldb.CalDB(filepath=path), caldb.CalDB(filepath=path)
        model, objs = {}, []
        f = science(rng)
        for k in range(int(rng.integers(4, 10))):
            r = rng.random()
            if r < .6 or not objs:
                o = make(rng, typ, d, k)
                a.create_entry(o)
                objs.append(o)
                model[M.row(o)["Filepath"]] = M.row(o)
            elif r < .8:
                o = objs[int(rng.integers(len(objs)))]
                o.ext_hdr["SCTSRT"] = f.ext_hdr["SCTSRT"]
                o.ext_hdr["EXPTIME"] = float(rng.choice([0.1, 1.0, 5.0]))
                o.save()
                a.create_entry(o)
                model[M.row(o)["Filepath"]] = M.row(o)
            else:
                o = objs.pop(int(rng.integers(len(objs))))
                a.remove_entry(o)
                del model[M.row(o)["Filepath"]]
            ask(c, b, model, typ, f, "after %d changes by another handle" % (k + 1))
        stale = dict(model)
        o = make(rng, typ, d, 99)
        a.create_entry(o)
        ask(c, b, stale, typ, f, "without refreshing", to_disk=False)
    c.sig("history", typ)


@SUITE.workload(quick=6, thorough=20)
def invalid(c):
    rng = c.rng
    with c.scratch() as d, quiet():
        h = caldb.CalDB(filepath=os.path.join(d, "db.csv"))
        for t in (data.Image, data.Dataset, dict, "Dark"):
            c.raises(ValueError, lambda: h.get_calib(science(rng), t), "unknown-type", "request for %s" % (t,))
    c.sig("invalid", c.index % 2)
