"""P11: the calibration database always lists exactly the registered calibration files, with their current properties."""
import os
import shutil
import subprocess
import sys
import numpy as np
import corgidrp
import corgidrp.caldb as caldb
import corgidrp.data as data
import corgidrp.ops as ops
from vlib.core import Suite, quiet, REPO
from vlib import build as B, dbmodel as M
from checks.p05 import CALS

SUITE = Suite("P11", "one distinct situation = history of database operations (register, re-register, remove, scan, reopen; through "
              "several handles, in memory or on disk); after every operation the CSV on disk is compared row by row with a model")
NAMES = sorted(CALS)
# also times that differ by little, and times with all the digits a FITS card holds
EXPTIMES = [0.1, 1.0, 1.0005, 5.0, 4.9996, 60.0, 123.456, 1 / 30, 96.90113662437118, 93.58960949032911]


def make(rng, name, d, i):
    with quiet():
        o = CALS[name](rng)
    e = o.ext_hdr
    e["SCTSRT"] = "2025-%02d-%02dT%02d:00:00" % (rng.integers(1, 13), rng.integers(1, 28), rng.integers(0, 24))
    e["EXPTIME"] = float(rng.choice(EXPTIMES))
    e["EMGAIN_C"] = float(rng.choice([1.0, 2.5, 1000.0]))
    e["EXCAMT"] = float(rng.choice([-105.0, 20.25, 40.0]))
    e["OPMODE"] = str(rng.choice(["NONE_DETON_0", "OPEN,LOOP", "x y", "SCI-\"A\""]))
    o.pri_hdr["OBSNUM"] = int(rng.integers(0, 1000))
    o.filedir, o.filename = d, "%s_%d.fits" % (name.lower(), i)
    with quiet():
        o.save()
    return o


@SUITE.workload(quick=24, thorough=300)
def histories(c):
    rng = c.rng
    seq = ""
    with c.scratch() as d, quiet():
        path = os.path.join(d, "db.csv")
        handles = [caldb.CalDB(filepath=path) for _ in range(int(rng.integers(1, 4)))]
        M.compare(c, path, {}, "new database")
        model, objs = {}, []
        os.makedirs("cals/sub")
        for k in range(int(rng.integers(6, 14))):
            h = handles[int(rng.integers(len(handles)))]
            op = str(rng.choice(["add", "add", "add", "readd", "change", "remove", "badremove", "reopen", "scan", "relative", "stale"]))
            if op == "add":
                o = make(rng, str(rng.choice(NAMES)), os.path.join(d, "cals", "sub" if rng.random() < .3 else ""), k)
                h.create_entry(o)
                model[M.row(o)["Filepath"]] = M.row(o)
                objs.append(o)
            elif op == "readd" and objs:
                o = objs[int(rng.integers(len(objs)))]
                h.create_entry(o)
                model[M.row(o)["Filepath"]] = M.row(o)
            elif op == "change" and objs:
                # the same file with new content: its row is updated in place
                o = objs[int(rng.integers(len(objs)))]
                o.ext_hdr["EXPTIME"] = float(rng.uniform(0, 50))
                o.ext_hdr["SCTSRT"] = "2026-01-%02dT00:00:00" % rng.integers(1, 28)
                o.pri_hdr["OBSNUM"] = int(rng.integers(2000, 3000))
                o.save()
                h.create_entry(o)
                model[M.row(o)["Filepath"]] = M.row(o)
            elif op == "remove" and objs:
                i = int(rng.integers(len(objs)))
                o = objs[i]
                key = M.row(o)["Filepath"]
                if key in model:
                    h.remove_entry(o)
                    del model[key]
                else:
                    c.raises(ValueError, lambda: h.remove_entry(o), "removed-twice", "removing an entry twice")
            elif op == "badremove":
                o = make(rng, "FlatField", d, 1000 + k)
                os.remove(o.filepath)
                c.raises(ValueError, lambda: h.remove_entry(o), "unknown-removed", "removing a file that is not registered")
            elif op == "reopen":
                handles.append(caldb.CalDB(filepath=path))
            elif op == "scan":
                sub = bool(rng.random() < .5)
                h.scan_dir_for_new_entries("cals", look_in_subfolders=sub)
                for o in objs:
                    if sub or os.path.dirname(o.filepath) == os.path.join(d, "cals") or os.path.dirname(o.filepath) == os.path.join(d, "cals", ""):
                        if os.path.normpath(o.filedir) == os.path.join(d, "cals") or sub:
                            model[M.row(o)["Filepath"]] = M.row(o)
            elif op == "relative" and objs:
                # the same file addressed by a relative path is the same entry
                o = objs[int(rng.integers(len(objs)))]
                r = type(o)(os.path.relpath(o.filepath, d))
                h.create_entry(r)
                model[M.row(o)["Filepath"]] = M.row(o)
            elif op == "stale":
                h.load()
            seq += op[0]
            M.compare(c, path, model, "after %s" % seq)
            # every handle that refreshes sees the same
            hh = handles[int(rng.integers(len(handles)))]
            hh.load()
            c.ok(set(hh._db["Filepath"]) == set(model), "handle-view", "a refreshed handle sees other entries")
    c.sig(seq, len(handles))
    c.sample({"operations": seq, "entries": len(model)})


@SUITE.workload(quick=10, thorough=100)
def in_memory(c):
    """to_disk=False keeps changes in memory only, until saved."""
    rng = c.rng
    with c.scratch() as d, quiet():
        path = os.path.join(d, "db.csv")
        h = caldb.CalDB(filepath=path)
        base = {}
        o = make(rng, str(rng.choice(NAMES)), d, 0)
        h.create_entry(o)
        base[M.row(o)["Filepath"]] = M.row(o)
        mem = dict(base)
        os_ = [o]
        for k in range(1, int(rng.integers(5, 12))):
            if rng.random() < .55 or len(mem) < 2:
                o = make(rng, str(rng.choice(NAMES)), d, k)
                h.create_entry(o, to_disk=False)
                mem[M.row(o)["Filepath"]] = M.row(o)
                os_.append(o)
            else:
                o = os_.pop(int(rng.integers(len(os_))))
                h.remove_entry(o, to_disk=False)
                del mem[M.row(o)["Filepath"]]
            M.compare(c, path, base, "in-memory operation")
            c.ok(sorted(h._db["Filepath"]) == sorted(mem), "memory-view", "in-memory entries differ")
        h.save()
        M.compare(c, path, mem, "after saving")
    c.sig(len(mem), len(base))


@SUITE.workload(quick=12, thorough=100)
def scans(c):
    """Scanning registers exactly the calibration files of a directory tree (and the same row a direct registration gives)."""
    rng = c.rng
    with c.scratch() as d, quiet():
        model, direct = {}, {}
        for sub in ("t", "t/a", "t/a/b", "t/c"):
            os.makedirs(sub)
        seen = set()
        twice = None
        for k in range(int(rng.integers(2, 8))):
            nm, j = str(rng.choice(NAMES)), k
            sub = str(rng.choice(["t", "t/a", "t/a/b", "t/c"]))
            if k and twice is None and rng.random() < .5:        # another file of the same name elsewhere
                nm, j, sub = last[0], last[1], str(rng.choice([s for s in ("t", "t/a", "t/a/b", "t/c") if s != last[2]]))
                twice = nm
            last = nm, j, sub
            o = make(rng, nm, os.path.join(d, sub), j)
            o2 = type(o)(o.filepath)
            model[M.row(o)["Filepath"]] = (sub, dict(M.row(o), Hash=o2.get_hash()))
            seen.add(nm)
        for k in range(2):
            f = B.image(rng, (4, 5), "L2b", i=k)
            f.save(filedir=os.path.join(d, "t"), filename="sci_%d.fits" % k)
        open("t/readme.txt", "w").write("x")
        open("t/x.fits.gz.bak", "w").write("x")
        deep = bool(rng.random() < .6)
        h = caldb.CalDB(filepath=os.path.join(d, "db.csv"))
        h.scan_dir_for_new_entries("t", look_in_subfolders=deep)
        want = {k: v for k, (s, v) in model.items() if deep or s == "t"}
        M.compare(c, os.path.join(d, "db.csv"), want, "scan")
        h.scan_dir_for_new_entries("t", look_in_subfolders=deep)
        M.compare(c, os.path.join(d, "db.csv"), want, "second scan")
        if model:            # a registered file's name appears once more, elsewhere
            p0, (s0, _) = sorted(model.items())[int(rng.integers(len(model)))]
            s1 = str(rng.choice([s for s in ("t", "t/a/b", "t/c") if s != s0]))
            nm, j = os.path.basename(p0)[:-5].rsplit("_", 1)
            o = make(rng, {n.lower(): n for n in NAMES}[nm], os.path.join(d, s1), int(j))
            r = dict(M.row(o), Hash=type(o)(o.filepath).get_hash())
            if r["Filepath"] not in model:
                h.scan_dir_for_new_entries("t", look_in_subfolders=deep)
                if deep or s1 == "t":
                    want[r["Filepath"]] = r
                M.compare(c, os.path.join(d, "db.csv"), want, "scan after a new file of a known name")
    c.sig(sorted(seen), deep)


@SUITE.workload(quick=6, thorough=40)
def defaults(c):
    """First start creates and registers the default calibrations, later starts leave the database alone."""
    rng = c.rng
    old = corgidrp.default_cal_dir, corgidrp.caldb_filepath
    try:
        with c.scratch() as d, quiet():
            os.makedirs("defaults")
            corgidrp.default_cal_dir, corgidrp.caldb_filepath = os.path.join(d, "defaults"), os.path.join(d, "db.csv")
            model = {}
            if rng.random() < .5:
                h = caldb.CalDB()
                for k in range(2):
                    o = make(rng, str(rng.choice(NAMES)), d, k)
                    h.create_entry(o)
                    model[M.row(o)["Filepath"]] = M.row(o)
            caldb.initialize()
            files = sorted(os.listdir("defaults"))
            c.ok(len(files) == 2, "default-files", "default calibrations: %s" % files)
            types = []
            for f in files:
                o = data.autoload(os.path.join(d, "defaults", f))
                model[M.row(o)["Filepath"]] = M.row(o)
                types.append(type(o).__name__)
            c.ok(sorted(types) == ["DetectorParams", "FpamFsamCal"], "default-types", "default calibrations are %s" % types)
            M.compare(c, "db.csv", model, "first start")
            if rng.random() < .5:
                o = make(rng, "KGain", d, 9)
                caldb.CalDB().create_entry(o)
                model[M.row(o)["Filepath"]] = M.row(o)
            caldb.initialize()
            M.compare(c, "db.csv", model, "second start")
            lost = files[int(rng.integers(2))]
            os.remove(os.path.join("defaults", lost))
            caldb.initialize()
            c.ok(sorted(os.listdir("defaults")) == files, "default-restored", "a deleted default calibration is not restored")
            o = data.autoload(os.path.join(d, "defaults", lost))
            model[M.row(o)["Filepath"]] = M.row(o)
            other = data.autoload(os.path.join(d, "defaults", [f for f in files if f != lost][0]))
            model[M.row(other)["Filepath"]] = M.row(other)
            M.compare(c, "db.csv", model, "after restoring")
    finally:
        corgidrp.default_cal_dir, corgidrp.caldb_filepath = old
    c.sig(lost)


@SUITE.workload(quick=6, thorough=40)
def operations(c):
    """The two start-up calls of the operations scripts: a database with the defaults, then with a directory tree of calibrations."""
    rng = c.rng
    home = os.environ["HOME"]
    old = {k: getattr(corgidrp, k) for k in ("config_folder", "config_filepath", "caldb_filepath", "default_cal_dir", "track_individual_errors", "skip_missing_cal_steps", "jit_calib_id") if hasattr(corgidrp, k)}
    try:
        with c.scratch() as d, quiet():
            os.makedirs("home")
            os.makedirs("cals/sub")
            os.environ["HOME"] = os.path.join(d, "home")
            model = {}
            db = os.path.join(d, "home", ".corgidrp", "corgidrp_caldb.csv")
            dd = os.path.join(d, "home", ".corgidrp", "default_calibs")
            for again in range(2):
                h = ops.step_1_initialize()
                for f in sorted(os.listdir(dd)):
                    r = M.row(data.autoload(os.path.join(dd, f)))
                    model[r["Filepath"]] = r
                c.ok(len(os.listdir(dd)) == 2, "operations-defaults", "default calibrations %s" % os.listdir(dd))
                M.compare(c, db, model, "start %d of operations" % (again + 1))
                for k in range(int(rng.integers(1, 4))):
                    o = make(rng, str(rng.choice(NAMES)), os.path.join(d, str(rng.choice(["cals", "cals/sub"]))), 10 * again + k)
                    model[M.row(o)["Filepath"]] = M.row(o)
                h2 = ops.step_2_load_cal(h, os.path.join(d, "cals"))
                c.ok(isinstance(h2, caldb.CalDB), "operations-handle", "no database returned")
                M.compare(c, db, model, "calibrations loaded")
    finally:
        os.environ["HOME"] = home
        for k, v in old.items():
            setattr(corgidrp, k, v)
    c.sig("operations", len(model))


HASHER = '''import sys, corgidrp.data as d
for f in sys.argv[1:]:
    print(d.autoload(f).get_hash())
'''


@SUITE.workload(quick=6, thorough=40)
def hashes(c):
    """The recorded content hash is a function of the content: same in every process, different for different content."""
    rng = c.rng
    with c.scratch() as d, quiet():
        files, hs = [], []
        for k in range(4):
            nm = str(rng.choice([n for n in NAMES if n not in ("DetectorParams", "FpamFsamCal")]))
            o = make(rng, nm, d, k)
            o = type(o)(o.filepath)
            files.append(o.filepath)
            hs.append(str(o.get_hash()))
            same = type(o)(o.filepath)
            c.ok(str(same.get_hash()) == hs[-1], "hash-unstable", "two loads of one file have different hashes")
            same.ext_hdr["ZZ"] = 1
            c.ok(str(same.get_hash()) == hs[-1], "hash-header", "hash depends on the header")
            for part in ("data", "err", "dq"):
                a = np.array(getattr(same, part), copy=True)
                if a.size == 0:
                    continue
                keep = a.copy()
                i = tuple(rng.integers(0, s) for s in a.shape)
                a[i] = 77 if a[i] != 77 else 78
                setattr(same, part, a)
                c.ok(str(same.get_hash()) != hs[-1], "hash-blind:" + part, "hash does not notice a change of one %s value" % part)
                setattr(same, part, keep)
        env = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 100000))))
        r = subprocess.run([sys.executable, "-c", HASHER] + files, env=env, capture_output=True, text=True)
        got = r.stdout.split()[-len(files):]
        c.ok(got == hs, "hash-process", "another python process computes other hashes: %s vs %s %s" % (got[:2], hs[:2], r.stderr[-300:]))
        c.ok(len(set(hs)) == len(hs), "hash-collision", "different products share a hash")
    c.sig(*sorted({os.path.basename(f).split("_")[0] for f in files}))
