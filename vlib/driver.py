"""Parent/worker driver shared by all checks."""
import argparse
import hashlib
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
SOFT = {"quick": 240.0, "thorough": 600.0}   # stop starting new cases after this
HARD = {"quick": 780.0, "thorough": 850.0}   # kill workers after this


def _jobs(tier):
    n = os.cpu_count() or 2
    return max(1, min(n, 4 if tier == "quick" else 8))


def known_findings(prop):
    """{key: text} of open findings listed for this property."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if not os.path.exists(path):
        return out
    for line in open(path):
        line = line.strip()
        if not line.startswith("finding:"):
            continue
        fields = line[len("finding:"):].strip().split(None, 2)
        if fields[0] != "property=" + prop:
            continue
        assert fields[1].startswith("key="), line
        out[fields[1][4:]] = fields[2]
    return out


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--jobs", type=int, default=0)
    ap.add_argument("--worker", default=None)
    ap.add_argument("--out", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("--evidence-dir", default=os.path.join(VERIF, "evidence"))
    ap.add_argument("--only", default=None, help="run only this workload")
    a = ap.parse_args(argv)
    if a.worker is not None:
        return worker(a)
    return parent(a)


# ---------------------------------------------------------------- parent
def worker_env(scratch):
    env = dict(os.environ)
    env.update(HOME=os.path.join(scratch, "home"), TMPDIR=os.path.join(scratch, "tmp"),
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
               NUMEXPR_NUM_THREADS="1", PYTHONPATH=REPO + os.pathsep + VERIF, VERIF_REPO=REPO,
               PYTHONWARNINGS="ignore", ASTROPY_CACHE_DIR=os.path.join(scratch, "home"),
               VERIF_SCRATCH=scratch)
    for d in ("home", "tmp", "mpl", "work"):
        os.makedirs(os.path.join(scratch, d), exist_ok=True)
    return env


def parent(a):
    t0 = time.time()
    base = tempfile.mkdtemp(prefix="verif_%s_" % a.prop)
    try:
        return _parent(a, t0, base)
    finally:
        shutil.rmtree(base, ignore_errors=True)


def _parent(a, t0, base):
    sys.path.insert(0, VERIF)
    jobs = a.jobs or _jobs(a.tier)
    if a.replay:
        jobs = 1
    procs = []
    for k in range(jobs):
        scratch = os.path.join(base, "w%d" % k)
        env = worker_env(scratch)
        out = os.path.join(scratch, "result.json")
        log = open(os.path.join(scratch, "log.txt"), "w")
        cmd = [PY, os.path.join(VERIF, "run_check.py"), a.prop, "--tier", a.tier, "--seed", str(a.seed),
               "--worker", "%d/%d" % (k, jobs), "--out", out]
        if a.replay:
            cmd += ["--replay", os.path.abspath(a.replay)]
        if a.only:
            cmd += ["--only", a.only]
        p = subprocess.Popen(cmd, env=env, cwd=os.path.join(scratch, "work"), stdout=log, stderr=subprocess.STDOUT)
        procs.append((k, p, out, log))
    results, errors = [], []
    for k, p, out, log in procs:
        left = HARD[a.tier] - (time.time() - t0)
        timed_out = False
        try:
            rc = p.wait(timeout=max(left, 1))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = "killed after %ds" % HARD[a.tier]; timed_out = True
        log.close()
        if rc == 0 and os.path.exists(out):
            results.append(json.load(open(out)))
        else:
            tail = open(log.name).read()[-3000:]
            errors.append("worker %d ended with %s\n%s" % (k, rc, tail))
    known = known_findings(a.prop)
    evals = sum(r["evaluations"] for r in results)
    sigs, samples, viols, observed = set(), [], [], {}
    for r in results:
        sigs.update(r["signatures"])
        samples += r["samples"]
        viols += r["violations"]
        errors += r["errors"]
        for n, v in r["observed"].items():
            observed[n] = observed.get(n, 0) + v
    per_wl = {}
    for r in results:
        for n, v in r["per_workload"].items():
            per_wl[n] = per_wl.get(n, 0) + v
    mod_rule = results[0]["rule"] if results else ""
    # a workload that should have run but observed nothing makes the run inconclusive
    # (when a violation was found anyway, the violation is the verdict)
    new, seen_known = [], {}
    for v in viols:
        if v["key"] in known:
            seen_known.setdefault(v["key"], v)
        else:
            new.append(v)
    rdir = os.path.join(a.evidence_dir, "replay")
    os.makedirs(rdir, exist_ok=True)
    if not a.replay:
        for f in os.listdir(rdir):
            if f.startswith(a.prop + "-"):
                os.remove(os.path.join(rdir, f))
    distinct = {}
    for v in new:
        distinct.setdefault(v["key"], v)
    lines = []
    for n, (key, v) in enumerate(sorted(distinct.items())):
        path = os.path.join(rdir, "%s-%d.json" % (a.prop, n))
        with open(path, "w") as f:
            json.dump(v, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, path))
        lines.append("  key=%s  %s" % (key, v["msg"][:400].replace("\n", " ")))
        if n >= 9:
            break
    ev = {"property": a.prop, "tier": a.tier, "seed": a.seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(sigs), "rule": mod_rule,
                       "samples": samples[:12] or ["none"], "per_workload": per_wl,
                       "observed_events": observed, "workers": jobs,
                       "known_findings_seen": sorted(seen_known)},
          "assumptions": results[0]["assumptions"] if results else [],
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    if not a.replay and not a.only:
        tmp = os.path.join(a.evidence_dir, ".%s.tmp" % a.prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(a.evidence_dir, a.prop + ".json"))
    for key in sorted(known):
        if key in seen_known:
            print("KNOWN-FINDING: property=%s %s [key=%s]" % (a.prop, known[key], key))
        elif not a.replay:
            print("note: listed finding not observed in this run: property=%s key=%s" % (a.prop, key))
    print("%s %s seed=%d: %d executions, %d distinct situations, %d events observed, %.1fs, %d violation(s)" % (
        a.prop, a.tier, a.seed, evals, len(sigs), sum(observed.values()), time.time() - t0, len(distinct)))
    if lines:
        print("\n".join(lines))
        return 1
    if errors or not results:
        for e in errors[:5]:
            print("CHECK-ERROR: " + e)
        return 2
    if evals == 0:
        print("CHECK-ERROR: nothing was executed")
        return 2
    return 0


# ---------------------------------------------------------------- worker
def worker(a):
    import warnings
    warnings.simplefilter("ignore")
    k, n = map(int, a.worker.split("/"))
    res = {"evaluations": 0, "signatures": [], "samples": [], "violations": [], "errors": [], "observed": {},
           "per_workload": {}, "rule": "", "assumptions": []}
    from vlib import core
    try:
        mod = importlib.import_module("checks." + a.prop.lower())
    except BaseException as e:
        # a module of the code under test that no longer imports is a violation of everything
        if core.frames_in_repo(e.__traceback__):
            res["violations"].append({"property": a.prop, "key": "import-failure", "workload": "import", "index": 0,
                                      "seed": a.seed, "tier": a.tier, "msg": traceback.format_exc()[-1500:]})
            json.dump(res, open(a.out, "w"))
            return 0
        traceback.print_exc()
        return 3
    suite = mod.SUITE
    res["rule"], res["assumptions"] = suite.rule, suite.assumptions
    eng = core.Engine(suite, a.prop, a.tier, a.seed, soft=SOFT[a.tier])
    if a.replay:
        spec = json.load(open(a.replay))
        eng.tier, eng.seed = spec["tier"], spec["seed"]
        eng.run_one(spec["workload"], spec["index"])
    else:
        eng.run(k, n, only=a.only)
    res.update(eng.result())
    with open(a.out, "w") as f:
        json.dump(res, f)
    return 0
