#!/usr/bin/env python3
"""Confirm planted bugs in a scratch copy of /repo: plant.py ID... [--notest] [--all] [--seeds N]"""
import argparse, json, os, shutil, subprocess, sys, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, LANG="C.UTF-8", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/vp/mplconfig", PYTHONDONTWRITEBYTECODE="1",
           PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def stable(S, R):
    """The stable tests that fail in the copy R."""
    T = S + "/run"
    os.makedirs(T + "/src"); [os.makedirs(T + "/" + x) for x in ("w", "reports", "logs")]
    sh("cp -r $(ls -A | grep -vxE '\\.git|build|.*\\.egg-info') %s/src/; find %s/src -name __pycache__ -prune -exec rm -rf {} +" % (T, T), cwd=R)
    skip = set(open("/opt/vp/skip_files.txt").read().split()) if os.path.exists("/opt/vp/skip_files.txt") else set()
    slow = open("/opt/vp/slow_first.txt").read().split()
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    mods = {b.split("::")[0].split(".")[1] for b in base}
    fs = sorted(("tests/" + m + ".py" for m in mods), key=lambda f: (f not in slow, f))
    sh("printf '%%s\\n' %s | xargs -P 8 -n 1 bash /opt/vp/runone.sh %s" % (" ".join(f for f in fs if f not in skip), T), cwd=T, env=ENV)
    sh(["/usr/bin/python3", "/opt/vp/results.py", S + "/out.json", "junit:%s/reports/*.xml" % T])
    out = json.load(open(S + "/out.json"))
    return [b for b in base if b not in out["passed"]]


def one(i, a):
    d = os.path.join(ROOT, "seeded", i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    S = "/tmp/s_" + i
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    R = S + "/repo"
    sh(["cp", "-a", "/repo", R])
    good = True
    demo = S + "/demo"
    shutil.copytree(d, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
    r = sh(["bash", demo + "/demo.sh"], cwd=R, env=ENV)
    if r.returncode:
        print(i, "DEMO FAILS ON UNCHANGED", r.stdout[-800:], r.stderr[-800:]); good = False
    first = sh("git rev-list --max-parents=0 HEAD", cwd=R).stdout.strip()
    f = None
    for l in open(os.path.join(d, "patch.diff")):
        if l.startswith("--- a/"):
            f = sh(["git", "show", first + ":" + l[6:].strip()], cwd=R).stdout.splitlines()
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].rstrip("\n") not in f:
            print(i, "CHANGES A LINE THAT IS NOT ORIGINAL:", l.strip()); good = False
    r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=R)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr); good = False
    r = sh(["bash", demo + "/demo.sh"], cwd=R, env=ENV)
    if not r.returncode:
        print(i, "DEMO PASSES WITH THE PATCH", r.stdout[-500:]); good = False
    else:
        print(i, "demo with patch:", (r.stdout + r.stderr).strip().splitlines()[-1:] )
    if good and not a.notest:
        miss = stable(S, R)
        if miss:
            print(i, "STABLE TESTS FAIL", miss[:5]); good = False
    caught = []
    props = sorted(os.path.basename(f)[:3].upper() for f in glob.glob(ROOT + "/checks/p*.py")) if a.all else [meta["property"]]
    for p in props:
        if not os.path.exists(ROOT + "/checks/%s.py" % p.lower()):
            continue
        hit = 0
        msg = ""
        for s in range(1, a.seeds + 1):
            r = sh([PY, ROOT + "/run_check.py", p, "--tier", "quick", "--evidence-dir", S + "/ev"], cwd=ROOT, env=dict(ENV, VERIF_REPO=R, VERIF_SEED=str(s), VERIF_TIER="quick"))
            hit += r.returncode == 1 and ("VIOLATION property=%s" % p) in r.stdout
            if r.returncode == 2:
                print(i, p, "ERROR", r.stdout[-500:], r.stderr[-500:])
            if r.returncode == 1:
                msg = "; ".join(l for l in r.stdout.splitlines() if l.startswith("  "))[:200]
        if hit:
            caught.append(p)
        if p == meta["property"]:
            print(i, p, "caught %d/%d" % (hit, a.seeds), msg)
    if a.all:
        print(i, "caught by", caught)
    old = meta.get("caught_by", "")
    if a.all or old in ("", "?", "-"):
        meta["caught_by"] = " ".join(caught) or "-"
        json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
    shutil.rmtree(S, ignore_errors=True)
    print(i, "OK" if good else "BAD", flush=True)


ap = argparse.ArgumentParser()
ap.add_argument("ids", nargs="+")
ap.add_argument("--notest", action="store_true")
ap.add_argument("--all", action="store_true")
ap.add_argument("--seeds", type=int, default=1)
ap.add_argument("--batch", action="store_true", help="run the stable tests once with all the patches applied together")
a = ap.parse_args()
if a.batch:
    S = "/tmp/s_batch"
    shutil.rmtree(S, ignore_errors=True)
    os.makedirs(S)
    sh(["cp", "-a", "/repo", S + "/repo"])
    for i in a.ids:
        r = sh(["git", "apply", os.path.join(ROOT, "seeded", i, "patch.diff")], cwd=S + "/repo")
        print("applied" if not r.returncode else "NOT APPLIED", i, r.stderr[:200], flush=True)
    print("stable tests failing with all of them:", stable(S, S + "/repo"), flush=True)
    shutil.rmtree(S, ignore_errors=True)
    sys.exit()
for i in a.ids:
    one(i, a)
