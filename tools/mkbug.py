"""bug(id, prop, edits, demo, needs, breaks): writes seeded/<id>/ from text edits of /repo's HEAD."""
import json, os, shutil, subprocess, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: the property holds on this demonstration; non-zero: broken
here=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d); trap 'rm -rf "$S"' EXIT
mkdir -p "$S/home" "$S/work"
export HOME=$S/home PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg MPLCONFIGDIR=$S PYTHONWARNINGS=ignore TMPDIR=$S
cd "$S/work" && /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import numpy as np, sys, os
import astropy.io.fits as fits
import corgidrp, corgidrp.data as data


def frame(d, i=0, level="L2a", pri=None, ext=None, **kw):
    p, e = fits.Header(), fits.Header()
    for k, v in dict(RA=80.5, DEC=-69.5, ROLL=0.0, TARGET="X", PSFREF=0, VISTYPE="TDEMO", SATSPOTS=0).items(): p[k] = v
    for k, v in dict(BUNIT="DN", ARRTYPE="SCI", EXPTIME=1.0, EMGAIN_C=1.0, EMGAIN_A=-1.0, KGAINPAR=8.7, DATALVL=level, ISPC=0,
                     SCTSRT="2025-01-01T00:00:00", CFAMNAME="1F", FPAMNAME="HOLE", FSMLOS=0, OVEREXP=False, FSMX=0., FSMY=0.,
                     Z2VAR=0., Z3VAR=0., Z2RES=0., Z3RES=0., STARLOCX=5., STARLOCY=6., LSAMNAME="OPEN",
                     DPAMNAME="IMAGING", MISSING=False).items(): e[k] = v
    for k, v in (pri or {}).items(): p[k] = v
    for k, v in (ext or {}).items(): e[k] = v
    im = data.Image(np.array(d, dtype=float), pri_hdr=p, ext_hdr=e, **kw)
    im.filename = "CGI_0200001001001001001_20250101T000000%d_%s.fits" % (i, {"L1": "L1_", "L3": "L3_", "L4": "L4_"}.get(level, level))
    return im


'''


def bug(id, prop, edits, demo, needs, breaks):
    d = os.path.join(ROOT, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["cp", "-a", "/repo", t + "/r"], check=True)
        for f, old, new in edits:
            p = "%s/r/corgidrp/%s" % (t, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True, check=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(PRE + demo.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
