"""P13: the recipe generated for a set of files is the documented one, correctly filled in."""
import copy
import json
import os
import warnings
import numpy as np
import corgidrp
import corgidrp.caldb as caldb
import corgidrp.data as data
import corgidrp.walker as walker
from vlib.core import Suite, quiet, REPO
from vlib import build as B, dbmodel as M
from checks.p05 import CALS
from checks.p11 import make
from checks.p12 import brute

SUITE = Suite("P13", "one distinct situation = (data level, visit type, photon counting, settings spread, LOS flag) for the choice of recipe; "
              "template x which calibrations exist x settings for the filling; each recipe is compared with a model built from the template")
TDIR = os.path.join(REPO, "corgidrp", "recipe_templates")
TEMPLATES = sorted(f for f in os.listdir(TDIR) if f.endswith(".json"))
VIS = ["ENGPUPIL", "ENGIMGAGE", "ENGDARK", "BORESITE", "FFIELD", "DARK", "PUPILIMG", "TDEMO", "PSFREF", "ABSFLXFT", "ABSFLXBT", "CORETPUT", "PUPIL", "ABSFLX", "FFIELDS", None]
LEVELS = ["L1", "L2a", "L2b", "L3", "L4", "TDA", "CAL"]


def expected(level, vis, ispc, spread, los):
    """The documented table. None: no automatic recipe exists."""
    if level == "L1":
        if vis is None:
            return "l1_to_l2b.json"
        if vis.startswith("ENG"):
            return "l1_to_l2a_eng.json"
        if vis == "BORESITE":
            return "l1_to_boresight.json"
        if vis == "FFIELD":
            return "l1_flat_and_bp.json"
        if vis == "DARK":
            return "l1_to_l2b_pc_dark.json" if ispc else "l1_to_l2a_noisemap.json" if spread else "build_trad_dark_image.json"
        if vis == "PUPILIMG":
            return ["l1_to_l2a_nonlin.json", "l1_to_kgain.json"]
        return "l1_to_l2a_basic.json"
    if level == "L2a":
        if vis == "DARK":
            return "l2a_to_l2b_pc_dark.json" if ispc else "l2a_to_l2a_noisemap.json" if spread else "l2a_build_trad_dark_image.json"
        return "l2a_to_l2b_pc.json" if ispc else "l2a_to_l2b.json"
    if level == "L2b":
        if vis in ("ABSFLXFT", "ABSFLXBT"):
            return "l2b_to_fluxcal_factor.json"
        if vis == "CORETPUT":
            return "l2b_to_corethroughput.json"
        return "l2b_to_l3.json"
    if level == "L3":
        return "l3_to_l4.json" if los else "l3_to_l4_nopsfsub.json"
    return None


def tset(recipe_names):
    """What identifies a template, whatever its file is called."""
    names = recipe_names if isinstance(recipe_names, list) else [recipe_names]
    return [json.load(open(os.path.join(TDIR, n)))["name"] for n in names]


SPREAD = [("EXPTIME", 11.0), ("EMGAIN_C", 6.0), ("KGAINPAR", 8.8)]


def observation(rng, level, vis, ispc, spread, los, n, which=None):
    ext = []
    for i in range(n):
        e = dict(DATALVL=level, ISPC=ispc, FSMLOS=int(los), EXPTIME=10.0, EMGAIN_C=5.0, KGAINPAR=8.7)
        ext.append(e)
    if spread:
        j = int(rng.integers(1, n))
        k, v = SPREAD[int(rng.integers(3)) if which is None else which]
        ext[j][k] = v
    else:
        # other settings may differ freely
        for e in ext:
            e["EXCAMT"] = float(rng.uniform(-110, 30))
    pri = [dict(VISTYPE=vis or "x", OBSNUM=int(rng.integers(1000))) for _ in range(n)]
    ds = B.dataset(rng, n, (6, 7), level if level in ("L1", "L2a", "L2b", "L3", "L4") else "L4", ext_list=ext, pri_list=pri)
    for f in ds:
        f.ext_hdr["DATALVL"] = level
        if vis is None:
            del f.pri_hdr["VISTYPE"]
    return ds


COMBOS = [(lv, v, p, s, l) for lv in LEVELS for v in VIS for p in (False, True) for s in (False, True) for l in (False, True)
          if not (l and lv != "L3") and not (v is None and lv != "L1") and not (s and v != "DARK" and lv != "L1")]


@SUITE.workload(quick=len(COMBOS), thorough=6 * len(COMBOS), fixed=True)
def choice(c):
    """Every combination of level, visit type, photon counting flag, settings spread and LOS flag."""
    rng = c.rng
    lv, v, p, s, l = COMBOS[c.index % len(COMBOS)]
    n = int(rng.integers(2, 6))
    with quiet():
        for which in range(3) if s else [None]:
            ds = observation(rng, lv, v, p, s, l, n, which)
            want = expected(lv, v, p, s, l)
            if want is None:
                c.raises(NotImplementedError, lambda: walker.guess_template(ds), "recipe-for-unknown-level", "level %s" % lv)
            else:
                got = walker.guess_template(ds)
                c.ok(isinstance(got, list) == isinstance(want, list) and tset(got) == tset(want), "wrong-recipe:" + lv,
                     "%s %s ISPC=%s spread=%s FSMLOS=%s: recipe %s, documented %s" % (lv, v, p, SPREAD[which][0] if s else s, l, got, want))
                if n > 1:
                    order = list(rng.permutation(n))
                    got2 = walker.guess_template(data.Dataset([ds[int(i)] for i in order]))
                    c.ok(tset(got2) == tset(want), "recipe-order:" + lv, "another order of the same frames gives %s" % got2)
    c.sig(lv, v, p, s, l)


def fill(step, model, frame, skip_ok):
    """Model of the filling of one step (mutates step); raises LookupError when it must be refused."""
    for cal in list(step.get("calibs", {})):
        v = step["calibs"][cal]
        if v is None or "AUTOMATIC" not in v.upper():
            continue
        best = brute(model.values(), cal, frame)
        if best:
            step["calibs"][cal] = best
        elif "OPTIONAL" in v.upper():
            step["calibs"][cal] = None
        elif skip_ok:
            step["skip"] = True
            step["calibs"][cal] = None
        else:
            raise LookupError(cal)


def model_recipe(template, files, out, model, frame, jit, skip_ok):
    r = copy.deepcopy(template)
    r["template"] = False
    r["inputs"] = list(r["inputs"]) + list(files)
    r["outputdir"] = out
    for st in r["steps"]:
        if not jit:
            fill(st, model, frame, skip_ok)
        if st["name"].lower() == "dark_subtraction" and st["keywords"]["outputdir"].upper() == "AUTOMATIC":
            st["keywords"]["outputdir"] = out
    return r


def same_recipe(got, want, path=""):
    """Difference between a generated recipe and the model (lists of acceptable calibration paths allowed)."""
    if isinstance(want, list) and isinstance(got, str):
        return None if os.path.abspath(got) in want else "%s: %r not among %s" % (path, got, want)
    if type(got) is not type(want):
        return "%s: %r instead of %r" % (path, got, want)
    if isinstance(want, dict):
        if list(got) != list(want):
            if set(got) != set(want):
                return "%s: keys %s instead of %s" % (path, sorted(got), sorted(want))
            if path.endswith("calibs"):
                return "%s: order of calibrations %s instead of %s" % (path, list(got), list(want))
        for k in want:
            d = same_recipe(got[k], want[k], path + "/" + str(k))
            if d:
                return d
        return None
    if isinstance(want, list):
        if len(got) != len(want):
            return "%s: %d entries instead of %d" % (path, len(got), len(want))
        for i, (a, b) in enumerate(zip(got, want)):
            d = same_recipe(a, b, "%s/%d" % (path, i))
            if d:
                return d
        return None
    return None if got == want else "%s: %r instead of %r" % (path, got, want)


def registry(rng, d, types):
    h = caldb.CalDB()
    model = {}
    k = 0
    for t in types:
        for _ in range(int(rng.integers(1, 3))):
            o = make(rng, t, d, k)
            h.create_entry(o)
            model[M.row(o)["Filepath"]] = M.row(o)
            k += 1
    return model


class Settings:
    """Scratch database and pipeline settings, restored afterwards."""
    def __init__(self, d, **kw):
        self.kw = dict(kw, caldb_filepath=os.path.join(d, "the_db.csv"))

    def __enter__(self):
        self.old = {k: getattr(corgidrp, k) for k in list(self.kw) + ["track_individual_errors", "jit_calib_id", "skip_missing_cal_steps"]}
        for k, v in self.kw.items():
            setattr(corgidrp, k, v)

    def __exit__(self, *a):
        for k, v in self.old.items():
            setattr(corgidrp, k, v)


@SUITE.workload(quick=3 * len(TEMPLATES), thorough=30 * len(TEMPLATES))
def filling(c):
    """Shipped and custom templates against random registries: exactly the documented substitutions."""
    rng = c.rng
    tn = TEMPLATES[c.index % len(TEMPLATES)]
    template = json.load(open(os.path.join(TDIR, tn)))
    needs = [cal for st in template["steps"] for cal in st.get("calibs", {})]
    jit = [None, False, True][int(rng.integers(3))] if rng.random() < .5 else template["drpconfig"].get("jit_calib_id")
    template["drpconfig"].pop("jit_calib_id", None)
    if jit is not None:
        template["drpconfig"]["jit_calib_id"] = jit
    gjit, skip = bool(rng.random() < .25), bool(rng.random() < .5)
    if rng.random() < .3 and needs:
        # the user fixed one calibration by hand; other spellings of the keyword
        for st in template["steps"]:
            for cal in st.get("calibs", {}):
                r = rng.random()
                st["calibs"][cal] = ("/data/my_own.fits" if r < .2 else st["calibs"][cal].lower() if r < .4 else
                                     st["calibs"][cal] + ",OPTIONAL" if r < .6 else st["calibs"][cal])
    if rng.random() < .2:
        template["inputs"] = ["already_there.fits"]
    missing = set(str(x) for x in rng.choice(sorted(set(needs)), size=int(rng.integers(0, min(3, len(set(needs)) + 1))), replace=False)) if needs and rng.random() < .6 else set()
    extra = [str(x) for x in rng.choice(sorted(CALS), size=2)]
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=gjit, skip_missing_cal_steps=skip):
        types = sorted((set(needs) | set(extra)) - missing)
        model = registry(rng, d, types)
        ds = observation(rng, "L2a", "TDEMO", False, False, False, int(rng.integers(2, 5)))
        files = []
        if tn != "bp_map.json" or rng.random() < .5:
            ds[0].ext_hdr["SCTSRT"] = "2025-0%d-10T00:00:00" % rng.integers(1, 10)
            ds[0].ext_hdr["EXPTIME"] = float(rng.choice([0.1, 1.0, 5.0]))
            for f in ds:
                f.filedir = d
                f.save()
            files = [os.path.join(d, ds[int(i)].filename) for i in rng.permutation(len(ds))]
        frame = data.Image(files[0]) if files else None
        keep = copy.deepcopy(template)
        use_jit = jit if jit is not None else gjit
        try:
            want = model_recipe(template, files, "/some/out", model, frame, use_jit, skip)
        except LookupError as e:
            want = None
            c.raises(ValueError, lambda: walker.autogen_recipe(list(files), "/some/out", template=template), "missing-cal-accepted",
                     "%s: no %s registered, it is not optional and skipping is off" % (tn, e))
        if want is not None:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                got = walker.autogen_recipe(list(files), "/some/out", template=template)
            d_ = same_recipe(got, want)
            c.ok(d_ is None, "recipe-content", "%s (jit=%s, skip=%s, missing=%s): %s" % (tn, use_jit, skip, sorted(missing), d_))
            c.ok(not any(st.get("skip") for st in want["steps"]) or any("kip" in str(w.message) for w in ws), "silent-skip",
                 "%s: a step is skipped without a warning" % tn)
            again = walker.autogen_recipe(list(files), "/some/out", template=copy.deepcopy(keep))
            c.ok(same_recipe(again, want) is None, "recipe-repeat", "a second generation differs: %s" % same_recipe(again, want))
            c.see("recipes_filled")
        c.ok(template == keep, "template-changed", "%s: the template passed in was modified" % tn)
        st = "ok" if want is not None else "refused"
    c.sig(tn, st, use_jit, skip, bool(missing), bool(files))
    c.sample({"template": tn, "missing": sorted(missing), "jit": use_jit, "skip": skip})


@SUITE.workload(quick=26, thorough=200)
def automatic(c):
    """From files to recipe without naming a template."""
    rng = c.rng
    lv, v, p, s, l = [x for x in COMBOS if expected(*x) is not None][int(rng.integers(sum(1 for x in COMBOS if expected(*x) is not None)))]
    want_t = expected(lv, v, p, s, l)
    names = want_t if isinstance(want_t, list) else [want_t]
    ts = [json.load(open(os.path.join(TDIR, t))) for t in names]
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=False, skip_missing_cal_steps=bool(rng.random() < .3)):
        needs = sorted({cal for t in ts for st in t["steps"] for cal in st.get("calibs", {})})
        model = registry(rng, d, [x for x in needs if rng.random() < .93])
        ds = observation(rng, lv, v, p, s, l, int(rng.integers(2, 4)))
        for f in ds:
            f.filedir = d
            f.save()
        files = [f.filepath for f in ds]
        frame = data.Image(files[0])
        try:
            want = [model_recipe(t, files, d, model, frame, t["drpconfig"].get("jit_calib_id", False), corgidrp.skip_missing_cal_steps) for t in ts]
        except LookupError as e:
            c.raises(ValueError, lambda: walker.autogen_recipe(files, d), "missing-cal-accepted", "%s: no %s" % (names, e))
            want = None
        if want is not None:
            got = walker.autogen_recipe(files, d)
            c.ok(isinstance(got, list) == (len(want) > 1), "recipe-list", "%s: %d recipes returned as %s" % (names, len(want), type(got).__name__))
            got = got if isinstance(got, list) else [got]
            for g, w in zip(got, want):
                x = same_recipe(g, w)
                c.ok(x is None, "auto-recipe-content", "%s: %s" % (names, x))
            c.see("recipes_filled", len(want))
    c.sig(lv, v, p, s, l, want is None)


CFG = {"caldb": None, "default_calibs": None, "track_individual_errors": None, "skip_missing_cal_steps": None, "jit_calib_id": None}


@SUITE.workload(quick=24, thorough=200)
def settings_file(c):
    """The pipeline settings follow the configuration file; an old-style file is migrated."""
    rng = c.rng
    old = {k: getattr(corgidrp, k) for k in ("caldb_filepath", "default_cal_dir", "track_individual_errors", "skip_missing_cal_steps",
                                             "jit_calib_id", "config_folder", "config_filepath")}
    home = os.environ["HOME"]
    kind = ["fresh", "legacy", "edited", "partial"][c.index % 4]
    try:
        with c.scratch() as d, quiet():
            os.environ["HOME"] = d
            cfgdir = os.path.join(d, ".corgidrp")
            path = os.path.join(cfgdir, "corgidrp.cfg")
            want = dict(caldb_filepath=os.path.join(cfgdir, "corgidrp_caldb.csv"), default_cal_dir=os.path.join(cfgdir, "default_calibs"),
                        track_individual_errors=False, skip_missing_cal_steps=False, jit_calib_id=False)
            if kind == "legacy":
                open(cfgdir, "w").write("[PATH]\ncaldb = /old/place/db.csv\n")
                want["caldb_filepath"] = "/old/place/db.csv"
            if kind in ("edited", "partial"):
                os.makedirs(cfgdir)
                txt = ""
                for sec, keys in (("PATH", ("caldb", "default_calibs")), ("DATA", ("track_individual_errors",)),
                                  ("WALKER", ("skip_missing_cal_steps", "jit_calib_id"))):
                    lines = ""
                    for k in keys:
                        attr = {"caldb": "caldb_filepath", "default_calibs": "default_cal_dir"}.get(k, k)
                        if kind == "partial" and rng.random() < .5:
                            want[attr] = None if sec == "PATH" else False
                            continue
                        v = "/x/y%d" % rng.integers(100) if sec == "PATH" else str(rng.choice(["True", "False", "true", "FALSE", "false", "TRUE"]))
                        lines += "%s = %s\n" % (k, v)
                        want[attr] = v if sec == "PATH" else v.lower() == "true"
                    if lines or rng.random() < .5:
                        txt += "[%s]\n%s" % (sec, lines)
                open(path, "w").write(txt)
            corgidrp.create_config_dir()
            if kind in ("edited", "partial"):
                c.ok(open(path).read() == txt, "config-overwritten", "an existing configuration was rewritten")
            c.ok(os.path.isdir(os.path.join(cfgdir, "default_calibs")), "default-dir", "default calibration folder is missing")
            corgidrp.update_pipeline_settings()
            for k, v in want.items():
                c.ok(getattr(corgidrp, k) == v, "setting:" + k, "%s: %s is %r, expected %r" % (kind, k, getattr(corgidrp, k), v))
            keep = open(path).read()
            corgidrp.create_config_dir()
            corgidrp.update_pipeline_settings()
            c.ok(open(path).read() == keep and all(getattr(corgidrp, k) == v for k, v in want.items()), "config-second-start",
                 "a second start changed the settings")
    finally:
        os.environ["HOME"] = home
        for k, v in old.items():
            setattr(corgidrp, k, v)
    c.sig(kind, sorted(str(v) for k, v in want.items() if isinstance(v, bool)))
