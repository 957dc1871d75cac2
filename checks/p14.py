"""P14: running a recipe is running exactly its steps, in order, with the recipe's calibrations, options and settings."""
import copy
import glob
import inspect
import json
import os
import numpy as np
import corgidrp
import corgidrp.bad_pixel_calibration as bpc
import corgidrp.caldb as caldb
import corgidrp.combine as combine
import corgidrp.darks as darks
import corgidrp.data as data
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2
import corgidrp.l2b_to_l3 as l3
import corgidrp.l3_to_l4 as l4
import corgidrp.ops as ops
import corgidrp.walker as walker
from vlib.core import Suite, quiet
from vlib import build as B, dbmodel as M
from vlib.steps import _det
from checks.p13 import Settings, TEMPLATES, TDIR, fill, model_recipe, same_recipe, registry
from checks.p11 import make

SUITE = Suite("P14", "one distinct situation = recipe (steps, options, saves, skips) x calibration mode x error tracking; all files the "
              "run writes are compared with those of a hand-written execution of the same steps")
FN = {"prescan_biassub": l1.prescan_biassub, "detect_cosmic_rays": l1.detect_cosmic_rays, "correct_nonlinearity": l1.correct_nonlinearity,
      "update_to_l2a": l1.update_to_l2a, "add_photon_noise": l2.add_photon_noise, "dark_subtraction": l2.dark_subtraction,
      "flat_division": l2.flat_division, "frame_select": l2.frame_select, "convert_to_electrons": l2.convert_to_electrons,
      "em_gain_division": l2.em_gain_division, "cti_correction": l2.cti_correction, "correct_bad_pixels": l2.correct_bad_pixels,
      "desmear": l2.desmear, "update_to_l2b": l2.update_to_l2b, "divide_by_exptime": l3.divide_by_exptime, "create_wcs": l3.create_wcs,
      "update_to_l3": l3.update_to_l3, "northup": l4.northup, "update_to_l4": l4.update_to_l4,
      "combine_subexposures": combine.combine_subexposures, "build_trad_dark": darks.build_trad_dark,
      "create_bad_pixel_map": bpc.create_bad_pixel_map}
R = B.SMALL["SCI"]
FULL, IMG = (R["frame_rows"], R["frame_cols"]), (R["image"]["rows"], R["image"]["cols"])
VOLATILE = {"DRPCTIME", "RECIPE", "CHECKSUM", "DATASUM"}


def detector(d):
    o = _det()
    o.params.update(TELRSTRT=28, TELREND=30)
    for k in ("TELRSTRT", "TELREND"):
        o.ext_hdr[k] = o.params[k]
    o.pri_hdr["OBSNUM"] = 1
    for k, v in dict(EXPTIME=0.0, OPMODE="x", EMGAIN_C=1.0, EXCAMT=0.0).items():
        o.ext_hdr[k] = v
    o.filedir, o.filename = d, "detector.fits"
    o.save()
    return data.DetectorParams(o.filepath)


def cals(rng, d):
    """Registered calibrations that fit the small detector. Returns the database model."""
    h, model = caldb.CalDB(), {}
    objs = [B.kgain(rng, 8.7, .05), B.kgain(rng, 8.7, .1), B.nonlin(rng), B.noise_maps(rng, FULL), B.flat(rng, IMG), B.flat(rng, IMG),
            B.bpmap(rng, IMG), B.dark(rng, IMG, 1.0, 2.0, 8.7), B.dark(rng, IMG, 2.0, 2.0, 8.7), B.astrom(rng), B.fluxcal(rng), B.ctcal(rng), B.trapcal(rng)]
    objs = [o for o in objs if type(o) not in (data.TrapCalibration, data.CoreThroughputCalibration) or rng.random() < .6]
    for k, o in enumerate(objs):
        o.filedir, o.filename = d, "cal_%d.fits" % k
        o.ext_hdr["SCTSRT"] = "2025-02-%02dT00:00:00" % rng.integers(1, 28)
        o.save()
        h.create_entry(o)
        model[M.row(o)["Filepath"]] = M.row(o)
    o = detector(d)
    h.create_entry(o)
    model[M.row(o)["Filepath"]] = M.row(o)
    return model


def random_recipe(rng):
    """A valid L1..L4 recipe with random omissions, options, calibration sources and saves."""
    S = []

    def add(name, calibs=None, p=1.0, **kw):
        if rng.random() < p:
            st = {"name": name}
            if calibs:
                st["calibs"] = {k: v for k, v in calibs}
            if kw or rng.random() < .2:
                st["keywords"] = kw
            S.append(st)
            return True
        return False

    def save(p):
        if rng.random() < p:
            S.append({"name": str(rng.choice(["save", "Save"]))} if rng.random() < .5 else
                     {"name": "save", "keywords": {"suffix": str(rng.choice(["aa", "_bb", "c_c", "", "_dd_"])) + str(len(S))}})
    A = "AUTOMATIC"
    add("prescan_biassub", [("DetectorNoiseMaps", A + ",OPTIONAL")], detector_regions=B.SMALL, return_full_frame=False)
    add("detect_cosmic_rays", [("DetectorParams", A), ("KGain", A + ", OPTIONAL")], .8, detector_regions=B.SMALL, cosm_box=int(rng.integers(1, 4)))
    add("correct_nonlinearity", [("NonLinearityCalibration", A)], .8, threshold=float(rng.choice([110., 1e6])))
    add("update_to_l2a")
    save(.5)
    add("frame_select", None, .6, tt_rms_thres=6.0)
    add("convert_to_electrons", [("KGain", A)], .8)
    add("em_gain_division", None, .7)
    add("add_photon_noise", None, .4)
    r = rng.random()
    if r < .4:
        add("dark_subtraction", [("Dark", A)], 1, outputdir=A)
    elif r < .8:
        add("dark_subtraction", [("DetectorNoiseMaps", A)], 1, outputdir=A, detector_regions=B.SMALL)
    add("desmear", [("DetectorParams", A)], .6)
    add("cti_correction", [("TrapCalibration", A + ",OPTIONAL")], .6)
    save(.2)
    add("combine_subexposures", None, .3, num_frames_per_group=None, collapse="median")
    add("flat_division", [("FlatField", A)], .6)
    add("correct_bad_pixels", [("BadPixelMap", A)], .6)
    add("update_to_l2b")
    save(.5)
    if rng.random() < .6:
        add("create_wcs", [("AstrometricCalibration", A)])
        add("divide_by_exptime", None, .7)
        add("update_to_l3")
        save(.3)
        add("northup", None, .4, use_wcs=False)
        add("update_to_l4", [("CoreThroughputCalibration", A + ",OPTIONAL"), ("FluxcalFactor", A)])
    S.append({"name": "save"})
    for st in S:
        if rng.random() < .06 and not st["name"].lower().startswith(("update", "save", "prescan", "create")):
            st["skip"] = True
    return {"name": "my_recipe", "template": True, "drpconfig": {}, "inputs": [], "outputdir": "", "steps": S}


def l1_files(rng, d, n, dark=False):
    ext = [dict(EXPTIME=1.0, EMGAIN_C=2.0, KGAINPAR=8.7, Z2VAR=0.0 if not i else float(rng.uniform(0, 8)), SCTSRT="2025-02-10T00:00:00") for i in range(n)]
    ds = B.dataset(rng, n, FULL, "L1", ext_list=ext, pri=dict(VISTYPE="DARK" if dark else "TDEMO", RA=10.0, DEC=20.0, ROLL=33.0), err=False, dq=False)
    ds.all_data[:] = np.abs(ds.all_data) + 20
    for f in ds:
        f.filedir = d
        f.save()
    return [f.filepath for f in ds]


def reference(recipe, model, outdir, jit):
    """What a user would type: each step by hand. Returns the set of calibration files made."""
    ds = data.Dataset(recipe["inputs"]) if recipe["inputs"] else []
    made, cond = [], []
    for st in recipe["steps"]:
        if st["name"].lower() == "save":
            suf = st.get("keywords", {}).get("suffix", "").strip("_")
            for f in (ds if isinstance(ds, data.Dataset) else [ds]):
                nm = f.filename[:-5] + ("_" + suf if suf else "") + ".fits"
                f.save(filedir=outdir, filename=nm)
                if type(f) in caldb.labels:
                    made.append(nm)
                    r = M.row(f)
                    model[r["Filepath"]] = r
            continue
        if st.get("skip"):
            continue
        if jit:
            ref = ds[0] if isinstance(ds, data.Dataset) else ds
            fill(st, model, ref, corgidrp.skip_missing_cal_steps)
            if st.get("skip"):
                continue
        args = []
        for k, v in st.get("calibs", {}).items():
            if isinstance(v, list):
                v = st["calibs"][k] = v[0]
            args.append(None if v is None else getattr(data, k)(v))
        kw = dict(st.get("keywords", {}))
        if st["name"] == "dark_subtraction" and "outputdir" in kw:
            kw["outputdir"] = outdir
        ds = FN[st["name"]](ds, *args, **kw)
    return made


def cards(h, no=VOLATILE):
    return [(k.keyword, str(k.value).replace("/ref/", "/out/")) for k in h.cards if k.keyword not in no]


def compare_dirs(c, got, want, where):
    a = sorted(os.path.basename(x) for x in glob.glob(os.path.join(got, "*.fits")))
    b = sorted(os.path.basename(x) for x in glob.glob(os.path.join(want, "*.fits")))
    if not c.ok(a == b, "recipe-files", "%s: wrote %s, expected %s" % (where, a, b)):
        return
    c.see("files_compared", len(a))
    for n in a:
        x, y = data.autoload(os.path.join(got, n)), data.autoload(os.path.join(want, n))
        c.ok(type(x) is type(y), "recipe-type", "%s: %s is %s instead of %s" % (where, n, type(x).__name__, type(y).__name__))
        for k in ("data", "err", "dq"):
            u, v = np.asarray(getattr(x, k)), np.asarray(getattr(y, k))
            c.ok(u.shape == v.shape and np.array_equal(u, v, equal_nan=u.dtype.kind == "f"), "recipe-result:" + k,
                 "%s: %s of %s differs from executing the steps by hand" % (where, k, n))
        for k in ("pri_hdr", "ext_hdr", "err_hdr", "dq_hdr"):
            u, v = cards(getattr(x, k)), cards(getattr(y, k))
            d = [p for p in u if p not in v][:3] + [p for p in v if p not in u][:3]
            c.ok(u == v, "recipe-header:" + k, "%s: %s of %s: %s" % (where, k, n, d))


@SUITE.workload(quick=20, thorough=300)
def runs(c):
    """Random recipes on raw files: all files written are those of the steps done by hand."""
    rng = c.rng
    template = random_recipe(rng)
    jit = bool(rng.random() < .4)
    track = bool(rng.random() < .5)
    gjit = bool(rng.random() < .3)
    key = rng.random() < .6
    if key:
        template["drpconfig"]["jit_calib_id"] = jit
    else:
        jit = gjit
    if rng.random() < .7:
        template["drpconfig"]["track_individual_errors"] = track
    else:
        track = False
    n = int(rng.integers(1, 4))
    replay = rng.random() < .4
    how = str(rng.choice(["dict", "file", "autogen", "ops"]))
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=gjit, skip_missing_cal_steps=False, track_individual_errors=False):
        for s in ("raw", "cal", "out", "ref", "again"):
            os.makedirs(s)
        out, ref = os.path.join(d, "out", ""), os.path.join(d, "ref", "")
        model = cals(rng, os.path.join(d, "cal"))
        files = l1_files(rng, os.path.join(d, "raw"), n)
        frame = data.Image(files[0])
        if how == "file":
            json.dump(template, open("tpl.json", "w"))
            got = walker.walk_corgidrp(files, "", out, template=os.path.join(d, "tpl.json"))
        elif how == "ops":
            json.dump(template, open("tpl.json", "w"))
            ops.step_3_process_data(files, "", out, template=os.path.join(d, "tpl.json"))
            got = None
        elif how == "autogen":
            got = walker.autogen_recipe(files, out, template=template)
            json.dump(got, open("filled.json", "w"))
            if rng.random() < .5:
                walker.run_recipe(os.path.join(d, "filled.json"))
                got = None
            else:
                walker.run_recipe(got)
        else:
            got = walker.walk_corgidrp(files, "", out, template=template)
        c.ok(corgidrp.track_individual_errors == track, "drpconfig-ignored", "track_individual_errors is %s, recipe says %s" % (
            corgidrp.track_individual_errors, track))
        corgidrp.track_individual_errors, corgidrp.jit_calib_id = track, gjit
        generated = model_recipe(template, files, out, model, frame, jit, False)
        js = glob.glob(os.path.join(out, "*_recipe.json"))
        if c.ok(len(js) == 1 and os.path.basename(js[0]).startswith("my_recipe_"), "recipe-file", "recipe files: %s" % js):
            x = same_recipe(json.load(open(js[0])), generated)
            c.ok(x is None, "recipe-file-content", "saved recipe: %s" % x)
        want = copy.deepcopy(generated)
        reference(want, model, ref, jit)
        compare_dirs(c, out, ref, "recipe %s" % [s["name"] for s in template["steps"]])
        # the recipe recorded in the products
        prods = [p for p in sorted(glob.glob(os.path.join(out, "*.fits"))) if type(data.autoload(p)) is data.Image]
        last = max(prods, key=lambda p: os.stat(p).st_mtime_ns)
        rec = json.loads(data.Image(last).ext_hdr["RECIPE"])
        x = same_recipe(rec, generated if not jit else want)
        c.ok(x is None, "recipe-recorded", "recipe recorded in %s: %s" % (os.path.basename(last), x))
        if got is not None and not isinstance(got, list):
            x = same_recipe(got, want if jit else generated)
            c.ok(x is None, "recipe-returned", "returned recipe: %s" % x)
        if replay:
            corgidrp.track_individual_errors = False
            rec["outputdir"] = os.path.join(d, "again", "")
            for st in rec["steps"]:
                if st["name"] == "dark_subtraction" and "outputdir" in st.get("keywords", {}):
                    st["keywords"]["outputdir"] = rec["outputdir"]
            walker.run_recipe(rec, save_recipe_file=False)
            c.ok(not glob.glob(os.path.join(d, "again", "*.json")), "recipe-file-unwanted", "a recipe file was written although not asked for")
            corgidrp.track_individual_errors = track
            compare_dirs(c, rec["outputdir"], ref, "recorded recipe run again")
    c.sig([s["name"][:6] for s in template["steps"]], jit, track, how, n)
    c.sample({"steps": [s["name"] for s in template["steps"]], "jit": jit, "how": how})


@SUITE.workload(quick=8, thorough=100)
def sessions(c):
    """Several recipes share the database: products of one are registered and used by the next."""
    rng = c.rng
    jit = bool(rng.random() < .5)
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=False, skip_missing_cal_steps=False, track_individual_errors=False):
        for s in ("raw", "cal", "out", "ref"):
            os.makedirs(s)
        out, ref = os.path.join(d, "out", ""), os.path.join(d, "ref", "")
        h, model = caldb.CalDB(), {}
        o = detector(os.path.join(d, "cal"))
        h.create_entry(o)
        model[M.row(o)["Filepath"]] = M.row(o)
        for k, o in enumerate([B.flat(rng, IMG), B.kgain(rng, 8.7, .05)]):
            o.filedir, o.filename = os.path.join(d, "cal"), "c%d.fits" % k
            o.save()
            h.create_entry(o)
            model[M.row(o)["Filepath"]] = M.row(o)
        A = "AUTOMATIC"
        dkw = {"detector_regions": B.SMALL, "full_frame": False}
        pre = {"name": "prescan_biassub", "keywords": {"detector_regions": B.SMALL}}
        to2a = {"name": "update_to_l2a"}
        mkdark = [{"name": "prescan_biassub", "keywords": {"detector_regions": B.SMALL, "return_full_frame": True}}, to2a, {"name": "convert_to_electrons", "calibs": {"KGain": A}}, {"name": "build_trad_dark", "calibs": {"DetectorParams": A}, "keywords": dkw}, {"name": "save"}]
        mkbp = [{"name": "create_bad_pixel_map", "calibs": {"Dark": A, "FlatField": A}, "keywords": {"dthresh": 1.0}}, {"name": "save"}]
        sci = [pre, to2a, {"name": "convert_to_electrons", "calibs": {"KGain": A}}, {"name": "dark_subtraction", "calibs": {"Dark": A}, "keywords": {"outputdir": A}},
               {"name": "correct_bad_pixels", "calibs": {"BadPixelMap": A}}, {"name": "save"}]
        chained = mkdark + mkbp if jit else None
        plan = [("dark", mkdark), ("bp", mkbp), ("sci", sci)] if not jit else [("dark+bp", chained), ("sci", sci)]
        if not jit and rng.random() < .5:
            plan.insert(1, ("dark", mkdark))
        for k, (nm, steps) in enumerate(plan):
            raw = os.path.join(d, "raw", str(k))
            os.makedirs(raw)
            files = l1_files(rng, raw, int(rng.integers(2, 4)), dark="dark" in nm) if nm != "bp" else []
            for i, f in enumerate(files):
                new = os.path.join(raw, "CGI_0200001001001001%03d_20250216T0000%02d0_L1_.fits" % (k, i))
                os.rename(f, new)
                files[i] = new
            t = {"name": nm, "template": True, "drpconfig": {"track_individual_errors": False, "jit_calib_id": jit}, "inputs": [],
                 "outputdir": "", "steps": copy.deepcopy(steps)}
            frame = data.Image(files[0]) if files else None
            want = model_recipe(t, files, out, model, frame, jit, False)
            walker.walk_corgidrp(files, "", out, template=t)
            # reference run records its own products, then is renamed to what the pipeline must have registered
            m2 = dict(model)
            made = reference(want, m2, ref, jit)
            compare_dirs(c, out, ref, "session recipe %s" % nm)
            for f in made:
                p = os.path.join(out, f)
                if os.path.exists(p):
                    r = M.row(data.autoload(p))
                    model[r["Filepath"]] = r
            M.compare(c, corgidrp.caldb_filepath, model, "after recipe %s" % nm)
    c.sig([p[0] for p in plan], jit)


@SUITE.workload(quick=len(TEMPLATES), thorough=4 * len(TEMPLATES), fixed=True)
def shipped(c):
    """Every shipped recipe is executable: its steps run in order, each call fits the step, calibrations in the order given."""
    rng = c.rng
    tn = TEMPLATES[c.index % len(TEMPLATES)]
    t = json.load(open(os.path.join(TDIR, tn)))
    calls = []
    keep = dict(walker.all_steps)
    other = c.index >= len(TEMPLATES) or rng.random() < .4
    if other:           # a recipe of the user: more calibrations, in another order
        pool = ["KGain", "FlatField", "BadPixelMap", "DetectorParams", "AstrometricCalibration", "FluxcalFactor", "Dark"]
        for st in t["steps"]:
            if st["name"].lower() != "save" and rng.random() < .6:
                cal = dict(st.get("calibs", {}))
                for x in rng.choice(pool, int(rng.integers(1, 4)), replace=False):
                    cal.setdefault(str(x), "AUTOMATIC")
                st["calibs"] = {str(k): cal[str(k)] for k in rng.permutation(list(cal))}

    def stub(name, real):
        def f(*a, **k):
            if not other:
                inspect.signature(real).bind(*a, **k)
            calls.append((name, [None if x is None else (type(x).__name__, os.path.abspath(x.filepath)) for x in a[1:]], copy.deepcopy(k)))
            return a[0] if isinstance(a[0], data.Dataset) else data.Dataset([B.image(rng, (3, 3))])
        return f
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=bool(rng.random() < .3), skip_missing_cal_steps=False):
        os.makedirs("out")
        os.makedirs("cal")
        needs = sorted({x for st in t["steps"] for x in st.get("calibs", {})})
        drop = {x for st in t["steps"] for x, v in st.get("calibs", {}).items() if "OPTIONAL" in v} - {
            x for st in t["steps"] for x, v in st.get("calibs", {}).items() if "OPTIONAL" not in v}
        model = registry(rng, os.path.join(d, "cal"), [x for x in needs if x not in drop or rng.random() < .5])
        ds = B.dataset(rng, 2, (5, 6), "L2a", ext=dict(SCTSRT="2025-05-05T00:00:00"))
        dk = [m for m in model.values() if m["Type"] == "Dark"]
        for f in ds:
            if dk:
                f.ext_hdr["EXPTIME"] = dk[0]["EXPTIME"]
            f.filedir = d
            f.save()
        files = [f.filepath for f in ds] if tn != "bp_map.json" else []
        jit = t["drpconfig"].get("jit_calib_id", corgidrp.jit_calib_id)
        want = model_recipe(t, files, os.path.join(d, "out"), model, data.Image(files[0]) if files else None, False, False)
        try:
            for n, f in keep.items():
                walker.all_steps[n] = stub(n, f)
            if not (jit and not files):
                walker.walk_corgidrp(files, "", os.path.join(d, "out"), template=copy.deepcopy(t) if other else tn)
            else:
                return
        finally:
            walker.all_steps.update(keep)
        steps = [st for st in want["steps"] if st["name"].lower() != "save"]
        c.ok([x[0] for x in calls] == [s["name"] for s in steps], "shipped-order:" + tn, "%s executed %s" % (tn, [x[0] for x in calls]))
        for (n, a, k), st in zip(calls, steps):
            c.ok(k == st.get("keywords", {}), "shipped-keywords:" + tn, "%s %s called with %s, recipe says %s" % (tn, n, k, st.get("keywords")))
            cal = list(st.get("calibs", {}).items())
            c.ok(len(a) == len(cal), "shipped-calibs:" + tn, "%s %s got %d calibrations, recipe has %d" % (tn, n, len(a), len(cal)))
            for got, (typ, paths) in zip(a, cal):
                c.ok((got is None and paths is None) or (got is not None and paths is not None and got[0] == typ and got[1] in paths),
                     "shipped-calib:" + tn, "%s %s got %s, expected %s from %s" % (tn, n, got, typ, paths))
        c.see("recorded_calls", len(calls))
        c.ok(len(glob.glob("out/*_recipe.json")) == 1, "shipped-recipe-file", "recipe files")
    c.sig(tn, jit)


@SUITE.workload(quick=16, thorough=150)
def failing(c):
    """A step that fails stops the run there: error is raised, nothing later happens, earlier products stay."""
    rng = c.rng
    with c.scratch() as d, quiet(), Settings(d, jit_calib_id=False, skip_missing_cal_steps=bool(rng.random() < .5), track_individual_errors=False):
        os.makedirs("raw")
        os.makedirs("out")
        files = l1_files(rng, os.path.join(d, "raw"), 2)
        kind = ["level", "unknown", "jit-missing", "jit-skip", "bad-calib"][c.index % 5]
        pre = {"name": "prescan_biassub", "keywords": {"detector_regions": B.SMALL}}
        bad = {"level": {"name": "update_to_l2b"}, "unknown": {"name": "no_such_step"},
               "jit-missing": {"name": "convert_to_electrons", "calibs": {"KGain": "AUTOMATIC"}},
               "jit-skip": {"name": "convert_to_electrons", "calibs": {"KGain": "AUTOMATIC"}},
               "bad-calib": {"name": "convert_to_electrons", "calibs": {"KGain": "wrong.fits"}}}[kind]
        if kind == "bad-calib":
            o = B.dark(rng, IMG)
            o.save(filedir=d, filename="wrong.fits")
        if kind == "jit-skip":
            corgidrp.skip_missing_cal_steps = True
        if kind == "jit-missing":
            corgidrp.skip_missing_cal_steps = False
        r = {"name": "x", "template": False, "drpconfig": {"jit_calib_id": kind.startswith("jit")}, "inputs": files, "outputdir": os.path.join(d, "out"),
             "steps": [pre, {"name": "save", "keywords": {"suffix": "early"}}, bad, {"name": "update_to_l2a"}, {"name": "save", "keywords": {"suffix": "late"}}]}
        if kind == "jit-skip":
            walker.run_recipe(r)
            late = sorted(glob.glob("out/*_late.fits"))
            c.ok(len(late) == 2, "skip-stops-run", "skipping a step: files %s" % os.listdir("out"))
            for f in late:
                im = data.Image(f)
                c.ok(im.ext_hdr["DATALVL"] == "L2a" and im.ext_hdr["BUNIT"] == "DN", "skip-executed", "the skipped step left a trace")
                st = json.loads(im.ext_hdr["RECIPE"])["steps"][2]
                c.ok(st.get("skip") is True, "skip-unrecorded", "header recipe does not say the step was skipped: %s" % st)
        else:
            c.raises(Exception, lambda: walker.run_recipe(r), "failure-hidden:" + kind, "a failing step (%s) did not stop the run" % kind)
            c.ok(len(glob.glob("out/*_early.fits")) == 2 and not glob.glob("out/*_late.fits"), "failure-continues:" + kind,
                 "after a failing step the directory holds %s" % os.listdir("out"))
    c.sig(kind)
