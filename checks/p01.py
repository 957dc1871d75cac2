"""P01: pipeline steps and calibration builders never modify their inputs."""
import numpy as np
import corgidrp
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B, snap
from vlib.steps import STEPS

SUITE = Suite("P01", "one distinct situation = step function x number of frames x error tracking x option values, "
              "with every array, header card, extension and attribute of all inputs compared before and after")
NAMES = sorted(STEPS)


def describe(before, after):
    out = []
    for k in snap.diff(before, after):
        if k.endswith("hdr"):
            out.append("%s[%s]" % (k, ",".join(snap.header_diff(before.get(k), after.get(k)))[:120]))
        else:
            out.append(k)
    return out


def watch(c, name, fn, inputs, label=""):
    """Run fn and check that none of the inputs changed; returns the output."""
    before = [(lab, o, snap.obj(o)) for lab, o in inputs if o is not None]
    out = fn()
    for lab, o, b in before:
        a = snap.obj(o)
        d = describe(b, a)
        c.see("inputs_compared")
        c.see("input_parts_compared", len(b))
        kind = "dataset" if isinstance(o, data.Dataset) else type(o).__name__
        c.ok(not d, "mutated:%s:%s" % (name, kind), "%s%s modified its input %s: %s" % (name, label, lab, d[:6]))
    return out


def run_step(c, st, n):
    corgidrp.track_individual_errors = bool(c.rng.random() < .4)
    ds, args, kw = st.make(c.rng, n)
    inputs = [("dataset", ds)] + [("arg%d" % i, a) for i, a in enumerate(args)] + [("kw_" + k, v) for k, v in kw.items()]
    with c.scratch(), quiet():
        out = watch(c, st.name, lambda: st.fn(ds, *args, **kw), inputs)
        c.sig(st.name, n, corgidrp.track_individual_errors, sorted((k, str(v)) for k, v in kw.items()))
        # later edits of the result must not reach back into the input either
        base = {lab: snap.obj(o) for lab, o in inputs if o is not None}
        for f in out:
            f.data[...] = -7
            f.err[...] = 99
            f.dq[...] = 1
            for h in (f.pri_hdr, f.ext_hdr, f.err_hdr, f.dq_hdr):
                h["ZZMARK"] = 1
            f.filename = "other.fits"
        for lab, o in inputs:
            if o is None:
                continue
            d = describe(base[lab], snap.obj(o))
            c.see("aliasing_compared")
            c.ok(not d, "aliased:%s" % st.name, "editing the result of %s changed its input %s: %s" % (st.name, lab, d[:6]))
    c.sample({"step": st.name, "frames": n, "kwargs": {k: str(v) for k, v in kw.items()}})


@SUITE.workload(quick=5 * len(NAMES), thorough=40 * len(NAMES))
def steps(c):
    st = STEPS[NAMES[c.index % len(NAMES)]]
    run_step(c, st, 1 + (c.index // len(NAMES)) % 3)


@SUITE.workload(quick=20, thorough=150)
def chains(c):
    """Longer histories: the input of every step of a chain is intact after the whole chain has run."""
    from corgidrp import l1_to_l2a as l1, l2a_to_l2b as l2, l2b_to_l3 as l3, l3_to_l4 as l4, l4_to_tda as tda
    rng = c.rng
    R = B.SMALL["SCI"]
    full = (R["frame_rows"], R["frame_cols"])
    im = (R["image"]["rows"], R["image"]["cols"])
    n = int(rng.integers(1, 4))
    ds = B.dataset(rng, n, full, "L1", ext=dict(EXPTIME=2.0, EMGAIN_C=1.0))
    par = dict(kg=B.kgain(rng), nl=B.nonlin(rng), dp=__import__("vlib.steps", fromlist=["x"])._det(),
               bp=B.bpmap(rng, im), flat=B.flat(rng, im), dark=None, ast=B.astrom(rng), fc=B.fluxcal(rng),
               nm=B.noise_maps(rng, full))
    par["dark"] = B.dark(rng, im, 2.0, 1.0, par["kg"].value)
    chain = [("prescan_biassub", lambda d: l1.prescan_biassub(d, par["nm"], detector_regions=B.SMALL)),
             ("detect_cosmic_rays", lambda d: l1.detect_cosmic_rays(d, par["dp"], par["kg"], detector_regions=B.SMALL)),
             ("correct_nonlinearity", lambda d: l1.correct_nonlinearity(d, par["nl"])),
             ("update_to_l2a", l1.update_to_l2a), ("frame_select", l2.frame_select),
             ("convert_to_electrons", lambda d: l2.convert_to_electrons(d, par["kg"])),
             ("em_gain_division", l2.em_gain_division),
             ("dark_subtraction", lambda d: l2.dark_subtraction(d, par["dark"])),
             ("flat_division", lambda d: l2.flat_division(d, par["flat"])),
             ("correct_bad_pixels", lambda d: l2.correct_bad_pixels(d, par["bp"])),
             ("desmear", lambda d: l2.desmear(d, par["dp"])), ("update_to_l2b", l2.update_to_l2b),
             ("create_wcs", lambda d: l3.create_wcs(d, par["ast"])), ("divide_by_exptime", l3.divide_by_exptime),
             ("update_to_l3", l3.update_to_l3), ("update_to_l4", lambda d: l4.update_to_l4(d, None, par["fc"])),
             ("convert_to_flux", lambda d: tda.convert_to_flux(d, par["fc"])), ("update_to_tda", tda.update_to_tda)]
    states = []
    cals = {k: snap.obj(v) for k, v in par.items()}
    cur = ds
    with c.scratch():
        for nm, f in chain:
            states.append((nm, cur, snap.obj(cur)))
            cur = f(cur)
    for nm, d, s in states:
        dd = describe(s, snap.obj(d))
        c.see("chain_states_compared")
        c.ok(not dd, "mutated:%s:dataset" % nm, "the dataset given to %s differs after the chain: %s" % (nm, dd[:6]))
    for k, v in par.items():
        dd = describe(cals[k], snap.obj(v))
        c.ok(not dd, "mutated:chain:%s" % type(v).__name__, "calibration %s changed by the chain: %s" % (k, dd[:6]))
    c.sig("chain", n)


# ------------------------------------------------------------------ calibration builders and measurements
def ramp_scene(rng, gains=(1.,)):
    """Small frames for the gain and linearity calibrations: a pupil at many exposure times."""
    from astropy.time import Time
    shp = (80, 100)
    pupil = np.zeros(shp)
    pupil[24:56, 34:66] = 1 + .02 * rng.random((32, 32))
    t = Time("2024-03-01T00:00:00").unix
    ext, arr, pri = [], [], []
    for _ in range(3):
        arr.append(pupil * 4000)
        ext.append(dict(EMGAIN_C=1., EMGAIN_A=1., EXPTIME=5.))
        pri.append(dict(OBSNAME="MNFRAME"))
    for g in gains:
        e = list(np.round(np.linspace(.2, 9., 21), 3))
        for x in e + [e[2]]:
            for _ in range(2 if g == 1 else 1):
                arr.append(pupil * 1000 * x)
                ext.append(dict(EMGAIN_C=float(g), EMGAIN_A=float(g), EXPTIME=float(x)))
                pri.append(dict(OBSNAME="NONLIN"))
    for e in ext:
        e["DATETIME"] = Time(t, format="unix").isot
        t += 15
    return B.stack(rng, np.array(arr), level="L2a", ext_list=ext, pri_list=pri)


NLPAR = dict(rowroi1=20, rowroi2=60, colroi1=30, colroi2=70, rowback11=2, rowback12=15, rowback21=65, rowback22=78,
             colback11=10, colback12=90, colback21=10, colback22=90, min_exp_time=0, num_bins=50, min_bin=200, min_mask_factor=1.1)
KGREG = {"SCI": dict(frame_rows=100, frame_cols=140, prescan_reliable=dict(rows=100, cols=30, r0c0=[0, 0]),
                     prescan=dict(rows=100, cols=30, r0c0=[0, 0]), image=dict(rows=100, cols=110, r0c0=[0, 30]))}
KGPAR = dict(rowroi1=0, rowroi2=100, colroi1=30, colroi2=140, rn_bins1=-60, rn_bins2=61, max_DN_val=6000, signal_bins_N=100)


def ptc_scene(rng, kg=8.7, rn=8., nsets=6, nper=5, nmean=3):
    from astropy.time import Time
    t = Time("2024-03-01T00:00:00").unix
    light = np.zeros((100, 140))
    light[:, 30:] = 1 + np.linspace(0, 1, 110)[None] * .8
    arr, ext, pri = [], [], []
    for _ in range(nmean):
        arr.append(light * 1500)
        ext.append(dict(EMGAIN_C=1., EMGAIN_A=1., EXPTIME=50.))
        pri.append(dict(OBSNAME="MNFRAME"))
    for x in np.round(np.linspace(1, 4, nsets), 3):
        for _ in range(nper):
            arr.append(rng.poisson(light * 500 * x * kg) / kg + rng.normal(0, rn, light.shape))
            ext.append(dict(EMGAIN_C=1., EMGAIN_A=1., EXPTIME=float(x)))
            pri.append(dict(OBSNAME="KGAIN"))
    for e in ext:
        e["DATETIME"] = Time(t, format="unix").isot
        t += 15
    return B.stack(rng, np.array(arr), level="L2a", ext_list=ext, pri_list=pri)


def _telem(rng):
    dp = __import__("vlib.steps", fromlist=["_det"])._det()
    dp.params.update(TELRSTRT=28, TELREND=30)
    return dp


def _full(rng, gains, times):
    R = B.SMALL["SCI"]
    ext = [dict(EMGAIN_C=float(g), EXPTIME=float(t), KGAINPAR=8.7) for g, t in zip(gains, times)]
    return B.dataset(rng, len(gains), (R["frame_rows"], R["frame_cols"]), "L2a", ext_list=ext, dq=False)


def b_trad_dark(rng):
    import corgidrp.darks as d
    n = int(rng.integers(1, 4))
    ds, dp, kw = _full(rng, [1.] * n, [2.] * n), _telem(rng), dict(full_frame=bool(rng.random() < .5))
    return lambda: d.build_trad_dark(ds, dp, detector_regions=B.SMALL, **kw), [ds, dp, B.SMALL]


def b_noise_maps(rng):
    import corgidrp.darks as d
    combos = [(g, t) for g in (1., 10., 100.) for t in (2., 10., 50.)][:int(rng.integers(5, 10))] * 2
    ds, dp = _full(rng, [g for g, _ in combos], [t for _, t in combos]), _telem(rng)
    return lambda: d.calibrate_darks_lsq(ds, dp, detector_regions=B.SMALL), [ds, dp, B.SMALL]


def b_synth_dark(rng):
    import corgidrp.darks as d
    R = B.SMALL["SCI"]
    nm, sci, kw = B.noise_maps(rng, (R["frame_rows"], R["frame_cols"])), _full(rng, [3.], [2.]), dict(full_frame=bool(rng.random() < .5))
    return lambda: d.build_synthesized_dark(sci, nm, detector_regions=B.SMALL, **kw), [sci, nm, B.SMALL]


def b_bad_pixels(rng):
    import corgidrp.bad_pixel_calibration as b
    s = (12, 13)
    ds, dk, fl = B.dataset(rng, 2, s, "L2a"), B.dark(rng, s), B.flat(rng, s)
    return lambda: b.create_bad_pixel_map(ds, dk, fl, dthresh=3., ffrac=.9, fwidth=4), [ds, dk, fl]


def b_flat(rng):
    import corgidrp.flat as f
    ds = B.dataset(rng, int(rng.integers(1, 4)), (9, 10), "L2a")
    return lambda: f.create_flatfield(ds), [ds]


def b_pc(rng):
    import corgidrp.photon_counting as pc
    dark = rng.random() < .5
    n = int(rng.integers(2, 8))
    make = lambda vis: B.stack(rng, np.where(rng.random((n, 6, 7)) < .05, rng.exponential(5000., (n, 6, 7)), rng.normal(0, 100., (n, 6, 7))), level="L2a",
                               ext=dict(ISPC=True, EXPTIME=.05, EMGAIN_C=5000., EMGAIN_A=-1., RN=100., KGAINPAR=8.7), pri=dict(VISTYPE=vis))
    kw = dict(T_factor=5, pc_ecount_max=10, safemode=False)
    if dark:
        ds = make("DARK")
        return lambda: pc.get_pc_mean(ds, inputmode="darks", **kw), [ds]
    ds, dk = make("TDEMO"), pc.get_pc_mean(make("DARK"), inputmode="darks", **kw)
    return lambda: pc.get_pc_mean(ds, pc_master_dark=dk, inputmode="illuminated", **kw), [ds, dk]


def b_kgain(rng):
    from corgidrp.calibrate_kgain import calibrate_kgain
    ds, par = ptc_scene(rng), dict(KGPAR)
    return lambda: calibrate_kgain(ds, n_cal=5, n_mean=3, min_val=400, max_val=3500, binwidth=10, make_plot=False, detector_regions=KGREG, kgain_params=par), [ds, par, KGREG]


def b_nonlin(rng):
    from corgidrp.calibrate_nonlin import calibrate_nonlin
    ds, par = ramp_scene(rng, (1., 20.) if rng.random() < .5 else (1.,)), dict(NLPAR)
    return lambda: calibrate_nonlin(ds, n_cal=20, n_mean=3, norm_val=3000, make_plot=False, nonlin_params=par), [ds, par]


def b_ct(rng):
    import corgidrp.corethroughput as ct
    from checks import p27
    ds = p27.ct_dataset(rng, (48, 52), 3, "1F", 1)[0]
    return lambda: ct.generate_ct_cal(ds), [ds]


def b_ctmap(rng):
    import corgidrp.corethroughput as ct
    from checks import p27
    ds, pam, cfp, cfs, cen = p27.observation(rng)
    x, y = p27.layout(rng, "disk")
    cc = p27.cal(rng, cen, cfp, cfs, x, y, rng.uniform(.1, .9, len(x)))
    return lambda: ct.CreateCTMap(ds, pam, cc, x_range=[-9., 9.], y_range=[-9., 9.], n_gridx=8, n_gridy=9), [ds, pam, cc]


def b_nd(rng):
    import corgidrp.nd_filter_calibration as nd
    from checks import p28
    band, star, dim = "1F", str(rng.choice(p28.BRIGHT)), str(rng.choice(p28.DIM))
    fac = 1e-14
    nh = dict(FPAMNAME="ND225", CFAMNAME=band, FPAM_H=1., FPAM_V=2.)
    spec = [(p28.irradiance(star, band) / fac * 10 ** -2.2, nh, star)] * 2 + [(p28.irradiance(dim, band) / fac, dict(nh, FPAMNAME="HOLE"), dim)]
    ds = p28.frames(rng, spec, (44, 46))[0]
    kw = dict(encircled_radius=8.)
    return lambda: nd.create_nd_filter_cal(ds, .1, "Aperture", "irr", kw, None), [ds, kw]


def b_fluxcal(rng):
    import corgidrp.fluxcal as fc
    from checks import p28
    band, star = "1F", str(rng.choice(p28.BRIGHT))
    ds = p28.frames(rng, [(1e5, dict(FPAMNAME="HOLE", CFAMNAME=band), star)] * 2, (44, 46), back=.1)[0]
    for f in ds:
        f.err[rng.random(f.err.shape) < rng.choice([0, .3, 1])] = 0
    ap = rng.random() < .5
    kw = dict(encircled_radius=8., background_sub=True, r_in=9, r_out=13) if ap else dict(fwhm=3., fit_shape=13)
    fn = fc.calibrate_fluxcal_aper if ap else fc.calibrate_fluxcal_gauss2d
    return lambda: fn(ds, "flux", kw), [ds, kw]


def b_appmag(rng):
    import corgidrp.l4_to_tda as t
    from checks import p28
    ds = B.dataset(rng, 2, (9, 9), "L4", ext=dict(CFAMNAME="1F"), pri=dict(TARGET=str(p28.BRIGHT[0])))
    return lambda: t.determine_app_mag(ds, str(p28.BRIGHT[0])), [ds]


def b_colorcor(rng):
    import corgidrp.l4_to_tda as t
    from checks import p28
    ds = B.dataset(rng, 2, (9, 9), "L4", ext=dict(CFAMNAME="1F"))
    return lambda: t.determine_color_cor(ds, str(p28.BRIGHT[0]), str(p28.BRIGHT[1])), [ds]


def b_trap(rng):
    from corgidrp.pump_trap_calibration import create_TrapCalibration_from_trap_dict
    ds = B.dataset(rng, 2, (5, 6), "L2a")
    traps = {((1, 2), "LHSel1", 0): dict(T=[160.], tau=[1e-3], sigma_tau=[1e-4], cap=[[1., .1, 1., 1e-3, 160., 1e-4]], capture=1., E=.3, sig_E=.01, cs=1e-15, sig_cs=1e-16,
                                       Rsq=.9, **{"tau at input T": 1e-3, "sig tau at input T": 1e-4})}
    return lambda: create_TrapCalibration_from_trap_dict(traps, ds), [ds, traps]


def b_onsky(rng):
    import corgidrp.flat as f
    yy, xx = np.indices((150, 150))
    img = [(np.hypot(yy - 75 - dy, xx - 75 - dx) < 45) * 100. * rng.normal(1, .05, (150, 150)) for dy, dx in rng.uniform(-8, 8, (3, 2))]
    ds = B.stack(rng, np.array(img), level="L2b", pri=dict(TARGET="Neptune"), ext=dict(CFAMNAME="1F"))
    kw = dict(up_radius=20, N=1, planet_rad=15, n_pix=20, n_pad=3, sky_annulus_rin=None, sky_annulus_rout=None)
    return lambda: f.create_onsky_flatfield(ds, **kw), [ds, kw]


def b_boresight(rng):
    import os
    import corgidrp.astrom as a
    from checks.p35 import starfield
    ds, table, truth, kw, _ = starfield(rng)
    path = os.path.join(os.getcwd(), "field.csv")
    table.write(path, format="ascii.csv")
    if rng.random() < .5:
        kw["frames_to_combine"] = int(rng.integers(1, 3))
    if rng.random() < .5:
        kw["field_matches"] = [t["tab"] for t in truth] if "frames_to_combine" not in kw else [truth[0]["tab"]]
    return lambda: a.boresight_calibration(ds, field_path=path, **kw), [ds, kw]


def b_findstar(rng):
    import corgidrp.l3_to_l4 as l4
    from checks.p39 import spots
    ds, kw, _ = spots(rng, "NFOV")
    return lambda: l4.find_star(ds, **kw), [ds, kw]


def b_psfsub(rng):
    import corgidrp.l3_to_l4 as l4
    from checks.p37 import coronagraphic
    ds, kw = coronagraphic(rng)
    kw["outdir"] = "out"
    return lambda: l4.do_psf_subtraction(ds, **kw), [ds, kw]


def b_frn(rng):
    import corgidrp.l4_to_tda as tda
    from checks.p41 import observed
    ds, stars, nd, _ = observed(rng)
    return lambda: tda.compute_flux_ratio_noise(ds, nd, stars), [ds, stars, nd]


def b_tpump(rng):
    import corgidrp.pump_trap_calibration as pt
    from checks.p40 import campaign
    ds, _, kw, _ = campaign(rng, 2, (1, 2))
    return lambda: pt.tpump_analysis(ds, **kw), [ds, kw]


BUILDERS = {k[2:]: v for k, v in list(globals().items()) if k.startswith("b_")}
BNAMES = sorted(BUILDERS)


@SUITE.workload(quick=2 * len(BNAMES), thorough=15 * len(BNAMES))
def builders(c):
    name = BNAMES[c.index % len(BNAMES)]
    corgidrp.track_individual_errors = False
    with c.scratch(), quiet():
        fn, ins = BUILDERS[name](c.rng)
        inputs = [("input %d" % i, o) for i, o in enumerate(ins)]
        out = watch(c, name, fn, inputs)
        base = {lab: snap.obj(o) for lab, o in inputs}
        for f in out if isinstance(out, data.Dataset) else [out]:
            if isinstance(f, data.Image):
                for a in (f.data, getattr(f, "err", None), getattr(f, "dq", None)):
                    if a is not None:
                        a[...] = 7
                for h in (f.pri_hdr, f.ext_hdr):
                    h["ZZMARK"] = 1
                f.filename = "other.fits"
        for lab, o in inputs:
            d = describe(base[lab], snap.obj(o))
            c.see("aliasing_compared")
            c.ok(not d, "aliased:%s" % name, "editing the result of %s changed its %s: %s" % (name, lab, d[:6]))
    c.sig(name, c.index // len(BNAMES) % 4)
