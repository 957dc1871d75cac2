"""P03: every combined or calibration product names all raw files and ancestors it was made from."""
import re
import warnings
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data
import corgidrp.combine as combine
import corgidrp.darks as darks
import corgidrp.detector as detector
import corgidrp.photon_counting as pc
import corgidrp.bad_pixel_calibration as bpc
import corgidrp.flat as flat
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P03", "one distinct situation = product (class or builder) x number of frames x which frames carry "
              "ancestors of their own; the recorded parent list is compared with the independently known ancestry")


def give_parents(rng, ds, p=.5, pool=None):
    """Some frames have parents of their own (overlapping between frames)."""
    pool = pool or ["CGI_anc_%03d_L1_.fits" % i for i in range(6 if rng.random() < .6 else int(rng.choice([14, 40, 130])))]
    expected = set()
    who = ""
    for f in ds:
        expected.add(f.filename)
        if rng.random() < p:
            k = int(rng.integers(1, len(pool)))
            mine = list(rng.choice(pool, k, replace=False))
            for j, m in enumerate(mine):
                f.ext_hdr["FILE%d" % j] = str(m)
            f.ext_hdr["DRPNFILE"] = k
            expected |= set(str(m) for m in mine)
            who += "P"
        else:
            who += "-"
    return expected, who


def recorded(h):
    n = h["DRPNFILE"]
    return [h["FILE%d" % i] for i in range(n)]


def judge(c, name, hdr, expected):
    c.see("parent_lists")
    if not c.ok("DRPNFILE" in hdr, "no-record:" + name, "%s: no count of parent files" % name):
        return
    n = hdr["DRPNFILE"]
    missing = [i for i in range(n) if "FILE%d" % i not in hdr]
    if not c.ok(not missing, "gap:" + name, "%s: DRPNFILE=%s but FILE%s is absent" % (name, n, missing[:3])):
        return
    rec = recorded(hdr)
    c.ok(len(set(rec)) == len(rec), "duplicate:" + name, "%s records a parent twice: %s" % (name, rec))
    c.ok(not expected - set(rec), "missing:" + name, "%s omits parents %s" % (name, sorted(expected - set(rec))[:4]))
    c.ok(not set(rec) - expected, "extra:" + name, "%s lists files it was not made from %s" % (
        name, sorted(set(rec) - expected)[:4]))
    c.see("parent_files", len(rec))


def base(n):
    return n.split(".fits")[0]


PRODUCTS = {
    # class: (maker(rng, parents), default filename from the last parent name)
    "Dark": (lambda r, p: B.dark(r, (5, 6), parents=p), lambda n: re.sub("_L[0-9].", "", base(n) + "_DRK_CAL.fits")),
    "FlatField": (lambda r, p: B.flat(r, (5, 6), parents=p), lambda n: re.sub("_L[0-9].", "_FLT_CAL", n)),
    "NonLinearityCalibration": (lambda r, p: B.nonlin(r, parents=p), lambda n: re.sub("_L[0-9].", "_NLN_CAL", n)),
    "KGain": (lambda r, p: B.kgain(r, parents=p), lambda n: re.sub("_L[0-9].", "_KRN_CAL", n)),
    "BadPixelMap": (lambda r, p: B.bpmap(r, (5, 6), parents=p), lambda n: re.sub("_L[0-9].", "_BPM_CAL", n)),
    "NDFilterSweetSpotDataset": (lambda r, p: B.ndsweet(r, parents=p), None),
}


def _with(rng, p, kind):
    pp, e = B.cal_headers(rng, CFAMNAME="3C", FPAMNAME="HOLE")
    if kind == "AstrometricCalibration":
        return data.AstrometricCalibration(np.array([80., -69., 21.8, 21.8, 0., 0., 0.]), pri_hdr=pp, ext_hdr=e, input_dataset=p)
    if kind == "TrapCalibration":
        return data.TrapCalibration(rng.normal(1, .3, (4, 10)), pri_hdr=pp, ext_hdr=e, input_dataset=p)
    if kind == "FluxcalFactor":
        return data.FluxcalFactor(np.array([[1e-13]]), err=np.array([[[1e-15]]]), pri_hdr=pp, ext_hdr=e, input_dataset=p)
    if kind == "DetectorNoiseMaps":
        e["B_O"], e["B_O_ERR"] = 1.0, .1
        return data.DetectorNoiseMaps(rng.normal(1, .1, (3, 4, 5)), pri_hdr=pp, ext_hdr=e, input_dataset=p,
                                      err=np.ones((1, 3, 4, 5)), dq=np.zeros((3, 4, 5), int), err_hdr=fits.Header())
    e["EXTNAME"] = "PSFCUBE"
    hl = [fits.ImageHDU(rng.normal(1, .1, (3, 4)), name="CTEXCAM"), fits.ImageHDU(np.array([1., 2.]), name="CTFPAM"),
          fits.ImageHDU(np.array([3., 4.]), name="CTFSAM")]
    return data.CoreThroughputCalibration(rng.normal(1, .1, (4, 5, 5)), pri_hdr=pp, ext_hdr=e, input_hdulist=hl,
                                          dq=np.zeros((4, 5, 5), np.uint16), input_dataset=p)


for _k, _fn in (("AstrometricCalibration", lambda n: base(n) + "_AST_CAL.fits"),
                ("TrapCalibration", lambda n: re.sub("_L[0-9].", "", base(n) + "_TPU_CAL.fits")),
                ("FluxcalFactor", lambda n: re.sub("_L[0-9].", "", base(n) + "_ABF_CAL.fits")),
                ("DetectorNoiseMaps", lambda n: re.sub("_L[0-9].", "", base(n) + "_DNM_CAL.fits")),
                ("CoreThroughputCalibration", None)):
    PRODUCTS[_k] = (lambda r, p, k=_k: _with(r, p, k), _fn)
NAMES = sorted(PRODUCTS)


@SUITE.workload(quick=8 * len(NAMES), thorough=200 * len(NAMES))
def classes(c):
    rng = c.rng
    name = NAMES[c.index % len(NAMES)]
    make, fn = PRODUCTS[name]
    n = int(rng.integers(1, 6))
    level = str(rng.choice(["L1", "L2a", "L2b"])) if "NDF" not in name and "Core" not in name else "L3"
    ds = B.dataset(rng, n, (3, 4), level, extra=False)
    expected, who = give_parents(rng, ds)
    names = [f.filename for f in ds]
    obj = make(rng, ds)
    judge(c, name, obj.ext_hdr, expected)
    c.ok(obj.ext_hdr["DATALVL"] == "CAL", "datalvl:" + name, "%s has data level %r" % (name, obj.ext_hdr["DATALVL"]))
    c.ok(obj.ext_hdr["DATATYPE"] == name, "datatype:" + name, "%s has DATATYPE %r" % (name, obj.ext_hdr["DATATYPE"]))
    if fn is not None:
        c.ok(obj.filename == fn(names[-1]), "filename:" + name,
             "%s from %s is named %s, expected %s" % (name, names[-1], obj.filename, fn(names[-1])))
    else:
        c.ok(obj.filename.endswith("CAL.fits") and obj.filename.startswith(names[-1][:30]), "filename:" + name,
             "%s from %s is named %s" % (name, names[-1], obj.filename))
    c.sig(name, n, who, level)
    c.sample({"product": name, "parents": sorted(expected)[:4], "name": obj.filename})
    # the record survives the file
    with c.scratch() as d:
        obj.save(filedir=d)
        again = type(obj)(d + "/" + obj.filename)
        judge(c, name + ":file", again.ext_hdr, expected)


@SUITE.workload(quick=40, thorough=1500)
def combined(c):
    """Frame combination, including combinations of combinations."""
    rng = c.rng
    k1, k2 = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    groups = int(rng.integers(1, 4))
    ds = B.dataset(rng, k1 * k2 * groups, (4, 5), "L2b", extra=False)
    anc = {}
    for f in ds:
        e, who = give_parents(rng, [f], .3)
        anc[f.filename] = e
    names = [f.filename for f in ds]
    one = combine.combine_subexposures(ds, k1, collapse=str(rng.choice(["mean", "median"])))
    c.ok(len(one) == k2 * groups, "count:combine", "%d frames out, expected %d" % (len(one), k2 * groups))
    exp1 = []
    for i, f in enumerate(one):
        e = set().union(*[anc[n] for n in names[i * k1:(i + 1) * k1]])
        exp1.append(e | {f.filename})
        judge(c, "combine_subexposures", f.ext_hdr, e)
    # a second generation: own names are those of the last member, so distinct names are given as a save would
    for i, f in enumerate(one):
        f.filename = "CGI_comb_%d_L2b.fits" % i
        exp1[i] = (exp1[i] - {names[(i + 1) * k1 - 1]}) | {f.filename} | {names[(i + 1) * k1 - 1]}
    two = combine.combine_subexposures(one, k2)
    for i, f in enumerate(two):
        judge(c, "combine_subexposures:2nd", f.ext_hdr, set().union(*exp1[i * k2:(i + 1) * k2]))
    c.sig("combine", k1, k2, groups)
    c.see("generations", 2)


def pc_frames(rng, n, vistype="TDEMO", shape=(5, 6)):
    ds = B.dataset(rng, n, shape, "L2a", extra=False, ext=dict(ISPC=True, EXPTIME=.05, EMGAIN_C=5000., EMGAIN_A=-1., RN=100.,
                   KGAINPAR=8.7), pri=dict(VISTYPE=vistype), dq=False)
    for f in ds:
        f.data[:] = np.where(rng.random(shape) < .05, rng.exponential(5000., shape), rng.normal(0, 100., shape))
    return ds


@SUITE.workload(quick=30, thorough=700)
def photon_counted(c):
    rng = c.rng
    n = int(rng.integers(2, 14))
    b = int(rng.integers(1, n + 1))
    dark = rng.random() < .5
    ds = pc_frames(rng, n, "DARK" if dark else "TDEMO")
    anc = {}
    who = ""
    for f in ds:
        e, w = give_parents(rng, [f], .3)
        anc[f.filename] = e
        who += w
    names = [f.filename for f in ds]
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        out = pc.get_pc_mean(ds, T_factor=5, pc_ecount_max=10, bin_size=b, inputmode="darks" if dark else "illuminated",
                             safemode=False)
    nb = n // b
    if dark:
        used = names[:nb * b]
        judge(c, "pc_dark", out.ext_hdr, set().union(*[anc[x] for x in used]))
        c.ok(len(out.data) == nb, "count:pc_dark", "%d slices, expected %d" % (len(out.data), nb))
        c.ok(out.filename == re.sub("_L[0-9].", "", base(used[-1]) + "_DRK_CAL.fits"), "filename:pc_dark",
             "named %s after %s" % (out.filename, used[-1]))
        c.ok(out.ext_hdr["NUM_FR"] == b, "numfr:pc_dark", "NUM_FR %r for bins of %d" % (out.ext_hdr["NUM_FR"], b))
    else:
        c.ok(len(out) == nb, "count:pc", "%d frames, expected %d" % (len(out), nb))
        for i, f in enumerate(out):
            used = names[i * b:(i + 1) * b]
            judge(c, "pc_mean", f.ext_hdr, set().union(*[anc[x] for x in used]))
            c.ok(f.filename == used[-1].replace("L2a", "L2b"), "filename:pc_mean", "named %s after %s" % (f.filename, used[-1]))
            c.ok(f.ext_hdr["NUM_FR"] == b, "numfr:pc_mean", "NUM_FR %r for bins of %d" % (f.ext_hdr["NUM_FR"], b))
    c.sig("pc", n, b, dark, "P" in who)


def _full(rng, n, gains=None, times=None, **kw):
    R = B.SMALL["SCI"]
    shp = (R["frame_rows"], R["frame_cols"])
    ext = [dict(EMGAIN_C=gains[i], EXPTIME=times[i], KGAINPAR=8.7) for i in range(n)]
    return B.dataset(rng, n, shp, "L2a", ext_list=ext, extra=False, dq=False, **kw)


@SUITE.workload(quick=24, thorough=500)
def builders(c):
    """The calibration builders hand the right frames to the product's record."""
    rng = c.rng
    kind = ["trad_dark", "noise_maps", "synth_dark", "bad_pixels", "flat"][c.index % 5]
    dp = __import__("vlib.steps", fromlist=["_det"])._det()
    dp.params.update(TELRSTRT=28, TELREND=30)
    with warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        if kind == "trad_dark":
            n = int(rng.integers(1, 6))
            ds = _full(rng, n, [1.0] * n, [2.0] * n)
            expected, who = give_parents(rng, ds)
            out = darks.build_trad_dark(ds, dp, detector_regions=B.SMALL, full_frame=bool(rng.random() < .5))
        elif kind == "noise_maps":
            m = int(rng.integers(2, 4))
            combos = [(g, t) for g in (1., 10., 100.) for t in (2., 10., 50.)][:int(rng.integers(5, 10))]
            order = rng.permutation(len(combos) * m)
            cc = [combos[i // m] for i in order]
            ds = _full(rng, len(cc), [g for g, _ in cc], [t for _, t in cc])
            expected, who = give_parents(rng, ds, .2)
            out = darks.calibrate_darks_lsq(ds, dp, detector_regions=B.SMALL)
            n = len(ds)
        elif kind == "synth_dark":
            R = B.SMALL["SCI"]
            par = B.dataset(rng, 3, (2, 2), "L2a", extra=False)
            pp, e = B.cal_headers(rng)
            e["B_O"], e["B_O_ERR"] = 1.0, .1
            shp = (3, R["frame_rows"], R["frame_cols"])
            expected, who = give_parents(rng, par)
            nm = data.DetectorNoiseMaps(np.abs(rng.normal(1, .1, shp)), pri_hdr=pp, ext_hdr=e, input_dataset=par,
                                        err=np.ones((1,) + shp), dq=np.zeros(shp, int), err_hdr=fits.Header())
            sci = _full(rng, 1, [3.0], [2.0])
            out = darks.build_synthesized_dark(sci, nm, detector_regions=B.SMALL, full_frame=True)
            n = 3
            # the synthesized dark carries the raw ancestry of the noise maps (their own file may be listed too)
            expected = expected | (set(recorded(out.ext_hdr)) & {nm.filename})
        elif kind == "bad_pixels":
            n = int(rng.integers(1, 4))
            ds = B.dataset(rng, n, (6, 7), "L2a", extra=False)
            pd, pf = (B.dataset(rng, k, (2, 2), "L2b", extra=False) for k in (n, n + 1))
            for f in pf:
                f.filename = f.filename.replace("20250216", "20250301")
            ed, who = give_parents(rng, pd)
            ef, _ = give_parents(rng, pf, pool=["CGI_ancf_%d_L1_.fits" % i for i in range(4)])
            dk, fl = B.dark(rng, (6, 7), parents=pd), B.flat(rng, (6, 7), parents=pf)
            expected = ed | ef | {dk.filename, fl.filename}
            out = bpc.create_bad_pixel_map(ds, dk, fl)
        else:
            n = int(rng.integers(1, 6))
            ds = B.dataset(rng, n, (6, 7), "L2a", extra=False)
            expected, who = give_parents(rng, ds)
            out = flat.create_flatfield(ds)
    judge(c, kind, out.ext_hdr, expected)
    c.sig(kind, n, who if len(who) < 8 else "P" in who)
