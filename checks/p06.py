"""P06: a file is only ever loaded as the product it is."""
import os
import numpy as np
import astropy.io.fits as fits
import corgidrp.data as data
import corgidrp.caldb as caldb
from vlib.core import Suite, quiet
from vlib import build as B
from checks.p05 import CALS

SUITE = Suite("P06", "one distinct situation = (product written, class asked to read it) pair, autoload of a labelled or "
              "unlabelled file, or a structurally invalid product handed to a constructor")
CLASSES = {n: getattr(data, n) for n in CALS}
PAIRS = [(a, b) for a in sorted(CALS) + ["Image"] for b in sorted(CALS)]


def make(rng, name):
    with quiet():
        return B.image(rng, (5, 6), extra=False) if name == "Image" else CALS[name](rng)


@SUITE.workload(quick=2 * len(PAIRS), thorough=20 * len(PAIRS))
def pairs(c):
    rng = c.rng
    wrote, reads = PAIRS[c.index % len(PAIRS)]
    obj = make(rng, wrote)
    with c.scratch() as wd:
        obj.save(wd, "f.fits")
        cls = CLASSES[reads]
        if wrote == reads:
            got = cls("f.fits")
            c.ok(type(got) is cls, "wrongclass:" + reads, "")
            auto = data.autoload(os.path.join(wd, "f.fits"))
            c.ok(type(auto) is cls, "autoload:" + reads, "autoload of a %s gave %s" % (wrote, type(auto).__name__))
        else:
            c.raises(Exception, lambda: cls("f.fits"), "accepted:%s-as-%s" % (wrote, reads),
                     "a %s file opened as %s" % (wrote, reads))
            # even when everything else about the file would suit the class, the label decides
            own = make(rng, reads)
            own.save(wd, "g.fits")
            with fits.open("g.fits", mode="update") as h:
                if wrote == "Image":
                    del h[1].header["DATATYPE"]
                else:
                    h[1].header["DATATYPE"] = wrote
            c.raises(Exception, lambda: cls("g.fits"), "mislabelled:%s" % reads,
                     "a %s-shaped file labelled %s opened as %s" % (reads, wrote, reads))
        c.see("pairs")
    c.sig(wrote, reads)
    c.sample({"written": wrote, "read as": reads})


@SUITE.workload(quick=24, thorough=300)
def unlabelled(c):
    rng = c.rng
    nd = int(rng.choice([1, 2, 2, 3, 4]))
    shape = tuple(int(x) for x in rng.integers(2, 5, nd))
    with c.scratch() as wd:
        h = fits.Header()
        if rng.random() < .3:
            h["DATATYPE"] = "Image"
            labelled = True
        else:
            labelled = False
        fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(rng.normal(0, 1, shape), header=h)]).writeto("u.fits")
        p = os.path.join(wd, "u.fits")
        if nd == 2 or labelled:
            got = data.autoload(p)
            c.ok(type(got) is data.Image, "unlabelled:class", "autoload gave %s" % type(got).__name__)
            c.ok(got.data.shape == shape and got.err.shape == (1,) + shape and got.dq.shape == shape and not got.err.any()
                 and not got.dq.any(), "unlabelled:companions", "missing error / flag planes are not supplied as zeros")
        else:
            c.raises(ValueError, lambda: data.autoload(p), "unlabelled:%dD" % nd, "an unlabelled %d-D file was loaded" % nd)
        with fits.open("u.fits", mode="update") as hh:
            hh[1].header["DATATYPE"] = str(rng.choice(["Flat", "dark", "IMAGE2", "Recipe"]))
        c.raises(Exception, lambda: data.autoload(p), "unknown-label", "a file with an unknown product label was loaded")
    c.sig(nd, labelled)


def _no_parents():
    """Every calibration class: a new product needs to know what it was made from."""
    out = {}

    def hdrs(rng, **kw):
        return dict(zip(("pri_hdr", "ext_hdr"), B.cal_headers(rng, CFAMNAME="3C", FPAMNAME="HOLE", **kw)))
    out["Dark"] = lambda r: data.Dark(r.normal(0, 1, (3, 3)), **hdrs(r))
    out["FlatField"] = lambda r: data.FlatField(r.normal(0, 1, (3, 3)), **hdrs(r))
    out["NonLinearityCalibration"] = lambda r: data.NonLinearityCalibration(B.nonlin_table(r), **hdrs(r))
    out["KGain"] = lambda r: data.KGain(np.array([[8.7]]), err=np.array([[[.1]]]), **hdrs(r))
    out["BadPixelMap"] = lambda r: data.BadPixelMap(np.zeros((3, 3), np.uint8), **hdrs(r))
    out["DetectorNoiseMaps"] = lambda r: data.DetectorNoiseMaps(
        r.normal(0, 1, (3, 3, 3)), err=np.ones((1, 3, 3, 3)), dq=np.zeros((3, 3, 3), int), **hdrs(r, B_O=0., B_O_ERR=0.))
    out["AstrometricCalibration"] = lambda r: data.AstrometricCalibration(r.normal(0, 1, 7), **hdrs(r))
    out["TrapCalibration"] = lambda r: data.TrapCalibration(r.normal(0, 1, (3, 10)), **hdrs(r))
    out["FluxcalFactor"] = lambda r: data.FluxcalFactor(np.array([[1e-13]]), err=np.array([[[1e-15]]]), **hdrs(r))

    def ct(r):
        h = hdrs(r, EXTNAME="PSFCUBE")
        hl = [fits.ImageHDU(r.normal(1, .1, (3, 4)), name="CTEXCAM"), fits.ImageHDU(np.array([1., 2.]), name="CTFPAM"),
              fits.ImageHDU(np.array([3., 4.]), name="CTFSAM")]
        return data.CoreThroughputCalibration(r.normal(1, .1, (4, 5, 5)), input_hdulist=hl, **h)
    out["CoreThroughputCalibration"] = ct
    return out


def _invalid():
    def par(r):
        return B.dataset(r, 2, (2, 2), "L2b", extra=False)

    def hdrs(r, **kw):
        p, e = B.cal_headers(r, **kw)
        return dict(pri_hdr=p, ext_hdr=e, input_dataset=par(r))
    bad = {}
    bad["image-no-headers"] = lambda r: data.Image(r.normal(0, 1, (3, 3)))
    bad["image-no-ext-header"] = lambda r: data.Image(r.normal(0, 1, (3, 3)), pri_hdr=fits.Header())
    bad["image-err-shape"] = lambda r: data.Image(r.normal(0, 1, (3, 4)), pri_hdr=fits.Header(), ext_hdr=fits.Header(),
                                                  err=np.ones((1, 4, 3)))
    bad["image-dq-shape"] = lambda r: data.Image(r.normal(0, 1, (3, 4)), pri_hdr=fits.Header(), ext_hdr=fits.Header(),
                                                 dq=np.ones((4, 3), int))
    bad["image-duplicate-extension"] = lambda r: B.image(r, (3, 3)).add_extension_hdu("XTRA", data=np.zeros(2))
    bad["image-unnamed-save"] = lambda r: data.Image(r.normal(0, 1, (3, 4)), pri_hdr=fits.Header(), ext_hdr=fits.Header()).save()
    bad["dataset-empty"] = lambda r: data.Dataset([])
    bad["split-no-keys"] = lambda r: par(r).split_dataset()
    bad["update-data-shape"] = lambda r: par(r).update_after_processing_step("x", new_all_data=np.zeros((2, 3, 3)))
    bad["update-err-shape"] = lambda r: par(r).update_after_processing_step("x", new_all_err=np.zeros((2, 1, 3, 3)))
    bad["update-dq-shape"] = lambda r: par(r).update_after_processing_step("x", new_all_dq=np.zeros((1, 2, 2), int))
    bad["add-error-shape"] = lambda r: B.image(r, (3, 4)).add_error_term(np.ones((4, 3)), "x")
    bad["rescale-error-shape"] = lambda r: B.image(r, (3, 4)).rescale_error(np.ones((4, 3)), "x")
    bad["kgain-shape"] = lambda r: data.KGain(np.ones((1, 2)), err=np.ones((1, 1, 2)), **hdrs(r))
    bad["nonlin-corner"] = lambda r: data.NonLinearityCalibration(np.ones((4, 4)), **hdrs(r))
    bad["nonlin-small"] = lambda r: data.NonLinearityCalibration(np.full((1, 4), np.nan), **hdrs(r))
    bad["noisemaps-2d"] = lambda r: data.DetectorNoiseMaps(np.ones((3, 3)), err=np.ones((1, 3, 3)), dq=np.zeros((3, 3), int),
                                                           **hdrs(r, B_O=0., B_O_ERR=0.))
    bad["noisemaps-4planes"] = lambda r: data.DetectorNoiseMaps(
        np.ones((4, 3, 3)), err=np.ones((1, 4, 3, 3)), dq=np.zeros((4, 3, 3), int), **hdrs(r, B_O=0., B_O_ERR=0.))
    bad["noisemaps-no-bias"] = lambda r: data.DetectorNoiseMaps(
        np.ones((3, 3, 3)), err=np.ones((1, 3, 3, 3)), dq=np.zeros((3, 3, 3), int), **hdrs(r))
    bad["noisemaps-no-bias-error"] = lambda r: data.DetectorNoiseMaps(
        np.ones((3, 3, 3)), err=np.ones((1, 3, 3, 3)), dq=np.zeros((3, 3, 3), int), **hdrs(r, B_O=0.))
    bad["fluxcal-shape"] = lambda r: data.FluxcalFactor(np.ones((2, 1)), err=np.ones((1, 2, 1)), **hdrs(r, CFAMNAME="3C"))
    bad["detparams-list"] = lambda r: data.DetectorParams([1, 2])
    bad["fpamfsam-shape"] = lambda r: data.FpamFsamCal(np.ones((2, 2)))
    bad["nd-columns"] = lambda r: data.NDFilterSweetSpotDataset(np.ones((4, 2)), **hdrs(r))

    def ct(r, n=4, m=4, first="CTEXCAM", rows=3, nd=3, ext="PSFCUBE"):
        h = hdrs(r, EXTNAME=ext)
        hl = [fits.ImageHDU(r.normal(1, .1, (rows, m)), name=first), fits.ImageHDU(np.array([1., 2.]), name="CTFPAM"),
              fits.ImageHDU(np.array([3., 4.]), name="CTFSAM")]
        return data.CoreThroughputCalibration(r.normal(1, .1, (n, 5, 5)[-nd:]), input_hdulist=hl, **h)
    bad["ct-count"] = lambda r: ct(r, m=3)
    bad["ct-name"] = lambda r: ct(r, first="OTHER")
    bad["ct-rows"] = lambda r: ct(r, rows=2)
    bad["ct-2d"] = lambda r: ct(r, nd=2)
    bad["ct-extname"] = lambda r: ct(r, ext="IMAGE")
    return bad


NOPAR, INVALID = _no_parents(), _invalid()


@SUITE.workload(quick=2 * len(NOPAR), thorough=6 * len(NOPAR))
def no_parents(c):
    name = sorted(NOPAR)[c.index % len(NOPAR)]
    c.raises(ValueError, lambda: NOPAR[name](c.rng), "orphan:" + name, "a new %s without input files" % name)
    c.sig(name)


@SUITE.workload(quick=2 * len(INVALID), thorough=6 * len(INVALID))
def invalid(c):
    name = sorted(INVALID)[c.index % len(INVALID)]
    c.raises(ValueError, lambda: INVALID[name](c.rng), "invalid:" + name, name)
    c.sig(name)


@SUITE.workload(quick=8, thorough=100)
def scan(c):
    """A directory scan registers the calibrations and nothing else, each under its own type."""
    rng = c.rng
    names = [str(x) for x in rng.choice(sorted(CALS), 5)] + ["Image"] * int(rng.integers(0, 3))
    with c.scratch() as wd:
        os.makedirs("d/sub")
        db = caldb.CalDB(filepath=os.path.join(wd, "db.csv"))
        exp = {}
        for i, n in enumerate(names):
            obj = make(rng, n)
            sub = rng.random() < .5
            obj.save(os.path.join(wd, "d", "sub") if sub else os.path.join(wd, "d"), "f%d.fits" % i)
            exp[os.path.abspath(obj.filepath)] = (n, sub)
        open("d/readme.txt", "w").write("no fits")
        deep = bool(rng.random() < .7)
        db.scan_dir_for_new_entries(os.path.join(wd, "d"), look_in_subfolders=deep)
        got = {r["Filepath"]: r["Type"] for _, r in caldb.CalDB(filepath=os.path.join(wd, "db.csv"))._db.iterrows()}
        want = {p: caldb.labels[CLASSES[n]] for p, (n, sub) in exp.items() if n != "Image" and (deep or not sub)
                and CLASSES[n] in caldb.labels}
        c.ok(got == want, "scan", "registered %s, expected %s" % (sorted(got.values()), sorted(want.values())))
        c.see("files_scanned", len(names))
    c.sig(deep, sorted(set(names)))
