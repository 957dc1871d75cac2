"""Catalogue of pipeline step functions with generators of valid inputs (used by the cross-step monitors)."""
import numpy as np

import corgidrp.data as data
import corgidrp.l1_to_l2a as l1
import corgidrp.l2a_to_l2b as l2
import corgidrp.l2b_to_l3 as l3
import corgidrp.l3_to_l4 as l4
import corgidrp.l4_to_tda as tda
import corgidrp.combine as combine
import corgidrp.detector as detector
from vlib import build as B


class Step:
    def __init__(self, name, fn, make, changes=(), history=1, per_frame=True, dq="keep", writes=False, same_n=True,
                 pri_changes=(), drop_hdus=False, fname=None, level=None):
        self.name, self.fn, self.make, self.changes = name, fn, make, set(changes)
        self.history, self.per_frame, self.dq, self.writes = history, per_frame, dq, writes
        self.same_n, self.pri_changes, self.drop_hdus = same_n, set(pri_changes), drop_hdus
        self.fname, self.level = fname, level


STEPS = {}


def step(name, fn, **kw):
    def deco(make):
        STEPS[name] = Step(name, fn, make, **kw)
        return make
    return deco


def shape2(rng):
    return (int(rng.integers(8, 20)), int(rng.integers(8, 20)))


def gain_hdr(rng, n):
    """Per-frame EM gain headers: applied, commanded only, or measured."""
    out = []
    for _ in range(n):
        mode = rng.integers(0, 3)
        h = dict(EMGAIN_C=float(rng.choice([1.0, 2.5, 100.0, 1200.0])), EMGAIN_A=-1.0)
        if mode == 1:
            h["EMGAIN_A"] = float(rng.uniform(1, 2000))
        if mode == 2:
            h["EMGAIN_M"] = float(rng.uniform(1, 2000))
            h["EMGAIN_A"] = float(rng.choice([-1.0, 333.0]))
        out.append(h)
    return out


def _det():
    from astropy.time import Time
    return data.DetectorParams({}, date_valid=Time("2023-11-01T00:00:00", scale="utc"))


# ------------------------------------------------------------------ L1 -> L2a
def _l1frames(rng, n, **kw):
    R = B.SMALL["SCI"]
    shp = (R["frame_rows"], R["frame_cols"])
    ext_list = gain_hdr(rng, n)
    return B.dataset(rng, n, shp, "L1", ext_list=ext_list, **kw)


@step("prescan_biassub", lambda ds, *a, **k: l1.prescan_biassub(ds, *a, detector_regions=B.SMALL, **k),
      changes={"NAXIS1", "NAXIS2"}, dq="prescan")
def _(rng, n):
    ds = _l1frames(rng, n)
    nm = B.noise_maps(rng, (6, 7)) if rng.random() < .5 else None
    return ds, [nm], dict(return_full_frame=bool(rng.random() < .4))


@step("detect_cosmic_rays", lambda ds, *a, **k: l1.detect_cosmic_rays(ds, *a, detector_regions=B.SMALL, **k),
      changes={"FWC_PP_E", "FWC_EM_E", "SAT_DN"})
def _(rng, n):
    R = B.SMALL["SCI"]
    full = rng.random() < .4
    shp = (R["frame_rows"], R["frame_cols"]) if full else (R["image"]["rows"], R["image"]["cols"])
    ds = B.dataset(rng, n, shp, "L1", ext_list=gain_hdr(rng, n))
    for f in ds:
        for _ in range(int(rng.integers(0, 5))):
            r, c = rng.integers(0, shp[0]), rng.integers(0, shp[1])
            f.data[r, c:c + int(rng.integers(1, 8))] = rng.uniform(3e3, 3e4)
    kg = B.kgain(rng) if rng.random() < .5 else None
    return ds, [_det(), kg], dict(mode="full" if full else "image")


@step("correct_nonlinearity", lambda *a, **k: l1.correct_nonlinearity(*a, **k))
def _(rng, n):
    ds = B.dataset(rng, n, shape2(rng), "L1", ext_list=gain_hdr(rng, n))
    return ds, [B.nonlin(rng)], dict(threshold=float(rng.choice([np.inf, 110.0])))


@step("update_to_l2a", lambda *a, **k: l1.update_to_l2a(*a, **k), changes={"DATALVL"}, fname=("_L1_", "_L2a"), level="L2a")
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L1"), [], {}


# ------------------------------------------------------------------ L2a -> L2b
@step("add_photon_noise", lambda *a, **k: l2.add_photon_noise(*a, **k))
def _(rng, n):
    ds = B.dataset(rng, n, shape2(rng), "L2a", ext_list=gain_hdr(rng, n))
    ds.all_data[:] = np.abs(ds.all_data)
    return ds, [], {}


@step("dark_subtraction", lambda *a, **k: l2.dark_subtraction(*a, **k), changes={"BUNIT"})
def _(rng, n):
    shp = shape2(rng)
    t, g, k = float(rng.uniform(.5, 30)), float(rng.choice([1, 2, 100.])), float(rng.uniform(5, 9))
    ds = B.dataset(rng, n, shp, "L2a", ext=dict(EXPTIME=t, EMGAIN_C=g, KGAINPAR=k))
    return ds, [B.dark(rng, shp, t, g, k)], {}


@step("dark_subtraction_synth", lambda ds, *a, **k: l2.dark_subtraction(ds, *a, detector_regions=B.SMALL, outputdir=".", **k),
      changes={"BUNIT"}, writes=True)
def _(rng, n):
    R = B.SMALL["SCI"]
    full = (R["frame_rows"], R["frame_cols"])
    shp = full if rng.random() < .5 else (R["image"]["rows"], R["image"]["cols"])
    t, g, k = float(rng.uniform(.5, 30)), float(rng.choice([1, 2, 100.])), float(rng.uniform(5, 9))
    ds = B.dataset(rng, n, shp, "L2a", ext=dict(EXPTIME=t, EMGAIN_C=g, KGAINPAR=k))
    return ds, [B.noise_maps(rng, full)], {}


@step("flat_division", lambda *a, **k: l2.flat_division(*a, **k))
def _(rng, n):
    shp = shape2(rng)
    return B.dataset(rng, n, shp, "L2a"), [B.flat(rng, shp)], {}


@step("frame_select", lambda *a, **k: l2.frame_select(*a, **k),
      changes={"IS_BAD"} | {"FRMSEL0%d" % i for i in range(1, 7)}, same_n=False)
def _(rng, n):
    ext = [dict(OVEREXP=bool(i and rng.random() < .3), Z2VAR=0.0 if not i else float(rng.uniform(0, 10)),
                Z3VAR=0.0 if not i else float(rng.uniform(0, 10))) for i in range(n)]
    ds = B.dataset(rng, n, shape2(rng), "L2a", ext_list=ext)
    kw = dict(overexp=True)
    if rng.random() < .7:
        kw["tt_rms_thres"] = 6.0
    if rng.random() < .3:
        kw["discard_bad"] = False
    return ds, [], kw


@step("convert_to_electrons", lambda *a, **k: l2.convert_to_electrons(*a, **k),
      changes={"BUNIT", "KGAINPAR", "KGAIN_ER", "RN", "RN_ERR"})
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L2a"), [B.kgain(rng)], {}


@step("em_gain_division", lambda *a, **k: l2.em_gain_division(*a, **k), changes={"BUNIT"})
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L2a", ext_list=gain_hdr(rng, n)), [], {}


@step("cti_correction", lambda *a, **k: l2.cti_correction(*a, **k), history=0)
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L2a"), [B.trapcal(rng)], {}


@step("correct_bad_pixels", lambda *a, **k: l2.correct_bad_pixels(*a, **k))
def _(rng, n):
    shp = shape2(rng)
    return B.dataset(rng, n, shp, "L2a"), [B.bpmap(rng, shp)], {}


@step("desmear", lambda *a, **k: l2.desmear(*a, **k), changes={"DESMEAR"})
def _(rng, n):
    ext = [dict(EXPTIME=float(rng.uniform(.1, 60))) for _ in range(n)]
    return B.dataset(rng, n, shape2(rng), "L2a", ext_list=ext), [_det()], {}


@step("update_to_l2b", lambda *a, **k: l2.update_to_l2b(*a, **k), changes={"DATALVL"}, fname=("_L2a", "_L2b"), level="L2b")
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L2a"), [], {}


# ------------------------------------------------------------------ L2b -> L3
WCSKEYS = {"CD1_1", "CD1_2", "CD2_1", "CD2_2", "CRPIX1", "CRPIX2", "CTYPE1", "CTYPE2", "CDELT1", "CDELT2",
           "CRVAL1", "CRVAL2", "PLTSCALE"}


def _pri(rng, n):
    return [dict(RA=float(rng.uniform(0, 360)), DEC=float(rng.uniform(-80, 80)), ROLL=float(rng.uniform(-180, 180)))
            for _ in range(n)]


@step("create_wcs", lambda *a, **k: l3.create_wcs(*a, **k), changes=WCSKEYS)
def _(rng, n):
    ps = float(rng.uniform(20, 23))
    return (B.dataset(rng, n, shape2(rng), "L2b", pri_list=_pri(rng, n)),
            [B.astrom(rng, platescale=(ps, ps * 1.001), offset=(.001, -.002))], {})


@step("divide_by_exptime", lambda *a, **k: l3.divide_by_exptime(*a, **k), changes={"BUNIT"})
def _(rng, n):
    ext = [dict(EXPTIME=float(rng.uniform(.1, 60))) for _ in range(n)]
    return B.dataset(rng, n, shape2(rng), "L2b", ext_list=ext), [], {}


@step("update_to_l3", lambda *a, **k: l3.update_to_l3(*a, **k), changes={"DATALVL"}, fname=("_L2b", "_L3_"), level="L3")
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L2b"), [], {}


# ------------------------------------------------------------------ L3 -> L4
def distortion_coeffs(rng, order=2, amp=2.0):
    m = order + 1
    xc = np.zeros((m, m))
    yc = np.zeros((m, m))
    xc[1, 0] = 500.0
    yc[0, 1] = 500.0
    xc = xc + rng.normal(0, amp, (m, m))
    yc = yc + rng.normal(0, amp, (m, m))
    return np.concatenate([xc.ravel(), yc.ravel(), [order]])


@step("distortion_correction", lambda *a, **k: l4.distortion_correction(*a, **k), dq=None)
def _(rng, n):
    s = int(rng.integers(10, 20))
    return B.dataset(rng, n, (s, s), "L3"), [B.astrom(rng, coeffs=distortion_coeffs(rng))], {}


@step("crop", lambda *a, **k: l4.crop(*a, **k),
      changes={"NAXIS1", "NAXIS2", "STARLOCX", "STARLOCY", "DETPIX0X", "DETPIX0Y", "CRPIX1", "CRPIX2"},
      pri_changes={"CRPIX1", "CRPIX2"}, dq="crop", drop_hdus=True)
def _(rng, n):
    s = (int(rng.integers(20, 30)), int(rng.integers(20, 30)))
    ext = dict(STARLOCX=float(rng.uniform(9, s[1] - 9)), STARLOCY=float(rng.uniform(9, s[0] - 9)))
    return B.dataset(rng, n, s, "L3", ext=ext), [], dict(sizexy=int(rng.choice([4, 8, 12])))


@step("northup", lambda *a, **k: l4.northup(*a, **k), changes={"CD1_1", "CD1_2", "CD2_1", "CD2_2", "CRPIX1", "CRPIX2", "STARLOCX", "STARLOCY"}, dq=None)
def _(rng, n):
    ps = float(rng.uniform(20, 23))
    ds = B.dataset(rng, n, shape2(rng), "L3", pri_list=_pri(rng, n))
    ds = l3.create_wcs(ds, B.astrom(rng, platescale=(ps, ps)))
    return ds, [], dict(use_wcs=bool(rng.random() < .7), rot_center=str(rng.choice(["im_center", "starloc"])))


@step("update_to_l4", lambda *a, **k: l4.update_to_l4(*a, **k), changes={"DATALVL", "CTCALFN", "FLXCALFN"},
      fname=("_L3_", "_L4_"), level="L4")
def _(rng, n):
    ct = B.ctcal(rng) if rng.random() < .6 else None
    return B.dataset(rng, n, shape2(rng), "L3"), [ct, B.fluxcal(rng)], {}


# ------------------------------------------------------------------ L4 -> TDA
@step("convert_to_flux", lambda *a, **k: tda.convert_to_flux(*a, **k), changes={"BUNIT", "FLUXFAC"})
def _(rng, n):
    ext = dict(COL_COR=float(rng.uniform(.8, 1.2))) if rng.random() < .5 else {}
    return B.dataset(rng, n, shape2(rng), "L4", ext=ext), [B.fluxcal(rng)], {}


def star_frames(rng, n, level="L4", size=51, **kw):
    yy, xx = np.mgrid[:size, :size]
    ds = B.dataset(rng, n, (size, size), level, **kw)
    amp = rng.uniform(100, 1000)
    for f in ds:
        f.data[:] = rng.normal(0, .01, (size, size)) + amp * np.exp(
            -.5 * ((xx - size // 2) ** 2 + (yy - size // 2) ** 2) / 1.5 ** 2)
        f.dq[:] = 0
    return ds


@step("determine_flux", lambda *a, **k: tda.determine_flux(*a, **k), per_frame=False,
      changes={"FLUXFAC", "LOCBACK", "FLUX", "FLUXERR", "APP_MAG", "MAGERR"})
def _(rng, n):
    return star_frames(rng, n, ext=dict(CFAMNAME="3C")), [B.fluxcal(rng)], {}


@step("update_to_tda", lambda *a, **k: tda.update_to_tda(*a, **k), changes={"DATALVL"}, fname=("_L4_", "_TDA_"), level="TDA")
def _(rng, n):
    return B.dataset(rng, n, shape2(rng), "L4"), [], {}


# ------------------------------------------------------------------ level independent
@step("combine_subexposures", lambda *a, **k: combine.combine_subexposures(*a, **k), per_frame=False, same_n=False,
      dq=None, changes={"NUM_FR"})
def _(rng, n):
    return (B.dataset(rng, n, shape2(rng), "L3"), [], dict(collapse=str(rng.choice(["mean", "median"])),
                                                             num_frames_scaling=bool(rng.random() < .5)))
