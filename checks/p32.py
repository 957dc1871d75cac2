"""P32: K-gain, read noise and linearity calibration recover the detector that made the frames."""
import warnings
import numpy as np
import corgidrp.data as data
from astropy.time import Time
from corgidrp.calibrate_kgain import calibrate_kgain, CalKgainException, kgain_params_default
from corgidrp.calibrate_nonlin import calibrate_nonlin, CalNonlinException
from vlib.core import Suite, quiet
from vlib import build as B, snap

SUITE = Suite("P32", "one distinct situation = number of exposure sets x frames per set x source of the gain x order of the frames (K-gain), or set of EM gains x "
              "lamp drift x order of the exposures x response curve (linearity); the calibration is compared with the detector that was simulated",
              ["the simulated photon and read noise are Poisson and Gaussian, of the sizes of the flight detector",
               "the line through signal and exposure time may have an intercept: the linearity table is judged up to it"])
WIDE = ["DATETIME"]


def regions(rows, pre, im):
    r = dict(rows=rows, cols=pre, r0c0=[0, 0])
    return {"SCI": dict(frame_rows=rows, frame_cols=pre + im, prescan_reliable=r, prescan=dict(r), image=dict(rows=rows, cols=im, r0c0=[0, pre]))}


def parents(h):
    return sorted(v for k, v in h.items() if k.startswith("FILE") and k[4:].isdigit())


class PTC:
    """Frames of a detector of known gain and noise, looking at a lamp of uneven brightness."""

    def __init__(self, rng, sets=None, per=None):
        self.rng = rng
        self.kg, self.rn = rng.uniform(3, 12), rng.uniform(3, 15)
        self.rows, self.pre, self.im = int(rng.integers(90, 120)), int(rng.integers(25, 40)), int(rng.integers(100, 130))
        self.regions = regions(self.rows, self.pre, self.im)
        self.sets, self.per = sets or int(rng.integers(6, 11)), per or int(rng.integers(5, 9))
        self.mean_n = int(rng.integers(2, 6))
        shp = (self.rows, self.pre + self.im)
        self.light = np.zeros(shp)
        self.light[:, self.pre:] = 1 + .8 * np.linspace(0, 1, self.im)[None] + .1 * np.sin(np.arange(self.rows) / 9.)[:, None]
        self.par = dict(rowroi1=0, rowroi2=self.rows, colroi1=self.pre, colroi2=shp[1], rn_bins1=-75, rn_bins2=76, max_DN_val=6000, signal_bins_N=100)
        self.kw = dict(n_cal=self.sets, n_mean=self.mean_n, min_val=400, max_val=3500, binwidth=10, make_plot=False)
        times = list(np.round(np.linspace(1, 4, self.sets - 1), 3))
        times.append(times[1])          # the repeated set
        t = Time("2024-03-01T00:00:00").unix
        self.arr, self.ext, self.pri = [], [], []
        how = str(rng.choice(["C", "A", "M"]))
        g = dict(EMGAIN_C=1., EMGAIN_A={"C": -1., "A": 1.02, "M": 1.}[how])
        if how == "M":
            g["EMGAIN_M"] = 1.03
        self.how = how
        for _ in range(self.mean_n):
            self._add(self.light * 1500 + rng.normal(0, .1, shp), dict(g, EXPTIME=50.), "MNFRAME", t)
            t += 60
        for x in times:
            for _ in range(self.per):
                d = rng.poisson(self.light * 500 * x * self.kg) / self.kg + rng.normal(0, self.rn, shp)
                self._add(d, dict(g, EXPTIME=float(x)), str(rng.choice(["KGAIN", "NONLIN"])), t)
                t += 10

    def _add(self, arr, ext, obs, t):
        self.arr.append(arr)
        self.ext.append(dict(ext, DATETIME=Time(t, format="unix").isot))
        self.pri.append(dict(OBSNAME=obs))

    def dataset(self, order=None, scale=1., ext=None, pri=None):
        o = range(len(self.arr)) if order is None else order
        e, p = ext or self.ext, pri or self.pri
        return B.stack(self.rng, np.array([self.arr[i] * scale for i in o]), level="L2a", ext_list=[dict(e[i]) for i in o], pri_list=[dict(p[i]) for i in o])

    def run(self, ds, par=None, **kw):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return calibrate_kgain(ds, detector_regions=self.regions, kgain_params=par or self.par, **dict(self.kw, **kw))


@SUITE.workload(quick=12, thorough=250)
def kgain(c):
    rng = c.rng
    s = PTC(rng)
    with c.scratch():
        ds = s.dataset()
        names = [f.filename for f in ds]
        before = snap.ds(ds)
        k = s.run(ds)
        c.ok(not snap.diff(before, snap.ds(ds)), "kgain-input", "the calibration changed its frames: %s" % snap.diff(before, snap.ds(ds))[:3])
        err = float(np.ravel(k.error)[0])
        c.ok(type(k) is data.KGain and np.shape(k.data) == (1, 1) and k.value == k.data[0, 0], "kgain-class", "%s of shape %s" % (type(k).__name__, np.shape(k.data)))
        c.ok(0 < err < .15 * s.kg, "kgain-error", "error %.3f of a gain of %.2f" % (err, s.kg))
        c.ok(abs(k.value - s.kg) < 3 * err + .01 * s.kg and abs(k.value / s.kg - 1) < .12, "kgain-value",
             "K-gain %.4f +- %.4f of a detector with %.4f e-/DN (%d sets of %d)" % (k.value, err, s.kg, s.sets, s.per))
        h = k.ext_hdr
        c.close(h["RN"] / k.value, s.rn, "kgain-readnoise", "read noise in DN", rtol=.04)
        low = h["RN"] / k.value * err
        c.ok(low * .999 <= h["RN_ERR"] < np.hypot(low, .06 * h["RN"]), "kgain-readnoise-error", "error of the read noise %.4f, the gain alone gives %.4f" % (h["RN_ERR"], low))
        c.ok(h["RN_UNIT"] == "detected electrons", "kgain-unit", "unit of the read noise %r" % h["RN_UNIT"])
        # the curve: noise squared is signal over gain
        m, n = np.asarray(k.ptc).T
        c.ok(len(m) == s.par["signal_bins_N"], "kgain-ptc-size", "%d points of the transfer curve" % len(m))
        g = np.isfinite(m) & np.isfinite(n) & (n > 0) & (m > 400) & (m < 3500)
        c.ok(g.sum() > 30, "kgain-ptc-size", "%d usable points" % g.sum())
        c.close(np.median(m[g] / n[g] ** 2), s.kg, "kgain-ptc", "gain from the transfer curve", rtol=.05)
        c.ok(np.all(np.diff(m[np.isfinite(m)]) > 0), "kgain-ptc-order", "signals of the transfer curve do not increase")
        c.equal(parents(h), sorted(names), "kgain-parents", "recorded parents")
        c.ok(h["DATALVL"] == "CAL" and h["DATATYPE"] == "KGain", "kgain-header", "level %r type %r" % (h["DATALVL"], h["DATATYPE"]))
        c.equal(k.filename, names[-1].replace("_L2a.fits", "_KRN_CAL.fits").replace("_L2a_.fits", "_KRN_CAL.fits"), "kgain-name", "file name")
        k.save(filedir=".")
        b = data.KGain(k.filename)
        c.ok(b.value == k.value and float(np.ravel(b.error)[0]) == err and np.array_equal(b.ptc, k.ptc, equal_nan=True) and abs(b.ext_hdr["RN"] / h["RN"] - 1) < 1e-12,
             "kgain-reload", "the calibration read back differs")
    c.see("photon transfer points", int(g.sum()))
    c.sig(s.sets, s.per, s.how, s.mean_n)
    c.sample({"true": s.kg, "got": k.value, "error": err, "rn": s.rn, "rn got": h["RN"] / k.value})


@SUITE.workload(quick=4, thorough=60)
def kgain_relations(c):
    rng = c.rng
    s = PTC(rng, int(rng.integers(5, 8)), int(rng.integers(5, 7)))
    a = s.run(s.dataset())
    # sets in any order, mean frames anywhere
    blocks = [[i] for i in range(s.mean_n)] + [list(range(s.mean_n + j * s.per, s.mean_n + (j + 1) * s.per)) for j in range(s.sets)]
    # two sets of the repeated exposure keep their order, which only tells them apart
    order = [i for k in rng.permutation(len(blocks)) for i in blocks[k]]
    b = s.run(s.dataset(order))
    c.close(b.value, a.value, "kgain-order", "K-gain with the sets in another order", rtol=1e-9)
    c.close(float(np.ravel(b.error)[0]), float(np.ravel(a.error)[0]), "kgain-order", "error with the sets in another order", rtol=1e-7)
    # twice the counts for the same electrons
    par = dict(s.par, max_DN_val=12000, rn_bins1=-150, rn_bins2=151)
    d = s.run(s.dataset(scale=2.), par=par, min_val=800, max_val=7000)
    c.close(d.value * 2, a.value, "kgain-scale", "K-gain of counts twice as large", rtol=1e-9)
    c.close(d.ext_hdr["RN"], a.ext_hdr["RN"], "kgain-scale-rn", "read noise in electrons of counts twice as large", rtol=.02)
    # the measured gain is not used: the frames are already divided by it
    e = s.run(s.dataset(ext=[dict(x, EMGAIN_A=1.5, EMGAIN_M=2.) for x in s.ext]))
    c.ok(e.value == a.value, "kgain-emgain", "the K-gain of the same counts depends on the EM gain")
    # plots only add files
    if c.index % 4 == 0:
        with c.scratch():
            f = s.run(s.dataset(), make_plot=True, plot_outdir="figs")
        c.ok(f.value == a.value and f.ext_hdr["RN"] == a.ext_hdr["RN"], "kgain-plots", "the result depends on the plots")
    c.see("relations", 4)
    c.sig(s.sets, s.per, tuple(order[:3]))


@SUITE.workload(quick=1, thorough=4, fixed=True)
def kgain_flight(c):
    """The flight detector with the default regions and parameters."""
    rng = c.rng
    kg, rn = rng.uniform(7.5, 9.5), rng.uniform(8, 16)
    shp = (1200, 2200)
    light = np.zeros(shp, np.float32)
    yy, xx = np.ogrid[:1200, :2200]
    light[13:1037, 1088:2112] = np.clip(1.6 - .9 * np.hypot(yy[13:1037] - 500, xx[:, 1088:2112] - 1600) / 700, .2, None)
    t = Time("2024-03-01T00:00:00").unix
    arr, ext, pri = [], [], []
    for obs, times in (("MNFRAME", [4.] * 2), ("KGAIN", [1.] * 5 + [2.] * 5)):
        for x in times:
            sd = np.sqrt(light * np.float32(1000 * x / kg) + np.float32(rn ** 2))
            arr.append(light * np.float32(1000 * x) + (0 if obs == "MNFRAME" else sd * rng.standard_normal(shp, np.float32)))
            ext.append(dict(EMGAIN_C=1., EMGAIN_A=1., EXPTIME=float(x), DATETIME=Time(t, format="unix").isot))
            pri.append(dict(OBSNAME=obs))
            t += 10
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        k = calibrate_kgain(B.stack(rng, np.array(arr), level="L2a", ext_list=ext, pri_list=pri), n_cal=2, n_mean=2, make_plot=False)
    c.close(k.value, kg, "kgain-flight", "K-gain of the flight detector", rtol=.08)
    c.close(k.ext_hdr["RN"] / k.value, rn, "kgain-flight-rn", "read noise in DN of the flight detector", rtol=.02)
    c.ok(np.shape(k.ptc) == (kgain_params_default["signal_bins_N"], 2), "kgain-flight-ptc", "transfer curve of shape %s" % (np.shape(k.ptc),))
    c.sig("flight", c.index)


@SUITE.workload(quick=4, thorough=40)
def kgain_refusals(c):
    rng = c.rng
    s = PTC(rng, 5, 5)
    n0 = s.mean_n
    good = s.dataset()
    bad = lambda **k: s.dataset(**k)

    def mod(where, **kw):
        e = [dict(x) for x in s.ext]
        for i in where:
            e[i].update(kw)
        return e
    CK = CalKgainException
    cases = [
        ("sets", CK, lambda: s.run(good, n_cal=6)), ("mean frames", CK, lambda: s.run(good, n_mean=n0 + 1)),
        ("min>max", CK, lambda: s.run(good, min_val=3500, max_val=3500)), ("binwidth 9", CK, lambda: s.run(good, binwidth=9)),
        ("binwidth 801", CK, lambda: s.run(good, binwidth=801)), ("binwidth 10.5", TypeError, lambda: s.run(good, binwidth=10.5)),
        ("min_val", TypeError, lambda: s.run(good, min_val=-5)), ("max_val", TypeError, lambda: s.run(good, max_val="x")),
        ("frame missing", Exception, lambda: s.run(bad(order=[i for i in range(len(s.arr)) if i != n0 + 3]))),
        ("4 per set", CK, lambda: s.run(bad(order=[i for i in range(len(s.arr)) if i < n0 or (i - n0) % 5]))),
        ("mean frame gain", Exception, lambda: s.run(bad(ext=mod([0], EMGAIN_C=2.)))),
        ("two gains", Exception, lambda: s.run(bad(ext=mod([n0 + 1], EMGAIN_C=2., EMGAIN_A=2.)))),
        ("gain below one", Exception, lambda: s.run(bad(ext=mod(range(n0, len(s.arr)), EMGAIN_C=.5, EMGAIN_A=.5)))),
        ("same time stamp", Exception, lambda: s.run(bad(ext=mod([n0 + 1], DATETIME=s.ext[n0]["DATETIME"])))),
        ("exposure time zero", Exception, lambda: s.run(bad(ext=mod(range(n0, n0 + 5), EXPTIME=0.)))),
        ("exposure time negative", Exception, lambda: s.run(bad(ext=mod(range(n0, n0 + 5), EXPTIME=-1.)))),
    ]
    key = str(rng.choice(sorted(s.par)))
    cases.append(("parameter missing " + key, ValueError, lambda: s.run(good, par={k: v for k, v in s.par.items() if k != key})))
    cases.append(("parameter a word " + key, TypeError, lambda: s.run(good, par=dict(s.par, **{key: "foo"}))))
    with c.scratch():
        for i in rng.permutation(len(cases))[:9]:
            name, exc, fn = cases[i]
            c.raises(exc, fn, "kgain-refuse:" + name.split(" " + key)[0], "calibration accepted: " + name)
            c.see("refusals")
            c.sig("refusal", name)


NLPAR = dict(rowroi1=20, rowroi2=60, colroi1=30, colroi2=70, rowback11=2, rowback12=15, rowback21=65, rowback22=78,
             colback11=10, colback12=90, colback21=10, colback22=90, min_exp_time=0, num_bins=50, min_bin=200, min_mask_factor=1.1)


def curves(rng, kind):
    """measured/true response as a function of the true signal"""
    if kind == "linear":
        return lambda s: np.ones_like(s)
    a, p, q = rng.uniform(.01, .04) * rng.choice([-1, 1]), rng.uniform(0, 6), rng.uniform(2500, 4500)
    if kind == "wave":
        return lambda s: 1 + a * np.cos(s / q + p) - a
    return lambda s: 1 - abs(a) * (s / 9000.) ** 2


class Ramp:
    """Exposures of increasing length of an evenly lit pupil, with a lamp that drifts."""

    def __init__(self, rng, gains, drift, kind, order="up", per=None):
        self.rng, self.gains, self.kind = rng, gains, kind
        self.drift = drift
        self.shape = (80, 100)
        top = rng.uniform(8500, 10500)
        rate = rng.uniform(300, 3000)
        self.curve, self.meas, self.exp, self.gain_of = {}, {}, {}, {}
        self.back = rng.uniform(-30, 30)
        pupil = np.zeros(self.shape)
        pupil[24:56, 34:66] = 1
        self.pupil = pupil
        self.blocks = []
        t = Time("2024-03-01T00:00:00").unix
        self.how = str(rng.choice(["C", "A", "M"]))
        self.mean_n = int(rng.integers(2, 5))
        block = []
        mean_exp = float(np.round(4000 / rate, 3))
        for _ in range(self.mean_n):
            block.append((pupil * 4000 + self.back, dict(EMGAIN_C=1., EMGAIN_A=1., EXPTIME=mean_exp, DATETIME=self._t(t)), "MNFRAME"))
            t += 10
        self.blocks.append(block)
        self.min_n = 10 ** 6
        for g in gains:
            f = self.curve[g] = curves(rng, kind)
            n = int(rng.integers(20, 25))
            e = [float(x) for x in np.round(np.linspace(.02 * top, top, n) / rate, 4)]
            k = int(rng.integers(1, n // 3))
            seq = {"up": e, "last": e[1:] + e[:1], "down": e[::-1], "mixed": [e[i] for i in rng.permutation(n)]}[order]
            rep = seq[k]
            seq = seq + [rep]
            k_per = (int(rng.integers(2, 6)) if g == 1 else 1) if g not in (per or {}) else per[g]
            span = 20. * k_per * len(seq)
            t += 3600
            t0 = t
            d = drift * rng.uniform(.6, 1) * rng.choice([-1, 1])
            block = []
            actual = {"C": g, "A": 1. if g == 1 else np.round(g * 1.1, 3), "M": 1.01 if g == 1 else np.round(g * 1.3, 3)}[self.how]
            self.gain_of[g] = float(actual)
            hdr = dict(EMGAIN_C=float(g), EMGAIN_A=-1. if self.how == "C" else float(np.round(g * 1.1, 3)) if self.how == "M" or g > 1 else 1.)
            if self.how == "M":
                hdr["EMGAIN_M"] = float(actual)
            for x in seq:
                for _ in range(k_per):
                    s = rate * x * (1 + d * (t - t0) / span)
                    m = s * f(np.array(s))
                    block.append((pupil * m + self.back, dict(hdr, EXPTIME=x, DATETIME=self._t(t)), str(rng.choice(["KGAIN", "NONLIN"]))))
                    t += 20
            self.meas[g] = np.array([rate * x * f(np.array(rate * x)) for x in e])
            self.exp[g] = np.array(e)
            self.min_n = min(self.min_n, k_per * len(seq))
            self.blocks.append(block)

    @staticmethod
    def _t(t):
        return Time(t, format="unix").isot

    def frames(self, order=None):
        return [x for k in (range(len(self.blocks)) if order is None else order) for x in self.blocks[k]]

    def dataset(self, frames=None, arr=None):
        fr = frames or self.frames()
        arr = np.array([f[0] for f in fr]) if arr is None else arr
        return B.stack(self.rng, arr, level="L2a", ext_list=[dict(f[1]) for f in fr], pri_list=[dict(OBSNAME=f[2]) for f in fr])

    def run(self, ds, par=None, **kw):
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return calibrate_nonlin(ds, **dict(dict(n_cal=self.min_n, n_mean=self.mean_n, norm_val=3000, make_plot=False, nonlin_params=par or NLPAR), **kw))


def table(c, r, out, norm, lo, hi, where):
    """Layout of the table; returns counts, {commanded gain: column}."""
    d = np.asarray(out.data)
    m = np.arange(20, 14001, 20.)
    m = m[(m >= lo) & (m <= hi)]
    c.ok(type(out) is data.NonLinearityCalibration, "nonlin-class", "%s" % type(out).__name__)
    c.ok(d.shape == (len(m) + 1, len(r.gains) + 1), "nonlin-shape", "table of shape %s, expected %s%s" % (d.shape, (len(m) + 1, len(r.gains) + 1), where))
    if d.shape != (len(m) + 1, len(r.gains) + 1):
        return None, None
    c.ok(np.isnan(d[0, 0]), "nonlin-corner", "corner is %r" % d[0, 0])
    c.close(d[1:, 0], m, "nonlin-counts", "counts of the rows" + where, rtol=1e-12)
    c.close(d[0, 1:], [r.gain_of[g] for g in sorted(r.gains)], "nonlin-gains", "gains of the columns (%s)" % r.how + where, rtol=1e-12)
    k = np.where(m == norm)[0]
    if len(k):
        c.close(d[1 + k[0], 1:], np.ones(len(r.gains)), "nonlin-norm", "factors at the reference count" + where, rtol=1e-12)
    return m, {g: d[1:, 1 + i] for i, g in enumerate(sorted(r.gains))}


@SUITE.workload(quick=20, thorough=400)
def linearity(c):
    rng = c.rng
    kind = str(rng.choice(["linear", "wave", "saturating"]))
    gains = [1.] + [float(x) for x in rng.choice([2., 5.24, 16.7, 87.5, 458.7], int(rng.integers(0, 4)), replace=False)]
    drift = float(rng.choice([0., .02, .1] if kind == "linear" else [0., 0., .02]))
    order = str(rng.choice(["up", "last", "down", "mixed"]))
    norm, lo, hi = int(rng.choice([2000, 2500, 3000, 4000])), float(rng.choice([800, 790, 1000])), float(rng.choice([8000, 7990, 6000]))
    r = Ramp(rng, gains, drift, kind, order)
    with c.scratch():
        ds = r.dataset(r.frames(rng.permutation(len(r.blocks))))
        names = [f.filename for f in ds]
        before = snap.ds(ds)
        out = r.run(ds, norm_val=norm, min_write=lo, max_write=hi)
        c.ok(not snap.diff(before, snap.ds(ds)), "nonlin-input", "the calibration changed its frames: %s" % snap.diff(before, snap.ds(ds))[:3])
        m, cols = table(c, r, out, norm, lo, hi, "")
        if m is None:
            return
        for g in gains:
            if kind == "linear":
                c.close(cols[g], np.ones(len(m)), "nonlin-linear", "table of a linear detector (drift %s, exposures %s, gain %s)" % (drift, order, g), rtol=1e-9)
                continue
            M, x = r.meas[g], r.exp[g]
            k = (M > lo) & (M < hi)
            y = M[k] * np.interp(M[k], m, cols[g])
            p = np.polyfit(x[k], y, 1)
            res = np.abs(y / np.polyval(p, x[k]) - 1).max()
            raw = np.abs(M[k] / np.polyval(np.polyfit(x[k], M[k], 1), x[k]) - 1).max()
            c.ok(res < 8e-4 + .015 * raw + .1 * drift, "nonlin-corrects", "after the correction the signal leaves a straight line by %.2g, before by %.2g (gain %s, %s, drift %s, exposures %s)" % (res, raw, g, kind, drift, order))
        h = out.ext_hdr
        c.equal(parents(h), sorted(names), "nonlin-parents", "recorded parents")
        c.ok(h["DATALVL"] == "CAL" and h["DATATYPE"] == "NonLinearityCalibration", "nonlin-header", "level %r type %r" % (h["DATALVL"], h["DATATYPE"]))
        c.ok(out.filename.endswith("_NLN_CAL.fits") and out.filename.startswith(names[-1].split("_L2a")[0]), "nonlin-name", "file name %s" % out.filename)
        out.save(filedir=".")
        b = data.NonLinearityCalibration(out.filename)
        c.ok(np.array_equal(b.data, out.data, equal_nan=True), "nonlin-reload", "the table read back differs")
    c.see("response curves recovered", len(gains))
    c.sig(kind, len(gains), drift, order, r.how)


@SUITE.workload(quick=5, thorough=80)
def linearity_relations(c):
    rng = c.rng
    gains = [1.] + ([20.] if rng.random() < .5 else [])
    r = Ramp(rng, gains, .05, "wave", str(rng.choice(["up", "mixed"])))
    a = np.asarray(r.run(r.dataset()).data)[1:, 1:]
    fr = r.frames()
    arr = np.array([f[0] for f in fr])
    # a constant under everything is background
    b = np.asarray(r.run(r.dataset(arr=arr + rng.uniform(-20, 20, len(arr))[:, None, None] * (np.array([f[2] for f in fr]) != "MNFRAME")[:, None, None])).data)[1:, 1:]
    c.close(b, a, "nonlin-background", "table with another background in every frame", rtol=1e-9)
    # only the ratio of exposure times counts
    fr2 = [(f[0], dict(f[1], EXPTIME=f[1]["EXPTIME"] * 4), f[2]) for f in fr]
    b = np.asarray(r.run(r.dataset(fr2)).data)[1:, 1:]
    c.close(b, a, "nonlin-exptime", "table with all exposures four times as long", rtol=1e-8)
    # the mean frame only selects pixels
    arr2 = arr.copy()
    mf = np.array([f[2] for f in fr]) == "MNFRAME"
    arr2[mf] *= rng.uniform(.5, 1.5)
    b = np.asarray(r.run(r.dataset(arr=arr2)).data)[1:, 1:]
    c.close(b, a, "nonlin-meanframe", "table with another brightness of the mean frame", rtol=1e-9)
    # sets in another order
    b = np.asarray(r.run(r.dataset(r.frames(rng.permutation(len(r.blocks))))).data)[1:, 1:]
    c.close(b, a, "nonlin-order", "table with the sets in another order", rtol=1e-9)
    # pixels the pupil does not reach do not count
    arr3 = arr.copy()
    arr3[:, 17:19, :] += 300 * ~mf[:, None, None]
    b = np.asarray(r.run(r.dataset(arr=arr3)).data)[1:, 1:]
    c.close(b, a, "nonlin-outside", "table with stray light outside pupil and background", rtol=1e-9)
    # another reference count only rescales
    b = np.asarray(r.run(r.dataset(), norm_val=2000).data)[1:, 1:]
    c.close(b / b[50], a / a[50], "nonlin-reference", "shape of the table with another reference count", rtol=1e-9)
    c.see("relations", 6)
    c.sig(len(gains), r.how, r.mean_n)


@SUITE.workload(quick=5, thorough=50)
def linearity_refusals(c):
    rng = c.rng
    r = Ramp(rng, [1., 20.], 0., "linear", "up", {1.: 2})
    fr = r.frames()
    good = r.dataset()
    n0 = r.mean_n
    CN = CalNonlinException
    g20 = [i for i, f in enumerate(fr) if f[1]["EMGAIN_C"] == 20.]

    def mod(where, obs=None, **kw):
        return r.dataset([(f[0], dict(f[1], **kw) if i in where else f[1], obs if obs and i in where else f[2]) for i, f in enumerate(fr)])
    swap = list(range(len(fr)))
    swap[g20[3]], swap[g20[7]] = swap[g20[7]], swap[g20[3]]
    last = g20[-1]
    cases = [
        ("frames per gain", Exception, lambda: r.run(good, n_cal=r.min_n + 1)), ("mean frames", CN, lambda: r.run(good, n_mean=n0 + 1)),
        ("norm 3010", CN, lambda: r.run(good, norm_val=3010)), ("norm low", CN, lambda: r.run(good, norm_val=600)), ("norm high", CN, lambda: r.run(good, norm_val=12000)),
        ("norm float", TypeError, lambda: r.run(good, norm_val=3000.5)), ("write limits", CN, lambda: r.run(good, min_write=5000., max_write=5000.)),
        ("min_write", TypeError, lambda: r.run(good, min_write=-1.)), ("max_write", TypeError, lambda: r.run(good, max_write="x")),
        ("rms limits", CN, lambda: r.run(good, rms_low_limit=.2, rms_upp_limit=.2)),
        ("time order", CN, lambda: r.run(r.dataset([fr[i] for i in swap]))),
        ("no repeated exposure", CN, lambda: r.run(r.dataset([f for i, f in enumerate(fr) if i != last]), n_cal=5)),
        ("kind of frame", Exception, lambda: r.run(mod([n0 + 2], obs="SCIENCE"))),
        ("mean frame gain", Exception, lambda: r.run(mod([0], EMGAIN_C=20.))),
        ("mean frame exposure", Exception, lambda: r.run(mod([0], EXPTIME=fr[0][1]["EXPTIME"] * 2))),
        ("same time stamp", Exception, lambda: r.run(mod([n0 + 1], DATETIME=fr[n0][1]["DATETIME"]))),
        ("exposure time", Exception, lambda: r.run(mod([n0 + 1], EXPTIME=-1.))),
        ("gain below one", Exception, lambda: r.run(mod(g20, EMGAIN_A=.5, EMGAIN_M=.5))),
    ]
    key = str(rng.choice(sorted(NLPAR)))
    cases.append(("parameter missing " + key, ValueError, lambda: r.run(good, par={k: v for k, v in NLPAR.items() if k != key})))
    cases.append(("parameter a word " + key, TypeError, lambda: r.run(good, par=dict(NLPAR, **{key: "foo"}))))
    with c.scratch():
        for i in rng.permutation(len(cases))[:9]:
            name, exc, fn = cases[i]
            c.raises(exc, fn, "nonlin-refuse:" + name.split(" " + key)[0], "calibration accepted: " + name)
            c.see("refusals")
            c.sig("refusal", name)
