"""P08: the error cube: combined layer, individually tracked layers and their names."""
import os
import numpy as np
import astropy.io.fits as fits
import corgidrp
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B
from vlib.steps import STEPS

SUITE = Suite("P08", "one distinct situation = step x number of existing layers x tracking setting (or sequence of error "
              "operations); every layer and layer name is compared with a plain model of quadrature sums and scalings")
NAMES = sorted(STEPS)
ADDS = {"prescan_biassub": ["prescan_bias_sub"], "add_photon_noise": ["photnoise_error"], "dark_subtraction": ["dark_error"],
        "dark_subtraction_synth": ["dark_error"], "flat_division": ["FlatField_error"], "convert_to_flux": ["fluxcal_error"]}


def layers(h, n):
    return [h.get("Layer_%d" % (i + 1)) for i in range(n)]


class Model:
    def __init__(self, err, names, combined):
        self.err, self.names, self.combined = np.array(err, dtype=float), list(names), combined

    def add(self, e, name, track):
        self.err[0] = np.sqrt(self.err[0] ** 2 + e ** 2)
        self.combined = True
        if track:
            self.err = np.concatenate([self.err, e[None]])
            self.names.append(name)

    def scale(self, e):
        self.err = self.err * e
        self.combined = True

    def drop(self):
        self.err, self.names = self.err[:1], []


def judge(c, key, img, m, track):
    if not c.ok(img.err.shape == m.err.shape, "layer-count:" + key, "%s: err has shape %s, expected %s" % (
            key, img.err.shape, m.err.shape)):
        return
    c.see("layers", m.err.shape[0])
    c.close(img.err, m.err, "layer-values:" + key, key, rtol=1e-9, atol=1e-9)
    got = [img.err_hdr.get("Layer_%d" % (i + 2)) for i in range(len(m.names))]
    c.ok(got == m.names, "layer-names:" + key, "%s: layer names %s, expected %s" % (key, got, m.names))
    c.ok("Layer_%d" % (len(m.names) + 2) not in img.err_hdr, "layer-names-extra:" + key, "%s: a name without a layer" % key)
    if m.combined:
        c.ok(img.err_hdr.get("Layer_1") == "combined_error", "layer1-name:" + key, "%s: first layer is called %r" % (
            key, img.err_hdr.get("Layer_1")))


@SUITE.workload(quick=60, thorough=800)
def operations(c):
    """Random sequences of add / rescale / copy / save+load on frames and datasets vs the model."""
    rng = c.rng
    track = bool(rng.random() < .65)
    corgidrp.track_individual_errors = track
    shp = (int(rng.integers(2, 7)), int(rng.integers(2, 7)))
    n = int(rng.integers(1, 4))
    ds = B.dataset(rng, n, shp, "L2a", extra=False)
    ms = [Model(f.err, [], False) for f in ds]
    seq = ""
    hist = [[] for _ in range(n)]
    with c.scratch(), quiet():
        for k in range(int(rng.integers(2, 9))):
            op = str(rng.choice(["add2", "add3", "addframe", "scale2", "scale3", "copy", "save", "toggle", "update"]))
            seq += op[0] + op[-1]
            if op in ("add2", "add3", "addframe"):
                nm = "term_%d" % k
                if op == "add2":
                    e = np.abs(rng.normal(1, .5, shp))
                    ds.add_error_term(e, nm)
                    es = [e] * n
                elif op == "add3":
                    es = np.abs(rng.normal(1, .5, (n,) + shp))
                    ds.add_error_term(es, nm)
                else:
                    es = np.abs(rng.normal(1, .5, (n,) + shp))
                    fr = [f.copy() for f in ds]
                    for f, e in zip(fr, es):
                        f.add_error_term(e, nm)
                    ds = data.Dataset(fr)
                for m, e, h in zip(ms, es, hist):
                    m.add(e, nm, track)
                    h.append("Added error term: " + nm)
            elif op in ("scale2", "scale3"):
                s = rng.uniform(.2, 3, shp if op == "scale2" else (n,) + shp)
                ds.rescale_error(s, "fac_%d" % k)
                for i, m in enumerate(ms):
                    m.scale(s if op == "scale2" else s[i])
                    hist[i].append("Errors rescaled by: fac_%d" % k)
            elif op == "copy":
                ds = ds.copy()
            elif op == "save":
                os.makedirs("o%d" % k)
                ds.save(filedir="o%d" % k)
                ds = data.Dataset([os.path.join("o%d" % k, f.filename) for f in ds])
            elif op == "toggle" and k > 2:
                # read the files again with the other setting
                os.makedirs("o%d" % k)
                ds.save(filedir="o%d" % k)
                track = not track
                corgidrp.track_individual_errors = track
                ds = data.Dataset([os.path.join("o%d" % k, f.filename) for f in ds])
                if not track:
                    [m.drop() for m in ms]
            elif op == "update":
                e2 = ds.all_err * 2.0
                ds.update_after_processing_step("doubled", new_all_err=e2)
                for m in ms:
                    m.err = m.err * 2.0
            for i, f in enumerate(ds):
                judge(c, "ops", f, ms[i], track)
                got = [str(x) for x in f.err_hdr["HISTORY"]] if "HISTORY" in f.err_hdr else []
                c.ok(got == hist[i], "err-history", "error header history %s, expected %s" % (got[-3:], hist[i][-3:]))
                c.ok(bool(f.err_hdr["TRK_ERRS"]) == track or op not in ("save", "toggle"), "trk-flag",
                     "TRK_ERRS is %s with tracking %s" % (f.err_hdr["TRK_ERRS"], track))
    c.sig(seq, track, n)


def factor(name, args, f, g):
    """What the step multiplies the frame by (None: not a pure scaling)."""
    if name == "convert_to_electrons":
        return args[0].value
    if name == "divide_by_exptime":
        return 1.0 / f.ext_hdr["EXPTIME"]
    if name == "flat_division":
        return 1.0 / args[0].data
    if name == "convert_to_flux":
        return args[0].fluxcal_fac / f.ext_hdr.get("COL_COR", 1.0)
    if name == "em_gain_division":
        return 1.0 / em_gain(f)
    return 1.0


def em_gain(f):
    if "EMGAIN_M" in f.ext_hdr:
        return f.ext_hdr["EMGAIN_M"]
    return f.ext_hdr["EMGAIN_A"] if f.ext_hdr["EMGAIN_A"] > 0 else f.ext_hdr["EMGAIN_C"]


@SUITE.workload(quick=5 * len(NAMES), thorough=50 * len(NAMES))
def steps(c):
    """Per step: earlier layers keep their place, name and relation to the data; combined layer does not depend on tracking."""
    rng = c.rng
    st = STEPS[NAMES[c.index % len(NAMES)]]
    n = 1 + (c.index // len(NAMES)) % 3
    nl = int(rng.integers(0, 4))
    with c.scratch(), quiet():
        corgidrp.track_individual_errors = True
        ds, args, kw = st.make(rng, n)
        for k in range(nl):
            ds.add_error_term(np.abs(rng.normal(1, .3, ds.all_data.shape)), "early_%d" % k)
        plain = [f.copy() for f in ds]
        out = st.fn(ds.copy(), *args, **kw)
        corgidrp.track_individual_errors = False
        for f in plain:
            f.err = f.err[:1].copy()
            for k in range(nl):
                f.err_hdr.remove("Layer_%d" % (k + 2))
        out2 = st.fn(data.Dataset(plain), *args, **kw)
    c.ok(len(out) == len(out2), "tracking-changes-count:" + st.name, "number of frames depends on error tracking")
    src = {f.filename: f for f in ds}
    for i, (g, h) in enumerate(zip(out, out2)):
        c.close(g.err[0], h.err[0], "combined-depends-on-tracking:" + st.name,
                "%s combined error with and without tracking" % st.name)
        c.close(g.data, h.data, "data-depends-on-tracking:" + st.name, "%s data with and without tracking" % st.name)
        c.ok(h.err.shape[0] == 1, "untracked-layers:" + st.name, "%s: %d layers although tracking is off" % (st.name, h.err.shape[0]))
        c.ok("Layer_2" not in h.err_hdr, "untracked-names:" + st.name, "%s: layer names although tracking is off" % st.name)
        want = ["early_%d" % k for k in range(nl)] + ADDS.get(st.name, [])
        c.ok(g.err.shape[0] == 1 + len(want), "layer-count:" + st.name, "%s: %d layers, expected 1+%d (%s)" % (
            st.name, g.err.shape[0], len(want), want))
        got = [g.err_hdr.get("Layer_%d" % (k + 2)) for k in range(len(want))]
        c.ok(got == want, "layer-names:" + st.name, "%s: layers named %s, expected %s" % (st.name, got, want))
        if nl and st.name not in ("combine_subexposures", "distortion_correction", "northup") and g.err.shape[0] > nl:
            f = src[g.filename] if g.filename in src else ds[i]
            ref = f.err[1:1 + nl]
            if st.dq == "prescan" and not kw.get("return_full_frame"):
                R = B.SMALL["SCI"]["image"]
                r, c0 = R["r0c0"]
                ref = ref[:, r:r + R["rows"], c0:c0 + R["cols"]]
            if st.dq == "crop":
                from checks.p07 import locate
                pos = locate(g.data, f.data)
                ref = ref[:, pos[0]:pos[0] + g.data.shape[0], pos[1]:pos[1] + g.data.shape[1]]
            c.close(g.err[1:1 + nl], ref * factor(st.name, args, f, g), "layer-values:" + st.name,
                    "%s: individually tracked layers" % st.name, rtol=1e-8)
            if st.name in ADDS and st.name != "flat_division" and st.name != "convert_to_flux":
                e0 = f.err[0]
                if ref.shape[1:] != e0.shape:
                    e0 = e0[r:r + R["rows"], c0:c0 + R["cols"]]
                c.close(g.err[0], np.sqrt(e0 ** 2 + g.err[-1] ** 2), "quadrature:" + st.name,
                        "%s: combined layer is not the quadrature sum" % st.name, rtol=1e-8)
    c.sig(st.name, n, nl)
    c.sample({"step": st.name, "frames": n, "earlier layers": nl})


@SUITE.workload(quick=30, thorough=300)
def construct(c):
    """Building a frame from arrays: 2-D and 3-D errors, tracking off drops the individual layers and their names."""
    rng = c.rng
    track = bool(rng.random() < .5)
    corgidrp.track_individual_errors = track
    cube = bool(rng.random() < .25)
    shp = (3, 4, 5) if cube else (4, 5)
    nl = int(rng.integers(0, 4))
    e = np.abs(rng.normal(1, .2, (1 + nl,) + shp)) if nl or rng.random() < .5 else np.abs(rng.normal(1, .2, shp))
    h = fits.Header()
    for k in range(nl):
        h["Layer_%d" % (k + 2)] = "t%d" % k
    with quiet():
        im = data.Image(rng.normal(0, 1, shp), pri_hdr=B.pri_header(rng), ext_hdr=B.ext_header(rng), err=e.copy(), err_hdr=h)
    want = e if e.ndim == len(shp) + 1 else e[None]
    if not track:
        want = want[:1]
    c.equal(im.err, want, "construct-layers", "error cube of a new frame")
    names = [im.err_hdr.get("Layer_%d" % (k + 2)) for k in range(nl)]
    c.ok(names == (["t%d" % k for k in range(nl)] if track else [None] * nl), "construct-names", "layer names %s" % names)
    c.ok(bool(im.err_hdr["TRK_ERRS"]) == track, "construct-flag", "TRK_ERRS %s" % im.err_hdr["TRK_ERRS"])
    t = np.abs(rng.normal(1, .2, shp))
    with quiet():
        im.add_error_term(t, "new")
    c.close(im.err[0], np.sqrt(want[0] ** 2 + t ** 2), "construct-add", "combined error after adding a term")
    if track:
        c.equal(im.err[-1], t, "construct-add-layer", "added layer")
        c.ok(im.err_hdr["Layer_%d" % (want.shape[0] + 1)] == "new", "construct-add-name", "name of the added layer")
    for bad in (t[..., :-1], t[..., None], np.abs(t.T) if t.shape != t.T.shape else t[..., :-1]):
        c.raises(Exception, lambda: im.copy().add_error_term(bad, "bad"), "bad-shape-accepted", "an error term of another shape")
    c.sig(track, cube, nl, e.ndim)
