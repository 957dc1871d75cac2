"""P02: every step appends to HISTORY and keeps everything else in the headers."""
import numpy as np
import astropy.io.fits as fits
import corgidrp
from vlib.core import Suite, quiet
from vlib import build as B
from vlib.steps import STEPS

SUITE = Suite("P02", "one distinct situation = step function x number of frames x error tracking x options; every card of "
              "the primary/image/DQ headers and every extra extension of each returned frame is compared with the input")
NAMES = sorted(n for n in STEPS)
VOLATILE = {"DRPVERSN", "DRPCTIME", "HISTORY", "COMMENT", "", "XTENSION", "BITPIX", "NAXIS", "PCOUNT", "GCOUNT", "EXTNAME",
            "ORIGIN"}
NAMES_CAL = {"dark_subtraction": 0, "flat_division": 0, "correct_nonlinearity": 0}


def history(h):
    return [str(x) for x in h["HISTORY"]] if "HISTORY" in h else []


def compare_headers(c, step, where, before, after, allowed):
    for card in before.cards:
        k = card.keyword
        if k in VOLATILE or k in allowed:
            continue
        c.see("cards_compared")
        if not c.ok(k in after, "card-lost:%s" % step, "%s dropped keyword %s from the %s header" % (step, k, where)):
            continue
        c.ok(repr(after[k]) == repr(card.value) , "card-changed:%s" % step,
             "%s changed keyword %s of the %s header from %r to %r" % (step, k, where, card.value, after[k]))


def one(c, st, n):
    corgidrp.track_individual_errors = bool(c.rng.random() < .4)
    ds, args, kw = st.make(c.rng, n)
    marks = []
    for i, f in enumerate(ds):
        f.pri_hdr["ZZPRI"] = (int(c.rng.integers(1e6)), "user card")
        f.ext_hdr["ZZEXT"] = (float(c.rng.normal()), "user card")
        f.dq_hdr["ZZDQ"] = "x%d" % c.rng.integers(1e6)
        f.err_hdr["ZZERR"] = "y%d" % c.rng.integers(1e6)
        for j in range(int(c.rng.integers(0, 4))):
            f.ext_hdr["HISTORY"] = "earlier step %d of frame %d: %s" % (j, i, "long text " * int(c.rng.integers(0, 15)))
    before = [(f.filename, f.pri_hdr.copy(), f.ext_hdr.copy(), f.dq_hdr.copy(), f.err_hdr.copy(),
               [(h.name, None if h.data is None else np.array(h.data)) for h in f.hdu_list]) for f in ds]
    errhist = [history(f.err_hdr) for f in ds]
    with c.scratch(), quiet():
        out = st.fn(ds, *args, **kw)
    c.sig(st.name, n, corgidrp.track_individual_errors, sorted((k, str(v)) for k, v in kw.items()))
    byname = {b[0].replace(*(st.fname or ("\0", "\0"))): b for b in before}
    c.ok(len(out) >= 1, "empty:" + st.name, "no frame returned")
    last = -1
    order = [b[0].replace(*(st.fname or ("\0", "\0"))) for b in before]
    for f in out:
        b = byname.get(f.filename)
        if not c.ok(b is not None, "frame-identity:%s" % st.name, "%s returned a frame named %r, inputs were %s" % (
                st.name, f.filename, list(byname))):
            continue
        pos = order.index(f.filename)
        c.ok(pos > last, "frame-order:%s" % st.name, "frames of %s come back in another order" % st.name)
        last = pos
        if st.name == "combine_subexposures":
            # headers of the first frame of each group, name of the last
            g = n // len(out)
            b = before[(pos // g) * g]
        c.see("frames_compared")
        nm, pri, ext, dqh, errh, hdus = b
        h0, h1 = history(ext), history(f.ext_hdr)
        c.ok(h1[:len(h0)] == h0, "history-lost:%s" % st.name,
             "%s: earlier HISTORY is no longer a prefix: %s ... -> %s ..." % (st.name, h0[-3:], h1[:len(h0)][-3:]))
        if st.history:
            c.ok(len(h1) > len(h0), "history-missing:%s" % st.name, "%s recorded nothing in HISTORY" % st.name)
        new = "".join(h1[len(h0):])
        if st.name in NAMES_CAL:
            cal = args[NAMES_CAL[st.name]]
            c.ok(cal.filename in new, "history-cal:%s" % st.name,
                 "%s: HISTORY %r does not name the calibration file %r" % (st.name, new, cal.filename))
        if st.name.startswith("update_to"):
            c.ok(st.level in new, "history-level", "HISTORY %r does not name level %s" % (new, st.level))
        compare_headers(c, st.name, "image", ext, f.ext_hdr, st.changes | ({"DRPNFILE"} if st.name == "combine_subexposures" else set()))
        compare_headers(c, st.name, "primary", pri, f.pri_hdr, st.pri_changes)
        if st.name != "combine_subexposures":
            compare_headers(c, st.name, "DQ", dqh, f.dq_hdr, {"NAXIS1", "NAXIS2", "NAXIS3"})
            compare_headers(c, st.name, "ERR", errh, f.err_hdr, {"NAXIS1", "NAXIS2", "NAXIS3", "TRK_ERRS", "Layer_1", "LAYER_1"} |
                            st.changes)
            eh0, eh1 = history([x for x in [errh]][0]), history(f.err_hdr)
            c.ok(eh1[:len(eh0)] == eh0, "err-history-lost:%s" % st.name, "%s lost HISTORY of the error extension" % st.name)
        if not st.drop_hdus and st.name != "combine_subexposures":
            for name, arr in hdus:
                names = [h.name for h in f.hdu_list]
                if c.ok(name in names, "hdu-lost:%s" % st.name, "%s dropped extension %s" % (st.name, name)):
                    c.equal(f.hdu_list[name].data, arr, "hdu-changed:%s" % st.name, "%s extension %s" % (st.name, name))
    c.sample({"step": st.name, "frames": n})


@SUITE.workload(quick=4 * len(NAMES), thorough=60 * len(NAMES))
def steps(c):
    st = STEPS[NAMES[c.index % len(NAMES)]]
    one(c, st, 1 + (c.index // len(NAMES)) % 4)


@SUITE.workload(quick=6, thorough=60)
def chain(c):
    """HISTORY of a whole chain is the concatenation of what each step wrote, in the order the steps ran."""
    from corgidrp import l2a_to_l2b as l2, l2b_to_l3 as l3
    rng = c.rng
    shp = (12, 14)
    n = int(rng.integers(1, 4))
    ds = B.dataset(rng, n, shp, "L2a", ext=dict(EXPTIME=2.0, EMGAIN_C=1.0))
    kg, flat, bp, ast = B.kgain(rng), B.flat(rng, shp), B.bpmap(rng, shp), B.astrom(rng)
    fl = [("convert_to_electrons", lambda d: l2.convert_to_electrons(d, kg)), ("em_gain_division", l2.em_gain_division),
          ("flat_division", lambda d: l2.flat_division(d, flat)), ("correct_bad_pixels", lambda d: l2.correct_bad_pixels(d, bp))]
    rng.shuffle(fl)
    fl += [("update_to_l2b", l2.update_to_l2b), ("create_wcs", lambda d: l3.create_wcs(d, ast)),
           ("divide_by_exptime", l3.divide_by_exptime), ("update_to_l3", l3.update_to_l3)]
    cur = ds
    logs = [[history(f.ext_hdr)] for f in ds]
    with quiet():
        for nm, f in fl:
            nxt = f(cur)
            for i, fr in enumerate(nxt):
                h0, h1 = history(cur[i].ext_hdr), history(fr.ext_hdr)
                c.ok(h1[:len(h0)] == h0 and len(h1) > len(h0), "chain-history:%s" % nm, "%s in chain" % nm)
                logs[i].append(h1[len(h0):])
            cur = nxt
    for i, fr in enumerate(cur):
        c.ok(history(fr.ext_hdr) == sum(logs[i], []), "chain-history:total", "chain HISTORY is not the concatenation")
    c.sig(n, [x[0] for x in fl])


@SUITE.workload(quick=24, thorough=300)
def update_api(c):
    """The dataset-level update primitive writes the entry and header values into every frame and only there."""
    rng = c.rng
    n = int(rng.integers(1, 5))
    ds = B.dataset(rng, n, (5, 6), "L2b")
    h0 = [history(f.ext_hdr) for f in ds]
    ent = {"KEY%d" % i: [3, 2.5, "text", True][i % 4] for i in range(int(rng.integers(0, 5)))}
    msg = "entry %d" % rng.integers(1e9)
    new = rng.normal(0, 1, ds.all_data.shape) if rng.random() < .7 else None
    newdq = B.dq_map(rng, ds.all_dq.shape) if rng.random() < .6 else None
    newerr = None
    if rng.random() < .6:
        lay = int(rng.integers(1, 4))
        newerr = np.abs(rng.normal(0, 1, (n, lay, 5, 6)))
    old = (ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy())
    ds.update_after_processing_step(msg, new_all_data=new, new_all_err=newerr, new_all_dq=newdq,
                                    header_entries=ent if (ent or rng.random() < .5) else None)
    for i, f in enumerate(ds):
        c.ok(history(f.ext_hdr) == h0[i] + [msg], "update-history", "%s" % history(f.ext_hdr)[-2:])
        for k, v in ent.items():
            c.ok(f.ext_hdr.get(k) == v and f.err_hdr.get(k) == v, "update-header", "%s=%r not written" % (k, v))
        c.equal(f.data, (new if new is not None else old[0])[i], "update-data", "frame data")
        c.equal(f.dq, (newdq if newdq is not None else old[2])[i], "update-dq", "frame dq")
        c.equal(f.err, (newerr if newerr is not None else old[1])[i], "update-err", "frame err")
        c.equal(ds.all_data[i], f.data, "update-cube", "cube data")
        c.equal(ds.all_err[i], f.err, "update-cube", "cube err")
        c.equal(ds.all_dq[i], f.dq, "update-cube", "cube dq")
    bad = rng.normal(0, 1, (n, 6, 5))
    which = ["new_all_data", "new_all_dq", "new_all_err"][c.index % 3]
    if which == "new_all_err":
        bad = bad[:, None]
    s = (ds.all_data.copy(), ds.all_err.copy(), ds.all_dq.copy(), [history(f.ext_hdr) for f in ds])
    c.raises(ValueError, lambda: ds.update_after_processing_step("no", **{which: bad}), "update-shape", which)
    c.equal(ds.all_data, s[0], "update-refused-data", "data after refusal")
    c.ok([history(f.ext_hdr) for f in ds] == s[3], "update-refused-history", "history after refusal")
    c.sig(n, new is not None, newdq is not None, newerr is None or newerr.shape[1], len(ent), which)
