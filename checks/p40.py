"""P40: trap-pumped frames give back the traps: pixel, place under the electrodes, energy level, cross section, release time."""
import numpy as np
import corgidrp.data as data
import corgidrp.pump_trap_calibration as pt
from vlib.core import Suite, quiet
from vlib import build as B
from vlib import snap

SUITE = Suite("P40", "one distinct situation = sub-electrode places of the traps x schemes taken x temperatures x order of frames and of schemes x repeated phase times x number of frames per scheme x illumination "
              "x capture model; or one fit (scheme, probability functions, one or two traps, kind of dipole)")
# physics of the release of a captured hole, with the mean electron of silicon
KB, H, ME, KEV = 1.381e-23, 6.626e-34, 9.109e-31, 8.6173e-5


def release(T, E, cs):
    """Release time constant (s) for energy level E (eV) and cross section cs (1e-19 m2)."""
    gap = 1.1692 - 4.9e-4 * T ** 2 / (T + 655)
    ml, mt = .1963 * ME, .1905 * ME * 1.1692 / gap
    m = 6 ** (2 / 3.) * (mt * mt * ml) ** (1 / 3.)
    v = (3 * KB * T / m) ** .5
    n = 2 * (2 * np.pi * m * KB * T / H ** 2) ** 1.5
    return np.exp(E / (KEV * T)) / (cs * 1e-19 * n * v)


def pump(kind, t, tau):
    """Probability to be pumped in one cycle once captured."""
    x = np.exp(-np.asarray(t) / tau)
    return {1: x - x ** 2, 2: x ** 2 - x ** 3, 3: x - x ** 4}[kind]


# scheme: orientation of the dipole and probability function
PLACES = {"LHSel1": {1: ("below", 1), 3: ("below", 3)}, "CENel1": {3: ("below", 2), 4: ("above", 2)}, "RHSel1": {1: ("above", 1), 4: ("above", 3)},
          "LHSel2": {1: ("above", 2), 2: ("below", 1), 4: ("above", 3)}, "CENel2": {1: ("above", 1), 2: ("below", 1)}, "RHSel2": {1: ("above", 1), 2: ("below", 2), 4: ("below", 3)},
          "LHSel3": {2: ("below", 1), 4: ("below", 3)}, "CENel3": {3: ("above", 2), 4: ("below", 2)}, "RHSel3": {2: ("above", 1), 3: ("above", 3)},
          "LHSel4": {1: ("below", 1), 2: ("above", 2), 3: ("above", 3)}, "CENel4": {1: ("below", 1), 2: ("above", 1)}, "RHSel4": {1: ("below", 2), 2: ("above", 1), 3: ("below", 3)}}
CODE = {"LHS": 10, "CEN": 20, "RHS": 30}


@SUITE.workload(quick=60, thorough=3000)
def formulas(c):
    rng = c.rng
    t = np.sort(10. ** rng.uniform(-6.5, -1.5, 15))
    n = int(rng.integers(1, 20000))
    off, tc, ta, tc2, ta2 = rng.normal(0, 100), 10. ** rng.uniform(-9, -4), 10. ** rng.uniform(-6, -2), 10. ** rng.uniform(-9, -4), 10. ** rng.uniform(-6, -2)
    cap = lambda a: 1 - np.exp(-t / a)
    for name, kinds in dict(P1=(1,), P2=(2,), P3=(3,), P1_P1=(1, 1), P1_P2=(1, 2), P2_P2=(2, 2), P3_P3=(3, 3), P2_P3=(2, 3)).items():
        want = off + n * cap(tc) * pump(kinds[0], t, ta)
        args = (off, tc, ta)
        if len(kinds) == 2:
            want = want + n * cap(tc2) * pump(kinds[1], t, ta2)
            args += (tc2, ta2)
        c.close(getattr(pt, name)(t, *args, num_pumps=n), want, "amplitude", "%s%s with %d pumps" % (name, args, n), rtol=1e-9, atol=1e-9 * n)
    T = rng.uniform(140, 230, 5)
    E, cs = rng.uniform(.05, .6), 10. ** rng.uniform(-1, 1.7)
    tau = release(T, E, cs)
    c.close(pt.tau_temp(T, E, cs), tau, "release-time", "E %s, cs %s" % (E, cs), rtol=1e-9)
    sE, sc = rng.uniform(0, .05), rng.uniform(0, .5) * cs
    h = 1e-6
    dE = (release(T, E + h, cs) - release(T, E - h, cs)) / (2 * h)
    dc = (release(T, E, cs * (1 + h)) - release(T, E, cs * (1 - h))) / (2 * h * cs)
    c.close(pt.sig_tau_temp(T, E, cs, sE, sc), np.hypot(dE * sE, dc * sc), "release-error", "E %s +- %s, cs %s +- %s" % (E, sE, cs, sc), rtol=1e-6)
    c.see("formula values", 8 * len(t) + 10)
    c.sig("formulas", int(np.log10(ta)), int(np.log10(tc)), int(np.log10(cs) * 2))


@SUITE.workload(quick=60, thorough=3000)
def illumination(c):
    rng = c.rng
    shape = tuple(int(v) for v in rng.integers(3, 40, 2))
    img = rng.normal(100, 20, shape) + np.add.outer(rng.normal(0, 30, shape[0]), rng.normal(0, 30, shape[1]))
    b = None if rng.random() < .15 else int(rng.integers(1, min(shape) + 1))
    on = bool(rng.random() < .8)
    keep = img.copy()
    with quiet():
        got, light = pt.illumination_correction(img, b, on)
    want = np.empty(shape)
    if on and b is not None:
        edges = []
        for n in shape:
            e = [i * b for i in range(n // b)] + [n]
            edges.append(e)
        for r0, r1 in zip(edges[0][:-1], edges[0][1:]):
            for c0, c1 in zip(edges[1][:-1], edges[1][1:]):
                want[r0:r1, c0:c1] = np.median(keep[r0:r1, c0:c1])
    else:
        want[:] = np.median(keep)
    what = "%s in squares of %s, local %s" % (shape, b, on)
    c.close(light, want, "light", what, rtol=1e-9, atol=1e-9)
    c.close(got, keep - want, "corrected", what, rtol=1e-9, atol=1e-9)
    c.ok(np.array_equal(img, keep), "input", "the image changed")
    c.see("illumination corrections")
    c.sig("illumination", on, b is None, None if b is None else (bool(shape[0] % b), bool(shape[1] % b), b == 1, b == min(shape)))


@SUITE.workload(quick=60, thorough=3000)
def dipoles(c):
    """Dipoles are the pixels above the limit next to one below it, at enough phase times."""
    rng = c.rng
    shape = (int(rng.integers(8, 20)), int(rng.integers(6, 16)))
    nt = int(rng.integers(3, 10))
    times = np.round(10. ** rng.uniform(-6, -2, nt), 9)
    if rng.random() < .6:
        times = times[rng.integers(0, max(2, nt // 2 + 1), nt)]
    stack = rng.normal(0, 1, (nt,) + shape)
    for _ in range(int(rng.integers(1, 8))):
        r, q = int(rng.integers(0, shape[0])), int(rng.integers(0, shape[1]))
        up = rng.choice([-1, 1])
        on = rng.random(nt) < rng.choice([.4, .8, 1.])
        flip = rng.random() < .25
        for k in np.flatnonzero(on):
            stack[k, r, q] += rng.uniform(5, 40)
            o = r + (up if not flip or k % 2 else -up)
            if 0 <= o < shape[0]:
                stack[k, o, q] -= rng.uniform(5, 40)
    lo, hi = rng.normal(0, 1, shape), rng.normal(5, 1, shape)
    f, limit = float(rng.uniform(.5, 3)), int(rng.integers(1, nt + 1))
    keep = stack.copy()
    with quiet():
        above, below, both = pt.trap_id(stack, lo, hi, times, f, limit)
    want = {"above": {}, "below": {}}
    bright = [x > np.median(x) + np.std(x) * f for x in stack]
    dark = [x < np.median(x) - np.std(x) * f for x in stack]
    for r in range(shape[0]):
        for q in range(shape[1]):
            for kind, o in (("above", r + 1), ("below", r - 1)):
                if 0 <= o < shape[0]:
                    seen = [k for k in range(nt) if bright[k][r, q] and dark[k][o, q]]
                    if len({times[k] for k in seen}) >= limit:
                        want[kind][r, q] = seen
    what = "%s frames at %s, limit %.2f, in %d phase times" % (stack.shape, np.round(times, 7), f, limit)
    a, b = set(want["above"]), set(want["below"])
    key = lambda d: {(int(r), int(q)) for r, q in d}
    c.ok(key(above) == a - b, "above", "%s, expected %s: %s" % (key(above), a - b, what))
    c.ok(key(below) == b - a, "below", "%s, expected %s: %s" % (key(below), b - a, what))
    c.ok(key(both) == a & b, "both", "%s, expected %s: %s" % (key(both), a & b, what))
    for d, n in ((above, "above"), (below, "below"), (both, "both")):
        for (r, q), v in d.items():
            c.ok(np.array_equal(v["amps_" + n], keep[:, r, q]), "amplitudes", "of %s dipole at %s" % (n, (r, q)))
            c.ok(v["loc_med_min"] == lo[r, q] and v["loc_med_max"] == hi[r, q], "background", "of %s dipole at %s" % (n, (r, q)))
            if n == "both" and (r, q) in a & b:
                for m in ("above", "below"):
                    k = want[m][r, q]
                    c.ok(np.array_equal(v[m]["amp"], keep[k, r, q]) and np.array_equal(v[m]["t"], times[k]), "both-parts", "%s part of the dipole at %s" % (m, (r, q)))
    c.ok(np.array_equal(stack, keep), "input", "the frames changed")
    c.see("dipoles judged", len(a | b))
    c.sig("dipoles", len(set(times)) < nt, min(len(a - b), 3), min(len(b - a), 3), min(len(a & b), 2), limit == 1)


@SUITE.workload(quick=30, thorough=1200)
def one_fit(c):
    """Curves of one or two traps give back their release times and probability functions."""
    rng = c.rng
    scheme = int(rng.integers(1, 5))
    const = bool(rng.random() < .6)
    n = int(rng.integers(2000, 20000))
    t = np.geomspace(1e-6, 1e-2, int(rng.integers(25, 60)))
    allowed = [1, 2] if scheme in (1, 2) else [3, 2]
    kinds = [int(rng.choice(allowed))]
    two = const and rng.random() < .35
    if two:
        kinds.append(int(rng.choice(allowed)))
    taus = [10. ** rng.uniform(-5.2, -4.2), 10. ** rng.uniform(-3.2, -2.7)][:len(kinds)] if two else [10. ** (rng.uniform(-5, -2.9) if const else rng.uniform(-5, -4.1))]
    order = rng.permutation(len(taus))
    taus = [taus[i] for i in order]
    pcs = [rng.uniform(.7, 1.) for _ in taus]
    if not const:
        # captured at once, compared with the phase times
        caps = [10. ** rng.uniform(-8, -6.5) for _ in taus]
        pcs = [1 - np.exp(-t / q) for q in caps]
    off = rng.uniform(-5, 5)
    noise = 3e-5 * n
    amps = off + n * sum(p * pump(k, t, tau) for p, k, tau in zip(pcs, kinds, taus)) + rng.normal(0, noise, t.size)
    p = rng.permutation(t.size)
    # the search with exponential capture is only sure to succeed for short release times
    thresh = .995
    args = (scheme, amps[p], t[p], n, thresh, .7e-6, 1.3e-2)
    with quiet():
        if const:
            got = pt.trap_fit_const(*args, 0, 2, -10, 10)
        else:
            got = pt.trap_fit(*args, 0, 1e-5, -10, 10)
    what = "scheme %d, %s probability, functions %s, release times %s, offset %.1f, %d pumps: %s" % (scheme, "constant" if const else "exponential", kinds, taus, off, n, got)
    c.sig("fit", scheme, const, tuple(sorted(kinds)))
    c.see("curves fitted")
    if two and got is None:
        # a search of two traps may end in a side minimum
        c.see("two traps not separated")
        return
    if not c.ok(got is not None, "fit-failed", what):
        return
    flat = [(k, v) for k, l in got.items() for v in l]
    if two and len(flat) == 1:
        # close to one trap within the asked threshold
        c.see("two traps not separated")
        return
    c.ok(len(flat) == len(taus), "fit-number", what)
    if len(flat) != len(taus):
        return
    if two:
        k, v = flat[0]
        model = off + n * sum((v[0] if const else 1 - np.exp(-t / v[0])) * pump(k, t, v[2]) for k, v in flat)
        c.ok(1 - ((model - amps) ** 2).sum() / ((amps - amps.mean()) ** 2).sum() > .98, "fit-curve", "the fitted curve is not near the given one: %s" % what)
        near = 1 - ((model - amps) ** 2).sum() / ((amps - amps.mean()) ** 2).sum() > .99999
        if near:
            got_s, want_s = sorted((v[2], k) for k, v in flat), sorted(zip(taus, kinds))
            c.ok(all(abs(g[0] / w[0] - 1) < .1 and g[1] == w[1] for g, w in zip(got_s, want_s)), "fit-two", what)
            c.see("pairs of traps recovered")
        return
    k, v = flat[0]
    c.ok(k == kinds[0], "fit-function", what)
    c.ok(abs(v[2] / taus[0] - 1) < .02, "fit-time", what)
    if const:
        c.ok(abs(v[0] / pcs[0] - 1) < .02, "fit-capture", what)
    c.ok(0 <= v[3] < .05 * taus[0] and abs(v[2] - taus[0]) < 8 * v[3] + 1e-6 * taus[0], "fit-error", what)


@SUITE.workload(quick=40, thorough=1500)
def level(c):
    """Release times at several temperatures give energy level, cross section and the release time elsewhere."""
    rng = c.rng
    T = np.sort(rng.choice(np.arange(160, 221, 5.), int(rng.integers(3, 9)), replace=False))
    E, cs = rng.uniform(.2, .4), rng.uniform(1, 30)
    rel = 10. ** rng.uniform(-5, -2.5)
    tau = release(T, E, cs)
    err = rel * tau
    seen = tau * (1 + rel * rng.normal(0, 1, T.size))
    p = rng.permutation(T.size)
    Tin = float(rng.uniform(150, 230))
    keep = err[p].copy()
    given = [seen[p], keep, T[p]]
    if rng.random() < .3:
        given = [list(v) for v in given]
    with quiet():
        got = pt.fit_cs(*given, .8, 0, 1, 0, 50, Tin)
    what = "at %s K: E %.4f, cs %.3f, relative scatter %.1e, wanted at %.1f K: %s" % (T, E, cs, rel, Tin, got)
    if not c.ok(got[0] is not None, "level-failed", what):
        return
    c.ok(abs(got[0] - E) < 8 * got[1] + 1e-6, "level", what)
    c.ok(abs(got[2] * 1e15 - cs) < 8 * got[3] * 1e15 + 1e-4 * cs, "section", what)
    # the usual propagation of errors through straight lines in the logarithm
    J = np.array([1 / (KEV * T), -1 / np.full(T.size, cs)]).T / rel
    cov = np.linalg.inv(J.T @ J)
    c.ok(.5 < got[1] / np.sqrt(cov[0, 0]) and .5 < got[3] * 1e15 / np.sqrt(cov[1, 1]), "level-error", "errors expected %s: %s" % (np.sqrt(np.diag(cov)), what))
    if T.size > 5:
        c.ok(got[1] < 4 * np.sqrt(cov[0, 0]) and got[3] * 1e15 < 4 * np.sqrt(cov[1, 1]), "level-error", "errors expected %s: %s" % (np.sqrt(np.diag(cov)), what))
    c.close(got[5], release(Tin, got[0], got[2] * 1e15), "level-time", what, rtol=1e-6)
    sig = np.hypot(release(Tin, got[0], got[2] * 1e15) / (KEV * Tin) * got[1], release(Tin, got[0], got[2] * 1e15) / got[2] * got[3])
    c.close(got[6], sig, "level-time-error", what, rtol=1e-6)
    model = release(T, got[0], got[2] * 1e15)
    ss = ((seen - model) ** 2).sum() / ((seen - seen.mean()) ** 2).sum()
    c.close(got[4], 1 - ss * (T.size - 1) / (T.size - 2), "level-quality", what, rtol=1e-9, atol=1e-12)
    with quiet():
        few = pt.fit_cs(seen[:2].tolist() + [seen[0]], [1e-7] * 3, T[:2].tolist() + [T[0]], .8, 0, 1, 0, 50, Tin)
    c.ok(all(v is None for v in few), "level-few", "two temperatures gave %s" % (few,))
    c.see("levels fitted")
    c.sig("level", T.size, int(-np.log10(rel)), int(E * 20))


def campaign(rng, nplaces, schemes=(1, 2, 3, 4)):
    """Trap-pumped frames of traps at known places: dataset, traps, keywords."""
    shape = tuple(int(v) for v in rng.integers(44, 60, 2))
    names = list(rng.permutation(list(PLACES)))[:nplaces]
    # scheme 1 must show traps of function 1
    if sum(PLACES[n].get(1, ("", 0))[1] == 1 for n in names) <= sum(PLACES[n].get(1, ("", 0))[1] == 2 for n in names):
        names = [n for n in names if PLACES[n].get(1, ("", 0))[1] != 2] + [str(v) for v in rng.permutation(["LHSel1", "RHSel1", "CENel2", "CENel4"])[:2]]
        names = list(dict.fromkeys(names))
    temps = np.sort(rng.choice([175., 180., 185., 190., 195., 200., 205.], int(rng.integers(3, 6)), replace=False))
    mid = temps.mean()
    traps, taken = {}, []
    for n in names:
        while True:
            r, q = int(rng.integers(3, shape[0] - 3)), int(rng.integers(1, shape[1] - 1))
            if all(abs(r - a) > 4 or abs(q - b) > 1 for a, b in taken):
                break
        taken.append((r, q))
        # release times stay within the phase times at every temperature
        while True:
            E, cs = rng.uniform(.18, .4), rng.uniform(1, 25)
            tau = release(temps, E, cs)
            if tau.min() > 1.5e-5 and tau.max() < 1.5e-3:
                break
        traps[(r, q), str(n)] = (E, cs, rng.uniform(.85, 1.))
    npump = int(rng.choice([5000, 8000, 10000]))
    level, noise = rng.uniform(3000, 6000), .3
    gain = float(rng.uniform(.5, 8)) if rng.random() < .5 else 1.
    # each square of the local subtraction has its own light
    size = [None, 10, 100][int(rng.integers(0, 3))]
    b = int(min(shape) ** .5) if size is None else min(size, min(shape))
    tilt = np.zeros(shape)
    uneven = rng.random() < .5
    if uneven:
        patches = rng.uniform(0, 300, (shape[0] // b, shape[1] // b))
        tilt = patches[np.minimum(np.arange(shape[0]) // b, shape[0] // b - 1)][:, np.minimum(np.arange(shape[1]) // b, shape[1] // b - 1)]
    arr, ext, kind = [], [], []
    base = np.geomspace(1e-6, 1e-2, int(rng.integers(18, 26)))
    unequal = rng.random() < .35
    for T in temps:
        for s in schemes:
            t = base if not unequal else np.geomspace(1e-6, 1e-2, int(rng.integers(18, 26)))
            if rng.random() < .3:
                t = np.append(t, t[len(t) // 2])
            for x in t:
                im = level + tilt + rng.normal(0, noise, shape)
                for ((r, q), n), (E, cs, pc) in traps.items():
                    if s in PLACES[n]:
                        ori, p = PLACES[n][s]
                        a = npump * pc * pump(p, x, release(T, E, cs))
                        im[r, q] += a
                        im[r + (1 if ori == "above" else -1), q] -= a
                arr.append(im / gain)
                h = {"TPTAU": x * 1e6, "EXCAMT": float(T), "ARRTYPE": "SCI"}
                h.update({"TPSCHEM%d" % k: npump if k == s else 0 for k in range(1, 5)})
                ext.append(h)
    o = rng.permutation(len(arr)) if rng.random() < .7 else np.arange(len(arr))
    arr = np.array(arr)[o]
    ext = [ext[i] for i in o]
    ds = B.stack(rng, arr, None, np.zeros(arr.shape, np.uint16), "L1", ext_list=ext, pri_list=[dict(VISTYPE="TRAPCAL")] * len(arr))
    kw = dict(input_T=float(rng.uniform(170, 210)), tau_fit_thresh=.95, bin_size=size, thresh_factor=float(rng.uniform(1, 2)))
    return ds, traps, kw, dict(temps=temps, gain=gain, uneven=uneven, unequal=unequal, npump=npump, shape=shape, schemes=schemes)


@SUITE.workload(quick=8, thorough=160)
def found(c):
    rng = c.rng
    with quiet():
        ds, traps, kw, t = campaign(rng, int(rng.integers(3, 7)))
        before = snap.ds(ds)
        out = pt.tpump_analysis(ds, **kw)
    got = {((int(r[0]), int(r[1])), int(r[2]), int(r[3])): r for r in out.data}
    want = {(rc, CODE[n[:3]] + int(n[-1]), 0): v for (rc, n), v in traps.items()}
    what = "traps %s at %s K, %s, gain %.2f, uneven %s, unequal %s, %s" % (sorted(traps), t["temps"], t["shape"], t["gain"], t["uneven"], t["unequal"], kw)
    c.ok(set(want) <= set(got), "missed", "not found: %s, found %s; %s" % (sorted(set(want) - set(got)), sorted(set(got) - set(want)), what))
    c.ok(set(got) <= set(want), "invented", "%s; %s" % (sorted(set(got) - set(want)), what))
    for k in set(got) & set(want):
        r, (E, cs, pc) = got[k], want[k]
        tau = release(kw["input_T"], E, cs)
        c.ok(abs(r[6] - E) < .012 and abs(np.log(r[7] * 1e15 / cs)) < .8 and abs(r[9] / tau - 1) < .12, "values", "E %.4f of %.4f, cs %.3g of %.3g, release time %.4g of %.4g: trap %s; %s" % (r[6], E, r[7] * 1e15, cs, r[9], tau, k, what))
        c.close(r[9], release(kw["input_T"], r[6], r[7] * 1e15), "time", "%s; %s" % (k, what), rtol=1e-6)
        c.ok(.9 < r[8] <= 1, "quality", "%s: %s; %s" % (r[8], k, what))
    c.ok(out.data.shape == (len(got), 10), "table", "%s" % (out.data.shape,))
    dens = out.hdu_list["trap_densities"].data
    good = [r for r in got.values() if r[8] >= .8]
    c.close(np.sum(dens[:, 0]) * 1037 * 1056, len(good), "densities", what, rtol=1e-6)
    for row in dens:
        n = sum(abs(r[6] - row[1]) <= .0051 and abs(r[7] - row[2]) <= max(.51e-15, r[7] * .06) + 2e-15 for r in good)
        c.ok(n >= round(row[0] * 1037 * 1056), "density-bin", "%s has %d traps; %s" % (row, n, what))
    c.equal(out.ext_hdr["TWOORLES"], 0, "two-or-less", what)
    c.equal(out.ext_hdr["NONCONTC"], 0, "continuous", what)
    c.ok(not snap.diff(before, snap.ds(ds)), "input", "the frames changed")
    c.see("traps found", len(want))
    c.see("trap-pumped frames", len(ds))
    c.sig("found", tuple(sorted(n for _, n in traps)), len(t["temps"]), t["uneven"], t["unequal"], kw["bin_size"])


@SUITE.workload(quick=2, thorough=40)
def order(c):
    """Another order of the frames gives the same traps."""
    rng = c.rng
    with quiet():
        ds, traps, kw, t = campaign(rng, int(rng.integers(2, 4)))
        a = pt.tpump_analysis(ds, **kw)
        p = rng.permutation(len(ds))
        b = pt.tpump_analysis(data.Dataset([ds[int(i)] for i in p]), **kw)
    key = lambda o: {tuple(r[:4]): r for r in o.data}
    a, b = key(a), key(b)
    c.ok(set(a) == set(b), "order-traps", "%s and %s" % (sorted(a), sorted(b)))
    for k in set(a) & set(b):
        c.close(a[k], b[k], "order-values", "trap %s" % (k,), rtol=1e-3)
    c.see("traps found", len(a))
    c.sig("order", len(a), t["unequal"])


@SUITE.workload(quick=20, thorough=400)
def table(c):
    """Traps are written as numbers and read back."""
    rng = c.rng
    d = {}
    for _ in range(int(rng.integers(1, 12))):
        key = ((int(rng.integers(0, 1024)), int(rng.integers(0, 1024))), "%sel%d" % (rng.choice(["LHS", "CEN", "RHS"]), rng.integers(1, 5)), int(rng.integers(0, 2)))
        cap = [[float(v) for v in rng.uniform(0, 10, 6 if rng.random() < .5 else 9)] for _ in range(3)]
        vals = [float(v) for v in rng.uniform(0, 1, 4)] if rng.random() < .8 else [None] * 4
        d[key] = {"T": [160, 170, 180], "tau": [1e-5] * 3, "sigma_tau": [1e-7] * 3, "cap": cap, "E": vals[0], "sig_E": .1, "cs": vals[1], "sig_cs": .1, "Rsq": vals[2], "tau at input T": vals[3], "sig_tau at input T": .1}
    parents = B._parents(rng, level="L1")
    with quiet():
        cal = pt.create_TrapCalibration_from_trap_dict(d, parents)
        back = pt.rebuild_dict(cal.data)
    c.ok(cal.data.shape == (len(d), 10), "rows", "%s" % (cal.data.shape,))
    for r, (k, v) in zip(cal.data, d.items()):
        want = [k[0][0], k[0][1], CODE[k[1][:3]] + int(k[1][-1]), k[2], v["cap"][0][0], v["cap"][0][2]] + [np.nan if v[n] is None else v[n] for n in ("E", "cs", "Rsq", "tau at input T")]
        c.ok(np.array_equal(r, want, equal_nan=True), "row", "%s, expected %s" % (r, want))
        c.ok(k in back and (v["E"] is None or back[k]["E"] == v["E"] and back[k]["tau at input T"] == v["tau at input T"] and back[k]["cs"] == v["cs"]), "read-back", "%s" % (k,))
    c.ok(type(cal).__name__ == "TrapCalibration", "class")
    c.see("traps written", len(d))
    c.sig("table", len(d))


@SUITE.workload(quick=24, thorough=240)
def refused(c):
    rng = c.rng
    t = np.geomspace(1e-6, 1e-2, 20)
    a = 1000 * pump(1, t, 1e-4)
    kind = c.index % 8
    with quiet():
        if kind == 0:
            c.raises(TypeError, lambda: pt.trap_fit_const(int(rng.choice([0, 5, -1])), a, t, 1000, .8, 1e-6, 1e-2, 0, 2, -10, 10), "scheme")
            c.raises(TypeError, lambda: pt.trap_fit(int(rng.choice([0, 5, -1])), a, t, 1000, .8, 1e-6, 1e-2, 0, 1e-5, -10, 10), "scheme")
        elif kind == 1:
            few = np.tile(t[:5], 4)
            c.raises(IndexError, lambda: pt.trap_fit_const(1, a, few, 1000, .8, 1e-6, 1e-2, 0, 2, -10, 10), "few-times")
            c.raises(IndexError, lambda: pt.trap_fit(1, a, few, 1000, .8, 1e-6, 1e-2, 0, 1e-5, -10, 10), "few-times")
        elif kind == 2:
            c.raises(ValueError, lambda: pt.trap_fit_const(1, a[:-1], t, 1000, .8, 1e-6, 1e-2, 0, 2, -10, 10), "lengths")
            c.raises(ValueError, lambda: pt.fit_cs([1, 2, 3], [1, 2], [1, 2, 3], .8, 0, 1, 0, 50, 180), "lengths")
        elif kind == 3:
            lo = 10. ** rng.uniform(-5, -3)
            for k, v in enumerate([(lo, lo), (lo, lo / 2)]):
                c.raises(ValueError, lambda: pt.trap_fit_const(1, a, t, 1000, .8, v[0], v[1], 0, 2, -10, 10), "bounds")
                c.raises(ValueError, lambda: pt.fit_cs([1, 2, 3], [1, 2, 3], [1, 2, 3], .8, v[0], v[1], 0, 50, 180), "bounds")
        elif kind == 4:
            st = rng.normal(0, 1, (4, 8, 8))
            z = np.zeros((8, 8))
            c.raises(ValueError, lambda: pt.trap_id(st, z, z, t[:4], 1.5, 5), "limit")
            c.raises(ValueError, lambda: pt.trap_id(st, z, z, t[:3], 1.5, 2), "times")
            c.raises(ValueError, lambda: pt.trap_id(st, z[:-1], z, t[:4], 1.5, 2), "shapes")
        elif kind == 5:
            c.raises(TypeError, lambda: pt.illumination_correction(np.zeros(5), 2, True), "image")
            c.raises(TypeError, lambda: pt.illumination_correction(np.zeros((5, 5)), -2, True), "bins")
            c.raises(TypeError, lambda: pt.illumination_correction(np.zeros((5, 5)), 2, 1), "switch")
        elif kind == 6:
            ds, traps, kw, q = campaign(rng, 2, schemes=(2, 3))
            c.raises(pt.TPumpAnException, lambda: pt.tpump_analysis(ds, **kw), "scheme-one", "no scheme 1")
        else:
            ds, traps, kw, q = campaign(rng, 2)
            bad = dict([("k_prob", 3), ("ill_corr", 1), ("thresh_factor", 0), ("length_lim", 0), ("input_T", 0), ("tfit_const", None)][int(rng.integers(0, 6)):][:1])
            c.raises(TypeError, lambda: pt.tpump_analysis(ds, **dict(kw, **bad)), "option", "%s" % bad)
    c.see("requests refused")
    c.sig("refused", kind)
