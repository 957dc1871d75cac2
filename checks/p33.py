"""P33: small formats users exchange: file time stamps, bit planes of the flags, names and values of the flags."""
import datetime as dt
from fractions import Fraction
import numpy as np
import corgidrp.data as data
from vlib.core import Suite, quiet
from vlib import build as B

SUITE = Suite("P33", "one distinct situation = form of the time string x rounding situation (exact, tie, carry into second/minute/day/year, offset) or bit pattern x shape x axis; "
              "each result is recomputed with exact arithmetic")

NAMES = ["bad_pixel_unspecified", "data_replaced_by_filled_value", "bad_pixel", "hot_pixel", "not_used", "full_well_saturated_pixel", "non_linear_pixel",
         "pixel_affected_by_cosmic_ray", "TBD"]


@SUITE.workload(quick=300, thorough=6000)
def stamp(c):
    """Rounded to the nearest tenth of a second, in UTC, carrying over."""
    rng = c.rng
    base = dt.datetime(int(rng.integers(2000, 2100)), int(rng.integers(1, 13)), int(rng.integers(1, 29)), int(rng.integers(24)), int(rng.integers(60)), int(rng.integers(60)))
    kind = ["any", "carry-second", "carry-minute", "carry-day", "carry-year", "exact", "tie", "none", "near-tie"][c.index % 9]
    us = int(rng.integers(0, 1000000))
    if kind == "carry-second":
        us = int(rng.integers(950000, 1000000))
    elif kind == "carry-minute":
        base, us = base.replace(second=59), int(rng.integers(950000, 1000000))
    elif kind == "carry-day":
        base, us = base.replace(hour=23, minute=59, second=59), int(rng.integers(950000, 1000000))
    elif kind == "carry-year":
        base, us = base.replace(month=12, day=31, hour=23, minute=59, second=59), int(rng.integers(950000, 1000000))
    elif kind == "exact":
        us = int(rng.integers(10)) * 100000
    elif kind == "tie":
        us = int(rng.integers(10)) * 100000 + 50000
    elif kind == "near-tie":
        us = int(rng.integers(10)) * 100000 + 50000 + int(rng.choice([-2, -1, 1, 2]))
    elif kind == "none":
        us = 0
    digits = "%06d" % us
    form = int(rng.integers(4))
    if us == 0 and form < 2:
        frac = ""
    elif form == 0:
        frac = "." + digits
    elif form == 1:
        frac = "." + (digits.rstrip("0") or "0")
    elif form == 2:
        frac = "." + digits[:3]
        us = int(digits[:3]) * 1000
    else:
        frac = "." + digits[:2]
        us = int(digits[:2]) * 10000
    off = int(rng.choice([0, 0, 60, -60, 330, -720, 840, 1]))
    tz = str(rng.choice(["", "Z", "+00:00"])) if off == 0 else "%s%02d:%02d" % ("+" if off > 0 else "-", abs(off) // 60, abs(off) % 60)
    s = base.strftime("%Y-%m-%dT%H:%M:%S") + frac + tz
    if rng.random() < .1:
        s = s.replace("T", " ")
    utc = base - dt.timedelta(minutes=off) + dt.timedelta(microseconds=us)
    t = Fraction(utc.microsecond, 100000)
    n = int(t)
    up, tie = t - n > Fraction(1, 2), t - n == Fraction(1, 2)
    def render(k):
        u = utc.replace(microsecond=0) + dt.timedelta(microseconds=k * 100000)
        return u.strftime("%Y%m%dT%H%M%S") + str(u.microsecond // 100000)
    want = {render(n + 1)} if up else {render(n)} if not tie else {render(n), render(n + 1)}
    got = data.format_ftimeutc(s)
    c.ok(got in want, "time-stamp", "%r gives %r, expected %s" % (s, got, want))
    c.ok(len(got) == 16, "time-stamp-length", got)
    c.sig(kind, form, bool(tz), up, tie)
    c.sample({"input": s, "stamp": got})


@SUITE.workload(quick=20, thorough=200)
def bad_time(c):
    rng = c.rng
    s = str(rng.choice(["", "now", "2025-13-01T00:00:00", "2025-02-30T00:00:00", "25:61", "2025-01-01T25:00:00", "2025/01/01 00:00:00", "NaN", "2025-01-01T00:00:61"]))
    c.raises(ValueError, lambda: data.format_ftimeutc(s), "bad-time", "time %r" % s)
    c.sig(s)


@SUITE.workload(quick=80, thorough=1000)
def bits(c):
    """Unpacking gives the 64 bits of each value, most significant first; packing restores them."""
    rng = c.rng
    nd = int(rng.integers(1, 4))
    shape = tuple(int(v) for v in rng.integers(1, 6, nd - 1)) + (1,)
    k = int(rng.integers(4))
    vals = [rng.integers(0, 512, shape), np.array(rng.integers(0, 2 ** 63, shape), dtype=np.uint64) * np.uint64(2) + np.uint64(1),
            2 ** rng.integers(0, 63, shape), np.zeros(shape, int)][k]
    if k != 1:
        vals = vals.astype([np.uint64, np.uint16, np.uint8, int][int(rng.integers(4))] if k == 0 and vals.max() < 256 else np.uint64)
    u = data.unpackbits_64uint(vals, axis=nd - 1)
    want = np.array([[int(v) >> (63 - b) & 1 for b in range(64)] for v in vals.ravel()]).reshape(shape[:-1] + (64,))
    c.equal(u, want, "unpack", "bits of %s" % vals.ravel()[:4])
    p = data.packbits_64uint(u, axis=nd - 1)
    c.equal(p.astype(np.uint64), vals.astype(np.uint64), "pack", "values restored")
    c.see("values", vals.size)
    # as used with flags: a frame's flags with one bit set or cleared
    if nd == 3:
        dq = B.dq_map(rng, shape[:-1], .5)
        bp = data.unpackbits_64uint(dq[:, :, np.newaxis].astype(np.uint64), axis=2)
        b = int(rng.integers(9))
        bp[:, :, 63 - b] = 1
        c.equal(data.packbits_64uint(bp, axis=2)[:, :, 0].astype(int), dq | (1 << b), "flag-set", "flag %d set through the bit planes" % b)
    c.sig(nd, k, str(vals.dtype), shape)


@SUITE.workload(quick=9, thorough=9, fixed=True)
def flags(c):
    i = c.index
    name = NAMES[i]
    fb, fv, vf, bf = data.get_flag_to_bit_map(), data.get_flag_to_value_map(), data.get_value_to_flag_map(), data.get_bit_to_flag_map()
    c.ok(fb[name] == i and fv[name] == 1 << i and vf[1 << i] == name and bf[i] == name, "flag-names", "flag %s: bit %s value %s" % (name, fb.get(name), fv.get(name)))
    c.ok(len(fb) == len(fv) == len(vf) == len(bf) == 9, "flag-names", "number of flags")
    data.get_flag_to_bit_map()[name] = 99      # a caller's own copy
    c.ok(data.get_flag_to_bit_map()[name] == i, "flag-names", "maps are shared between callers")
    c.sig(name)
