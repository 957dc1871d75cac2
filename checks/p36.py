"""P36: input validators accept exactly the documented kind of object, return it, and raise what the caller asked for."""
import decimal
import fractions
import numpy as np
import corgidrp.check as check
from vlib.core import Suite

SUITE = Suite("P36", "one distinct situation = validator x class of object (enumerated exhaustively: every validator on every object of the pool); the verdict is decided by an independent table")


class Mine(Exception):
    pass


class Sub(dict):
    pass


class MyInt(int):
    pass


def pool():
    """(object, facts)"""
    P = []

    def add(v, **f):
        P.append((v, f))
    for v in (0, 1, -1, 7, 2 ** 70, -2 ** 70, MyInt(3)):
        add(v, num=True, real=True, int=True, val=v)
    for t in (np.int8, np.uint8, np.int16, np.uint16, np.int32, np.uint32, np.int64, np.uint64):
        for v in (0, 1, 5):
            add(t(v), num=True, real=True, int=True, val=v)
    for v in (-1, -100):
        add(np.int64(v), num=True, real=True, int=True, val=v)
        add(np.int8(v), num=True, real=True, int=True, val=v)
    for v in (0., -0., 1., .5, -.5, 1e-300, -1e-300, np.inf, -np.inf):
        add(v, num=True, real=True, int=False, val=v)
        add(np.float64(v), num=True, real=True, int=False, val=v)
    add(np.float32(1.5), num=True, real=True, int=False, val=1.5)
    add(np.float32(-1.5), num=True, real=True, int=False, val=-1.5)
    add(np.float16(0), num=True, real=True, int=False, val=0)
    add(fractions.Fraction(1, 3), num=True, real=True, int=False, val=1 / 3)
    for v in (1j, 1 + 0j, np.complex128(2), np.complex64(1j)):
        add(v, num=True, real=False)
    for v in ("", "a", "1", b"", b"x", np.str_("q"), np.bytes_(b"q")):
        add(v, str=True, num=False, shape=(), kind="S")
    add(None, num=False, shape=(), kind="O")
    add({}, dict=True, num=False, shape=(), kind="O")
    add({"a": 1}, dict=True, num=False, shape=(), kind="O")
    add(Sub(x=2), dict=True, num=False, shape=(), kind="O")
    add(object(), num=False, shape=(), kind="O")
    add(len, num=False, shape=(), kind="O")
    add({1, 2}, num=False, shape=(), kind="O")
    for b in (True, False):
        add(b, bool=True, num=None, val=int(b))     # a Python bool is an int: numeric validators are not judged on it
        add(np.bool_(b), bool=False, num=False, shape=(), kind="b")
    for shape in ((), (0,), (1,), (4,), (1, 1), (3, 3), (2, 5), (0, 0), (0, 3), (2, 2, 2), (1, 3, 2), (0, 2, 2), (2, 2, 2, 2)):
        for dt, kind, real in ((float, "f", True), (int, "i", True), (np.uint16, "u", True), (bool, "b", True), (complex, "c", False), (np.float32, "f", True)):
            add(np.ones(shape, dt), num=False, shape=shape, kind=kind, real=real)
    for shape in ((3,), (2, 2), (2, 2, 2)):
        add(np.full(shape, "a"), num=False, shape=shape, kind="U", real=True)
        add(np.full(shape, b"a"), num=False, shape=shape, kind="S", real=True)
        add(np.full(shape, np.datetime64("2026-01-01")), num=False, shape=shape, kind="M", real=True)
        add(np.full(shape, None), num=False, shape=shape, kind="O", real=True)
    for v in ([], [1, 2], (1, 2.), [1j], [[1, 2], [3, 4]], [[1, 2, 3]], ((1,), (2,)), [[[1]]], [[[1, 2]], [[3, 4]]], ["a"], range(3), [True], [[[[1]]]]):
        a = np.asarray(v)
        add(v, num=False, shape=a.shape, kind=a.dtype.kind, real=a.dtype.kind != "c")
    add(memoryview(b"abc"), num=False, shape=(3,), kind="u", real=True)
    return P


def ok_scalar(f, need_int=False, sign=None):
    if f.get("num") is None:
        return None
    if not f.get("num"):
        return False
    if need_int and not f.get("int"):
        return False
    if not f.get("real"):
        return False
    v = f["val"]
    return True if sign is None else (v > 0 if sign == "+" else v >= 0)


def shape(f):
    if "shape" in f:
        return f["shape"]
    return ()


RULES = {
    "real_scalar": lambda f: ok_scalar(f),
    "real_positive_scalar": lambda f: ok_scalar(f, sign="+"),
    "real_nonnegative_scalar": lambda f: ok_scalar(f, sign="0"),
    "scalar_integer": lambda f: ok_scalar(f, True),
    "positive_scalar_integer": lambda f: ok_scalar(f, True, "+"),
    "nonnegative_scalar_integer": lambda f: ok_scalar(f, True, "0"),
    "real_array": lambda f: len(shape(f)) > 0 and f.get("kind") in "biuf",
    "oneD_array": lambda f: len(shape(f)) == 1,
    "twoD_array": lambda f: len(shape(f)) == 2,
    "twoD_square_array": lambda f: len(shape(f)) == 2 and shape(f)[0] == shape(f)[1],
    "threeD_array": lambda f: len(shape(f)) == 3,
    "string": lambda f: bool(f.get("str")),
    "boolean": lambda f: bool(f.get("bool")),
    "dictionary": lambda f: bool(f.get("dict")),
}
EXCS = [TypeError, ValueError, Mine, Exception, check.CheckException]


@SUITE.workload(quick=14, thorough=14, fixed=True)
def every(c):
    """Each validator on every object of the pool, with every kind of exception."""
    name = sorted(RULES)[c.index]
    fn = getattr(check, name)
    for k, (v, f) in enumerate(pool()):
        want = RULES[name](f)
        if want is None or (name.endswith("D_array") or name == "twoD_square_array") and want and f.get("kind") in ("U", "O", "S", "M"):
            continue        # arrays of text or objects: the documentation does not say
        exc = EXCS[k % len(EXCS)]
        label = "my_%s_%d" % (name, k)
        try:
            r = fn(v, label, exc)
            got = True
        except exc as e:
            got = False
            c.ok(type(e) is exc, "exception-type", "%s(%r) raised %s instead of %s" % (name, v, type(e), exc))
            c.ok(label in str(e), "exception-names-variable", "%s(%r): %s" % (name, v, e))
        except Exception as e:
            c.ok(False, "exception-type", "%s(%r) raised %s: %s instead of %s" % (name, v, type(e).__name__, e, exc))
            continue
        c.ok(got == want, "accepts:%s" % name, "%s(%r of %s) %s, expected %s" % (name, v, type(v).__name__, "accepted" if got else "refused", "accept" if want else "refuse"))
        if got:
            if isinstance(v, np.ndarray) or "array" not in name:
                c.ok(r is v, "returns", "%s does not return its argument" % name)
            else:
                c.ok(np.array_equal(np.asarray(r), np.asarray(v)), "returns", "%s does not return its argument as an array" % name)
        c.see("objects judged")
        c.sig(name, k)
    # misuse of the validator itself
    good = next(v for v, f in pool() if RULES[name](f))
    for bad in (1, None, ["x"], ("x",), 1.5):
        c.raises(check.CheckException, lambda: fn(good, bad, TypeError), "bad-name", "%s with name %r" % (name, bad))
    for bad in ("TypeError", TypeError("x"), int, None, 3, object):
        c.raises(check.CheckException, lambda: fn(good, "n", bad), "bad-exception", "%s with exception %r" % (name, bad))
