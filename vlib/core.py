"""Suite / case machinery of the checks (runs inside a worker process)."""
import contextlib
import io
import json
import os
import random
import shutil
import sys
import time
import traceback
import zlib

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")


def frames_in_repo(tb):
    pkg = os.path.join(os.path.realpath(REPO), "corgidrp") + os.sep
    found = []
    for fs in traceback.extract_tb(tb):
        if os.path.realpath(fs.filename).startswith(pkg):
            found.append(fs)
    return found


class Suite:
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.workloads = {}

    def workload(self, quick, thorough, fixed=False):
        """fixed: the case list is an enumeration (index = position), not random draws"""
        def deco(f):
            self.workloads[f.__name__] = (f, quick, thorough)
            return f
        return deco


class Rejected(Exception):
    """Raised inside a workload to say the drawn case is outside the property's domain."""


class Case:
    def __init__(self, eng, wl, index):
        self.eng, self.wl, self.index = eng, wl, index
        s = [eng.seed, zlib.crc32(eng.prop.encode()), zlib.crc32(wl.encode()), index]
        self.rng = np.random.default_rng(s)
        self.pyrng = random.Random(zlib.crc32(repr(s).encode()))
        np.random.seed(zlib.crc32(repr(s).encode()) & 0x7FFFFFFF)
        random.seed(zlib.crc32(repr(s).encode()))
        self.tier = eng.tier
        self.failed = False

    # --- monitors report through these
    def ok(self, cond, key, msg=""):
        """One verdict of a monitor."""
        self.eng.observed["verdicts"] = self.eng.observed.get("verdicts", 0) + 1
        if not bool(cond):
            self.fail(key, msg() if callable(msg) else msg)
        return bool(cond)

    def fail(self, key, msg=""):
        self.failed = True
        self.eng.violation(key, self.wl, self.index, str(msg))

    def see(self, what, n=1):
        self.eng.observed[what] = self.eng.observed.get(what, 0) + int(n)

    def sig(self, *parts):
        """A distinct, non-trivial situation that was reached."""
        self.eng.sigs.add(self.wl + ":" + "|".join(str(p) for p in parts))

    def sample(self, obj):
        if sum(1 for s in self.eng.samples if s["workload"] == self.wl) < 1:
            self.eng.samples.append({"workload": self.wl, "index": self.index, "case": obj})

    # --- helpers
    def close(self, a, b, key, msg="", rtol=1e-9, atol=None):
        a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        if atol is None:                # relative to the size of small quantities (fluxes are of the order of 1e-13)
            f = np.abs(b[np.isfinite(b)])
            atol = 1e-12 * (min(1.0, f.max()) if f.size and f.max() > 0 else 1.0)
        if a.shape != b.shape:
            return self.ok(False, key, "%s: shape %s, expected %s" % (msg, a.shape, b.shape))
        with np.errstate(all="ignore"):
            good = np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        if good.all():
            return self.ok(True, key)
        bad = np.argwhere(~good)
        i = tuple(bad[0])
        return self.ok(False, key, "%s: %d of %d values differ, e.g. at %s got %r expected %r" % (
            msg, len(bad), good.size, i, a[i] if a.ndim else float(a), b[i] if b.ndim else float(b)))

    def equal(self, a, b, key, msg=""):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return self.ok(False, key, "%s: shape %s, expected %s" % (msg, a.shape, b.shape))
        same = (a == b)
        if a.dtype.kind in "fc" and b.dtype.kind in "fc":
            same = same | (np.isnan(a) & np.isnan(b))
        if np.all(same):
            return self.ok(True, key)
        bad = np.argwhere(~np.atleast_1d(same))
        i = tuple(bad[0])
        return self.ok(False, key, "%s: %d values differ, e.g. at %s got %r expected %r" % (
            msg, len(bad), i, np.atleast_1d(a)[i], np.atleast_1d(b)[i]))

    def raises(self, exc, fn, key, msg=""):
        """fn must refuse (raise one of exc)."""
        try:
            with quiet():
                fn()
        except exc:
            return self.ok(True, key)
        except Exception as e:
            return self.ok(False, key, "%s: expected refusal with %s, got %s: %s" % (msg, exc, type(e).__name__, e))
        return self.ok(False, key, "%s: accepted instead of refusing" % msg)

    @contextlib.contextmanager
    def scratch(self):
        d = os.path.join(os.environ.get("VERIF_SCRATCH", "/tmp"), "work", "c_%s_%d" % (self.wl, self.index))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        old = os.getcwd()
        os.chdir(d)
        try:
            yield d
        finally:
            os.chdir(old)
            shutil.rmtree(d, ignore_errors=True)


@contextlib.contextmanager
def quiet():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf), np.errstate(all="ignore"):
        yield buf


def reset_settings():
    import corgidrp
    corgidrp.track_individual_errors = False
    corgidrp.skip_missing_cal_steps = False
    corgidrp.jit_calib_id = False


class Engine:
    def __init__(self, suite, prop, tier, seed, soft):
        self.suite, self.prop, self.tier, self.seed, self.soft = suite, prop, tier, seed, soft
        self.evals, self.sigs, self.samples, self.viols, self.errors = 0, set(), [], [], []
        self.observed, self.per_wl = {}, {}
        self._vkeys = {}

    def violation(self, key, wl, index, msg):
        c = self._vkeys.get(key, 0)
        self._vkeys[key] = c + 1
        if c < 2:
            self.viols.append({"property": self.prop, "key": key, "workload": wl, "index": index, "seed": self.seed,
                               "tier": self.tier, "msg": msg,
                               "how": "run_check.py %s --replay <this file>" % self.prop})

    def run_one(self, wl, index):
        f, _, _ = self.suite.workloads[wl]
        case = Case(self, wl, index)
        reset_settings()
        try:
            with np.errstate(all="ignore"):
                with quiet():
                    f(case)
            self.evals += 1
            self.per_wl[wl] = self.per_wl.get(wl, 0) + 1
        except Rejected:
            self.observed["rejected_draws"] = self.observed.get("rejected_draws", 0) + 1
        except Exception as e:
            self.evals += 1
            fr = frames_in_repo(e.__traceback__)
            if fr:
                self.violation("exception:%s:%s" % (type(e).__name__, fr[-1].name), wl, index,
                               "unexpected %s from the code under test on a valid input: %s\n%s" % (
                                   type(e).__name__, e, "".join(traceback.format_tb(e.__traceback__))[-1500:]))
            elif not isinstance(e, (MemoryError, OSError, ImportError)):
                # the monitor could not read the product it was given (wrong shape, missing header...)
                self.violation("unobservable:%s:%s" % (type(e).__name__, wl), wl, index,
                               "the observed product could not be judged: %s: %s\n%s" % (
                                   type(e).__name__, e, traceback.format_exc()[-1500:]))
            else:
                self.errors.append("%s[%d]: %s" % (wl, index, traceback.format_exc()[-2000:]))
        finally:
            reset_settings()

    def run(self, k, n, only=None):
        t0 = time.time()
        todo = []
        for name, (f, q, t) in self.suite.workloads.items():
            if only and name != only:
                continue
            cnt = q if self.tier == "quick" else t
            idx = list(range(k, cnt, n))
            todo += [((j + 0.5) / max(len(idx), 1), name, i) for j, i in enumerate(idx)]
        # interleave so that a run cut short by the soft limit has seen something of everything
        todo.sort()
        for frac, name, i in todo:
            if time.time() - t0 > self.soft:
                self.observed["cases_not_started_time_limit"] = self.observed.get("cases_not_started_time_limit", 0) + 1
                continue
            self.run_one(name, i)

    def result(self):
        return {"evaluations": self.evals, "signatures": sorted(self.sigs), "samples": self.samples[:6],
                "violations": self.viols, "errors": self.errors[:5], "observed": self.observed,
                "per_workload": self.per_wl}
