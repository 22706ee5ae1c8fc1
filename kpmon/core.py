"""Monitors' shared machinery: cases, verdicts, counters."""

import hashlib
import importlib
import json
import os
import sys
import time
import traceback

import numpy as np

REPO = os.environ.get("KPMON_REPO", "/repo")
SRC = os.path.join(os.path.realpath(REPO), "src", "kikuchipy") + os.sep
HERE = os.path.dirname(os.path.abspath(__file__)) + os.sep


class Violation(Exception):
    """Raised to end a case at once; already recorded."""


class Inconclusive(Exception):
    """The harness could not decide; never a verdict on the code."""


def seed_of(*parts):
    h = hashlib.sha256("|".join(map(str, parts)).encode()).digest()
    return int.from_bytes(h[:8], "little")


def case(quick, thorough=None, tiers=("quick", "thorough")):
    """Register a case function: ``fn(ctx)`` run *quick*/*thorough* times."""

    def deco(fn):
        fn._case = {
            "quick": quick,
            "thorough": thorough if thorough is not None else quick * 8,
            "tiers": tiers,
        }
        return fn

    return deco


def load_check(pid):
    return importlib.import_module(f"kpmon.checks.{pid}")


def cases_of(mod):
    out = []
    for name, fn in vars(mod).items():
        if callable(fn) and hasattr(fn, "_case"):
            out.append((name, fn))
    return out


def jobs_of(mod, tier):
    jobs = []
    for name, fn in cases_of(mod):
        for i in range(fn._case[tier]):
            jobs.append((name, i))
    return jobs


def _short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[: n - 3] + "..."


class Ctx:
    """What a case sees: its random stream, and where monitors report."""

    def __init__(self, pid, tier, name, index, base_seed, tmp):
        self.pid, self.tier, self.name, self.index = pid, tier, name, index
        self.base_seed = base_seed
        self.seed = seed_of(pid, name, index, base_seed)
        self.rng = np.random.default_rng(self.seed)
        self.tmp = tmp
        self.evaluations = 0
        self.counters = {}
        self.keys = set()
        self.samples = []
        self.violations = []
        self.info = {}

    # --- what was observed
    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + int(n)

    def distinct(self, *key):
        self.keys.add(hashlib.sha256(repr(key).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(_short(obj, 300))

    def note(self, **kw):
        """Remember the case's inputs for the replay file."""
        for k, v in kw.items():
            self.info[k] = _short(v)

    # --- verdicts
    def fail(self, key, msg, **data):
        v = {
            "key": key,
            "msg": msg,
            "case": self.name,
            "index": self.index,
            "base_seed": self.base_seed,
            "inputs": dict(self.info),
            "data": {k: _short(x) for k, x in data.items()},
        }
        self.violations.append(v)

    def check(self, cond, key, msg="", **data):
        self.evaluations += 1
        ok = bool(cond)
        if not ok:
            self.fail(key, msg, **data)
        return ok

    def equal(self, got, want, key, msg="", **data):
        """Exact equality of arrays (NaN equal to NaN), shape and all."""
        self.evaluations += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{msg}: shape {got.shape}, expected {want.shape}", **data)
            return False
        same = got == want
        if got.dtype.kind in "fc" and want.dtype.kind in "fc":
            same = same | (np.isnan(got) & np.isnan(want))
        if not np.all(same):
            bad = np.argwhere(~np.atleast_1d(same))
            i = tuple(bad[0])
            self.fail(
                key,
                f"{msg}: {len(bad)} of {same.size} values differ, first at {i}: "
                f"{np.atleast_1d(got)[i]!r}, expected {np.atleast_1d(want)[i]!r}",
                **data,
            )
            return False
        return True

    def close(self, got, want, key, msg="", rtol=1e-6, atol=1e-8, **data):
        self.evaluations += 1
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.fail(key, f"{msg}: shape {got.shape}, expected {want.shape}", **data)
            return False
        g, w = got.astype(np.float64), want.astype(np.float64)
        with np.errstate(all="ignore"):
            same = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=True)
        if not np.all(same):
            bad = np.argwhere(~np.atleast_1d(same))
            i = tuple(bad[0])
            with np.errstate(all="ignore"):
                worst = np.nanmax(np.abs(g - w)) if g.size else 0
            self.fail(
                key,
                f"{msg}: {len(bad)} of {same.size} values differ (worst {worst:.3g}),"
                f" first at {i}: {np.atleast_1d(g)[i]!r}, expected "
                f"{np.atleast_1d(w)[i]!r}",
                **data,
            )
            return False
        return True

    def raises(self, exc, fn, key, msg=""):
        """*fn* has to raise *exc* (a documented rejection)."""
        self.evaluations += 1
        try:
            fn()
        except exc:
            return True
        except Exception as e:
            self.fail(key, f"{msg}: raised {type(e).__name__}: {e}")
            return False
        self.fail(key, f"{msg}: did not raise")
        return False

    def choice(self, seq):
        return seq[int(self.rng.integers(len(seq)))]


def _in_product(tb):
    """Whether the exception came out of the code under test, rather than of the
    harness: some frame below the last harness frame is kikuchipy's, or the
    harness called into a library directly from a kikuchipy call."""
    frames = traceback.extract_tb(tb)
    return any(os.path.realpath(f.filename).startswith(SRC) for f in frames)


def run_case(mod, name, index, tier, base_seed, tmp):
    fn = getattr(mod, name)
    ctx = Ctx(mod.PROPERTY, tier, name, index, base_seed, tmp)
    error = None
    t0 = time.time()
    try:
        fn(ctx)
    except Violation:
        pass
    except Inconclusive as e:
        error = f"inconclusive: {e}"
    except Exception as e:
        text = "".join(traceback.format_exception(e))
        if _in_product(e.__traceback__):
            ctx.fail(
                f"unexpected-exception:{name}:{type(e).__name__}",
                f"{type(e).__name__}: {e}",
                traceback=text[-1500:],
            )
        else:
            error = text
    return ctx, error, time.time() - t0
