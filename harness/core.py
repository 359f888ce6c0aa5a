"""Property-based testing core: registry, Hypothesis driver, replay, evidence.

A *check* is a pair (strategy of plain JSON-able cases, predicate over a case).
The predicate raises ``Violation`` when the code under test breaks the
property.  Anything else it raises is an error of the harness.
"""
import contextlib
import hashlib
import io
import json
import math
import os
import sys
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SOLIDSPY_UNDER_TEST", "/repo")

REGISTRY = {}      # property id -> list of Check


class Violation(Exception):
    """The code under test broke the property."""


class StopShrink(BaseException):
    """Enough time was spent on shrinking: keep the best case so far."""


def fail(msg, *args):
    raise Violation(msg.format(*args) if args else msg)


class Ctx:
    """Per-run counters handed to every predicate."""

    def __init__(self):
        self.evaluations = 0
        self.labels = {}
        self.nontrivial = set()
        self.samples = []
        self._nt = False
        self._case_labels = []

    def label(self, *names):
        self._case_labels.extend(names)

    def nontriv(self, flag=True):
        self._nt = self._nt or bool(flag)


class Check:
    def __init__(self, pid, name, strategy, fn, quick, thorough, rule,
                 fixed):
        self.pid, self.name, self.strategy, self.fn = pid, name, strategy, fn
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.fixed = fixed


def check(pid, strategy, quick=200, thorough=None, rule="", name=None,
          fixed=()):
    """Register a predicate ``fn(case, ctx)``.

    ``fixed`` are cases always run first (regression cases of repaired
    defects, and sizes the random generator does not reach)."""
    def deco(fn):
        REGISTRY.setdefault(pid, []).append(
            Check(pid, name or fn.__name__, strategy, fn, quick,
                  thorough or 20*quick, rule or (fn.__doc__ or "").strip(),
                  list(fixed)))
        return fn
    return deco


# --------------------------------------------------------------------------
# Calling the code under test and validating what it returns

def call(fn, *args, **kwargs):
    """Call the code under test; an exception on a valid input is a
    violation.  Standard output is swallowed."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kwargs)
    except Exception as exc:
        tb = traceback.extract_tb(exc.__traceback__)[-1]
        raise Violation("%s raised %s: %s (at %s:%s)" % (
            getattr(fn, "__name__", fn), type(exc).__name__, exc,
            os.path.basename(tb.filename), tb.lineno)) from None


def call_out(fn, *args, **kwargs):
    """As ``call`` but returns (result, captured stdout)."""
    out = io.StringIO()

    def inner(*a, **k):
        with contextlib.redirect_stdout(out):
            return fn(*a, **k)
    inner.__name__ = getattr(fn, "__name__", str(fn))
    res = call(inner, *args, **kwargs)
    return res, out.getvalue()


def raises(exc_types, fn, *args, **kwargs):
    """The call must raise one of exc_types."""
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                warnings.catch_warnings():
            warnings.simplefilter("ignore")
            res = fn(*args, **kwargs)
    except exc_types:
        return
    except Exception as exc:
        fail("{}: expected {}, got {}: {}", getattr(fn, "__name__", fn),
             exc_types, type(exc).__name__, str(exc))
    else:
        fail("{}: expected {}, but it returned {}",
             getattr(fn, "__name__", fn), exc_types, repr(res)[:300])


def tup(x, n, what):
    if not isinstance(x, (tuple, list)) or len(x) != n:
        fail("{}: expected {} values, got {}", what, n, repr(x)[:200])
    return x


def arr(x, shape, what, kind="f"):
    """Validate a numeric array returned by the code under test.
    Entries of ``shape`` may be None (any)."""
    try:
        if hasattr(x, "toarray"):
            x = x.toarray()
        a = np.asarray(x)
    except Exception as exc:   # pragma: no cover
        fail("{}: not an array ({})", what, exc)
    if a.dtype == object or a.dtype.kind not in "iufcb":
        fail("{}: not a numeric array: {}", what, repr(x)[:200])
    if shape is not None:
        if a.ndim != len(shape) or any(
                s is not None and s != t for s, t in zip(shape, a.shape)):
            fail("{}: shape {} instead of {}", what, a.shape, tuple(shape))
    if kind == "i":
        if a.dtype.kind not in "iu":
            fail("{}: dtype {} instead of integer", what, a.dtype)
        return a
    if kind == "c":
        return a.astype(complex)
    if a.dtype.kind == "c":
        fail("{}: complex values where real ones are expected", what)
    return a.astype(float)


def num(x, what):
    a = arr(x, None, what)
    if a.size != 1:
        fail("{}: a scalar was expected, got shape {}", what, a.shape)
    return float(a.reshape(()))


def finite(a, what):
    if not np.all(np.isfinite(a)):
        fail("{}: not finite: {}", what, np.array2string(np.asarray(a),
                                                         threshold=20))
    return a


def close(got, want, what, rtol=1e-8, atol=None, scale=None):
    """got ~ want, normwise: |got - want| <= rtol*scale (+ atol), where
    ``scale`` may be an array of the size of each entry."""
    got = np.asarray(got)
    want = np.asarray(want)
    if got.shape != want.shape:
        fail("{}: shape {} instead of {}", what, got.shape, want.shape)
    if scale is None:
        scale = np.abs(want).max() if want.size else 0.0
    tol = rtol*scale + (atol or 0.0)
    diff = np.abs(got - want)
    if diff.size and not np.all(diff <= tol):
        bad = np.nan_to_num(np.where(diff <= tol, -1.0, diff), nan=np.inf)
        k = np.unravel_index(bad.argmax(), diff.shape)
        tol = np.broadcast_to(tol, diff.shape)[k]
        fail("{}: got {} want {} at {} (max difference {:.3e}, allowed {:.3e})",
             what, got[k], want[k], tuple(int(i) for i in k),
             float(diff.max()), float(tol))


# --------------------------------------------------------------------------
# Running

def _norm(case):
    return json.loads(json.dumps(case))


def _key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True)
                        .encode()).hexdigest()[:16]


def _evaluate(chk, ctx, case):
    ctx._nt = False
    ctx._case_labels = []
    ctx.evaluations += 1
    np.seterr(all="ignore")
    try:
        chk.fn(case, ctx)
    finally:
        for lab in set(ctx._case_labels):
            ctx.labels[lab] = ctx.labels.get(lab, 0) + 1
        if ctx._nt:
            key = _key(case)
            if key not in ctx.nontrivial:
                ctx.nontrivial.add(key)
                n = len(ctx.nontrivial)
                if n in (1, 20, 100):
                    ctx.samples.append({"check": chk.name, "case": case})


def run_check(chk, tier, seed, shard=0, budget=600.0, examples=None,
              shrink_s=45.0, note=None):
    """Run one check; returns a plain dict (picklable).  ``note(case)`` is
    called before every evaluation."""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    ctx = Ctx()
    t0 = time.time()
    res = {"pid": chk.pid, "name": chk.name, "shard": shard, "violation": None,
           "error": None, "budget_hit": False}
    best = {"case": None, "msg": None, "size": None, "since": None}

    def one(case):
        case = _norm(case)
        if note is not None:
            note(case)
        try:
            _evaluate(chk, ctx, case)
        except Violation as exc:
            size = len(json.dumps(case))
            if best["since"] is None:
                best["since"] = time.time()
            if best["size"] is None or size <= best["size"]:
                best.update(case=case, msg=str(exc), size=size)
            raise

    def body(case):
        if best["since"] is not None:
            if time.time() - best["since"] > shrink_s:
                raise StopShrink()
        elif time.time() - t0 > budget:
            res["budget_hit"] = True
            return
        one(case)

    n = examples
    if n is None:
        n = chk.quick if tier == "quick" else chk.thorough
    hseed = int(hashlib.sha256(("%s:%s:%s:%s" % (
        seed, chk.pid, chk.name, shard)).encode()).hexdigest()[:15], 16)
    fixed = chk.fixed if shard == 0 else ()
    if tier == "replay":
        fixed, n = examples, 0
    try:
        for case in fixed:
            one(case)
        if n > 0:
            test = settings(
                max_examples=n, deadline=None, database=None,
                derandomize=False, print_blob=False,
                report_multiple_bugs=False,
                phases=(Phase.generate, Phase.target, Phase.shrink),
                suppress_health_check=[HealthCheck.too_slow,
                                       HealthCheck.large_base_example,
                                       HealthCheck.data_too_large],
                verbosity=hypothesis.Verbosity.quiet,
            )(hypothesis.seed(hseed)(given(chk.strategy)(body)))
            with contextlib.redirect_stdout(io.StringIO()):
                test()
    except Violation:
        pass
    except StopShrink:
        pass
    except Exception as exc:
        if best["case"] is None:
            res["error"] = "".join(traceback.format_exception(exc))[-6000:]
    if best["case"] is not None:
        res["violation"] = {"case": best["case"], "msg": best["msg"]}
    res.update(evaluations=ctx.evaluations, labels=ctx.labels,
               nontrivial=sorted(ctx.nontrivial), samples=ctx.samples,
               wall=time.time() - t0)
    return res


def hash_unit(key, n, stream=0):
    """n numbers in [-1, 1): a pure function of the drawn integer ``key``
    (splitmix64); key 0 gives zeros so that cases shrink to plain ones."""
    if key == 0:
        return np.zeros(n)
    with np.errstate(over="ignore"):
        z = (np.arange(1, n + 1, dtype=np.uint64)
             * np.uint64(0x9E3779B97F4A7C15)
             + np.uint64((key*0xD1342543DE82EF95 + stream*0xA0761D6478BD642F
                          + 0x2545F4914F6CDD1D) % 2**64))
        z ^= z >> np.uint64(30)
        z *= np.uint64(0xBF58476D1CE4E5B9)
        z ^= z >> np.uint64(27)
        z *= np.uint64(0x94D049BB133111EB)
        z ^= z >> np.uint64(31)
    return (z >> np.uint64(11)).astype(float)/2.0**52 - 1.0


def hash_perm(key, n, stream=0):
    """Permutation of range(n), identity for key 0."""
    if key == 0:
        return np.arange(n)
    return np.argsort(hash_unit(key, n, stream + 77), kind="stable")
