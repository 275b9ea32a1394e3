"""Driver for the property checks: generated-input search with Hypothesis.

A property module (props/cXX.py) lists Sub objects.  Each Sub has a strategy that
generates JSON-able cases and a check(case, ctx) that raises Violation when the
code under test breaks the property on that case.  Every case is a plain JSON
value, so a shrunk failure can be written to a replay file and run again without
Hypothesis.
"""
import json
import os
import sys
import time
import traceback
import zlib


class Violation(Exception):
    """The code under test breaks the property on this case."""


class Sub:
    """One executable statement of (a part of) a property."""

    def __init__(self, name, strategy, check, quick, thorough=None, rule="",
                 x64=True, examples=(), known=(), budget=None):
        self.name = name
        self.strategy = strategy  # callable returning a Hypothesis strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.rule = rule
        self.x64 = x64
        self.examples = list(examples)
        self.known = list(known)  # [(key, check function)] of recorded findings
        self.budget = budget


class Ctx:
    """Collects what a run covered."""

    def __init__(self):
        self.labels = {}
        self.errs = {}
        self._nontrivial = False
        self._cur = []

    def start(self):
        self._nontrivial = False
        self._cur = []

    def nontrivial(self, flag=True):
        self._nontrivial = self._nontrivial or bool(flag)

    def label(self, *names):
        for n in names:
            if n not in self._cur:
                self._cur.append(n)
                self.labels[n] = self.labels.get(n, 0) + 1

    def err(self, name, value):
        if not (value <= self.errs.get(name, -1.0)):
            self.errs[name] = float(value)


def sut(label, fn, *args, **kwargs):
    """Call the code under test on inputs it must accept; results as numpy.

    Any exception it raises, including when its result is read, is a violation.
    """
    import jax
    import numpy as np

    try:
        out = fn(*args, **kwargs)
        return jax.tree_util.tree_map(np.asarray, out)
    except Exception as e:  # noqa: BLE001
        msg = str(e).strip().split("\n")[0][:300]
        raise Violation("%s raised %s: %s" % (label, type(e).__name__, msg)) from e


def in_library(e):
    """Whether an exception passed through the code under test."""
    from vlib.env import REPO

    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + "/jax_cosmo/"):
            return True
        tb = tb.tb_next
    return False


def close(ctx, name, got, ref, rtol=0.0, atol=0.0, info="", key=None):
    """Require |got - ref| <= atol + rtol |ref| elementwise (ref is the oracle)."""
    import numpy as np

    got = np.asarray(got, dtype=float)
    ref = np.asarray(ref, dtype=float)
    if got.shape != ref.shape:
        raise Violation("%s: shape %s, expected %s %s" % (name, got.shape, ref.shape, info))
    if not np.all(np.isfinite(ref)):
        raise RuntimeError("harness: oracle is not finite for %s %s" % (name, info))
    tol = np.broadcast_to(np.asarray(atol + rtol * np.abs(ref), dtype=float), ref.shape)
    err = np.abs(got - ref)
    bad = ~(err <= tol)
    if err.size:
        with np.errstate(all="ignore"):
            r = np.where(tol > 0, err / np.where(tol > 0, tol, 1), np.where(err > 0, np.inf, 0.0))
        ctx.err(key or name, np.max(np.where(np.isfinite(got), r, np.inf)))
    if np.any(bad):
        i = np.unravel_index(int(np.argmax(np.where(np.isfinite(err), err / np.where(tol > 0, tol, 1e-300), np.inf))), ref.shape)
        i = tuple(int(x) for x in i)
        raise Violation(
            "%s: at index %s got %.10g, expected %.10g (tolerance %.3g); %d of %d values off %s"
            % (name, i, got[i], ref[i], tol[i], int(bad.sum()), bad.size, info)
        )


def require(cond, msg):
    if not bool(cond):
        raise Violation(msg)


def must_raise(label, exc, fn, *args, **kwargs):
    """The code under test has to reject these inputs with one of exc."""
    import jax

    try:
        out = fn(*args, **kwargs)
        jax.block_until_ready(out)
    except exc:
        return
    except Exception as e:  # noqa: BLE001
        names = exc.__name__ if isinstance(exc, type) else "/".join(x.__name__ for x in exc)
        raise Violation("%s: raised %s instead of %s: %s" % (
            label, type(e).__name__, names, str(e).split("\n")[0][:200])) from e
    raise Violation("%s: accepted, and returned %r" % (label, str(out)[:200]))


# ---------------------------------------------------------------------------


def run_sub(prop, sub, tier, seed, budget, shrink_budget=60.0):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings

    try:
        # independent cases rather than variations of one case: better coverage for few, dear cases
        from hypothesis.internal.conjecture.engine import ConjectureRunner

        ConjectureRunner.generate_mutations_from = lambda self, data: None
        # no constants read from loaded source files: the cases depend on the seed alone
        from hypothesis.internal.conjecture import providers

        providers._get_local_constants = lambda: providers._local_constants
    except (ImportError, AttributeError):
        pass

    t0 = time.time()
    ctx = Ctx()
    st = dict(evals=0, seen=set(), nontrivial=set(), best=None, first_fail=None,
              truncated=0, samples=[], harness=None)

    def one(case):
        now = time.time()
        if now - t0 > budget and st["best"] is None:
            st["truncated"] += 1
            return
        if st["first_fail"] is not None and now - st["first_fail"] > shrink_budget:
            return
        ctx.start()
        st["evals"] += 1
        key = zlib.crc32(json.dumps(case, sort_keys=True).encode())
        try:
            sub.check(case, ctx)
        except Violation as e:
            st["best"] = (case, str(e), traceback.format_exc())
            if st["first_fail"] is None:
                st["first_fail"] = time.time()
            raise
        except (KeyboardInterrupt, SystemExit, hypothesis.errors.UnsatisfiedAssumption):
            raise
        except BaseException as e:  # a defect of the harness, not of the code
            if type(e).__module__.startswith("hypothesis"):
                raise
            if isinstance(e, Exception) and in_library(e):
                # raised by the code under test on inputs it must accept
                v = Violation("raised %s: %s" % (type(e).__name__, str(e).strip().split("\n")[0][:300]))
                st["best"] = (case, str(v), traceback.format_exc())
                if st["first_fail"] is None:
                    st["first_fail"] = time.time()
                raise v from e
            st["harness"] = (case, traceback.format_exc())
            raise
        if key not in st["seen"]:
            st["seen"].add(key)
            if ctx._nontrivial:
                st["nontrivial"].add(key)
                n = len(st["nontrivial"])
                if n in (1, 2, 5, 20, 100):
                    st["samples"].append({"sub": sub.name, "case": case, "labels": list(ctx._cur)})

    findings = []
    for name, fn in sub.known:
        try:
            fn()
        except Violation as e:
            findings.append((name, str(e)))

    try:
        for case in sub.examples:
            one(case)
        n = sub.thorough if tier == "thorough" else sub.quick
        n = max(1, int(n * float(os.environ.get("VERIF_SCALE", "1"))))

        def test(case):
            one(case)

        if sub.strategy is not None:
            t = given(case=sub.strategy())(test)
            t = settings(max_examples=n, database=None, deadline=None,
                         suppress_health_check=list(HealthCheck),
                         phases=[Phase.generate, Phase.shrink],
                         report_multiple_bugs=False, print_blob=False)(t)
            t = hypothesis.seed(zlib.crc32(("%d/%s/%s" % (seed, prop, sub.name)).encode()))(t)
            t()
    except Violation:
        pass
    except BaseException as e:  # noqa: BLE001
        if st["best"] is None or isinstance(e, KeyboardInterrupt):
            if st["harness"] is None:
                st["harness"] = (None, traceback.format_exc())
    res = dict(
        sub=sub.name, evaluations=st["evals"], distinct=len(st["seen"]),
        distinct_nontrivial=len(st["nontrivial"]), labels=ctx.labels,
        errs=ctx.errs, samples=st["samples"], skipped_after_budget=st["truncated"],
        wall_s=round(time.time() - t0, 2), rule=sub.rule, findings=findings,
        violation=None, harness=None,
    )
    if st["best"] is not None:
        res["violation"] = dict(case=st["best"][0], message=st["best"][1], trace=st["best"][2])
    elif st["harness"] is not None:
        res["harness"] = dict(case=st["harness"][0], trace=st["harness"][1])
    return res
