from vc.core import *  # noqa: F401,F403
from vc import core, sym, perm, terms as T
from vc.terms import Cx, P, ZERO, ONE, TRUE, FALSE, ite, lt, le, ge, gt, eq, I, conj
from vc.sym import SArr, big_sum
import parametricmatrixmodels as pmm
import parametricmatrixmodels.modules  # noqa: F401
import parametricmatrixmodels.preprocessing  # noqa: F401
import parametricmatrixmodels.conformal  # noqa: F401
import parametricmatrixmodels.training  # noqa: F401

core.shim_modules()

import jax
import jax.numpy as jnp
import numpy as onp
import random


class NZ:
    """a symbolic scalar hyper-parameter assumed nonzero"""

    def __init__(self, x):
        self.x = x

    def __ne__(self, o):
        return True

    def __eq__(self, o):
        return False

    __hash__ = None

    def __mul__(self, o):
        return self.x * o

    __rmul__ = __mul__

    def __format__(self, s):
        return "s"


def call(mod, params, data, state=(), training=False, rng=None):
    """the module's real pure callable"""
    return mod._get_callable()(params, data, training, state, rng)


def D(x):
    return sym.dim(x)


def arr(shape, fn, kind="f"):
    return SArr([sym.dim(s) for s in shape], kind, fn)


def S(sizes, f):
    return big_sum([sym.dim(s) for s in sizes], f)


HALF = P(T.Fraction(1, 2))


class Viol(AssertionError):
    """a violated clause, with the failing input"""


def need(cond, what, **inputs):
    if not cond:
        raise Viol(f"{what}; input: " + "; ".join(f"{k}={v!r}"[:700] for k, v in inputs.items()))


def native(rep, case, oblig, fn, bound):
    """a bounded stand-in run natively: fn() runs the real code and its clauses"""
    import os
    import traceback
    import warnings
    only = os.environ.get("VC_ONLY", "extra")
    if only != "extra" and only not in case:
        return
    random.seed(f"{case}/{oblig}")     # the package seeds models from `random`
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            fn()
    except Exception as e:
        if core.harness_mismatch(e):
            rep.undecided.append((f"{case}/{oblig}", f"{type(e).__name__}: {e}"))
            return
        tb = traceback.extract_tb(e.__traceback__)
        rep.fail(case, oblig, f"{type(e).__name__}: {str(e)[:1500]}",
                 dict(error=f"{type(e).__name__}: {str(e)[:3000]}",
                      where=[f"{f.filename}:{f.lineno} {f.name}" for f in tb][-8:]), True)
    else:
        rep.ok_bounded(f"{case}/{oblig}", bound)


def tree_same(a, b, tol=1e-10):
    """same structure, shapes, dtype kinds and values"""
    al, at = jax.tree.flatten(a)
    bl, bt = jax.tree.flatten(b)
    if at != bt:
        return False
    for x, y in zip(al, bl):
        x, y = onp.asarray(x), onp.asarray(y)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            fx, fy = onp.isfinite(x), onp.isfinite(y)
            if not (fx == fy).all():
                return False
            if not onp.allclose(x[fx], y[fy], rtol=tol, atol=tol):
                return False
            if not ((x[~fx] == y[~fy]) | (onp.isnan(x[~fx]) & onp.isnan(y[~fy]))).all():
                return False
        elif not (x == y).all():
            return False
    return True


class Branches:
    """extraction of code that tests array values: the branch on which every
    tested condition holds is followed, and the conditions are collected so that
    the case can return them and prove each of them"""

    def __init__(self):
        self.conds = []

    def __enter__(self):
        from jax._src import core as jc
        self.jc, self.old = jc, jc.Tracer.__bool__

        def holds(t):
            self.conds.append(t)
            return True
        jc.Tracer.__bool__ = holds
        return self

    def __exit__(self, *a):
        self.jc.Tracer.__bool__ = self.old


class EagerNp:
    """jax.numpy for code whose control flow depends on concrete arrays: calls on
    concrete arguments are evaluated (as numpy arrays), others are extracted.
    jax.numpy evaluates them the same way outside of a traced program."""

    def __init__(self, mod=None, over=None):
        self._mod = mod or jnp
        self._over = over or {}

    def __getattr__(self, k):
        if k in self._over:
            return self._over[k]
        v = getattr(self._mod, k)
        if isinstance(v, type) or not callable(v):
            return v
        if hasattr(v, "dtype") or k.startswith("_"):
            return v

        def f(*a, **kw):
            ls = jax.tree.leaves((a, kw))
            if any(isinstance(x, jax.core.Tracer) or type(x).__name__ == "_DimExpr"
                   for x in ls):
                return v(*a, **kw)
            with jax.ensure_compile_time_eval():
                r = v(*a, **kw)
            return jax.tree.map(lambda x: onp.asarray(x) if isinstance(x, jax.Array)
                                else x, r)
        return f


class Patched:
    """temporarily replaces attributes of a module or class"""

    def __init__(self, *what):
        self.what = what

    def __enter__(self):
        self.old = [(o, k, o.__dict__[k]) for o, k, _ in self.what]
        for o, k, v in self.what:
            setattr(o, k, v)

    def __exit__(self, *a):
        for o, k, v in self.old:
            setattr(o, k, v)


def all_paths(run):
    """extraction of code that tests array values: run() is extracted once for
    every combination of outcomes; returns [(conditions, outcomes, result)]"""
    from jax._src import core as jc
    old = jc.Tracer.__bool__
    todo, done = [[]], []
    try:
        while todo:
            pre = todo.pop()
            conds, outs = [], []

            def test(t):
                k = len(conds)
                o = pre[k] if k < len(pre) else False
                conds.append(t)
                outs.append(o)
                if len(conds) > 12:
                    raise sym.Unsupported("more than 12 value tests")
                return o
            jc.Tracer.__bool__ = test
            r = run()
            jc.Tracer.__bool__ = old
            done.append(([jnp.asarray(c) for c in conds], list(outs), r))
            for k in range(len(pre), len(outs)):
                todo.append(outs[:k] + [True])
    finally:
        jc.Tracer.__bool__ = old
    return done


def typed(rep, case, oblig, script, bound):
    """the same with the package's run-time type checks on, in a process of its own"""
    import subprocess
    import sys
    import os

    def fn():
        env = dict(os.environ, PYTHONPATH=core.REPO, JAX_ENABLE_X64="1")
        env.pop("JAXTYPING_DISABLE", None)
        env.pop("VC_PART", None)
        p = subprocess.run([sys.executable, "-W", "ignore", "-c",
                            "import jax, jax.numpy as jnp, numpy as onp\n" + script],
                           env=env, capture_output=True, text=True, timeout=600)
        need(p.returncode == 0, f"{case}: {oblig}", script=script, output=p.stderr[-1500:])
    native(rep, case, oblig, fn, bound)
