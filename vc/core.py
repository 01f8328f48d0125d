"""Contracts, obligations, verdicts and evidence."""
from __future__ import annotations

import fcntl
import inspect
import json
import os
import random
import pickle
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("JAX_ENABLE_X64", "1")
if not os.environ.get("VC_TYPED"):
    os.environ.setdefault("JAXTYPING_DISABLE", "1")
sys.dont_write_bytecode = True

import jax  # noqa: E402
import numpy as onp  # noqa: E402

from . import dimfork  # noqa: E402
from . import prove as PV  # noqa: E402
from . import smt  # noqa: E402
from . import sym  # noqa: E402
from . import terms as T  # noqa: E402
from .num import Num  # noqa: E402
from .sym import SArr, Unsupported  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VC_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

f64, c128, i64, i32, f32, b1 = (
    onp.float64, onp.complex128, onp.int64, onp.int32, onp.float32, onp.bool_)


class In:
    """an input array of a contract case"""

    def __init__(self, name, shape, dtype=f64, gen="normal", fact=None):
        self.name, self.shape, self.dtype = name, tuple(shape), onp.dtype(dtype)
        self.gen, self.fact = gen, fact

    def struct(self):
        return jax.ShapeDtypeStruct(self.shape, self.dtype)

    def sym(self):
        a = sym.array(self.name, [sym.dim(d) for d in self.shape], self.dtype)
        if self.fact is not None:
            ARRFACTS[self.name] = self.fact
        return a

    def concrete(self, rng):
        sh = tuple(int(d) for d in self.shape)
        if callable(self.gen):
            return onp.asarray(self.gen(rng, sh)).astype(self.dtype)
        k = self.dtype.kind
        if self.gen == "key":
            return rng.integers(0, 2**31, sh).astype(self.dtype)
        if k == "b":
            return rng.integers(0, 2, sh).astype(bool)
        if k in "iu":
            return rng.integers(0, 5, sh).astype(self.dtype)
        x = rng.normal(size=sh)
        if k == "c":
            x = x + 1j * rng.normal(size=sh)
        if self.gen == "pos":
            x = onp.abs(x) + 0.1
        elif self.gen == "unit":
            x = rng.uniform(0.05, 0.95, size=sh)
        elif self.gen == "coarse":   # ties and zeros
            x = onp.round(x * 2) / 2
        return onp.asarray(x).astype(self.dtype)


ARRFACTS: dict = {}


def _arrfacts(a):
    if a.kind == "app":
        f = ARRFACTS.get(a.args[0])
        if f is not None:
            return [f(T.P(a), *a.args[1:])]
    return []


smt._ATOMFACT_FNS.append(_arrfacts)


class Goal:
    """a named postcondition besides output == spec"""

    def __init__(self, name, kind, a, b=None, ranges=()):
        # kind 'eq': arrays a,b agree everywhere ; 'true': a(*idx) -> B for all idx
        self.name, self.kind, self.a, self.b, self.ranges = name, kind, a, b, ranges


class Inst:
    def __init__(self, fn, inputs, spec, goals=None, hooks=None, jit=False,
                 skip_numeric=False, opaque=None, setup=None, ref=None):
        # spec: term-level postcondition; ref: spec function written in jax
        # (extracted by the same generator)
        self.fn, self.inputs, self.spec, self.goals = fn, inputs, spec, goals
        self.ref = ref
        self.hooks = hooks or {}
        self.jit = jit
        self.skip_numeric = skip_numeric
        self.opaque = opaque


def _sym_isinstance(o, t, _isinstance=isinstance):
    """symbolic sizes count as ints in the extracted code"""
    if _isinstance(o, t):
        return True
    if _isinstance(o, dimfork.sp._DimExpr):
        import numbers
        ts = t if _isinstance(t, tuple) else getattr(t, "__args__", (t,))
        if any(x in (int, numbers.Integral) for x in ts):
            return True
    if _isinstance(o, (dimfork.sp._DimExpr, tuple, list, dict)):
        ls, td = jax.tree.flatten(o)
        if any(_isinstance(x, dimfork.sp._DimExpr) for x in ls):
            return _isinstance(jax.tree.unflatten(td, [
                1 if _isinstance(x, dimfork.sp._DimExpr) else x for x in ls]), t)
    return False


def shim_modules():
    for k, m in list(sys.modules.items()):
        if k.split(".")[0] == "parametricmatrixmodels" and m is not None:
            m.__dict__["isinstance"] = _sym_isinstance


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


class Case:
    def __init__(self, name, dims, build, concrete, constraints=(), funcs=(),
                 rtol=1e-6, seeds=2, note="", bound=None, limit=None,
                 cost=1):
        self.name, self.dims, self.build = name, dims.split(), build
        self.concrete = concrete
        self.constraints = list(constraints)
        self.funcs = list(funcs)
        self.rtol, self.seeds = rtol, seeds
        self.note = note
        self.limit, self.cost = limit, cost
        self.bound = bound    # stated bound: counted as bounded, not proved


def _show_path(subs, extra):
    return ", ".join([f"{k}={v}" for k, v in subs.items()] +
                     [repr(b) for _, b in extra])


def fork_paths(f, subs, extra):
    """the two refinements of a shape case"""
    op, p, q = f.op, f.a, f.b
    out = []
    if op in ("eq", "ne"):
        d = p - q
        sol = None
        for v in sorted(d.fv):
            co = d.t.get(((v, 1),))
            if co is None or abs(co) != 1:
                continue
            rhs = T.P(v) - d * (1 / co)
            if v in rhs.fv or any(a.kind != "var" for a in rhs.atoms()):
                continue
            sol = (v.args[0], rhs)
            break
        b = T.eq(p, q)
        if sol is not None:
            out.append(({**subs, sol[0]: sol[1]}, extra))
        else:
            out.append((subs, extra + [(f"{_dstr(p)} == {_dstr(q)}", b)]))
        out.append((subs, extra + [(None, T.bnot(b))]))
        return out
    b = {"ge": T.ge, "le": T.le, "gt": T.gt, "lt": T.lt}[op](p, q)
    cmp = {"ge": ">= %s", "le": "<= %s", "gt": ">= %s + 1",
           "lt": "<= %s - 1"}
    neg = {"ge": "lt", "lt": "ge", "le": "gt", "gt": "le"}[op]
    out.append((subs, extra + [(f"{_dstr(p)} " + cmp[op] % _dstr(q), b)]))
    out.append((subs, extra + [(f"{_dstr(p)} " + cmp[neg] % _dstr(q),
                                T.bnot(b))]))
    return out


def _dstr(p):
    s = []
    for m, c in p.t.items():
        fs = [str(int(c))]
        for a, e in m:
            if a.kind == "var":
                x = a.args[0]
            elif a.kind == "div":
                x = f"floordiv({_dstr(a.args[0])}, {_dstr(a.args[1])})"
            else:
                raise Unsupported("shape condition")
            fs += [x] * e
        s.append("*".join(fs))
    return " + ".join(s) or "0"


def is_in(x):
    return isinstance(x, In)


def same_program(a, b, oa, ob):
    """the two traced programs are alpha-equivalent"""
    if jax.tree.structure(oa) != jax.tree.structure(ob):
        return False
    if len(a.consts) != len(b.consts) or str(a.jaxpr) != str(b.jaxpr):
        return False
    return all(onp.asarray(x).shape == onp.asarray(y).shape and
               onp.asarray(x).dtype == onp.asarray(y).dtype and
               bool((onp.asarray(x) == onp.asarray(y)).all())
               for x, y in zip(a.consts, b.consts))


class Bounded(Case):
    """a bounded stand-in: concrete runs of the real code only"""


def trace(fn, structs):
    closed, outshape = jax.make_jaxpr(fn, return_shape=True)(*structs)
    return closed, outshape


class Prof:
    """records which functions of /repo the extraction executed"""

    def __init__(self):
        self.seen = set()

    def __enter__(self):
        root = os.path.join(REPO, "parametricmatrixmodels")

        def tr(frame, event, arg):
            if event == "call":
                c = frame.f_code
                if c.co_filename.startswith(root):
                    self.seen.add(
                        os.path.relpath(c.co_filename, root)[:-3].replace("/", ".")
                        + ":" + c.co_qualname.replace(".<locals>", ""))
        sys.setprofile(tr)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


class Failure:
    def __init__(self, case, oblig, info, replay=None, found=False):
        self.case, self.oblig, self.info = case, oblig, info
        self.replay, self.found = replay, found


class OutOfTime(BaseException):
    pass


START = float(os.environ.setdefault("VC_START", str(time.time())))
LIMIT = 400        # seconds of proof search per case (quick)


class Limit:
    """bounds the time of a block (main thread only)"""

    def __init__(self, s):
        self.s = int(s)

    def __enter__(self):
        def h(*a):
            raise OutOfTime()
        self.old = signal.signal(signal.SIGALRM, h)
        # repeated: an exception raised inside a destructor would be lost
        signal.setitimer(signal.ITIMER_REAL, max(1, self.s), 3)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


class Report:
    """collects obligations for one property"""

    def __init__(self, prop, tier="quick"):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.obligations = []      # (name, how)
        self.bounded = []          # (name, bound)
        self.failures = []
        self.unsupported = []
        self.partly = ""           # why the discharged obligations are not the whole property
        self.undecided = []
        self.assumptions = set()
        self.funcs = set()
        self.reached = set()
        self.known = []
        self.notes = []
        self.numeric = 0

    # ---------------------------------------------------------- plumbing
    def ok(self, name, how):
        self.obligations.append((name, how))

    def ok_bounded(self, name, bound):
        self.bounded.append((name, bound))

    def assume(self, *xs):
        self.assumptions.update(xs)

    def fail(self, case, oblig, info, replay=None, found=True):
        self.failures.append(Failure(case, oblig, info, replay, found))

    # ----------------------------------------------------- contract cases
    def run_case(self, case):
        t0 = time.time()
        try:
            self._run_case(case)
        finally:
            dt = time.time() - t0
            if os.environ.get("VC_VERBOSE"):
                print(f"  [{dt:6.2f}s] {case.name}", flush=True)

    def _run_case(self, case):
        T.CTX.clear()
        T.GLOBAL.clear(); T.new_epoch()
        ARRFACTS.clear()
        self.funcs.update(case.funcs)
        failed = []
        sym_ok = True
        if isinstance(case, Bounded) or os.environ.get("VC_TYPED"):
            bad = self._numeric(case, [])
            if bad is not None:
                self.fail(case.name, f"{case.name}: contract on real run",
                          {"numeric": bad}, replay=dict(case=case.name, **bad))
            else:
                self.ok_bounded(case.name, f"concrete runs {case.concrete}")
            return
        lim = case.limit or (LIMIT if self.tier == "quick" else 6 * LIMIT)
        if self.tier == "quick":       # a check has 900 s: leave time for the concrete runs
            lim = min(lim, 640 - (time.time() - START))
        try:
            if lim < 5:
                raise OutOfTime()
            with Limit(lim):
                sym_ok = self._paths(case, failed)
        except OutOfTime:
            sym_ok = False
            del failed[:]
            dimfork.ACTIVE[0] = False
            T.CTX.clear()
            self.unsupported.append((case.name, "time limit of the prover"))
        self._reset_dims()
        if not sym_ok:
            try:
                if time.time() - START > 700 and self.tier == "quick":
                    raise OutOfTime()
                with Limit(90):
                    self._small(case, failed)
            except OutOfTime:
                T.CTX.clear()
        # concrete runs of the real code: cross-check and failing inputs
        bad = self._numeric(case, failed)
        if bad is not None:
            nm = failed[0][0] if failed else f"{case.name}: contract on real run"
            self.fail(case.name, nm, {"numeric": bad,
                                      "verifier": failed[0][1] if failed else None},
                      replay=dict(case=case.name, **bad), found=True)
        elif failed:
            for f in failed:
                nm, info, definite = f[:3]
                if definite:
                    self.fail(case.name, nm, info, found=False)
                else:
                    self.undecided.append((nm, info))
        elif not sym_ok and not any(n.startswith(case.name)
                                    for n, _ in self.bounded):
            self.ok_bounded(case.name, "concrete runs only")

    def _paths(self, case, failed):
        """extract and discharge every shape case; False: outside the subset"""
        sym_ok = True
        paths = [({}, [])]      # (dim substitution, extra facts)
        npaths = 0
        while paths:
            subs, extra = paths.pop()
            npaths += 1
            if npaths > 24:
                self.unsupported.append((case.name, "too many shape cases"))
                sym_ok = False
                break
            try:
                sdims = self._dims(case, subs, extra)
                if sdims is None:
                    continue
                with Prof() as pr:
                    dimfork.ACTIVE[0] = True
                    try:
                        inst = case.build(NS(sdims))
                        sin, outs, ev, specs, goals = self._extract(inst)
                    finally:
                        dimfork.ACTIVE[0] = False
                self.reached |= pr.seen
                self.assumptions |= ev.assumptions
                failed += self._discharge(case, inst, sin, outs, specs, goals,
                                          tag="" if not (subs or extra) else
                                          f"[{_show_path(subs, extra)}]")
            except dimfork.Fork as f:
                paths += fork_paths(f, subs, extra)
            except Unsupported as e:
                sym_ok = False
                self.unsupported.append((case.name, str(e)))
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
            except Exception as e:  # extraction problem: concrete run decides
                sym_ok = False
                self.unsupported.append(
                    (case.name, f"{type(e).__name__}: {str(e)[:300]}"))
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
        return sym_ok

    def _small(self, case, failed):
        """bounded stand-in: concrete sizes, all element values"""
        for cd in case.concrete[:2]:
            T.GLOBAL.clear(); T.new_epoch()
            try:
                inst = case.build(NS(cd))
                sin, outs, ev, specs, goals = self._extract(inst)
                self.assumptions |= ev.assumptions
                failed += self._discharge(case, inst, sin, outs, specs, goals,
                                          bound=str(cd))
            except Exception as e:
                if os.environ.get("VC_DEBUG"):
                    traceback.print_exc()
                self.unsupported.append(
                    (f"{case.name}{cd}", f"{type(e).__name__}: {str(e)[:200]}"))

    _subs = None

    def _complete(self, wit):
        """dims eliminated by a shape case take their solved value"""
        dims, elems = wit
        n = Num(dims, {})
        dims = dict(dims)
        for k, v in self._subs.items():
            dims[k] = int(n.poly(v))
        return dims, elems

    def _reset_dims(self):
        T.GLOBAL.clear(); T.new_epoch()
        T.DIMLO.clear()

    def _dims(self, case, subs, extra):
        """symbolic dims and preconditions of one shape case (None: empty)"""
        self._reset_dims()
        self._subs = dict(subs)
        if not case.dims:
            return {}
        names = [d for d in case.dims if d not in subs]
        sdims = {}
        cons = [c for c in case.constraints
                if not any(re.search(r"\b%s\b" % s, c) for s in subs)]
        cons += [c for c, _ in extra if c is not None and
                 not any(re.search(r"\b%s\b" % s, c) for s in subs)]
        if names:
            scope = jax.export.SymbolicScope(cons)
            ds = jax.export.symbolic_shape(",".join(names), scope=scope)
            sdims = dict(zip(names, ds))
        mp = {T.var(k): v for k, v in subs.items()}
        for _ in range(len(subs)):
            mp = {k: T.sub(v, mp) for k, v in mp.items()}
        self._subs = {k.args[0]: v for k, v in mp.items()}
        for k, v in mp.items():
            sdims[k.args[0]] = dimfork.to_dim(v, sdims)
        for d in case.dims:
            if d not in subs:
                T.DIMLO[T.var(d)] = 1
            T.GLOBAL.append(T.subb(T.ge(T.P(T.var(d)), 1), mp))
        for c in case.constraints:
            T.GLOBAL.append(T.subb(_constraint(c), mp))
        for _, b in extra:
            T.GLOBAL.append(T.subb(b, mp))
        T.GLOBAL[:] = [g for g in T.GLOBAL if g is not T.TRUE]
        if smt.query([], 4000) == "unsat":
            if not subs and not extra:
                raise AssertionError(f"{case.name}: contradictory precondition")
            return None
        return sdims

    def _extract(self, inst):
        leaves, tree = jax.tree.flatten(inst.inputs, is_leaf=is_in)
        sin = [l.sym() for l in leaves]
        structs = jax.tree.unflatten(tree, [l.struct() for l in leaves])
        closed, outshape = trace(inst.fn, structs)
        ev = sym.Ev(inst.hooks)
        try:
            res = ev.closed(closed, sin)
        except Unsupported:
            if inst.ref is not None and same_program(
                    closed, trace(inst.ref, structs)[0], outshape,
                    trace(inst.ref, structs)[1]):
                return (leaves, tree, sin), None, ev, None, []
            raise
        outtree = jax.tree.structure(outshape)
        outs = (outtree, res, [l for l in jax.tree.leaves(outshape)])
        stree = jax.tree.unflatten(tree, sin)
        specs = inst.spec(*stree) if inst.spec is not None else None
        if inst.ref is not None:
            rclosed, rshape = trace(inst.ref, structs)
            specs = jax.tree.unflatten(jax.tree.structure(rshape),
                                       ev.closed(rclosed, sin))
        goals = []
        if inst.goals is not None:
            goals = inst.goals(jax.tree.unflatten(outtree, res), *stree)
        return (leaves, tree, sin), outs, ev, specs, goals

    def _discharge(self, case, inst, sin, outs, specs, goals, bound=None, tag=""):
        failed = []
        bound = bound or case.bound
        if outs is None:
            if bound is None:
                self.ok(f"{case.name}{tag}/result", "identical program")
            return failed
        outtree, res, avals = outs

        def done(nm, r):
            if r:
                if bound is None:
                    self.ok(nm, r.how)
                else:
                    self.ok_bounded(nm, f"sizes {bound}, all element values")
            else:
                definite = (r.how.startswith("z3:sat") and PV.first_order(
                    [r.goal] + list(r.ctx or []))) or r.how == "shape"
                wit = None
                if bound is None and r.goal is not None and case.dims is not None:
                    try:
                        wit = PV.witness(r.ctx or [], r.goal, case.dims)
                    except Exception:
                        wit = None
                if wit is not None and self._subs:
                    wit = self._complete(wit)
                sp = PV.specials(r.goal) if r.goal is not None else []
                for b in r.ctx or []:
                    sp = sp + PV.specials(b)
                fixed = {k: int(v.const()) for k, v in (self._subs or {}).items()
                         if v.is_const()}
                failed.append((nm, f"{r.how}: {r.info}", definite, wit, sp, fixed))

        if specs is not None:
            sl, st = jax.tree.flatten(
                specs, is_leaf=lambda x: isinstance(x, SArr))
            nm0 = f"{case.name}{tag}"
            if st != outtree:
                failed.append((f"{nm0}/structure", f"{outtree} != {st}", True))
                return failed
            self.ok(f"{nm0}/structure", "structural") if bound is None else None
            for k, (o, s) in enumerate(zip(res, sl)):
                nm = f"{nm0}/out{k}" if len(sl) > 1 else f"{nm0}/result"
                if len(o.shape) != len(s.shape):
                    failed.append((nm + ".shape",
                                   f"{o.shape} vs {s.shape}", True))
                    continue
                bad = False
                for d, (x, y) in enumerate(zip(o.shape, s.shape)):
                    r = PV.prove_zero(x - y)
                    if not r:
                        failed.append((nm + f".shape[{d}]",
                                       f"{x} vs {y}: {r.info}", True))
                        bad = True
                if bad:
                    continue
                if bound is None:
                    self.ok(nm + ".shape", "normalisation")
                if s.kind != o.kind:
                    failed.append((nm + ".kind", f"{o.kind} vs {s.kind}", True))
                    continue
                ix = tuple(T.P(T.fresh("x", d)) for d in o.shape)
                done(nm, PV.prove_eq(o[ix], s[ix]))
        for g in goals:
            nm = f"{case.name}{tag}/{g.name}"
            if g.kind == "eq":
                ok = len(g.a.shape) == len(g.b.shape)
                if ok:
                    for x, y in zip(g.a.shape, g.b.shape):
                        ok = ok and bool(PV.prove_zero(x - y))
                if not ok:
                    failed.append((nm, f"shape {g.a.shape} vs {g.b.shape}", True))
                    continue
                ix = tuple(T.P(T.fresh("x", d)) for d in g.a.shape)
                done(nm, PV.prove_eq(g.a[ix], g.b[ix]))
            else:
                ix = tuple(T.P(T.fresh("x", d)) for d in g.ranges)
                r = g.a(*ix)
                if isinstance(r, PV.Result):
                    done(nm, r)
                else:
                    done(nm, PV.prove(r))
        return failed

    # -------------------------------------------------------- numeric runs
    def _numeric(self, case, failed):
        tries = []
        for f in failed:
            if len(f) > 3 and f[3] is not None and len(tries) < 6:
                if all(v <= 400 for v in f[3][0].values()):
                    tries.append((f[3][0], 0, f[3][1]))
                    tries.append((f[3][0], 1, []))
            if len(f) > 4 and (f[4] or f[5]) and len(tries) < 40:
                for cd in case.concrete:
                    cd2 = {**cd, **f[5]}
                    if all(v <= 400 for v in cd2.values()):
                        for s in range(3 if f[4] else 1):
                            tries.append((cd2, s, [("*", a, v) for a, v in f[4]]))
        nseeds = case.seeds if self.tier == "quick" else case.seeds * 4
        if failed:
            nseeds = max(nseeds, 4)
        for cd in case.concrete:
            for s in range(nseeds):
                tries.append((cd, s, []))
        for cd, s, ov in tries:
            try:
                r = numeric_once(case, cd, self.seed * 1000 + s, ov)
            except Exception as e:
                if cd in case.concrete:
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    if in_repo(e):
                        r = dict(error=f"{type(e).__name__}: {str(e)[:400]}",
                                 traceback=traceback.format_exc()[-1500:])
                    else:
                        self.undecided.append(
                            (f"{case.name}{cd}", f"{type(e).__name__}: {e}"))
                        r = "skip"
                else:
                    r = "skip"
            if r == "skip":
                continue
            self.numeric += 1
            if r is not None:
                r.update(dims=cd, seed=self.seed * 1000 + s, overrides=ov)
                return r
        return None

    # ------------------------------------------------------------ verdict
    def finish(self):
        wall = time.time() - self.t0
        total = len(self.obligations) + len(self.bounded)
        known = load_known(self.prop)
        viol = []
        lines = []
        for f in self.failures:
            key = f"{f.case}"
            kf = next((k for k in known if (k["match"] == f.case or
                       (k["match"].endswith("*") and
                        str(f.case).startswith(k["match"][:-1])))
                       and k.get("oblig", "") in f.oblig), None)
            if kf is not None:
                ln = f"KNOWN-FINDING: property={self.prop} {kf['what']}"
                if ln not in lines:
                    lines.append(ln)
                continue
            viol.append(f)
        for f in viol:
            print(f"failed obligation: {f.oblig}\n   {short_info(f.info)}")
        for nm, why in self.undecided:
            print(f"undecided (bounded stand-in passed): {nm}: {why[:300]}")
        for nm, why in self.unsupported:
            print(f"outside extraction subset (bounded stand-in): {nm}: {why[:300]}")
        for ln in lines:
            print(ln)
        rp = None
        if viol:
            d = os.path.join(VERIF, "evidence", "replays")
            os.makedirs(d, exist_ok=True)
            found = [f for f in viol if f.found]
            f = (found or viol)[0]
            rp = os.path.join(d, f"{self.prop}.json")
            with open(rp, "w") as fh:
                json.dump(dict(property=self.prop, obligation=f.oblig,
                               case=f.case, replay=f.replay, found=f.found,
                               verifier_output=f.info,
                               all=[dict(case=v.case, obligation=v.oblig,
                                         info=str(v.info)[:2000], found=v.found)
                                    for v in viol]), fh, indent=1, default=str)
            tail = "" if found else " no-failing-input-found"
            print(f"VIOLATION property={self.prop} replay={rp}{tail}")
        hows = {}
        for _, h in self.obligations:
            hows[h] = hows.get(h, 0) + 1
        ev = dict(
            property=self.prop, tier=self.tier, seed=self.seed,
            level="proof" if self.obligations and not self.partly else "other",
            coverage=dict(
                **(dict(explanation=self.partly) if self.obligations and self.partly else
                   {} if self.obligations else dict(
                    explanation="bounded stand-in: the contracts were checked on the real "
                    "functions for the inputs listed under bounded_obligations only; "
                    "nothing is proved")),
                obligations=len(self.obligations) + len(
                    [f for f in viol]) + len(self.undecided),
                discharged=len(self.obligations),
                by_backend=hows,
                bounded_obligations=[f"{n} [{b}]" for n, b in self.bounded][:200],
                n_bounded=len(self.bounded),
                concrete_crosschecks=self.numeric,
                functions_under_contract=sorted(self.funcs),
                functions_reached_by_extraction=sorted(self.reached),
                obligations_list=[n for n, _ in self.obligations][:600],
                outside_subset=[f"{n}: {w}" for n, w in self.unsupported],
                undecided=[f"{n}: {w[:200]}" for n, w in self.undecided],
                solver="z3 %s" % smt.z3.get_version_string(),
                solver_queries=T.Stats.queries,
                solver_time_s=round(T.Stats.solver_s, 2),
                checker_cmd=f"bash /verif/run.sh {self.prop} {self.tier}",
                trusted_base=[
                    "vc/ (VC generator: jaxpr semantics of the primitives used)",
                    "jax tracing with symbolic shapes", "z3"],
                notes=self.notes,
                violated=[dict(obligation=f.oblig, case=f.case,
                               replay=rp, failing_input=f.found) for f in viol],
                known_findings=lines,
            ),
            assumptions=sorted(self.assumptions | BASE_ASSUMPTIONS),
            wall_s=round(wall, 2),
            violations=len(viol),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, default=str)
        print(f"{self.prop}: {len(self.obligations)} obligations discharged, "
              f"{len(self.bounded)} bounded, {self.numeric} concrete runs, "
              f"{len(self.undecided)} undecided, {len(viol)} violated, "
              f"{T.Stats.queries} solver queries, {wall:.1f}s")
        if total == 0 and not viol:
            print("ERROR: no obligations")
            return 2
        return 1 if viol else 0


def short_info(info):
    if isinstance(info, dict) and isinstance(info.get("numeric"), dict):
        n = {k: str(v)[:400] for k, v in info["numeric"].items()
             if k not in ("inputs", "overrides", "traceback")}
        return f"real run: {n} verifier: {str(info.get('verifier'))[:300]}"
    return str(info)[:600]


BASE_ASSUMPTIONS = {
    "floating-point and complex arithmetic is treated as exact real/complex "
    "arithmetic; machine integers as mathematical integers",
    "denominators that occur are nonzero",
    "every symbolic array dimension is at least 1",
    "extraction drops run-time jaxtyping/beartype checks and host callbacks",
}


def harness_mismatch(e):
    """the harness itself could not address an internal name of the code (a
    renamed attribute or helper, a changed internal signature): no verdict"""
    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    if not tb or not tb[-1].filename.startswith(here + os.sep):
        return False
    if isinstance(e, sym.Unsupported):
        return True
    if isinstance(e, ImportError):
        return True
    if isinstance(e, AttributeError):
        o = getattr(e, "obj", None)
        m = getattr(o, "__name__", "") if isinstance(o, type(os)) else getattr(
            o if isinstance(o, type) else type(o), "__module__", "")
        return str(m).startswith("parametricmatrixmodels")
    if isinstance(e, TypeError):
        return "argument" in str(e) and "()" in str(e)
    return False


def in_repo(e):
    """does the exception come out of code of /repo?"""
    root = os.path.join(os.path.realpath(REPO), "parametricmatrixmodels")
    return any(os.path.realpath(f.filename).startswith(root)
               for f in traceback.extract_tb(e.__traceback__))


def _constraint(s):
    m = re.match(r"(.*?)(>=|<=|==|>|<)(.*)", s)
    a, op, b = m.groups()
    a, b = sym.dim(_Str(a.strip())), sym.dim(_Str(b.strip()))
    return {">=": T.ge, "<=": T.le, "==": T.eq, ">": T.gt, "<": T.lt}[op](a, b)


class _Str(str):
    pass


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("known", [])
            if k["property"] == prop]


def numeric_once(case, cd, seed, overrides=()):
    """run the real code on concrete inputs; None if the contract holds"""
    random.seed(case.name)       # the package seeds models from `random`
    rng = onp.random.default_rng(
        seed + zlib.crc32((case.name + str(sorted(cd.items()))).encode()))
    T.CTX.clear()
    T.GLOBAL.clear(); T.new_epoch()
    inst = case.build(NS(cd))
    if inst.skip_numeric:
        return "skip"
    leaves, tree = jax.tree.flatten(inst.inputs, is_leaf=is_in)
    vals = [l.concrete(rng) for l in leaves]
    for nm, ix, x in overrides:
        if nm == "*":       # sprinkle a special value over the array
            base = ix[:-3] if ix[-3:] in (".re", ".im") else ix
            for l, v in zip(leaves, vals):
                if l.name == base and v.dtype.kind in "fci":
                    mask = rng.integers(0, 3, v.shape) == 0
                    v[...] = onp.where(mask, onp.asarray(x).astype(v.dtype), v)
            continue
        base = nm[:-3] if nm[-3:] in (".re", ".im") else nm
        for l, v in zip(leaves, vals):
            if l.name == base and len(ix) == v.ndim and all(
                    0 <= i < n for i, n in zip(ix, v.shape)):
                if nm.endswith(".re"):
                    v[tuple(ix)] = x + 1j * v[tuple(ix)].imag
                elif nm.endswith(".im"):
                    v[tuple(ix)] = v[tuple(ix)].real + 1j * x
                else:
                    v[tuple(ix)] = x
    args = jax.tree.unflatten(tree, [jax.numpy.asarray(v) for v in vals])
    arrays = {l.name: v for l, v in zip(leaves, vals)}
    inp = {l.name: v.tolist() if v.dtype.kind != "c" else str(v.tolist())
           for l, v in zip(leaves, vals)}
    try:
        out = inst.fn(*args)
    except sym.Unsupported:
        return "skip"
    except Exception as e:
        if harness_mismatch(e):
            return "skip"
        return dict(inputs=inp, error=f"{type(e).__name__}: {str(e)[:400]}")
    outl, outtree = jax.tree.flatten(out)
    outl = [onp.asarray(o) for o in outl]
    # symbolic spec evaluated at the concrete inputs
    sin = [l.sym() for l in leaves]
    stree = jax.tree.unflatten(tree, sin)
    num = Num({k: v for k, v in cd.items()}, arrays, inst.opaque)
    if inst.ref is not None:
        rl, rt = jax.tree.flatten(inst.ref(*args))
        if rt != outtree:
            return dict(inputs=inp, error=f"structure {outtree} != {rt}")
        for k, (o, want) in enumerate(zip(outl, rl)):
            want = onp.asarray(want)
            if want.shape != o.shape:
                return dict(inputs=inp, error=f"output {k} shape {o.shape} "
                            f"expected {want.shape}")
            if (want.dtype.kind == "c") != (o.dtype.kind == "c"):
                return dict(inputs=inp, error=f"output {k} dtype {o.dtype} "
                            f"expected {want.dtype}")
            if not _close(o, want, case.rtol):
                return dict(inputs=inp, output=k, got=str(o.tolist())[:2000],
                            expected=str(want.tolist())[:2000])
    if inst.spec is not None:
        specs = inst.spec(*stree)
        sl, st = jax.tree.flatten(specs, is_leaf=lambda x: isinstance(x, SArr))
        if st != outtree:
            return dict(inputs=inp, error=f"structure {outtree} != {st}")
        for k, (o, s) in enumerate(zip(outl, sl)):
            want = num.arr(s)
            if want.shape != o.shape:
                return dict(inputs=inp, error=f"output {k} shape {o.shape} "
                            f"expected {want.shape}")
            if s.kind in "fc" and o.dtype.kind == "c" and s.kind == "f":
                return dict(inputs=inp, error=f"output {k} is complex")
            if not _close(o, want, case.rtol):
                return dict(inputs=inp, output=k, got=str(o.tolist())[:2000],
                            expected=str(want.tolist())[:2000])
    if inst.goals is not None:
        couts = []
        for k, o in enumerate(outl):
            arrays[f"out!{k}"] = o
            couts.append(sym.array(f"out!{k}", o.shape, o.dtype))
        goals = inst.goals(jax.tree.unflatten(outtree, couts), *stree)
        for g in goals:
            if g.kind == "eq":
                x, y = num.arr(g.a), num.arr(g.b)
                if x.shape != y.shape or not _close(x, y, case.rtol):
                    return dict(inputs=inp, goal=g.name,
                                got=str(x.tolist())[:1500],
                                expected=str(y.tolist())[:1500])
    return None


def _close(o, want, rtol):
    o = onp.asarray(o)
    if o.dtype.kind == "b" or want.dtype.kind == "b":
        return bool((o == want).all())
    if o.dtype.kind in "iu" and want.dtype.kind in "iu":
        return bool((o == want).all())
    fin = onp.isfinite(want)
    if not (onp.isfinite(o) == fin).all():
        return False
    if o[fin].size == 0:
        return True
    sc = 1.0 + onp.abs(want[fin])
    tol = rtol if o.dtype in (onp.float64, onp.complex128) else max(rtol, 1e-4)
    return bool((onp.abs(o[fin] - want[fin]) <= tol * sc * 10).all())


def spec_array(shape, kind, fn):
    return SArr([sym.dim(s) for s in shape], kind, fn)


FIELDS = ("partly", "obligations", "bounded", "failures", "unsupported", "undecided",
          "assumptions", "funcs", "reached", "known", "notes", "numeric")


def _task(rep, t):
    if callable(t):
        t(rep)
        return
    try:
        rep.run_case(t)
    except Exception as e:
        traceback.print_exc()
        rep.undecided.append((t.name, f"{type(e).__name__}: {e}"))


def main(prop, cases, extra=None, workers=None):
    """extra: function(s) of the report, run after the cases"""
    tier = sys.argv[1] if len(sys.argv) > 1 else os.environ.get(
        "VERIF_TIER", "quick")
    rep = Report(prop, tier)
    only = os.environ.get("VC_ONLY")
    ex = [] if extra is None else list(extra) if isinstance(extra, (list, tuple)) else [extra]
    part = os.environ.get("VC_PART")
    if part:                          # a worker: takes tasks until none is left
        tasks = list(cases) + ex
        order = os.environ["VC_ORDER"].split(",")
        while True:
            n = _next_task(part)
            if n >= len(order):
                break
            _task(rep, tasks[int(order[n])])
        for f in rep.failures:
            f.info, f.replay = [json.loads(json.dumps(x, default=str)) for x in (f.info, f.replay)]
        out = {k: getattr(rep, k) for k in FIELDS}
        out["stats"] = (T.Stats.queries, T.Stats.solver_s)
        with open(f"{part}.{os.getpid()}", "wb") as fh:
            pickle.dump(out, fh)
        sys.stdout.flush()
        os._exit(0)
    n = workers or int(os.environ.get("VC_WORKERS", "8"))
    n = min(n, len(cases) + len(ex))
    spec = sys.modules["__main__"].__spec__
    if only or n <= 1 or spec is None:
        for c in cases:
            if not only or only in c.name:
                _task(rep, c)
        if not only or only == "extra" or only.startswith("x:"):
            for e in ex:
                _task(rep, e)
        sys.exit(rep.finish())
    d = tempfile.mkdtemp(prefix="vc")
    part = os.path.join(d, "p")
    # long tasks first: their cost as the author states it
    idx = list(range(len(cases) + len(ex)))
    cost = [getattr(c, "cost", 1) for c in cases] + [getattr(e, "cost", 30) for e in ex]
    idx.sort(key=lambda k: -cost[k])
    env = dict(os.environ, VC_PART=part, VC_ORDER=",".join(map(str, idx)))
    ps = [subprocess.Popen([sys.executable, "-W", "ignore", "-m", spec.name, tier],
                           env=env) for _ in range(n)]
    for p in ps:
        p.wait()
    dead = sum(p.returncode != 0 for p in ps)
    for f in sorted(os.listdir(d)):
        if f == "p":
            continue
        with open(os.path.join(d, f), "rb") as fh:
            o = pickle.load(fh)
        for k in FIELDS:
            v = getattr(rep, k)
            if isinstance(v, list):
                v.extend(o[k])
            elif isinstance(v, set):
                v |= o[k]
            else:
                setattr(rep, k, v + o[k])
        T.Stats.queries += o["stats"][0]
        T.Stats.solver_s += o["stats"][1]
    shutil.rmtree(d, ignore_errors=True)
    if dead:
        print(f"ERROR: {dead} worker(s) ended early")
        rep.undecided.append(("worker", "ended early"))
        rc = rep.finish()
        sys.exit(rc or 2)
    sys.exit(rep.finish())


def _next_task(part):
    with open(part, "a+") as fh:
        fcntl.flock(fh, fcntl.LOCK_EX)
        fh.seek(0)
        n = int(fh.read() or 0)
        fh.seek(0)
        fh.truncate()
        fh.write(str(n + 1))
    return n
