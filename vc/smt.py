"""Back end: translation of conditions to z3."""
from __future__ import annotations

import sys
import time

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3  # noqa: E402

from . import terms as T  # noqa: E402

_z: dict = {}
_funs: dict = {}


def _const(a):
    r = _z.get(a)
    if r is None:
        nm = f"k{a.id}"
        r = z3.Int(nm) if a.sort == "Z" else z3.Real(nm)
        _z[a] = r
    return r


def zatom(a, side):
    k = a.kind
    if k in ("var", "bv"):
        return _const(a)
    if k == "ind":
        return z3.If(zb(a.args[0], side), z3.IntVal(1), z3.IntVal(0))
    if k == "pos":
        p = zpoly(a.args[0], side, a.sort == "Z")
        return z3.If(p > 0, p, z3.IntVal(0) if a.sort == "Z" else z3.RealVal(0))
    if k == "div":
        p, q = a.args
        return zpoly(p, side, True) / zpoly(q, side, True)
    if k == "app" and len(a.args) > 1:
        args = a.args[1:]
        zs = [zpoly(x, side, x.is_int) for x in args]
        key = (a.args[0], tuple(x.is_int for x in args), a.sort)
        f = _funs.get(key)
        if f is None:
            f = z3.Function(
                f"f{len(_funs)}",
                *[z3.IntSort() if x.is_int else z3.RealSort() for x in args],
                z3.IntSort() if a.sort == "Z" else z3.RealSort(),
            )
            _funs[key] = f
        r = f(*zs)
    elif k == "clo" and a.args[3] and not any(
        x.kind == "bv" for l in a.args[2] for x in l.fv
    ):
        args = a.args[3]
        zs = [zpoly(x, side, x.is_int) for x in args]
        key = (
            a.args[0],
            a.args[1],
            a.args[2],
            tuple(x.is_int for x in args),
            a.sort,
        )
        f = _funs.get(key)
        if f is None:
            f = z3.Function(
                f"f{len(_funs)}",
                *[z3.IntSort() if x.is_int else z3.RealSort() for x in args],
                z3.IntSort() if a.sort == "Z" else z3.RealSort(),
            )
            _funs[key] = f
        r = f(*zs)
    elif k == "sqrt":
        r = _const(a)
        p = zpoly(a.args[0], side)
        side.add((a.id, "sqrt"), z3.Implies(p >= 0, z3.And(r >= 0, r * r == p)))
    elif k == "inv":
        r = _const(a)
        p = zpoly(a.args[0], side)
        side.add((a.id, "inv"), z3.Implies(p != 0, r * p == 1))
    else:
        r = _const(a)
    for fact in ATOMFACTS(a):
        side.pend(fact)
    return r


# facts attached to atoms (axioms of dependency contracts); extended by sym
_ATOMFACT_FNS = []


def ATOMFACTS(a):
    out = []
    for f in _ATOMFACT_FNS:
        out += f(a) or []
    return out


class Side:
    def __init__(self):
        self.d = {}
        self.pending = {}

    def add(self, k, f):
        self.d[k] = f

    def pend(self, b):
        if b.id not in self.pending:
            self.pending[b.id] = b


def zpoly(p, side, as_int=None):
    p = T.P(p)
    if as_int is None:
        as_int = p.is_int
    terms = []
    for m, c in p.t.items():
        if as_int:
            t = z3.IntVal(int(c)) if (c != 1 or not m) else None
        else:
            t = (
                z3.RealVal(f"{c.numerator}/{c.denominator}")
                if (c != 1 or not m)
                else None
            )
        for a, e in m:
            z = zatom(a, side)
            if not as_int and z.is_int():
                z = z3.ToReal(z)
            if e < 0:
                w = z3.Real(f"inv{a.id}")
                side.add((a.id, "winv"), z3.Implies(z != 0, w * z == 1))
                z = w
                e = -e
            for _ in range(e):
                t = z if t is None else t * z
        terms.append(t)
    if not terms:
        return z3.IntVal(0) if as_int else z3.RealVal(0)
    r = terms[0]
    for t in terms[1:]:
        r = r + t
    return r


def zb(b, side):
    if b is T.TRUE:
        return z3.BoolVal(True)
    if b is T.FALSE:
        return z3.BoolVal(False)
    if b.op == "lt0":
        return zpoly(b.args[0], side) < 0
    if b.op == "le0":
        return zpoly(b.args[0], side) <= 0
    if b.op == "eq0":
        return zpoly(b.args[0], side) == 0
    if b.op == "not":
        return z3.Not(zb(b.args[0], side))
    if b.op == "and":
        return z3.And(*[zb(x, side) for x in b.args])
    if b.op == "or":
        return z3.Or(*[zb(x, side) for x in b.args])
    if b.op == "app":
        return zpoly(b.args[0], side) > 0
    raise AssertionError(b.op)


def _facts(fv):
    """facts of the variables, transitively"""
    seen, todo, out = set(), list(fv), []
    while todo:
        v = todo.pop()
        if v in seen:
            continue
        seen.add(v)
        for f in T.VARFACTS.get(v, ()):
            out.append(f)
            todo.extend(f.fv)
    return out


def query(bs, timeout=2000, want_model=False):
    """satisfiability of the conjunction of bs with the facts in force"""
    t0 = time.time()
    side = Side()
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 1)
    allb = list(bs) + list(T.CTX) + list(T.GLOBAL)
    fv = set()
    for b in allb:
        fv |= b.fv
    allb += _facts(fv)
    done = set()
    for b in allb:
        if b.id in done:
            continue
        done.add(b.id)
        s.add(zb(b, side))
    n = 0
    while n < 4:
        new = [b for i, b in side.pending.items() if i not in done]
        if not new:
            break
        fv2 = set()
        for b in new:
            done.add(b.id)
            fv2 |= b.fv
            s.add(zb(b, side))
        for b in _facts(fv2 - fv):
            if b.id not in done:
                done.add(b.id)
                s.add(zb(b, side))
        fv |= fv2
        n += 1
    for f in side.d.values():
        s.add(f)
    r = s.check()
    T.Stats.queries += 1
    T.Stats.solver_s += time.time() - t0
    if want_model:
        return str(r), (s.model() if r == z3.sat else None), s
    return str(r)


def decide(b, timeout=2000):
    if query([T.bnot(b)], timeout) == "unsat":
        return True
    if query([b], timeout) == "unsat":
        return False
    return None
