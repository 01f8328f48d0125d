"""Numeric evaluation of terms (engine cross-check and replay oracle)."""
from __future__ import annotations

import itertools
import math

import numpy as onp
import scipy.special as sps

from . import terms as T
from .terms import B, Cx, Lam, Poly

FUN = {
    "exp": math.exp, "log": math.log, "sin": math.sin, "cos": math.cos,
    "tan": math.tan, "tanh": math.tanh, "sinh": math.sinh, "cosh": math.cosh,
    "atan": math.atan, "asin": math.asin, "acos": math.acos,
    "asinh": math.asinh, "acosh": math.acosh, "atanh": math.atanh,
    "log1p": math.log1p, "expm1": math.expm1, "erf": math.erf,
    "erfc": math.erfc, "floor": math.floor, "ceil": math.ceil,
    "round": round, "trunc": math.trunc, "atan2": math.atan2,
    "pow": lambda a, b: a ** b, "lgamma": math.lgamma,
    "digamma": lambda a: float(sps.digamma(a)),
    "erf_inv": lambda a: float(sps.erfinv(a)),
    "cbrt": math.cbrt, "exp2": lambda a: 2.0 ** a,
    "rem": math.fmod,
}
import cmath  # noqa: E402

CFUN = {
    "exp": cmath.exp, "log": cmath.log, "sin": cmath.sin, "cos": cmath.cos,
    "tan": cmath.tan, "tanh": cmath.tanh, "sinh": cmath.sinh,
    "cosh": cmath.cosh, "sqrt": cmath.sqrt, "pow": lambda a, b: a ** b,
    "atan": cmath.atan, "asin": cmath.asin, "acos": cmath.acos,
    "asinh": cmath.asinh, "acosh": cmath.acosh, "atanh": cmath.atanh,
    "logistic": lambda z: 1 / (1 + cmath.exp(-z)),
    "log1p": lambda z: cmath.log(1 + z), "expm1": lambda z: cmath.exp(z) - 1,
}


class Opaque:
    """registry of concrete implementations of opaque functionals"""

    impl: dict = {}


class Num:
    def __init__(self, vals, arrays, opaque=None):
        self.vals = dict(vals)      # var name -> number
        self.arrays = arrays        # name -> ndarray
        self.opaque = opaque or {}
        self.v = {}                 # atom -> number
        self.memo = {}

    def var(self, a):
        if a in self.v:
            return self.v[a]
        if a.kind == "var":
            n = a.args[0]
            if n == "INF":
                return math.inf
            if n == "NAN":
                return math.nan
            return self.vals[n]
        raise KeyError(a)

    def poly(self, p):
        r = 0
        for m, c in p.t.items():
            t = c.numerator / c.denominator if c.denominator != 1 else c.numerator
            # indicators first: do not evaluate the branch not taken
            for a, e in m:
                if a.kind == "ind":
                    if not self.bool(a.args[0]):
                        t = 0
                        break
            if t == 0:
                continue
            for a, e in m:
                if a.kind == "ind":
                    continue
                x = self.atom(a)
                if e < 0 and x == 0:
                    x = math.inf
                    t = t * x
                else:
                    t = t * x ** e
            r = r + t
        return r

    def elem(self, x):
        if isinstance(x, Cx):
            return complex(self.poly(x.re), self.poly(x.im))
        if isinstance(x, B):
            return self.bool(x)
        return self.poly(x)

    def bool(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        if b.op == "lt0":
            return self.poly(b.args[0]) < 0
        if b.op == "le0":
            return self.poly(b.args[0]) <= 0
        if b.op == "eq0":
            return self.poly(b.args[0]) == 0
        if b.op == "not":
            return not self.bool(b.args[0])
        if b.op == "and":
            return all(self.bool(x) for x in b.args)
        if b.op == "or":
            return any(self.bool(x) for x in b.args)
        if b.op == "app":
            return self.poly(b.args[0]) > 0
        raise AssertionError

    def atom(self, a):
        if a.kind in ("var", "bv"):
            return self.var(a)
        key = (a,) + tuple(
            self.v.get(x, None) for x in sorted(a.fv) if x in self.v
        )
        r = self.memo.get(key)
        if r is None:
            r = self.memo[key] = self.atom0(a)
        return r

    def atom0(self, a):
        k = a.kind
        if k == "app":
            name = a.args[0]
            args = [self.poly(x) for x in a.args[1:]]
            if name.startswith("fun:c") and name[-3:] in (".re", ".im") \
                    and name[5:-3] in CFUN:
                z = [complex(args[i], args[i + 1])
                     for i in range(0, len(args), 2)]
                r = CFUN[name[5:-3]](*z)
                return r.real if name.endswith(".re") else r.imag
            if name.startswith("fun:"):
                return FUN[name[4:]](*args)
            if name == "pred:finite":
                return 1 if math.isfinite(args[0]) else 0
            if name.startswith("pred:"):
                arr = self.arrays[name[5:]]
                return 1 if arr[tuple(int(x) for x in args)] else 0
            if name in self.opaque:
                return self.opaque[name](*args)
            base, part = name, None
            if name.endswith(".re") or name.endswith(".im"):
                base, part = name[:-3], name[-2:]
            arr = self.arrays[base]
            idx = tuple(int(x) for x in args)
            if any(i < 0 for i in idx):
                raise IndexError(f"{name}{idx}")
            x = arr[idx]
            if part == "re":
                return float(x.real)
            if part == "im":
                return float(x.imag)
            if arr.dtype.kind in "iu":
                return int(x)
            return float(x)
        if k == "inv":
            d = self.poly(a.args[0])
            return 1 / d if d else math.inf
        if k == "sqrt":
            x = self.poly(a.args[0])
            return math.sqrt(x) if x >= 0 else (
                0.0 if x > -1e-12 else math.nan)
        if k == "pos":
            x = self.poly(a.args[0])
            return x if x > 0 else 0
        if k == "ind":
            return 1 if self.bool(a.args[0]) else 0
        if k == "div":
            return self.poly(a.args[0]) // self.poly(a.args[1])
        if k == "sum":
            h, rg, body = a.args
            return self._sum(h, rg, body, 0)
        if k == "clo":
            return self.clo(a)
        raise AssertionError(k)

    def _sum(self, h, rg, body, k):
        # ranges may depend on other bound variables: find an order
        n = len(rg)
        bvs = [T.bv(h, j) for j in range(n)]
        order, left = [], list(range(n))
        while left:
            for j in left:
                if all(b not in rg[j].fv or bvs.index(b) in order
                       for b in bvs):
                    order.append(j)
                    left.remove(j)
                    break
            else:
                raise AssertionError("cyclic ranges")
        saved = {b: self.v.get(b) for b in bvs}

        def rec(t):
            if t == n:
                return self.poly(body)
            j = order[t]
            hi = int(self.poly(rg[j]))
            r = 0
            for x in range(hi):
                self.v[bvs[j]] = x
                r = r + rec(t + 1)
            return r
        r = rec(0)
        for b, x in saved.items():
            if x is None:
                self.v.pop(b, None)
            else:
                self.v[b] = x
        return r

    def lam(self, L, comp=0):
        sizes = [int(self.poly(r)) for r in L.ranges]
        bvs = [T.bv(L.h, j) for j in range(len(sizes))]
        saved = {b: self.v.get(b) for b in bvs}
        outs = [onp.empty(sizes, dtype=complex if isinstance(x, Cx) else float)
                for x in L.body]
        for pos in itertools.product(*[range(s) for s in sizes]):
            for b, x in zip(bvs, pos):
                self.v[b] = x
            for o, x in zip(outs, L.body):
                o[pos] = self.elem(x)
        for b, x in saved.items():
            if x is None:
                self.v.pop(b, None)
            else:
                self.v[b] = x
        return outs

    def clo(self, a):
        name, static, lams, idx = a.args
        idx = [self.poly(i) for i in idx]
        key = (name, static, lams, tuple(
            self.v.get(x) for x in sorted(T._fvs(lams)) if x in self.v))
        if name in self.opaque:
            ls = [self.lam(L) for L in lams]
            return self.opaque[name](static, ls, idx)
        r = self.memo.get(key)
        if r is None:
            ls = [self.lam(L) for L in lams]
            if name in ("eigval", "eigvec.re", "eigvec.im"):
                import jax.numpy as jnp
                m = ls[0][0]
                if onp.all(m.imag == 0):
                    m = m.real
                w, v = jnp.linalg.eigh(m)
                r = (onp.asarray(w), onp.asarray(v))
            elif name == "singval":
                r = onp.linalg.svd(ls[0][0], compute_uv=False)
            elif name == "sortperm":
                r = onp.lexsort(tuple(reversed(
                    [l for l in ls[0]] )), axis=0)
            elif name == "rmax":
                r = ls[0][0].max()
            elif name == "rmin":
                r = ls[0][0].min()
            elif name == "rprod":
                r = ls[0][0].prod()
            elif name == "argmax":
                r = int(ls[0][0].argmax())
            elif name == "argmin":
                r = int(ls[0][0].argmin())
            else:
                raise KeyError(name)
            self.memo[key] = r
        if name == "eigval":
            return float(r[0][int(idx[0])])
        if name == "eigvec.re":
            return float(r[1][int(idx[0]), int(idx[1])].real)
        if name == "eigvec.im":
            return float(r[1][int(idx[0]), int(idx[1])].imag)
        if name in ("singval", "sortperm"):
            return r[int(idx[0])].item()
        return r

    def arr(self, sa):
        """numeric value of a whole symbolic array"""
        shape = tuple(int(self.poly(s)) for s in sa.shape)
        dt = {"c": complex, "f": float, "i": int, "b": bool, "k": int}[sa.kind]
        out = onp.empty(shape, dtype=dt)
        if out.size == 0:
            return out
        vs = [T.fresh("n", s) for s in sa.shape]
        e = sa[tuple(T.P(v) for v in vs)]
        for pos in onp.ndindex(*shape):
            for v, x in zip(vs, pos):
                self.v[v] = x
            out[pos] = self.elem(e)
        for v in vs:
            self.v.pop(v, None)
        return out
