"""Case analysis on shape conditions.

Python code of /repo may branch on array sizes (`if x.shape[0] == 3`).  With a
symbolic size the comparison has no fixed answer; the extraction is then
repeated once per outcome, with the outcome as an additional precondition.
Comparisons made inside JAX itself are left to JAX's shape reasoning.
"""
from __future__ import annotations

import os
import sys

from jax._src.export import shape_poly as sp

from . import terms as T


CMP = {"eq": lambda a, b: T.eq(a, b), "ne": lambda a, b: T.ne(a, b),
       "ge": lambda a, b: T.ge(a, b), "le": lambda a, b: T.le(a, b),
       "gt": lambda a, b: T.gt(a, b), "lt": lambda a, b: T.lt(a, b)}


class Fork(BaseException):
    def __init__(self, op, a, b):
        self.op, self.a, self.b = op, a, b


ACTIVE = [False]
ROOTS = (os.environ.get("VC_REPO", "/repo") + "/",
         os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                      "checks") + "/")
_orig = {n: getattr(sp._DimExpr, n)
         for n in ("__eq__", "__ne__", "__ge__", "__le__", "__gt__", "__lt__")}


def _ok(o):
    return isinstance(o, (int, sp._DimExpr)) and not isinstance(o, bool)


def _patch(name, op):
    orig = _orig[name]

    def f(self, other):
        if ACTIVE[0] and _ok(other):
            fr = sys._getframe(1)
            if fr.f_code.co_filename.startswith(ROOTS):
                from .sym import dim
                ACTIVE[0] = False
                try:
                    p, q = dim(self), dim(other)
                    r = T.decide(CMP[op](p, q))
                finally:
                    ACTIVE[0] = True
                if r is None:
                    raise Fork(op, p, q)
                return r
            try:
                return orig(self, other)
            except sp.InconclusiveDimensionOperation:
                # a comparison inside JAX: the preconditions may settle it
                from .sym import dim
                ACTIVE[0] = False
                try:
                    r = T.decide(CMP[op](dim(self), dim(other)))
                finally:
                    ACTIVE[0] = True
                if r is None:
                    raise
                return r
        return orig(self, other)
    f.__name__ = name
    setattr(sp._DimExpr, name, f)


for _n, _o in (("__eq__", "eq"), ("__ne__", "ne"), ("__ge__", "ge"),
               ("__le__", "le"), ("__gt__", "gt"), ("__lt__", "lt")):
    _h = sp._DimExpr.__hash__
    _patch(_n, _o)
sp._DimExpr.__hash__ = _h


def to_dim(p, sdims):
    """Poly over dim variables -> int / DimExpr"""
    r = 0
    for m, c in p.t.items():
        assert c.denominator == 1
        t = int(c)
        for a, e in m:
            if a.kind != "var":
                raise ValueError("not a polynomial in dims")
            for _ in range(e):
                t = t * sdims[a.args[0]]
        r = r + t
    return r

# sizes are values: a copied hyperparameter keeps the same size
sp._DimExpr.__deepcopy__ = lambda self, memo: self
sp._DimExpr.__copy__ = lambda self: self
