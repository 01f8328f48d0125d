"""Symbolic lists, tuples and dicts of any length, see vc/pysym.py.

A sequence is a length and a function from positions to elements (tuples of
terms); the operations follow the semantics of Python's own containers."""
from __future__ import annotations

import builtins

from . import pysym as Y
from .pysym import Opq, Run, SBool, SInt, SStr, Unsupported, Val, toint, tostr, z3, _guard


def clamp(i, n):
    """a slice bound or insertion point"""
    i = toint(i)
    return z3.simplify(z3.If(i < 0, z3.If(i + n < 0, z3.IntVal(0), i + n), z3.If(i > n, n, i)))


class Sq:
    def __init__(self, n, at, pairs=False):
        self.n, self.at, self.pairs = n, at, pairs

    def wrap(self, k):
        e = self.at(k)
        return (SStr(e[0]), Opq(e[1])) if self.pairs else Opq(e[0])

    def unwrap(self, x):
        if self.pairs:
            if not (isinstance(x, builtins.tuple) and len(x) == 2 and isinstance(x[1], Opq)):
                raise Unsupported("element of a list of pairs")
            return tostr(x[0]), x[1].e
        if not isinstance(x, Opq):
            raise Unsupported("element of a list")
        return (x.e,)

    def pos(self, i):
        i = toint(i)
        if not SBool(z3.And(i >= -self.n, i < self.n)):
            raise IndexError("index out of range")
        return z3.If(i < 0, i + self.n, i)

    def inserted(self, i, e):
        p, at = clamp(i, self.n), self.at
        return Sq(self.n + 1, lambda k: _ite(k < p, at(k), _ite(k == p, e, at(k - 1))), self.pairs)

    def removed(self, p):
        at = self.at
        return Sq(self.n - 1, lambda k: _ite(k < p, at(k), at(k + 1)), self.pairs)

    def replaced(self, p, e):
        at = self.at
        return Sq(self.n, lambda k: _ite(k == p, e, at(k)), self.pairs)

    def part(self, s):
        if s.step not in (None, 1):
            raise Unsupported("slice with a step")
        a = z3.IntVal(0) if s.start is None else clamp(s.start, self.n)
        b = self.n if s.stop is None else clamp(s.stop, self.n)
        at = self.at
        return Sq(z3.If(b > a, b - a, 0), lambda k: at(a + k), self.pairs)

    def plus(self, o):
        n, at = self.n, self.at
        return Sq(n + o.n, lambda k: _ite(k < n, at(k), o.at(k - n)), self.pairs)

    def const(self, xs):
        es = [self.unwrap(x) for x in xs]

        def at(k):
            r = es[-1]
            for j in range(len(es) - 2, -1, -1):
                r = _ite(k == j, es[j], r)
            return r
        if not es:
            return Sq(z3.IntVal(0), self.at, self.pairs)
        return Sq(z3.IntVal(len(es)), at, self.pairs)


def _ite(c, a, b):
    return tuple(z3.If(c, x, y) for x, y in zip(a, b))


class _S:
    def slen(self):
        return SInt(self.q.n)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self)(self.q.part(i))
        return self.q.wrap(self.q.pos(i))

    def _other(self, o):
        if hasattr(o, "q"):
            return o.q
        if type(o) in (builtins.list, builtins.tuple):
            return self.q.const(o)
        raise Unsupported(f"concatenation with {type(o).__name__}")

    def __add__(self, o):
        return type(self)(self.q.plus(self._other(o)))

    def __radd__(self, o):
        return type(self)(self._other(o).plus(self.q))

    def __bool__(self):
        return Run.cur.decide(self.q.n > 0)

    def __repr__(self):
        return "..."


class PList(_S, list):
    def __init__(self, q):
        list.__init__(self)
        self.q = q

    def insert(self, i, x):
        self.q = self.q.inserted(i, self.q.unwrap(x))

    def append(self, x):
        self.q = self.q.inserted(SInt(self.q.n), self.q.unwrap(x))

    def pop(self, i=-1):
        if not SBool(self.q.n > 0):
            raise IndexError("pop from empty list")
        p = self.q.pos(i)
        r = self.q.wrap(p)
        self.q = self.q.removed(p)
        return r

    def __delitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("deleting a slice")
        self.q = self.q.removed(self.q.pos(i))

    def __setitem__(self, i, x):
        if isinstance(i, slice):
            a, b = self.q.part(slice(None, i.start)), self.q
            lo = z3.IntVal(0) if i.start is None else clamp(i.start, b.n)
            hi = b.n if i.stop is None else clamp(i.stop, b.n)
            hi = z3.If(hi > lo, hi, lo)
            if i.step not in (None, 1):
                raise Unsupported("slice with a step")
            a = Sq(lo, b.at, b.pairs)
            c = Sq(b.n - hi, lambda k: b.at(hi + k), b.pairs)
            self.q = a.plus(self._other(x)).plus(c)
            return
        self.q = self.q.replaced(self.q.pos(i), self.q.unwrap(x))

    def copy(self):
        return PList(self.q)


class PTuple(_S, tuple):
    def __new__(cls, q):
        o = tuple.__new__(cls)
        o.q = q
        return o

    def __init__(self, q):
        pass


_ok = ("__getitem__", "__add__", "__radd__", "__bool__")
_guard(PList, list, _ok + ("insert", "append", "pop", "__delitem__", "__setitem__", "copy"))
_guard(PTuple, tuple, _ok)


class PDict(dict):
    """a dict in its insertion order; its keys are distinct (assumed)"""

    def __init__(self, q, distinct=True):
        dict.__init__(self)
        self.q = q
        if distinct:
            a, b = z3.Ints("ka kb")
            Run.cur.pc.append(z3.ForAll([a, b], z3.Implies(
                z3.And(0 <= a, a < b, b < q.n), q.at(a)[0] != q.at(b)[0])))

    def slen(self):
        return SInt(self.q.n)

    def items(self):
        return PItems(self.q)

    def _find(self, k):
        """its position, or None"""
        p = z3.FreshInt("p")
        if SBool(z3.FreshBool("has")):
            Run.cur.pc.append(z3.And(0 <= p, p < self.q.n, self.q.at(p)[0] == tostr(k)))
            return p
        j = z3.Int("kj")
        Run.cur.pc.append(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.q.n),
                                                    self.q.at(j)[0] != tostr(k))))
        return None

    def __getitem__(self, k):
        p = self._find(k)
        if p is None:
            raise KeyError("?")
        return Opq(self.q.at(p)[1])

    def __contains__(self, k):
        return self._find(k) is not None

    def __setitem__(self, k, x):
        p = self._find(k)
        e = (tostr(k), self.q.unwrap((k, x))[1])
        self.q = self.q.inserted(SInt(self.q.n), e) if p is None else self.q.replaced(p, e)

    def pop(self, k, *d):
        p = self._find(k)
        if p is None:
            if d:
                return d[0]
            raise KeyError("?")
        r = Opq(self.q.at(p)[1])
        self.q = self.q.removed(p)
        return r

    def __delitem__(self, k):
        self.pop(k)

    def __bool__(self):
        return Run.cur.decide(self.q.n > 0)

    def copy(self):
        return PDict(self.q, False)

    def __repr__(self):
        return "{...}"


_guard(PDict, dict, ("__getitem__", "__contains__", "__setitem__", "pop", "__delitem__", "items", "copy",
                     "__bool__"))


class PItems:
    def __init__(self, q):
        self.q = q


def _make(base, cls):
    class Meta(type):
        def __instancecheck__(c, o):
            return isinstance(o, base)

        def __subclasscheck__(c, o):
            return issubclass(o, base)

        def __eq__(c, o):
            return o is base or o is c

        def __hash__(c):
            return hash(base)

        def __call__(c, *a):
            if a and hasattr(a[0], "q"):
                if cls is PDict and not isinstance(a[0], PDict):
                    if not a[0].q.pairs:
                        raise Unsupported("dict of a list")
                return cls(a[0].q) if cls is not PDict else PDict(a[0].q, False)
            return base(*a)
    return Meta("Shim_" + base.__name__, (), {})


SHIMS = {"list": _make(list, PList), "tuple": _make(tuple, PTuple), "dict": _make(dict, PDict)}
