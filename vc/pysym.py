"""Contracts on plain Python functions (strings, containers).

The real function object runs on symbolic values; a test of a symbolic truth
value forks the run (every feasible outcome is explored, feasibility by z3), so
the runs cover every execution of a function without unbounded loops.  Callees
under contract - recursive calls included - are replaced by stubs that record
the call and return a value constrained by their contract only.  Operations
outside of the supported ones raise Unsupported: the caller of the engine then
falls back to a bounded check.
"""
from __future__ import annotations

import builtins
import time

from . import smt
from .sym import Unsupported
from .terms import Stats

z3 = smt.z3
Val = z3.DeclareSort("Val")


class Infeasible(Exception):
    pass


class Run:
    """one execution: decisions taken and the path condition"""
    cur = None
    timeout = 20000
    deadline = None

    def __init__(self, pre, facts):
        self.pre, self.taken, self.alts = pre, [], []
        self.pc = list(facts)
        self.log = []            # effects, in order

    def sat(self, *cs):
        if Run.deadline and time.time() > Run.deadline:
            raise Unsupported("time limit of the prover")
        s = z3.Solver()
        s.set("timeout", Run.timeout)
        s.add(*AXIOMS, *self.pc, *cs)
        t = time.time()
        r = s.check()
        Stats.queries += 1
        Stats.solver_s += time.time() - t
        return r

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        k = len(self.taken)
        if k < len(self.pre):
            o = self.pre[k]
        else:
            if len(self.taken) > 60:
                raise Unsupported("more than 60 decisions in one run")
            can = [b for b in (True, False)
                   if self.sat(cond if b else z3.Not(cond)) != z3.unsat]
            if not can:
                raise Infeasible()
            o = can[0]
            if len(can) == 2:
                self.alts.append(self.taken[:] + [False])
        self.taken.append(o)
        self.pc.append(cond if o else z3.Not(cond))
        return o


AXIOMS = []


def runs(fn, facts=(), limit=400):
    """[(Run, ('return', value) | ('raise', exception))] of every feasible path"""
    todo, out = [[]], []
    while todo:
        if len(out) > limit:
            raise Unsupported("too many paths")
        r = Run(todo.pop(), facts)
        Run.cur = r
        try:
            v = ("return", fn())
        except Unsupported:
            raise
        except Infeasible:
            todo += r.alts
            continue
        except Exception as e:
            v = ("raise", e)
        finally:
            Run.cur = None
        todo += r.alts
        out.append((r, v))
    return out


def prove(run, goal, timeout=30000, quantified=False):
    """is the goal a consequence of the path condition?  (True, None) or
    (False, model) or (None, None)"""
    if goal is True:
        return True, None
    if goal is False:
        goal = z3.BoolVal(False)
    if quantified:       # the facts as tracked literals, first by patterns only
        for mb, seed in ((False, 0), (True, 0), (False, 7), (True, 7), (True, 23)):
            s = z3.Solver()
            s.set("timeout", timeout // 4)
            s.set("random_seed", seed)
            if not mb:
                s.set("auto_config", False)
                s.set("mbqi", False)
            for k, f in enumerate(AXIOMS + run.pc):
                s.assert_and_track(f, f"fact{k}")
            s.add(z3.Not(goal))
            t = time.time()
            r = s.check()
            Stats.queries += 1
            Stats.solver_s += time.time() - t
            if r == z3.unsat:
                return True, None
        return None, None
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*AXIOMS, *run.pc, z3.Not(goal))
    t = time.time()
    r = s.check()
    Stats.queries += 1
    Stats.solver_s += time.time() - t
    if r == z3.unsat:
        return True, None
    return (False, s.model()) if r == z3.sat else (None, None)


# ---------------------------------------------------------------- values
class SBool:
    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return Run.cur.decide(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, tobool(o)))
    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, tobool(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __eq__(self, o):
        return SBool(self.e == tobool(o))

    def __hash__(self):
        raise Unsupported("hash of a symbolic truth value")


def tobool(o):
    return o.e if isinstance(o, SBool) else z3.BoolVal(bool(o))


def toint(o):
    if isinstance(o, SInt):
        return o.e
    if type(o) is int or type(o) is bool:
        return z3.IntVal(int(o))
    raise Unsupported(f"integer operation with {type(o).__name__}")


class SInt:
    def __init__(self, e):
        self.e = e

    def __index__(self):
        raise Unsupported("symbolic integer used as a machine integer")
    __int__ = __index__
    __hash__ = None

    def __bool__(self):
        return Run.cur.decide(self.e != 0)

    def __neg__(self):
        return SInt(-self.e)


def _arith(nm, f, r=False):
    def op(self, o):
        if not isinstance(o, (SInt, int)):
            return NotImplemented
        a, b = self.e, toint(o)
        return SInt(f(b, a) if r else f(a, b))
    setattr(SInt, nm, op)


for _n, _f in (("add", lambda a, b: a + b), ("sub", lambda a, b: a - b),
               ("mul", lambda a, b: a * b)):
    _arith(f"__{_n}__", _f)
    _arith(f"__r{_n}__", _f, True)


def _cmp(nm, f):
    def op(self, o):
        if not isinstance(o, (SInt, int)):
            if nm in ("__eq__", "__ne__"):
                return nm == "__ne__"
            return NotImplemented
        return SBool(f(self.e, toint(o)))
    setattr(SInt, nm, op)


for _n, _f in (("eq", lambda a, b: a == b), ("ne", lambda a, b: a != b),
               ("lt", lambda a, b: a < b), ("le", lambda a, b: a <= b),
               ("gt", lambda a, b: a > b), ("ge", lambda a, b: a >= b)):
    _cmp(f"__{_n}__", _f)

DIGIT = z3.Function("isdigit", z3.StringSort(), z3.BoolSort())
PARSE = z3.Function("int", z3.StringSort(), z3.IntSort())
_s = z3.Const("s", z3.StringSort())
AXIOMS.append(z3.ForAll([_s], z3.Implies(DIGIT(_s), z3.And(PARSE(_s) >= 0, z3.Length(_s) > 0)),
                        patterns=[DIGIT(_s)]))


MARK = "\ue123"      # the content of a symbolic string for operations that look at it
HASH = [False]       # symbolic strings as keys of dictionaries of symbolic strings only:
                     # one hash for all, so every look-up compares (and forks)


def tostr(o):
    if isinstance(o, SStr):
        return o.e
    if type(o) is str:
        if MARK in o:
            raise Unsupported("text formatted from a symbolic string")
        return z3.StringVal(o)
    raise Unsupported(f"string operation with {type(o).__name__}")


class SStr(str):
    """a string about which nothing is known (its Python content is a dummy)"""

    def __new__(cls, e, base=None, parts=None):
        o = str.__new__(cls, MARK)
        o.e = e
        o.parts = parts or [e]       # non-empty strings it is made of, if more than one
        o.base = o if base is None else base      # a string that contains it
        return o

    def __bool__(self):
        return Run.cur.decide(z3.Length(self.e) > 0)

    def __eq__(self, o):
        return SBool(self.e == tostr(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return SBool(self.e != tostr(o)) if isinstance(o, str) else True

    def __hash__(self):
        if HASH[0]:
            return 0
        raise Unsupported("hash of a symbolic string")

    def __len__(self):
        raise Unsupported("length of a symbolic string")

    def __add__(self, o):
        return SStr(z3.Concat(self.e, tostr(o)))

    def __radd__(self, o):
        return SStr(z3.Concat(tostr(o), self.e))

    def __contains__(self, o):
        if type(o) is str and builtins.len(o) == 2 and o[0] == o[1]:
            return SBool(self._doubled(o[0])).__bool__()
        return SBool(z3.Contains(self.e, tostr(o))).__bool__()

    def isdigit(self):
        return SBool(DIGIT(self.e))
    isdecimal = isnumeric = lambda self: (_ for _ in ()).throw(Unsupported("digits"))

    def _cut(self, sep):
        """(before, after) of the first occurrence, None if there is none"""
        sp = tostr(sep)
        if not SBool(z3.Contains(self.e, sp)):
            return None
        i = z3.IndexOf(self.e, sp, 0)
        return (SStr(z3.SubString(self.e, 0, i), self.base),
                SStr(z3.SubString(self.e, i + z3.Length(sp), z3.Length(self.e)), self.base))

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit not in (1, -1):
            raise Unsupported("split into an unbounded number of parts")
        c = self._cut(sep)
        if c is not None and maxsplit == -1:
            t = c[1].split(sep, 1)
            if len(t) > 1:
                raise Unsupported("split into an unbounded number of parts")
            return [c[0], *t]
        return [self] if c is None else list(c)

    def partition(self, sep):
        c = self._cut(sep)
        return (self, "", "") if c is None else (c[0], sep, c[1])

    def __format__(self, spec):
        return MARK
    __str__ = __repr__ = lambda self: MARK

    def startswith(self, o):
        return SBool(z3.PrefixOf(tostr(o), self.e))

    def endswith(self, o):
        return SBool(z3.SuffixOf(tostr(o), self.e))

    def removeprefix(self, o):
        p = tostr(o)
        if not SBool(z3.PrefixOf(p, self.e)):
            return self
        return SStr(z3.SubString(self.e, z3.Length(p), z3.Length(self.e) - z3.Length(p)), self.base)

    def removesuffix(self, o):
        p = tostr(o)
        if not SBool(z3.SuffixOf(p, self.e)):
            return self
        return SStr(z3.SubString(self.e, 0, z3.Length(self.e) - z3.Length(p)), self.base)

    def _doubled(self, c):
        """a doubled character is within a part or where two parts meet"""
        one, two = z3.StringVal(c), z3.StringVal(c + c)
        return z3.Or(*[z3.Contains(p, two) for p in self.parts],
                     *[z3.And(z3.SuffixOf(one, p), z3.PrefixOf(one, q))
                       for p, q in zip(self.parts, self.parts[1:])])

    def _once(self, c):
        """stripping a character is dropping it once where it is never doubled"""
        if type(c) is not str or builtins.len(c) != 1:
            raise Unsupported("strip of other than one known character")
        if Run.cur.sat(self.base._doubled(c)) != z3.unsat:
            raise Unsupported("strip of a character that may be repeated")

    def lstrip(self, c=None):
        self._once(c)
        return self.removeprefix(c)

    def rstrip(self, c=None):
        self._once(c)
        return self.removesuffix(c)

    def strip(self, c=None):
        return self.lstrip(c).rstrip(c)


def _no(nm):
    def f(self, *a, **k):
        raise Unsupported(f"str.{nm} of a symbolic string")
    return f


for _n in ("rsplit", "rpartition", "join", "replace", "find",
           "index", "rfind", "count", "encode", "lower", "upper",
           "__getitem__", "__iter__", "__lt__", "__le__", "__gt__", "__ge__", "__mod__",
           "__mul__", "isalpha", "isalnum", "splitlines", "translate", "title", "zfill", "casefold"):
    setattr(SStr, _n, _no(_n))


class Opq:
    """a value about which nothing is known"""

    def __init__(self, e):
        self.e = e

    def __eq__(self, o):
        return SBool(self.e == o.e) if isinstance(o, Opq) else NotImplemented

    def __ne__(self, o):
        return SBool(self.e != o.e) if isinstance(o, Opq) else NotImplemented

    def __hash__(self):
        raise Unsupported("hash of an opaque value")

    def __bool__(self):
        raise Unsupported("truth value of an opaque value")


def my_int(x, *a):
    if isinstance(x, SStr):
        if not SBool(DIGIT(x.e)):
            raise Unsupported("int() of a string that is not all digits")
        return SInt(PARSE(x.e))
    if isinstance(x, SInt):
        return x
    return builtins.int(x, *a)


def my_len(x):
    if hasattr(x, "slen"):
        return x.slen()
    if isinstance(x, SStr):
        return SInt(z3.Length(x.e))
    return builtins.len(x)


class _IntMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.int, SInt))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.int)

    def __call__(cls, *a):
        return my_int(*a)


class IntShim(metaclass=_IntMeta):
    pass


SHIMS = {"int": IntShim, "len": my_len}


class Shims:
    """module globals replaced during a run: builtins that cannot be overloaded,
    and callees replaced by their contracts"""

    def __init__(self, mod, **over):
        self.d, self.over = mod.__dict__, {**SHIMS, **over}

    def __enter__(self):
        self.old = {k: self.d[k] for k in self.over if k in self.d}
        self.d.update(self.over)

    def __exit__(self, *a):
        for k in self.over:
            if k in self.old:
                self.d[k] = self.old[k]
            else:
                del self.d[k]


# ---------------------------------------------------------------- containers
HAS = z3.Function("has", Val, z3.StringSort(), z3.BoolSort())
CHILD = z3.Function("child", Val, z3.StringSort(), Val)
LEN = z3.Function("len", Val, z3.IntSort())
ITEM = z3.Function("item", Val, z3.IntSort(), Val)
_v = z3.Const("v", Val)
AXIOMS.append(z3.ForAll([_v], LEN(_v) >= 0, patterns=[LEN(_v)]))


def _guard(cls, base, allowed):
    for n in dir(base):
        if n in allowed or n in ("__class__", "__new__", "__init__", "__getattribute__",
                                 "__setattr__", "__delattr__", "__doc__", "__subclasshook__",
                                 "__init_subclass__", "__repr__", "__str__", "__format__",
                                 "__class_getitem__", "__dir__", "__sizeof__", "__getstate__"):
            continue
        if callable(getattr(base, n)):
            def f(self, *a, _n=n, **k):
                raise Unsupported(f"{base.__name__}.{_n} of a symbolic container")
            setattr(cls, n, f)
    return cls


class NDict(dict):
    """some dict node of a tree"""

    def __init__(self, e):
        dict.__init__(self)
        self.e = e

    def __getitem__(self, k):
        if not SBool(HAS(self.e, tostr(k))):
            raise KeyError("?")
        return Opq(CHILD(self.e, tostr(k)))

    def __contains__(self, k):
        return SBool(HAS(self.e, tostr(k))).__bool__()

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        Run.cur.log.append(("set", self.e, tostr(k), v))

    def __repr__(self):
        return "{...}"


_guard(NDict, dict, ("__getitem__", "__contains__", "get", "__setitem__"))


class _Seq:
    def slen(self):
        return SInt(LEN(self.e))

    def _at(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic container")
        i = toint(i)
        n = LEN(self.e)
        if not SBool(z3.And(i >= -n, i < n)):
            raise IndexError("list index out of range")
        return z3.simplify(z3.If(i < 0, i + n, i))

    def __getitem__(self, i):
        return Opq(ITEM(self.e, self._at(i)))

    def __repr__(self):
        return "[...]"


class NList(_Seq, list):
    def __init__(self, e):
        list.__init__(self)
        self.e = e

    def __setitem__(self, i, v):
        Run.cur.log.append(("set", self.e, self._at(i), v))


class NTuple(_Seq, tuple):
    def __new__(cls, e):
        o = tuple.__new__(cls)
        o.e = e
        return o

    def __init__(self, e):
        pass


_guard(NList, list, ("__getitem__", "__setitem__"))
_guard(NTuple, tuple, ("__getitem__",))


class NOther:
    """a node that is no container"""

    def __init__(self, e):
        self.e = e


KINDS = {"dict": NDict, "list": NList, "tuple": NTuple, "other": NOther}
