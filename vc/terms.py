"""Term language of the verification-condition generator.

Element terms are polynomials with rational coefficients over hash-consed
atoms (array elements, uninterpreted functions, finite sums over symbolic
ranges, if-then-else, inverses, ...), always kept in normal form.  Complex
numbers are pairs (re, im); reals are mathematical reals, integers are
mathematical integers.  Conditions are `B` formulas over polynomials.
"""
from __future__ import annotations

import itertools
import os
from fractions import Fraction

_tab: dict = {}
_next = itertools.count(1)


class Stats:
    queries = 0
    solver_s = 0.0


class Atom:
    __slots__ = ("id", "kind", "args", "sort", "fv", "height")

    def __repr__(self):
        return show_atom(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(kind, args, sort, fv, height):
    key = (kind, sort) + args
    a = _tab.get(key)
    if a is None:
        a = Atom.__new__(Atom)
        a.id = next(_next)
        a.kind, a.args, a.sort = kind, args, sort
        a.fv = fv if fv is not None else frozenset((a,))
        a.height = height
        _tab[key] = a
    return a


# --------------------------------------------------------------------------
class Poly:
    __slots__ = ("t", "_h", "_fv", "_ht")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._fv = None
        self._ht = None

    def key(self):
        return self

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Poly):
            return NotImplemented
        return hash(self) == hash(o) and self.t == o.t

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    @property
    def fv(self):
        if self._fv is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.fv
            self._fv = frozenset(s)
        return self._fv

    @property
    def height(self):
        if self._ht is None:
            self._ht = max(
                (a.height for m in self.t for a, _ in m), default=0
            )
        return self._ht

    def atoms(self):
        return {a for m in self.t for a, _ in m}

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), Fraction(0))

    @property
    def is_int(self):
        return all(
            c.denominator == 1 and all(a.sort == "Z" and e > 0 for a, e in m)
            for m, c in self.t.items()
        )

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __add__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        o = P(o)
        if not o.t:
            return self
        if not self.t:
            return o
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return self + (-P(o))

    def __rsub__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return P(o) - self

    def __mul__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        if o.is_const():
            c0 = o.const()
            return Poly({m: c * c0 for m, c in self.t.items()})
        if self.is_const():
            c0 = self.const()
            return Poly({m: c * c0 for m, c in o.t.items()})
        t = {}
        extra = []
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m, ex = mono_mul(m1, m2)
                c = c1 * c2
                if ex is not None:
                    extra.append(Poly({m: c}) * ex)
                    continue
                v = t.get(m)
                if v is None:
                    t[m] = c
                else:
                    v = v + c
                    if v:
                        t[m] = v
                    else:
                        del t[m]
        r = Poly(t)
        for e in extra:
            r = r + e
        return r

    __rmul__ = __mul__

    def __pow__(self, n):
        assert isinstance(n, int)
        if n < 0:
            return inv(self) ** (-n)
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def __truediv__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return self * inv(P(o))

    def __rtruediv__(self, o):
        if isinstance(o, Cx):
            return NotImplemented
        return P(o) * inv(self)

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(
            self.t.items(), key=lambda kv: [a.id for a, _ in kv[0]]
        ):
            fs = [
                (repr(a) if e == 1 else f"{a!r}^{e}") for a, e in m
            ]
            if c != 1 or not fs:
                fs.insert(0, str(c))
            out.append("*".join(fs))
        return " + ".join(out)


def mono_mul(m1, m2):
    """product of monomials; returns (monomial, extra factor Poly or None)"""
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    extra = None
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
        elif a.kind == "sqrt" and (e >= 2 or e < 0):
            q, r = divmod(e, 2)
            if r:
                d[a] = 1
            else:
                del d[a]
            f = a.args[0] ** q
            extra = f if extra is None else extra * f
        elif a.kind == "ind" and e > 1:  # 0/1 indicator
            d[a] = 1
        elif a.kind == "pos" and e > 1:  # pos(p)^2 = p*pos(p)
            d[a] = 1
            f = a.args[0] ** (e - 1)
            extra = f if extra is None else extra * f
    m = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    return m, extra


ZERO = Poly({})
ONE = Poly({(): Fraction(1)})


def P(x) -> Poly:
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fraction(1)})
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, Fraction)):
        return Poly({(): Fraction(x)}) if x else ZERO
    raise TypeError(f"P({x!r})")


def pvar(a):
    return P(a)


# -------------------------------------------------------------------- atoms
def var(name, sort="Z"):
    return _mk("var", (name,), sort, None, 0)


def _fvs(xs):
    s = frozenset()
    for x in xs:
        s = s | x.fv
    return s


def _hts(xs):
    return max((x.height for x in xs), default=0)


def app(fname, *args, sort="R"):
    args = tuple(P(a) for a in args)
    return P(_mk("app", (fname,) + args, sort, _fvs(args), _hts(args)))


def inv(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c == 0:
            return P(_mk("app", ("inv0",), "R", frozenset(), 0))
        return P(Fraction(1) / c)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        r = Poly({(): Fraction(1) / c})
        for a, e in m:
            if a.kind == "sqrt":
                r = r * (P(a) ** (e % 2)) * inv(a.args[0] ** ((e + e % 2) // 2))
            elif a.kind == "inv":
                r = r * (a.args[0] ** e)
            else:
                r = r * Poly({((a, -e),): Fraction(1)})
        return r
    # pull out common monomial factors
    common = None
    for m in p.t:
        d = {a: e for a, e in m}
        if common is None:
            common = d
        else:
            common = {
                a: (min(e, d[a]) if e > 0 else max(e, d[a]))
                for a, e in common.items()
                if a in d and (e > 0) == (d[a] > 0)
            }
        if not common:
            break
    common = {
        a: e for a, e in (common or {}).items()
        if a.kind not in ("sqrt", "ind", "pos")
    }
    if common:
        g = ONE
        for a, e in common.items():
            g = g * Poly({((a, e),): Fraction(1)})
        gi = inv(g)
        return inv(p * gi) * gi
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    c = p.t[lead]
    q = p * (Fraction(1) / c)
    a = _mk("inv", (q,), "R", q.fv, q.height)
    return P(a) * (Fraction(1) / c)


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c >= 0:
            import math

            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return P(Fraction(n, d))
    return P(_mk("sqrt", (p,), "R", p.fv, p.height))


def fun(name, *ps):
    return app("fun:" + name, *ps)


# ---------------------------------------------------------------- booleans
class B:
    """hash-consed formula"""

    __slots__ = ("id", "op", "args", "fv", "height")
    _tab: dict = {}

    def __repr__(self):
        if self.op in ("true", "false"):
            return self.op
        if self.op == "lt0":
            return f"({self.args[0]} < 0)"
        if self.op == "le0":
            return f"({self.args[0]} <= 0)"
        if self.op == "eq0":
            return f"({self.args[0]} == 0)"
        if self.op == "not":
            return f"!{self.args[0]}"
        if self.op == "app":
            return f"{self.args[0]}?"
        return "(" + f" {self.op} ".join(map(repr, self.args)) + ")"

    def __and__(self, o):
        return band(self, o)

    def __or__(self, o):
        return bor(self, o)

    def __invert__(self):
        return bnot(self)


def _b(op, args=()):
    key = (op,) + tuple(args)
    r = B._tab.get(key)
    if r is None:
        r = B.__new__(B)
        r.id = next(_next)
        r.op, r.args = op, tuple(args)
        r.fv = _fvs(args)
        r.height = _hts(args)
        B._tab[key] = r
    return r


TRUE = _b("true")
FALSE = _b("false")


def bconst(x):
    return TRUE if x else FALSE


def _primint(p):
    """scale to a canonical positive multiple"""
    if not p.t:
        return p
    lead = min(p.t, key=lambda m: [(a.id, e) for a, e in m])
    c = abs(p.t[lead])
    return p * (Fraction(1) / c) if c != 1 else p


def _oneind(p):
    """p = a + b*[c] with numbers a, b: (a, b, c)"""
    if len(p.t) > 2:
        return None
    a, b, c = Fraction(0), None, None
    for m, k in p.t.items():
        if not m:
            a = k
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "ind":
            b, c = k, m[0][0].args[0]
        else:
            return None
    return None if c is None else (a, b, c)


def _pick(no, yes, c):
    return (TRUE if no else c) if yes else (bnot(c) if no else FALSE)


def lt(a, b):
    p = P(a) - P(b)
    if p.is_const():
        return bconst(p.const() < 0)
    o = _oneind(p)
    if o:
        return _pick(o[0] < 0, o[0] + o[1] < 0, o[2])
    if p.is_int:
        return le(p + 1, 0)
    return _b("lt0", (_primint(p),))


def le(a, b):
    p = P(a) - P(b)
    if p.is_const():
        return bconst(p.const() <= 0)
    o = _oneind(p)
    if o:
        return _pick(o[0] <= 0, o[0] + o[1] <= 0, o[2])
    if p.is_int:
        return _b("le0", (p,))
    return _b("le0", (_primint(p),))


def gt(a, b):
    return lt(b, a)


def ge(a, b):
    return le(b, a)


def eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        return bor(band(a, b), band(bnot(a), bnot(b)))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return band(eq(a.re, b.re), eq(a.im, b.im))
    p = P(a) - P(b)
    if p.is_const():
        return bconst(p.const() == 0)
    o = _oneind(p)
    if o:
        return _pick(o[0] == 0, o[0] + o[1] == 0, o[2])
    lead = min(p.t, key=lambda m: [(x.id, e) for x, e in m])
    c = p.t[lead]
    q = p * (Fraction(1) / c)
    if p.is_int and not q.is_int:
        q = p if c > 0 else -p
    return _b("eq0", (q,))


def ne(a, b):
    return bnot(eq(a, b))


def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == "not":
        return x.args[0]
    if x.op == "lt0":
        return le(-x.args[0], 0)
    if x.op == "le0":
        return lt(-x.args[0], 0)
    if x.op == "and":
        return bor(*[bnot(a) for a in x.args])
    if x.op == "or":
        return band(*[bnot(a) for a in x.args])
    return _b("not", (x,))


def band(*xs):
    s = {}
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        for y in x.args if x.op == "and" else (x,):
            s[y.id] = y
    for y in list(s.values()):
        if bnot(y).id in s:
            return FALSE
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return _b("and", tuple(s[k] for k in sorted(s)))


def bor(*xs):
    s = {}
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        for y in x.args if x.op == "or" else (x,):
            s[y.id] = y
    for y in list(s.values()):
        n = y
        # complement check without recursion blowup
        if y.op in ("lt0", "le0", "eq0", "not", "app"):
            n = bnot(y)
            if n.id in s:
                return TRUE
    if not s:
        return FALSE
    if len(s) == 1:
        return next(iter(s.values()))
    return _b("or", tuple(s[k] for k in sorted(s)))


def implies(a, b):
    return bor(bnot(a), b)


def bapp(fname, *args):
    """uninterpreted predicate"""
    return _b("app", (app("pred:" + fname, *args),))


def b2p(b):
    if b is TRUE:
        return ONE
    if b is FALSE:
        return ZERO
    return ite(b, ONE, ZERO)


# ------------------------------------------------------------------ complex
class Cx:
    __slots__ = ("re", "im")

    def __init__(self, re, im=ZERO):
        self.re, self.im = P(re), P(im)

    @staticmethod
    def of(x):
        return x if isinstance(x, Cx) else Cx(P(x))

    def __add__(self, o):
        o = Cx.of(o)
        return Cx(self.re + o.re, self.im + o.im)

    __radd__ = __add__

    def __sub__(self, o):
        o = Cx.of(o)
        return Cx(self.re - o.re, self.im - o.im)

    def __rsub__(self, o):
        return Cx.of(o) - self

    def __neg__(self):
        return Cx(-self.re, -self.im)

    def __mul__(self, o):
        o = Cx.of(o)
        return Cx(
            self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re
        )

    __rmul__ = __mul__

    def conj(self):
        return Cx(self.re, -self.im)

    def abs2(self):
        return self.re * self.re + self.im * self.im

    def inv(self):
        d = inv(self.abs2())
        return Cx(self.re * d, -self.im * d)

    def __truediv__(self, o):
        return self * Cx.of(o).inv()

    def __rtruediv__(self, o):
        return Cx.of(o) * self.inv()

    def __eq__(self, o):
        o = Cx.of(o)
        return self.re == o.re and self.im == o.im

    def __hash__(self):
        return hash((self.re, self.im))

    @property
    def fv(self):
        return self.re.fv | self.im.fv

    @property
    def height(self):
        return max(self.re.height, self.im.height)

    def __repr__(self):
        return f"<{self.re} ; {self.im}>"


def conj(x):
    return x.conj() if isinstance(x, Cx) else x


def re(x):
    return x.re if isinstance(x, Cx) else x


def im(x):
    return x.im if isinstance(x, Cx) else ZERO


I = Cx(0, 1)


def emap(f, *xs):
    """apply f componentwise if complex"""
    if any(isinstance(x, Cx) for x in xs):
        xs = [Cx.of(x) for x in xs]
        return Cx(f(*[x.re for x in xs]), f(*[x.im for x in xs]))
    return f(*xs)


# -------------------------------------------------------------------- facts
VARFACTS: dict = {}      # var atom -> list of B
GLOBAL: list = []        # list of B always assumed
EPOCH = [0]              # bumped whenever standing facts are dropped


def new_epoch():
    EPOCH[0] += 1
    _dec_cache.clear()
    _ms_cache.clear()


def _epoch():
    return EPOCH[0], tuple(g.id for g in GLOBAL)

CTX: list = []           # stack of case-split facts


def fresh(hint="i", hi=None, lo=0, sort="Z"):
    a = var(f"{hint}!{next(_next)}", sort)
    if hi is not None:
        setrange(a, P(hi), P(lo))
    return a


RANGE: dict = {}         # var atom -> (lo, hi) Polys, lo <= v < hi
DIMLO: dict = {}         # dim var atom -> lower bound (int), see core


def setrange(a, hi, lo=None):
    lo = ZERO if lo is None else lo
    RANGE[a] = (lo, hi)
    VARFACTS[a] = [ge(P(a), lo), lt(P(a), hi)]


def _nonpos(p, depth=0):
    """cheap sufficient test for p <= 0 (interval reasoning)"""
    if depth > 8:
        return False
    for v in sorted(p.fv, reverse=True):
        if v in RANGE:
            lin = p.t.get(((v, 1),))
            mono = [m for m in p.t if any(v in a.fv for a, _ in m)]
            if lin is None or len(mono) != 1:
                # common factor v*q
                return False
            lo, hi = RANGE[v]
            b = hi - 1 if lin > 0 else lo
            q = p + (b - P(v)) * lin
            return _nonpos(q, depth + 1)
    # dims are >= 1 : substitute d = lo + d'
    for v in p.fv:
        if v not in DIMLO:
            return False
    for m in p.t:
        for a, e in m:
            if a.kind != "var" or e < 0:
                return False
    q = sub(p, {v: P(v) + DIMLO[v] for v in p.fv}, raw=True) if p.fv else p
    return all(c <= 0 for c in q.t.values())


def quick(b):
    if b.op == "le0":
        if _nonpos(b.args[0]):
            return True
        if _nonpos(ONE - b.args[0]):
            return False
    elif b.op == "eq0":
        p = b.args[0]
        if _nonpos(p + 1) or _nonpos(ONE - p):
            return False
    return None


_dec_cache: dict = {}


def decide(b, timeout=2000):
    """True / False / None under the facts in force (index conditions)."""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    from . import smt

    key = (b.id, tuple(c.id for c in CTX), _epoch())
    if key in _dec_cache:
        return _dec_cache[key]
    if all(x.args[0].is_int for x in (b,) if x.op in ("le0", "eq0")):
        r = quick(b)
        if r is not None:
            _dec_cache[key] = r
            return r
    if os.environ.get("VC_DECIDE"):
        print("DECIDE", b)
    r = smt.decide(b, timeout)
    _dec_cache[key] = r
    return r


def _indexy(b):
    """only integer-sorted conditions without heavy atoms are auto-decided"""
    if b.op in ("and", "or", "not"):
        return all(_indexy(a) for a in b.args)
    if b.op in ("lt0", "le0", "eq0"):
        return b.args[0].is_int
    return False


def bsimp(b):
    if b is TRUE or b is FALSE:
        return b
    for c in CTX:
        if c is b:
            return TRUE
        if c is bnot(b):
            return FALSE
    if b.op in ("and", "or"):
        xs = [bsimp(a) for a in b.args]
        b = band(*xs) if b.op == "and" else bor(*xs)
        if b is TRUE or b is FALSE:
            return b
    if _indexy(b):
        d = decide(b)
        if d is not None:
            return bconst(d)
    return b


def ite(c, a, b):
    if isinstance(a, B) or isinstance(b, B):
        c = bsimp(c)
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        return bor(band(c, a), band(bnot(c), b))
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        return Cx(ite(c, a.re, b.re), ite(c, a.im, b.im))
    a, b = P(a), P(b)
    if a == b:
        return a
    c = bsimp(c)
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    # ite(c,a,b) = b + [c]*(a-b), with [c] a polynomial over 0/1 indicators
    return b + bp(c) * (a - b)


def bp(c):
    """indicator polynomial of a formula (multilinear in 0/1 atoms)"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "and":
        r = ONE
        for x in c.args:
            r = r * bp(x)
        return r
    if c.op == "or":
        r = ONE
        for x in c.args:
            r = r * (ONE - bp(x))
        return ONE - r
    if c.op == "not":
        return ONE - bp(c.args[0])
    if c.op in ("lt0", "le0"):
        n = bnot(c)
        if n.id < c.id:
            return ONE - P(_mk("ind", (n,), "Z", n.fv, n.height))
    return P(_mk("ind", (c,), "Z", c.fv, c.height))


def _leadsign(p):
    lead = min(p.t, key=lambda m: [(x.id, e) for x, e in m])
    return p.t[lead]


def pos(p):
    """max(p, 0); pos(-p) = pos(p) - p; positive factors pulled out"""
    p = P(p)
    if p.is_const():
        return P(max(p.const(), 0))
    if any(v.args[0] == "INF" for v in p.fv if v.kind == "var"):
        return ite(lt(p, 0), ZERO, p)
    for c in CTX:
        if c.op in ("lt0", "le0"):
            if c.args[0] == p:
                return ZERO
            if c.args[0] == -p:
                return p
    c = _leadsign(p)
    if p.is_int:
        if decide(ge(p, 0)):
            return p
        if decide(le(p, 0)):
            return ZERO
        if c < 0:
            return pos(-p) + p
        return P(_mk("pos", (p,), "Z", p.fv, p.height))
    if len(p.t) == 1:
        (m, _), = p.t.items()
        if all(e % 2 == 0 or (a.kind in ("sqrt", "pos", "ind") and e > 0)
               for a, e in m):
            return p if c > 0 else ZERO
    q = p * (Fraction(1) / abs(c))
    if c < 0:
        q = -q
        return abs(c) * P(_mk("pos", (q,), "R", q.fv, q.height)) + p
    return abs(c) * P(_mk("pos", (q,), "R", q.fv, q.height))


def _mulpos(x, c):
    return x * c


def maxp(a, b):
    a, b = P(a), P(b)
    return b + pos(a - b)


def minp(a, b):
    a, b = P(a), P(b)
    return a - pos(a - b)


def absp(a):
    a = P(a)
    return 2 * pos(a) - a


# -------------------------------------------------------- floor div and mod
def floordiv(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.const() != 0:
        return P(Fraction(p.const() // q.const()))
    if q == ONE:
        return p
    a, r = _split(p, q)
    if a is not None:
        if not a.t and not r.t:
            return ZERO
        if r.t and decide(band(ge(r, 0), lt(r, q))):
            return a
        if not r.t:
            return a
        if a.t:
            return a + floordiv(r, q)
    if decide(band(ge(p, 0), lt(p, q))):
        return ZERO
    return P(_mk("div", (p, q), "Z", p.fv | q.fv, max(p.height, q.height)))


def mod(p, q):
    p, q = P(p), P(q)
    if p.is_const() and q.is_const() and q.const() != 0:
        return P(Fraction(p.const() % q.const()))
    return p - q * floordiv(p, q)


def _split(p, q):
    """p = q*a + r with q a monomial times constant (or integer constant)"""
    if q.is_const():
        c = q.const()
        if c.denominator != 1 or c <= 0:
            return None, None
        a, r = {}, {}
        for m, k in p.t.items():
            if k.denominator != 1:
                return None, None
            qq, rr = divmod(k, c)
            if qq:
                a[m] = Fraction(qq)
            if rr:
                r[m] = Fraction(rr)
        return Poly(a), Poly(r)
    if len(q.t) != 1:
        if q == p:
            return ONE, ZERO
        # try polynomial division by leading monomial with coefficient +-1
        lead = max(q.t, key=lambda m: (sum(e for _, e in m), [a.id for a, _ in m]))
        lc = q.t[lead]
        if abs(lc) != 1:
            return None, None
        a, r = ZERO, p
        for _ in range(20):
            hit = None
            for m, k in r.t.items():
                d = dict(m)
                if all(d.get(x, 0) >= e for x, e in lead):
                    hit = (m, k)
                    break
            if hit is None:
                break
            m, k = hit
            d = dict(m)
            for x, e in lead:
                d[x] -= e
            mm = tuple(sorted(((x, e) for x, e in d.items() if e), key=lambda kv: kv[0].id))
            f = Poly({mm: k / lc})
            a = a + f
            r = r - f * q
        return a, r
    (qm, qc), = q.t.items()
    a, r = {}, {}
    for m, k in p.t.items():
        d = dict(m)
        ok = all(d.get(x, 0) >= e for x, e in qm) and (k / qc).denominator == 1
        if ok:
            for x, e in qm:
                d[x] -= e
            mm = tuple(
                sorted(
                    ((x, e) for x, e in d.items() if e),
                    key=lambda kv: kv[0].id,
                )
            )
            a[mm] = k / qc
        else:
            r[m] = k
    return Poly(a), Poly(r)


# --------------------------------------------------------------------- sums
def bv(h, k):
    return _mk("bv", (h, k), "Z", None, h)


_perm_cache: dict = {}


def msum(vars_, body):
    """sum over vars_ = [(var atom, hi Poly)] of body (Poly or Cx)"""
    if isinstance(body, Cx):
        return Cx(msum(vars_, body.re), msum(vars_, body.im))
    body = P(body)
    total = ZERO
    for m, c in body.t.items():
        total = total + _msum_mono(tuple((v, P(h)) for v, h in vars_), m) * c
    return total


_ms_cache: dict = {}


def _msum_mono(vars_, m):
    key = (vars_, m, tuple(c.id for c in CTX), _epoch())
    r = _ms_cache.get(key)
    if r is None:
        r = _msum_mono0(vars_, m)
        _ms_cache[key] = r
    return r


def _msum_mono0(vars_, m):
    if not vars_:
        return Poly({m: Fraction(1)})
    vs = [v for v, _ in vars_]
    vset = set(vs)
    hi = dict(vars_)
    # 1. flatten nested sums that depend on the summation variables
    for a, e in m:
        if a.kind == "sum" and e >= 1 and (a.fv & vset):
            rest = tuple((x, k) for x, k in m if x is not a)
            if e > 1:
                rest = tuple(
                    sorted(rest + ((a, e - 1),), key=lambda kv: kv[0].id)
                )
            nvars, nbody = open_sum(a)
            body = Poly({rest: Fraction(1)}) * nbody
            return msum(list(vars_) + nvars, body)
        if a.kind == "ind" and (a.fv & vset):
            s = _ind_simplify(vars_, hi, vset, m, a)
            if s is not None:
                return s
    # 2. connected components
    factors = list(m)
    used = {v: False for v in vs}
    comps = []  # (set of vars, list of factors)
    outside = []
    for a, e in factors:
        dep = a.fv & vset
        if not dep:
            outside.append((a, e))
            continue
        for v in dep:
            used[v] = True
        cur = (set(dep), [(a, e)])
        rest = []
        for s, fs in comps:
            if s & cur[0]:
                cur = (cur[0] | s, cur[1] + fs)
            else:
                rest.append((s, fs))
        comps = rest + [cur]
    # ranges depending on other bound variables keep them together
    r = Poly({tuple(outside): Fraction(1)})
    dep_ranges = any(h.fv & vset for _, h in vars_)
    if dep_ranges:
        comps = [(vset, [f for _, fs in comps for f in fs])]
        used = {v: True for v in vs}
    for v in vs:
        if not used[v]:
            r = r * hi[v]
    for s, fs in comps:
        cv = [(v, hi[v]) for v in vs if v in s]
        fs = tuple(sorted(fs, key=lambda kv: kv[0].id))
        r = r * _close_sum(cv, fs)
    return r


def _ind_simplify(vars_, hi, vset, m, a):
    c = a.args[0]
    rest = tuple(x for x in m if x[0] is not a)
    rp = Poly({rest: Fraction(1)})
    if c.op == "eq0":
        p = c.args[0]
        for v in p.fv & vset:
            co = p.t.get(((v, 1),))
            if co is None or abs(co) != 1:
                continue
            e = P(v) - p * (1 / co)
            if v in e.fv or any(v in h.fv for _, h in vars_):
                continue
            others = [(w, h) for w, h in vars_ if w is not v]
            inr = band(ge(e, 0), lt(e, hi[v]))
            body = ite(inr, sub(rp, {v: e}), ZERO)
            return msum(others, body)
    if c.op == "and":
        # split the conjunction into factors
        f = ONE
        for x in c.args:
            f = f * ite(x, ONE, ZERO)
        if f != Poly({((a, 1),): Fraction(1)}):
            return msum(list(vars_), rp * f)
    if c.op == "le0":
        p = c.args[0]
        s = _radix_pin(vars_, hi, vset, m, a, p)
        if s is not None:
            return s
        for v in p.fv & vset:
            co = p.t.get(((v, 1),))
            if co is None or abs(co) != 1 or any(v in h.fv for _, h in vars_):
                continue
            e = (p - P(v) * co)
            if v in e.fv or (e.fv & vset):
                continue
            others = [(w, h) for w, h in vars_ if w is not v]
            if co == 1:
                # v <= -e  i.e. v < 1-e
                n = P(1) - e
                if decide(le(n, 0)):
                    return ZERO
                if decide(ge(n, hi[v])):
                    return msum(list(vars_), rp)
                if decide(ge(n, 0)) and decide(le(n, hi[v])):
                    w = fresh("s", n)
                    return msum(others + [(w, n)], sub(rp, {v: P(w)}))
            else:
                # v >= e
                if decide(le(e, 0)):
                    return msum(list(vars_), rp)
                if decide(ge(e, hi[v])):
                    return ZERO
                if decide(ge(e, 0)) and decide(le(e, hi[v])):
                    w = fresh("s", hi[v] - e)
                    return msum(
                        others + [(w, hi[v] - e)], sub(rp, {v: P(w) + e})
                    )
    return None


def _radix_pin(vars_, hi, vset, m, a, p):
    """[0 <= E][E <= w-1] with E = w*(u +- v) + y and 0 <= y < w: v = -+u"""
    cand = [v for v in p.fv & vset
            if any(len(mo) > 1 and any(x is v for x, _ in mo) for mo in p.t)]
    if not cand:
        return None
    for a2, _ in m:
        if a2 is a or a2.kind != "ind" or a2.args[0].op != "le0":
            continue
        w = ONE - (p + a2.args[0].args[0])
        if len(w.t) != 1:
            continue
        (wm, wc), = w.t.items()
        if wc != 1 or not wm or any(e < 0 for _, e in wm):
            continue
        E = -p
        wd = dict(wm)
        u, y = ZERO, ZERO
        for mo, co in E.t.items():
            md = dict(mo)
            if all(md.get(x, 0) >= e for x, e in wd.items()):
                q = tuple((x, e - wd.get(x, 0)) for x, e in mo if e - wd.get(x, 0))
                u = u + Poly({q: co})
            else:
                y = y + Poly({mo: co})
        for v in cand:
            if v in y.fv or any(v in h.fv for _, h in vars_):
                continue
            co = u.t.get(((v, 1),))
            if co is None or abs(co) != 1:
                continue
            e = P(v) - u * (1 / co)
            if v in e.fv:
                continue
            if not (decide(ge(y, 0)) and decide(lt(y, w))):
                continue
            rest = tuple(x for x in m if x[0] is not a and x[0] is not a2)
            others = [(z, h) for z, h in vars_ if z is not v]
            inr = band(ge(e, 0), lt(e, hi[v]))
            return msum(others, ite(inr, sub(Poly({rest: Fraction(1)}), {v: e}), ZERO))
    return None


def _sig(v, a, memo):
    """structural signature of where v occurs inside atom a (id-free)"""
    k = (v, a)
    if k in memo:
        return memo[k]
    if isinstance(a, Poly):
        r = ("P", tuple(sorted(
            (str(c), tuple(sorted(_sig(v, x, memo) + (e,) for x, e in m if v in x.fv)))
            for m, c in a.t.items() if any(v in x.fv for x, _ in m))))
    elif a is v:
        r = ("v",)
    elif isinstance(a, Atom):
        name = a.args[0] if a.kind in ("app", "clo") else ""
        subs = []
        for i, x in enumerate(a.args):
            if isinstance(x, (Poly, B)) and v in x.fv:
                subs.append((i,) + _sig(v, x, memo))
            elif isinstance(x, tuple):
                for j, y in enumerate(x):
                    if hasattr(y, "fv") and v in y.fv:
                        subs.append((i, j) + _sig(v, y, memo))
        r = (a.kind, str(name), tuple(subs))
    elif isinstance(a, B):
        r = ("B", a.op, tuple(sorted(_sig(v, x, memo) for x in a.args if v in x.fv)))
    elif isinstance(a, Lam):
        r = ("L", tuple(_sig(v, x, memo) for x in a.body if v in x.fv))
    elif isinstance(a, Cx):
        r = ("C", _sig(v, a.re, memo), _sig(v, a.im, memo))
    else:
        r = ("?",)
    memo[k] = r
    return r


def _close_sum(cv, fs):
    body = Poly({fs: Fraction(1)})
    # try div/mod unflattening: v occurs only through div(v,q)/mod
    h = body.height
    for _, r in cv:
        h = max(h, r.height)
    h += 1
    n = len(cv)
    memo: dict = {}
    sigs = [
        (repr(P(hi)) if not hi.fv & {v for v, _ in cv} else "dep",
         str(sorted((_sig(v, a, memo), e) for a, e in fs if v in a.fv)))
        for v, hi in cv
    ]
    order = sorted(range(n), key=lambda i: sigs[i])
    groups = [
        list(g) for _, g in itertools.groupby(order, key=lambda i: sigs[i])
    ]
    best = None
    cnt = 0
    for perms in itertools.product(
        *[itertools.permutations(g) for g in groups]
    ):
        seq = [i for g in perms for i in g]
        mp = {cv[i][0]: P(bv(h, k)) for k, i in enumerate(seq)}
        nb = sub(body, mp, raw=True)
        rg = tuple(sub(cv[i][1], mp, raw=True) for i in seq)
        key = sorted((tuple((a.id, e) for a, e in m), c) for m, c in nb.t.items())
        if best is None or key < best[0]:
            best = (key, rg, nb)
        cnt += 1
        if cnt >= 720:
            break
    _, rg, nb = best
    bvs = {bv(h, k) for k in range(n)}
    fv = nb.fv
    for r in rg:
        fv = fv | r.fv
    return P(_mk("sum", (h, rg, nb), "R" if not nb.is_int else "Z",
                 frozenset(fv - bvs), h))


def open_sum(a):
    h, rg, nb = a.args
    mp, vs = {}, []
    for k, r in enumerate(rg):
        v = var(f"o!{next(_next)}")
        mp[bv(h, k)] = P(v)
        vs.append((v, r))
    out = []
    for v, r in vs:
        rr = sub(r, mp, raw=True)
        setrange(v, rr)
        out.append((v, rr))
    return out, sub(nb, mp, raw=True)


class Lam:
    """closure argument: function of canonical bound indices -> elements"""

    __slots__ = ("h", "ranges", "body", "fv", "height", "_hash")

    def __init__(self, ranges, f, names=None):
        vs = [fresh("l", r) for r in ranges]
        body = f(*[P(v) for v in vs])
        if not isinstance(body, tuple):
            body = (body,)
        self._set(ranges, vs, body)

    def _set(self, ranges, vs, body):
        # canonicalise: components are Poly/Cx/B
        h = max([x.height for x in body] + [r.height for r in ranges] + [0]) + 1
        mp = {v: P(bv(h, k)) for k, v in enumerate(vs)}
        self.h = h
        self.ranges = tuple(P(r) for r in ranges)
        self.body = tuple(subx(x, mp, raw=True) for x in body)
        self.height = h
        bvs = {bv(h, k) for k in range(len(vs))}
        fv = frozenset()
        for x in self.body:
            fv = fv | x.fv
        for r in self.ranges:
            fv = fv | r.fv
        self.fv = frozenset(fv - bvs)
        self._hash = hash((self.ranges, self.body))

    def open(self):
        mp, vs = {}, []
        for k, r in enumerate(self.ranges):
            v = fresh("o", r)
            mp[bv(self.h, k)] = P(v)
            vs.append(v)
        return vs, tuple(subx(x, mp, raw=True) for x in self.body)

    def apply(self, *idx):
        mp = {bv(self.h, k): P(i) for k, i in enumerate(idx)}
        return tuple(subx(x, mp) for x in self.body)

    def subst(self, mp, raw):
        if not (self.fv & mp.keys()):
            return self
        vs, body = self.open()
        nb = tuple(subx(x, mp, raw=raw) for x in body)
        nr = [sub(r, mp, raw=raw) for r in self.ranges]
        r = Lam.__new__(Lam)
        r._set(nr, vs, nb)
        return r

    def __hash__(self):
        return self._hash

    def __eq__(self, o):
        return (
            isinstance(o, Lam)
            and self._hash == o._hash
            and self.ranges == o.ranges
            and self.body == o.body
        )

    def __repr__(self):
        return f"\\{len(self.ranges)}@{self.h}.{self.body}"


def clo(name, lams, *idx, sort="R", static=()):
    """uninterpreted functional applied to closures and scalar arguments"""
    idx = tuple(P(i) for i in idx)
    lams = tuple(lams)
    return P(
        _mk(
            "clo",
            (name, static, lams, idx),
            sort,
            _fvs(lams) | _fvs(idx),
            max(_hts(lams), _hts(idx)),
        )
    )


# -------------------------------------------------------------- substitution
def subx(x, mp, raw=False):
    if isinstance(x, Poly):
        return sub(x, mp, raw)
    if isinstance(x, Cx):
        return Cx(sub(x.re, mp, raw), sub(x.im, mp, raw))
    if isinstance(x, B):
        return subb(x, mp, raw)
    if isinstance(x, Lam):
        return x.subst(mp, raw)
    if isinstance(x, tuple):
        return tuple(subx(y, mp, raw) for y in x)
    return x


class _Memo:
    pass


def sub(p, mp, raw=False, _memo=None):
    p = P(p)
    if not (p.fv & mp.keys()):
        return p
    memo = {} if _memo is None else _memo
    r = ZERO
    for m, c in p.t.items():
        keep = []
        t = None
        for a, e in m:
            if a.fv & mp.keys():
                q = memo.get(a)
                if q is None:
                    q = memo[a] = _subatom(a, mp, raw)
                f = q ** e if e > 0 else inv(q) ** (-e)
                t = f if t is None else t * f
            else:
                keep.append((a, e))
        mono = Poly({tuple(keep): c})
        r = r + (mono if t is None else mono * t)
    return r


def _subatom(a, mp, raw):
    k = a.kind
    if a in mp:
        return P(mp[a])
    if k == "app":
        return app(
            a.args[0], *[sub(x, mp, raw) for x in a.args[1:]], sort=a.sort
        )
    if k == "inv":
        return inv(sub(a.args[0], mp, raw))
    if k == "sqrt":
        return sqrt(sub(a.args[0], mp, raw))
    if k == "pos":
        return pos(sub(a.args[0], mp, raw))
    if k == "ind":
        c = subb(a.args[0], mp, raw)
        if raw:
            if c is TRUE:
                return ONE
            if c is FALSE:
                return ZERO
            return bp(c)
        return ite(c, ONE, ZERO)
    if k == "div":
        if raw:
            p, q = sub(a.args[0], mp, raw), sub(a.args[1], mp, raw)
            return P(_mk("div", (p, q), "Z", p.fv | q.fv,
                         max(p.height, q.height)))
        return floordiv(sub(a.args[0], mp), sub(a.args[1], mp))
    if k == "sum":
        vs, body = open_sum(a)
        if raw:
            return _msum_raw([(v, sub(h, mp, raw)) for v, h in vs],
                             sub(body, mp, raw))
        nvs = [(v, sub(h, mp, raw)) for v, h in vs]
        for v, h in nvs:
            setrange(v, h)
        return msum(nvs, sub(body, mp, raw))
    if k == "clo":
        name, static, lams, idx = a.args
        if name in CLO_REBUILD and not raw:
            return CLO_REBUILD[name](
                static, tuple(l.subst(mp, raw) for l in lams),
                tuple(sub(i, mp, raw) for i in idx), a.sort)
        return clo(
            name,
            tuple(l.subst(mp, raw) for l in lams),
            *[sub(i, mp, raw) for i in idx],
            sort=a.sort,
            static=static,
        )
    return P(a)


CLO_REBUILD: dict = {}


def _msum_raw(vs, body):
    # renaming substitutions keep the shape; only close again
    total = ZERO
    for m, c in P(body).t.items():
        total = total + _msum_mono(tuple((v, P(h)) for v, h in vs), m) * c
    return total


def subb(b, mp, raw=False):
    if not (b.fv & mp.keys()):
        return b
    if b.op in ("lt0", "le0", "eq0"):
        p = sub(b.args[0], mp, raw)
        return {"lt0": lt, "le0": le, "eq0": eq}[b.op](p, ZERO)
    if b.op == "not":
        return bnot(subb(b.args[0], mp, raw))
    if b.op == "and":
        return band(*[subb(x, mp, raw) for x in b.args])
    if b.op == "or":
        return bor(*[subb(x, mp, raw) for x in b.args])
    if b.op == "app":
        p = sub(b.args[0], mp, raw)
        return _b("app", (p,))
    return b


# ------------------------------------------------------------------ showing
def show_atom(a, depth=0):
    k = a.kind
    if k == "var":
        return a.args[0]
    if k == "bv":
        return f"#{a.args[0]}.{a.args[1]}"
    if k == "app":
        return f"{a.args[0]}({', '.join(map(repr, a.args[1:]))})"
    if k == "inv":
        return f"1/({a.args[0]!r})"
    if k == "sqrt":
        return f"sqrt({a.args[0]!r})"
    if k == "ind":
        return f"[{a.args[0]!r}]"
    if k == "pos":
        return f"pos({a.args[0]!r})"
    if k == "div":
        return f"({a.args[0]!r} // {a.args[1]!r})"
    if k == "sum":
        return f"SUM{list(a.args[1])}({a.args[2]!r})"
    if k == "clo":
        return f"{a.args[0]}{a.args[1] or ''}<{', '.join(map(repr, a.args[2]))}>({', '.join(map(repr, a.args[3]))})"
    return f"?{k}"
