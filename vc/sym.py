"""Symbolic execution of jaxprs extracted from the real code.

Every array is a function from index terms to element terms.  Primitives that
are dependencies (eigh, svd, sort, random bits) are uninterpreted functionals
of their operands, i.e. they are used only through their contract.
"""
from __future__ import annotations

import itertools
from fractions import Fraction

import jax
import numpy as onp
from jax.extend import core as jcore

from . import terms as T
from .terms import (
    B, Cx, FALSE, ONE, P, Poly, TRUE, ZERO, absp, app, band, bnot, bor, clo,
    decide, eq, floordiv, fresh, fun, ge, gt, inv, ite, le, lt, maxp, minp,
    mod, msum, ne, sqrt, Lam,
)


class Unsupported(Exception):
    """outside the extractor's subset"""


INF = T.var("INF", "R")
NAN = T.var("NAN", "R")


def const(x):
    """python/numpy scalar -> element"""
    if isinstance(x, (bool, onp.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, (int, onp.integer)):
        return P(int(x))
    if isinstance(x, (complex, onp.complexfloating)):
        return Cx(const(x.real), const(x.imag))
    a = onp.asarray(x)
    if a.dtype.kind == "f" or str(a.dtype) == "bfloat16":
        f = float(a)
        if f != f:
            return P(NAN)
        if f in (float("inf"), float("-inf")):
            return P(INF) if f > 0 else -P(INF)
        return P(Fraction(onp.format_float_positional(
            a.astype(a.dtype) if a.dtype.kind == "f" else onp.float32(a),
            unique=True, trim="-")))
    raise Unsupported(f"constant {x!r}")


def has_inf(p):
    for m in p.t:
        for a, _ in m:
            if a is INF:
                return True
    return False


def _infsign(p):
    """sign of INF coefficient if p = c*INF + finite, else None"""
    c = p.t.get(((INF, 1),))
    if c is None:
        return None
    return 1 if c > 0 else -1


_lt0, _le0 = T.lt, T.le


def _wrapcmp(f):
    def g(a, b):
        p = P(a) - P(b)
        if p.t and INF in p.fv:
            s = _infsign(p)
            if s is not None:
                return FALSE if s > 0 else TRUE
        return f(a, b)

    return g


T.lt = lt = _wrapcmp(_lt0)
T.le = le = _wrapcmp(_le0)


def _gt(a, b):
    return lt(b, a)


def _ge(a, b):
    return le(b, a)


T.gt = gt = _gt
T.ge = ge = _ge
_eq0 = T.eq


def _eqw(a, b):
    if isinstance(a, Poly) and isinstance(b, Poly):
        p = a - b
        if p.t and INF in p.fv and _infsign(p) is not None:
            return FALSE
    return _eq0(a, b)


T.eq = eq = _eqw


# ------------------------------------------------------------------- arrays
class SArr:
    __slots__ = ("shape", "kind", "fn", "memo", "dtype", "aux")

    def __init__(self, shape, kind, fn, dtype=None, aux=None):
        self.shape = tuple(P(s) for s in shape)
        self.kind = kind  # f c i b k
        self.fn = fn
        self.memo = {}
        self.dtype = dtype
        self.aux = aux

    @property
    def ndim(self):
        return len(self.shape)

    def __call__(self, *idx):
        return self[idx]

    def __getitem__(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = tuple(P(i) for i in idx)
        if not self.shape:
            idx = ()  # scalar operands of elementwise primitives
        assert len(idx) == len(self.shape), (idx, self.shape)
        # an axis of size 1 has one index (also implicit broadcasting)
        idx = tuple(T.ZERO if s is T.ONE or s == T.ONE else i
                    for i, s in zip(idx, self.shape))
        key = (idx, tuple(c.id for c in T.CTX))
        r = self.memo.get(key)
        if r is None:
            r = self.fn(*idx)
            if isinstance(r, (int, Fraction)) and not isinstance(r, bool):
                r = P(r)
            elif isinstance(r, bool):
                r = T.bconst(r)
            if self.kind == "c":
                r = Cx.of(r)
            self.memo[key] = r
        return r

    def __repr__(self):
        return f"SArr{self.shape}:{self.kind}"


def kind_of(dtype):
    s = str(dtype)
    if s.startswith("key<"):
        return "k"
    k = onp.dtype(dtype).kind if s != "bfloat16" else "f"
    if k in "iu":
        return "i"
    if k == "V":
        return "f"
    return k


def array(name, shape, dtype):
    """an unknown array"""
    k = kind_of(dtype)

    def fn(*idx):
        if k == "c":
            return Cx(app(name + ".re", *idx), app(name + ".im", *idx))
        if k == "b":
            return T.bapp(name, *idx)
        return app(name, *idx, sort="Z" if k in "ik" else "R")

    return SArr(shape, k, fn, dtype)


def from_concrete(x):
    x = onp.asarray(x) if not isinstance(x, jax.Array) else x
    if hasattr(x, "dtype") and str(x.dtype).startswith("key<"):
        raise Unsupported("concrete key")
    a = onp.asarray(x)
    k = kind_of(a.dtype)

    def fn(*idx):
        if all(i.is_const() for i in idx):
            return const(a[tuple(int(i.const()) for i in idx)])
        if a.size and (a == a.flat[0]).all():
            return const(a.flat[0])
        if a.size <= 64:
            # case analysis over the concrete positions
            r = const(a.flat[0])
            for pos in onp.ndindex(*a.shape):
                c = band(*[eq(i, P(int(p))) for i, p in zip(idx, pos)])
                r = ite(c, const(a[pos]), r)
            return r
        raise Unsupported("symbolic index into large constant")

    return SArr(a.shape, k, fn, a.dtype)


# ----------------------------------------------------------- dims -> Poly
_dimvars: dict = {}


def dim(d):
    if isinstance(d, (int, onp.integer)):
        return P(int(d))
    if isinstance(d, Poly):
        return d
    ns = _DimNS()
    return P(eval(str(d).replace("^", "**"), {"__builtins__": {}}, ns))


class _DimNS(dict):
    def __missing__(self, k):
        if k == "floordiv":
            return floordiv
        if k == "mod":
            return mod
        if k == "max":
            return lambda *xs: _fold(maxp, xs)
        if k == "min":
            return lambda *xs: _fold(minp, xs)
        if k == "non_negative":
            return lambda x: maxp(x, 0)
        return P(T.var(k))


def _fold(f, xs):
    r = P(xs[0])
    for x in xs[1:]:
        r = f(r, P(x))
    return r


def shp(aval):
    return tuple(dim(d) for d in aval.shape)


# ----------------------------------------------------------- the evaluator
RULES: dict = {}


def rule(*names):
    def deco(f):
        for n in names:
            RULES[n] = f
        return f

    return deco


class Ev:
    def __init__(self, hooks=None):
        self.hooks = hooks or {}
        self.assumptions = set()
        self.prims = {}
        self.loops = []

    def closed(self, cj, args):
        consts = [self.lift(c) for c in cj.consts]
        return self.jaxpr(cj.jaxpr, consts, args)

    def lift(self, c):
        if isinstance(c, SArr):
            return c
        return from_concrete(c)

    def jaxpr(self, jx, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return from_concrete(onp.asarray(v.val, dtype=v.aval.dtype))
            return env[v]

        assert len(jx.constvars) == len(consts)
        assert len(jx.invars) == len(args), (len(jx.invars), len(args))
        for v, a in zip(jx.constvars, consts):
            env[v] = a
        for v, a in zip(jx.invars, args):
            env[v] = a
        for eqn in jx.eqns:
            ins = [read(v) for v in eqn.invars]
            name = eqn.primitive.name
            self.prims[name] = self.prims.get(name, 0) + 1
            h = self.hooks.get(name)
            outs = h(self, eqn, ins) if h is not None else None
            if outs is None:
                r = RULES.get(name)
                if r is None:
                    raise Unsupported(f"primitive {name}")
                outs = r(self, eqn, ins)
            if isinstance(outs, SArr):
                outs = [outs]
            for v, o in zip(eqn.outvars, outs):
                env[v] = o
        return [read(v) for v in jx.outvars]


def out_kind(eqn, i=0):
    return kind_of(eqn.outvars[i].aval.dtype)


def out_shape(eqn, i=0):
    return shp(eqn.outvars[i].aval)


def mk(eqn, fn, i=0):
    return SArr(out_shape(eqn, i), out_kind(eqn, i), fn,
                eqn.outvars[i].aval.dtype)


def elementwise(f):
    def r(ev, eqn, ins):
        return mk(eqn, lambda *ix: f(*[a[ix] for a in ins]))

    return r


def _num(x):
    return T.b2p(x) if isinstance(x, B) else x


def reg(name, f):
    RULES[name] = elementwise(f)


reg("add", lambda a, b: a + b)
reg("add_any", lambda a, b: a + b)
reg("sub", lambda a, b: a - b)
reg("mul", lambda a, b: a * b)
reg("neg", lambda a: -a)
reg("real", lambda a: T.re(a))
reg("imag", lambda a: T.im(a))
reg("complex", lambda a, b: Cx(a, b))
reg("conj", lambda a: T.conj(a))
reg("square", lambda a: a * a)
reg("copy", lambda a: a)
reg("copy_p", lambda a: a)
reg("stop_gradient", lambda a: a)
reg("optimization_barrier", lambda a: a)
reg("eq", lambda a, b: eq(a, b))
reg("ne", lambda a, b: bnot(eq(a, b)))
reg("lt", lambda a, b: lt(a, b))
reg("le", lambda a, b: le(a, b))
reg("gt", lambda a, b: lt(b, a))
reg("ge", lambda a, b: le(b, a))
reg("reduce_precision", lambda a: a)


@rule("debug_callback", "debug_print")
def _dbg(ev, eqn, ins):
    return []


@rule("optimization_barrier")
def _ob(ev, eqn, ins):
    return ins


def _and(a, b):
    if isinstance(a, B):
        return band(a, b)
    return app("bitand", a, b, sort="Z")


def _or(a, b):
    if isinstance(a, B):
        return bor(a, b)
    return app("bitor", a, b, sort="Z")


reg("and", _and)
reg("or", _or)
reg("not", lambda a: bnot(a) if isinstance(a, B) else -a - 1)


def _xor(a, b):
    if isinstance(a, B):
        return bor(band(a, bnot(b)), band(bnot(a), b))
    return app("bitxor", a, b, sort="Z")


reg("xor", _xor)
reg("max", lambda a, b: bor(a, b) if isinstance(a, B) else maxp(a, b))
reg("min", lambda a, b: band(a, b) if isinstance(a, B) else minp(a, b))


@rule("div")
def _div(ev, eqn, ins):
    if out_kind(eqn) == "i":
        def f(*ix):
            a, b = ins[0][ix], ins[1][ix]
            if decide(band(ge(a, 0), gt(b, 0))):
                return floordiv(a, b)
            q = floordiv(a, b)  # b>0 assumed: truncation
            return ite(band(lt(a, 0), ne(a, q * b)), q + 1, q)
        return mk(eqn, f)

    def g(*ix):
        a, b = ins[0][ix], ins[1][ix]
        if isinstance(a, Cx) or isinstance(b, Cx):
            b = Cx.of(b)
            if not b.im.t:
                return Cx.of(a) * Cx(inv(b.re))
        return a / b
    return mk(eqn, g)


@rule("rem")
def _rem(ev, eqn, ins):
    def f(*ix):
        a, b = ins[0][ix], ins[1][ix]
        if out_kind(eqn) != "i":
            return fun("rem", a, b)
        if decide(band(ge(a, 0), gt(b, 0))):
            return mod(a, b)
        m = mod(a, b)
        return ite(band(lt(a, 0), ne(m, 0)), m - b, m)
    return mk(eqn, f)


def _abs(a):
    if isinstance(a, Cx):
        if not a.im.t:
            return absp(a.re)
        return sqrt(a.abs2())
    return absp(a)


reg("abs", _abs)


def _sign(a):
    if isinstance(a, Cx):
        n = inv(sqrt(a.abs2()))
        return Cx(a.re * n, a.im * n)
    return ite(lt(a, 0), P(-1), ite(lt(0, a), ONE, ZERO))


reg("sign", _sign)


def _cfun(name):
    def f(*a):
        if any(isinstance(x, Cx) for x in a):
            a = [Cx.of(x) for x in a]
            fl = [y for x in a for y in (x.re, x.im)]
            return Cx(fun("c" + name + ".re", *fl), fun("c" + name + ".im", *fl))
        return fun(name, *a)
    return f


for _n in ("exp log sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh "
           "logistic log1p expm1 erf erfc erf_inv exp2 atan2 lgamma digamma "
           "cbrt nextafter igamma bessel_i0e bessel_i1e").split():
    reg(_n, _cfun(_n))


def _exp(a):
    if isinstance(a, Poly) and a.is_const() and a.const() == 0:
        return ONE
    return _cfun("exp")(a)


reg("exp", _exp)


def _logistic(a):
    if isinstance(a, Cx):
        return _cfun("logistic")(a)
    return inv(ONE + _exp(-a))


reg("logistic", _logistic)


def _sqrt(a):
    if isinstance(a, Cx):
        return _cfun("sqrt")(a)
    return sqrt(a)


reg("sqrt", _sqrt)
reg("rsqrt", lambda a: inv(sqrt(a)) if isinstance(a, Poly) else Cx.of(1) / _sqrt(a))


def _floorlike(name, f):
    def g(a):
        if a.is_int:
            return a
        if a.is_const():
            return P(f(a.const()))
        return app("fun:" + name, a, sort="Z")
    return g


import math  # noqa: E402

reg("floor", _floorlike("floor", math.floor))
reg("ceil", _floorlike("ceil", math.ceil))
reg("round", _floorlike("round", round))


@rule("is_finite")
def _isfin(ev, eqn, ins):
    def f(*ix):
        a = ins[0][ix]
        if isinstance(a, Poly) and INF in a.fv:
            return FALSE
        if isinstance(a, Poly) and (a.is_const() or a.is_int):
            return TRUE
        return T.bapp("finite", a)
    return mk(eqn, f)


@rule("integer_pow")
def _ipow(ev, eqn, ins):
    y = eqn.params["y"]

    def f(*ix):
        a = ins[0][ix]
        if isinstance(a, Cx):
            r = Cx(ONE)
            b = a if y >= 0 else a.inv()
            for _ in range(abs(y)):
                r = r * b
            return r
        return a ** y
    return mk(eqn, f)


@rule("pow")
def _pow(ev, eqn, ins):
    def f(*ix):
        a, b = ins[0][ix], ins[1][ix]
        if isinstance(b, Poly) and b.is_const():
            c = b.const()
            if c.denominator == 1 and abs(c) <= 8:
                c = int(c)
                if isinstance(a, Cx):
                    r = Cx(ONE)
                    base = a if c >= 0 else a.inv()
                    for _ in range(abs(c)):
                        r = r * base
                    return r
                return a ** c
            if c == Fraction(1, 2) and isinstance(a, Poly):
                return sqrt(a)
        return _cfun("pow")(a, b)
    return mk(eqn, f)


def _pow_facts(a):
    return None


@rule("convert_element_type")
def _cvt(ev, eqn, ins):
    k0, k1 = ins[0].kind, out_kind(eqn)

    def f(*ix):
        a = ins[0][ix]
        if k0 == k1:
            return a
        if k0 == "b":
            a = T.b2p(a)
            return Cx(a) if k1 == "c" else a
        if k1 == "b":
            return bnot(eq(a, Cx(0) if isinstance(a, Cx) else ZERO))
        if k1 == "c":
            return Cx.of(a)
        if k0 == "c":
            a = a.re
        if k1 == "i" and not a.is_int:
            return app("fun:trunc", a, sort="Z")
        return a
    return mk(eqn, f)


@rule("bitcast_convert_type")
def _bitcast(ev, eqn, ins):
    def f(*ix):
        return fun("bitcast:" + str(eqn.params["new_dtype"]), ins[0][ix])
    if len(out_shape(eqn)) != ins[0].ndim:
        raise Unsupported("bitcast")
    return mk(eqn, f)


@rule("broadcast_in_dim")
def _bid(ev, eqn, ins):
    bd = eqn.params["broadcast_dimensions"]
    a = ins[0]
    oshape = out_shape(eqn)

    def f(*ix):
        idx = []
        for k, d in enumerate(bd):
            if a.shape[k] == ONE and oshape[d] != ONE:
                idx.append(ZERO)
            else:
                idx.append(ix[d])
        return a[tuple(idx)]
    return mk(eqn, f)


@rule("transpose")
def _tr(ev, eqn, ins):
    p = eqn.params["permutation"]

    def f(*ix):
        idx = [None] * len(p)
        for o, i in enumerate(p):
            idx[i] = ix[o]
        return ins[0][tuple(idx)]
    return mk(eqn, f)


@rule("squeeze")
def _sq(ev, eqn, ins):
    ds = set(eqn.params["dimensions"])
    n = ins[0].ndim

    def f(*ix):
        it = iter(ix)
        return ins[0][tuple(ZERO if k in ds else next(it) for k in range(n))]
    return mk(eqn, f)


@rule("expand_dims")
def _ed(ev, eqn, ins):
    ds = set(eqn.params["dimensions"])

    def f(*ix):
        return ins[0][tuple(i for k, i in enumerate(ix) if k not in ds)]
    return mk(eqn, f)


def _prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


def reshape_index(ishape, oshape, ix):
    """input index for output index ix under row-major reshape"""
    # drop ones
    ii = [k for k, s in enumerate(ishape) if s != ONE]
    oi = [k for k, s in enumerate(oshape) if s != ONE]
    res = [ZERO] * len(ishape)
    a = b = 0
    while a < len(ii) or b < len(oi):
        ga, gb = [], []
        pa = pb = ONE
        if a < len(ii):
            ga.append(ii[a]); pa = ishape[ii[a]]; a += 1
        if b < len(oi):
            gb.append(oi[b]); pb = oshape[oi[b]]; b += 1
        # extend until products agree
        for _ in range(20):
            if pa == pb:
                break
            # prefer extending the one whose product divides the other
            grow_a = None
            if pa.is_const() and pb.is_const():
                grow_a = pa.const() < pb.const()
            else:
                d = T._split(pb, pa)
                if d[0] is not None and d[0].t and not d[1].t:
                    grow_a = True
                else:
                    d = T._split(pa, pb)
                    if d[0] is not None and d[0].t and not d[1].t:
                        grow_a = False
            if grow_a is None:
                # take everything
                while a < len(ii):
                    ga.append(ii[a]); pa = pa * ishape[ii[a]]; a += 1
                while b < len(oi):
                    gb.append(oi[b]); pb = pb * oshape[oi[b]]; b += 1
                break
            if grow_a and a < len(ii):
                ga.append(ii[a]); pa = pa * ishape[ii[a]]; a += 1
            elif not grow_a and b < len(oi):
                gb.append(oi[b]); pb = pb * oshape[oi[b]]; b += 1
            else:
                while a < len(ii):
                    ga.append(ii[a]); pa = pa * ishape[ii[a]]; a += 1
                while b < len(oi):
                    gb.append(oi[b]); pb = pb * oshape[oi[b]]; b += 1
                break
        if len(ga) == 1 and len(gb) == 1:
            res[ga[0]] = ix[gb[0]]
            continue
        # linearise output
        flat = ZERO
        for k in gb:
            flat = flat * oshape[k] + ix[k]
        # delinearise into input
        rest = flat
        for n, k in enumerate(ga):
            stride = _prod([ishape[j] for j in ga[n + 1:]])
            if n == len(ga) - 1:
                res[k] = rest
            else:
                q = floordiv(rest, stride)
                res[k] = q
                rest = rest - q * stride
    return tuple(res)


@rule("reshape")
def _rs(ev, eqn, ins):
    if eqn.params.get("dimensions") is not None:
        raise Unsupported("reshape dims")
    ish, osh = ins[0].shape, out_shape(eqn)
    return mk(eqn, lambda *ix: ins[0][reshape_index(ish, osh, ix)])


@rule("concatenate")
def _cat(ev, eqn, ins):
    d = eqn.params["dimension"]

    def f(*ix):
        off = ZERO
        offs = []
        for a in ins:
            offs.append(off)
            off = off + a.shape[d]
        r = None
        for a, o in reversed(list(zip(ins, offs))):
            sz = a.shape[d]
            if not sz.t:
                continue
            if r is None:
                if o.t:
                    j = list(ix); j[d] = ix[d] - o
                    r = ("lazy", a, tuple(j))
                else:
                    r = ("lazy", a, ix)
                continue
            c = T.bsimp(lt(ix[d], o + sz))
            j = list(ix); j[d] = ix[d] - o
            if c is TRUE:
                r = ("lazy", a, tuple(j))
            elif c is FALSE:
                continue
            else:
                els = r[1][r[2]] if isinstance(r, tuple) else r
                r = ite(c, a[tuple(j)], els)
        if isinstance(r, tuple):
            r = r[1][r[2]]
        return r
    return mk(eqn, f)


@rule("stack")
def _stack(ev, eqn, ins):
    d = eqn.params["axis"]

    def f(*ix):
        k, rest = ix[d], ix[:d] + ix[d + 1:]
        r = ins[-1][rest]
        for j in range(len(ins) - 2, -1, -1):
            c = T.bsimp(eq(k, P(j)))
            if c is FALSE:
                continue
            r = ins[j][rest] if c is TRUE else ite(c, ins[j][rest], r)
        return r
    return mk(eqn, f)


@rule("split")
def _split(ev, eqn, ins):
    ax = eqn.params["axis"]
    outs, off = [], ZERO
    for k, s in enumerate(eqn.params["sizes"]):
        o = off

        def f(*ix, o=o):
            j = list(ix); j[ax] = ix[ax] + o
            return ins[0][tuple(j)]
        outs.append(mk(eqn, f, k))
        off = off + dim(s)
    return outs


@rule("slice")
def _slice(ev, eqn, ins):
    st = [dim(s) for s in eqn.params["start_indices"]]
    sr = eqn.params["strides"] or [1] * len(st)
    sr = [dim(s) for s in sr]

    def f(*ix):
        return ins[0][tuple(i * r + s for i, s, r in zip(ix, st, sr))]
    return mk(eqn, f)


def clampidx(s, size, n):
    """start clamped into [0, n-size]"""
    return minp(maxp(s, ZERO), n - size)


@rule("dynamic_slice")
def _dsl(ev, eqn, ins):
    a, starts = ins[0], ins[1:]
    osh = out_shape(eqn)
    # symbolic slice sizes may appear as extra operands
    starts = starts[: a.ndim]

    def f(*ix):
        st = [clampidx(s[()], o, n) for s, o, n in zip(starts, osh, a.shape)]
        return a[tuple(i + s for i, s in zip(ix, st))]
    return mk(eqn, f)


@rule("dynamic_update_slice")
def _dus(ev, eqn, ins):
    a, u, starts = ins[0], ins[1], ins[2:]

    def f(*ix):
        st = [clampidx(s[()], o, n)
              for s, o, n in zip(starts, u.shape, a.shape)]
        c = band(*[band(ge(i, s), lt(i, s + o))
                   for i, s, o in zip(ix, st, u.shape)])
        c = T.bsimp(c)
        if c is TRUE:
            return u[tuple(i - s for i, s in zip(ix, st))]
        if c is FALSE:
            return a[ix]
        return ite(c, u[tuple(i - s for i, s in zip(ix, st))], a[ix])
    return mk(eqn, f)


@rule("pad")
def _pad(ev, eqn, ins):
    a, v = ins
    cfg = eqn.params["padding_config"]

    def f(*ix):
        c, j = [], []
        for i, (lo, hi, it), n in zip(ix, cfg, a.shape):
            lo, it = dim(lo), dim(it)
            if not it.t:
                k = i - lo
                c.append(band(ge(k, 0), lt(k, n)))
            else:
                k0 = i - lo
                k = floordiv(k0, it + 1)
                c.append(band(ge(k0, 0), eq(k * (it + 1), k0), lt(k, n)))
            j.append(k)
        cc = T.bsimp(band(*c))
        if cc is TRUE:
            return a[tuple(j)]
        if cc is FALSE:
            return v[()]
        return ite(cc, a[tuple(j)], v[()])
    return mk(eqn, f)


@rule("rev")
def _rev(ev, eqn, ins):
    ds = set(eqn.params["dimensions"])
    sh = ins[0].shape

    def f(*ix):
        return ins[0][tuple(
            sh[k] - 1 - i if k in ds else i for k, i in enumerate(ix))]
    return mk(eqn, f)


@rule("iota")
def _iota(ev, eqn, ins):
    d = eqn.params["dimension"]
    return mk(eqn, lambda *ix: ix[d])


@rule("dim_as_value")
def _dav(ev, eqn, ins):
    v = dim(eqn.params["dim"])
    return mk(eqn, lambda *ix: v)


@rule("select_n")
def _sel(ev, eqn, ins):
    w, cases = ins[0], ins[1:]

    def f(*ix):
        c = w[ix] if w.ndim else w[()]
        if isinstance(c, B):
            c = T.bsimp(c)
            if c is TRUE:
                return cases[1][ix]
            if c is FALSE:
                return cases[0][ix]
            return ite(c, cases[1][ix], cases[0][ix])
        r = cases[-1][ix]
        for k in reversed(range(len(cases) - 1)):
            r = ite(eq(c, P(k)), cases[k][ix], r)
        return r
    return mk(eqn, f)


@rule("clamp")
def _clamp(ev, eqn, ins):
    lo, x, hi = ins

    def f(*ix):
        l = lo[ix] if lo.ndim else lo[()]
        h = hi[ix] if hi.ndim else hi[()]
        return minp(maxp(x[ix], l), h)
    return mk(eqn, f)


# ------------------------------------------------------------- reductions
def _reduce_vars(eqn, ins, axes):
    a = ins[0]
    n = a.ndim
    axes = [x % n for x in axes]

    def idx(ix, vs):
        it, vt = iter(ix), iter(vs)
        return tuple(next(vt) if k in axes else next(it) for k in range(n))
    return axes, idx


@rule("reduce_sum")
def _rsum(ev, eqn, ins):
    a = ins[0]
    axes, idx = _reduce_vars(eqn, ins, eqn.params["axes"])

    def f(*ix):
        return big_sum([a.shape[k] for k in axes],
                       lambda *vs: a[idx(ix, vs)])
    return mk(eqn, f)


def big_sum(sizes, f):
    """sum of f over index ranges; concrete tiny ranges are expanded"""
    if sizes and all(s.is_const() for s in sizes):
        tot = 1
        for s in sizes:
            tot *= int(s.const())
        if tot <= EXPAND:
            r = ZERO
            for pos in itertools.product(
                    *[range(int(s.const())) for s in sizes]):
                r = r + f(*[P(p) for p in pos])
            return r
    conc = [k for k, s in enumerate(sizes)
            if s.is_const() and s.const() <= EXPAND]
    if conc and len(conc) < len(sizes):
        # expand concrete axes, keep the symbolic ones
        k = conc[0]
        r = ZERO
        for p in range(int(sizes[k].const())):
            r = r + big_sum(
                sizes[:k] + sizes[k + 1:],
                lambda *vs: f(*(vs[:k] + (P(p),) + vs[k:])))
        return r
    vs = [fresh("s", s) for s in sizes]
    return msum(list(zip(vs, sizes)), f(*[P(v) for v in vs]))


EXPAND = 64


def functional(name, sizes, f, *idx, sort="R", static=()):
    """uninterpreted functional of the function f over index ranges"""
    return clo(name, (Lam([P(s) for s in sizes], f),), *idx, sort=sort,
               static=static)


def _red_general(name):
    def r(ev, eqn, ins):
        a = ins[0]
        axes, idx = _reduce_vars(eqn, ins, eqn.params["axes"])
        sizes = [a.shape[k] for k in axes]

        def f(*ix):
            def el(*vs):
                return a[idx(ix, vs)]
            if all(s.is_const() for s in sizes):
                tot = 1
                for s in sizes:
                    tot *= int(s.const())
                if 0 < tot <= EXPAND:
                    xs = [el(*[P(p) for p in pos]) for pos in
                          itertools.product(
                              *[range(int(s.const())) for s in sizes])]
                    if name in ("and", "or"):
                        return (band if name == "and" else bor)(*xs)
                    if name == "prod":
                        r0 = xs[0]
                        for x in xs[1:]:
                            r0 = r0 * x
                        return r0
                    return _fold(maxp if name == "max" else minp, xs)
            if name != "prod" and a.kind != "c":
                vs = [fresh("s", z) for z in sizes]
                e0 = el(*[P(v) for v in vs])
                if not (e0.fv & set(vs)):
                    return e0          # the same element everywhere
            if name in ("and", "or"):
                def el2(*vs):
                    return T.b2p(el(*vs))
                p = functional("r" + ("min" if name == "and" else "max"),
                               sizes, el2, sort="Z")
                return gt(p, 0)
            if a.kind == "c":
                raise Unsupported("complex reduction")
            return functional("r" + name, sizes, el,
                              sort="Z" if a.kind == "i" else "R")
        return mk(eqn, f)
    return r


for _n in ("max", "min", "prod", "and", "or"):
    RULES["reduce_" + _n] = _red_general(_n)


@rule("argmax", "argmin")
def _argm(ev, eqn, ins):
    a = ins[0]
    (ax,) = eqn.params["axes"]
    n = a.shape[ax]

    def f(*ix):
        def el(v):
            j = list(ix); j.insert(ax, v)
            return _num(a[tuple(j)])
        return functional(eqn.primitive.name, [n], el, sort="Z")
    return mk(eqn, f)


@rule("cumsum")
def _cumsum(ev, eqn, ins):
    a, ax, rv = ins[0], eqn.params["axis"], eqn.params["reverse"]
    n = a.shape[ax]

    def f(*ix):
        i = ix[ax]

        def el(v):
            j = list(ix); j[ax] = v if not rv else n - 1 - v
            return a[tuple(j)]
        size = i + 1 if not rv else n - i
        if n.is_const() and not size.is_const() and n.const() <= 8:
            r = ZERO
            for k in range(int(n.const())):
                r = r + ite(lt(P(k), size), el(P(k)), ZERO)
            return r
        return big_sum([size], el)
    return mk(eqn, f)


@rule("cummax", "cummin", "cumprod", "cumlogsumexp")
def _cumx(ev, eqn, ins):
    a, ax = ins[0], eqn.params["axis"]

    def f(*ix):
        def el(v):
            j = list(ix); j[ax] = v
            return a[tuple(j)]
        return functional(eqn.primitive.name + str(eqn.params["reverse"]),
                          [a.shape[ax]], el, ix[ax])
    return mk(eqn, f)


@rule("dot_general")
def _dot(ev, eqn, ins):
    a, b = ins
    (ca, cb), (ba, bb) = eqn.params["dimension_numbers"]
    fa = [k for k in range(a.ndim) if k not in ca and k not in ba]
    fb = [k for k in range(b.ndim) if k not in cb and k not in bb]

    def f(*ix):
        nb = len(ba)
        bi, ai, ci = ix[:nb], ix[nb:nb + len(fa)], ix[nb + len(fa):]

        def el(*vs):
            ia, ib = [None] * a.ndim, [None] * b.ndim
            for k, x in zip(ba, bi):
                ia[k] = x
            for k, x in zip(bb, bi):
                ib[k] = x
            for k, x in zip(fa, ai):
                ia[k] = x
            for k, x in zip(fb, ci):
                ib[k] = x
            for k, x in zip(ca, vs):
                ia[k] = x
            for k, x in zip(cb, vs):
                ib[k] = x
            return a[tuple(ia)] * b[tuple(ib)]
        if not ca:
            return el()
        return big_sum([a.shape[k] for k in ca], el)
    return mk(eqn, f)


# ------------------------------------------------------- gather / scatter
@rule("gather")
def _gather(ev, eqn, ins):
    a, ind = ins[0], ins[1]
    dn = eqn.params["dimension_numbers"]
    ss = [dim(s) for s in eqn.params["slice_sizes"]]
    mode = str(eqn.params["mode"])
    od = dn.offset_dims
    coll = dn.collapsed_slice_dims
    obd = dn.operand_batching_dims
    sbd = dn.start_indices_batching_dims
    sim = dn.start_index_map
    oshape = out_shape(eqn)
    nout = len(oshape)
    bdims = [k for k in range(nout) if k not in od]
    offs = [k for k in range(a.ndim) if k not in coll and k not in obd]
    fillv = eqn.params.get("fill_value")

    def f(*ix):
        bi = [ix[k] for k in bdims]
        full = [ZERO] * a.ndim
        for k, d in zip(offs, od):
            full[k] = ix[d]
        oob = []
        for c, d in enumerate(sim):
            s = ind[tuple(bi) + (P(c),)]
            if "CLIP" in mode:
                s = clampidx(s, ss[d], a.shape[d])
            elif "FILL" in mode:
                oob.append(bor(lt(s, 0), gt(s, a.shape[d] - ss[d])))
            full[d] = full[d] + s
        for d, s in zip(obd, sbd):
            # position of batching dim s among indices batch dims
            full[d] = full[d] + bi[s]
        o = T.bsimp(bor(*oob)) if oob else FALSE
        if o is FALSE:
            return a[tuple(full)]
        if fillv is not None:
            fv = const(fillv)
        elif a.kind in "fc":
            fv = P(NAN)
        else:
            fv = P(T.var("INTFILL"))
        if o is TRUE:
            return fv
        return ite(o, fv, a[tuple(full)])
    return mk(eqn, f)


@rule("scatter", "scatter-add", "scatter_add", "scatter-mul", "scatter_mul")
def _scatter(ev, eqn, ins):
    a, ind, upd = ins
    dn = eqn.params["dimension_numbers"]
    name = eqn.primitive.name.replace("_", "-")
    uwd = dn.update_window_dims
    iwd = dn.inserted_window_dims
    sdo = dn.scatter_dims_to_operand_dims
    obd = dn.operand_batching_dims
    sbd = dn.scatter_indices_batching_dims
    mode = str(eqn.params["mode"])
    nb = ind.ndim - 1
    ubd = [k for k in range(upd.ndim) if k not in uwd]
    wdims = [k for k in range(a.ndim) if k not in iwd and k not in obd]
    wsize = {d: upd.shape[u] for d, u in zip(wdims, uwd)}

    def f(*ix):
        bsz = [upd.shape[k] for k in ubd]

        def start(bi, d):
            for c, dd in enumerate(sdo):
                if dd == d:
                    s = ind[tuple(bi) + (P(c),)]
                    if "CLIP" in mode:
                        s = clampidx(s, wsize.get(d, ONE), a.shape[d])
                    return s
            return ZERO

        def hit(bi):
            cs, w = [], {}
            for d in range(a.ndim):
                if d in obd:
                    cs.append(eq(ix[d], bi[sbd[obd.index(d)]]))
                    continue
                s = start(bi, d)
                if d in iwd:
                    cs.append(eq(ix[d], s))
                else:
                    if wsize[d] == a.shape[d] and s == ZERO:
                        w[d] = ix[d]
                    else:
                        cs.append(band(ge(ix[d], s),
                                       lt(ix[d], s + wsize[d])))
                        w[d] = ix[d] - s
            return band(*cs), w

        def uval(bi, w):
            j = [None] * upd.ndim
            for k, b_ in zip(ubd, bi):
                j[k] = b_
            for d, u in zip(wdims, uwd):
                j[u] = w[d]
            return upd[tuple(j)]
        if all(s.is_const() for s in bsz):
            r = a[ix]
            for pos in itertools.product(
                    *[range(int(s.const())) for s in bsz]):
                bi = [P(p) for p in pos]
                c, w = hit(bi)
                c = T.bsimp(c)
                if c is FALSE:
                    continue
                u = uval(bi, w)
                if name == "scatter":
                    r = u if c is TRUE else ite(c, u, r)
                elif name == "scatter-add":
                    r = r + ite(c, u, ZERO)
                else:
                    r = r * ite(c, u, ONE)
            return r
        if name == "scatter-add":
            vs = [fresh("s", s) for s in bsz]
            c, w = hit([P(v) for v in vs])
            return a[ix] + msum(list(zip(vs, bsz)),
                                ite(c, uval([P(v) for v in vs], w), ZERO))
        if name == "scatter":
            # indices must be injective in the batch variable: solve for it
            vs = [fresh("s", s) for s in bsz]
            c, w = hit([P(v) for v in vs])
            sol = {}
            lits = c.args if c.op == "and" else (c,)
            for l in lits:
                if l.op != "eq0":
                    continue
                p = l.args[0]
                for v in vs:
                    co = p.t.get(((v, 1),))
                    if v in sol or co is None or abs(co) != 1:
                        continue
                    e = P(v) - p * (1 / co)
                    if not (e.fv & set(vs)):
                        sol[v] = e
                        break
            if len(sol) != len(vs):
                raise Unsupported("scatter with symbolic indices")
            c2 = T.subb(c, sol)
            c2 = band(c2, *[band(ge(e, 0), lt(e, s))
                            for (v, e), s in zip(
                                ((v, sol[v]) for v in vs), bsz)])
            c2 = T.bsimp(c2)
            bi = [sol[v] for v in vs]
            _, w2 = hit(bi)
            if c2 is FALSE:
                return a[ix]
            if c2 is TRUE:
                return uval(bi, w2)
            return ite(c2, uval(bi, w2), a[ix])
        raise Unsupported(name)
    return mk(eqn, f)


# ------------------------------------------------------------- call-likes
def _inline(key):
    def r(ev, eqn, ins):
        cj = eqn.params[key]
        if hasattr(cj, "consts"):
            return ev.closed(cj, ins)
        return ev.jaxpr(cj, [], ins)
    return r


@rule("jit", "pjit")
def _jit(ev, eqn, ins):
    nm = eqn.params.get("name")
    h = ev.hooks.get("jit:" + str(nm))
    if h is not None:
        o = h(ev, eqn, ins)
        if o is not None:
            return o
    if nm == "_normal_real":    # contract: a function of key and shape
        sh = out_shape(eqn)
        nb = ins[0].ndim
        return mk(eqn, lambda *ix: app("rnd:normal", ins[0][ix[:nb]], *sh,
                                       *ix, sort="R"))
    return ev.closed(eqn.params["jaxpr"], ins)


RULES["closed_call"] = _inline("call_jaxpr")
RULES["core_call"] = _inline("call_jaxpr")
RULES["custom_jvp_call"] = _inline("call_jaxpr")
RULES["remat"] = _inline("jaxpr")
RULES["checkpoint"] = _inline("jaxpr")
RULES["custom_lin"] = _inline("call_jaxpr")


@rule("custom_vjp_call", "custom_vjp_call_jaxpr")
def _cvjp(ev, eqn, ins):
    cj = eqn.params.get("call_jaxpr") or eqn.params.get("fun_jaxpr")
    return ev.closed(cj, ins)


@rule("cond")
def _cond(ev, eqn, ins):
    c, args = ins[0][()], ins[1:]
    br = eqn.params["branches"]
    if isinstance(c, B):
        c2 = T.bsimp(c)
        if c2 in (TRUE, FALSE):
            return ev.closed(br[1 if c2 is TRUE else 0], args)
        sel = [bnot(c2), c2]
    else:
        if c.is_const():
            k = min(max(int(c.const()), 0), len(br) - 1)
            return ev.closed(br[k], args)
        sel = None
        if len(br) == 2:
            # index is clamped
            g = T.bsimp(ge(c, 1))
            sel = [bnot(g), g]
    outs = []
    for k, b in enumerate(br):
        outs.append(ev.closed(b, args))
    res = []
    for n in range(len(eqn.outvars)):
        def f(*ix, n=n):
            r = outs[-1][n][ix]
            for k in reversed(range(len(br) - 1)):
                if sel is not None and len(br) == 2:
                    cnd = sel[k]
                else:
                    cnd = le(c, 0) if k == 0 else eq(c, P(k))
                r = ite(cnd, outs[k][n][ix], r)
            return r
        res.append(mk(eqn, f, n))
    return res


@rule("scan")
def _scan(ev, eqn, ins):
    p = eqn.params
    nc, nk = p["num_consts"], p["num_carry"]
    consts, init, xs = ins[:nc], ins[nc:nc + nk], ins[nc + nk:]
    cj = p["jaxpr"]
    L = dim(p["length"])
    rv = p["reverse"]
    carry = init
    nys = len(eqn.outvars) - nk
    if L.is_const() and L.const() <= 16:
        n = int(L.const())
        ys = [None] * n
        order = range(n - 1, -1, -1) if rv else range(n)
        for t in order:
            xt = [SArr(x.shape[1:], x.kind,
                       lambda *ix, x=x, t=t: x[(P(t),) + ix], x.dtype)
                  for x in xs]
            out = ev.closed(cj, list(consts) + list(carry) + xt)
            carry, ys[t] = out[:nk], out[nk:]
        res = list(carry)
        for j in range(nys):
            def f(i, *ix, j=j):
                if i.is_const():
                    return ys[int(i.const())][j][ix]
                r = ys[n - 1][j][ix]
                for t in reversed(range(n - 1)):
                    r = ite(eq(i, P(t)), ys[t][j][ix], r)
                return r
            res.append(mk(eqn, f, nk + j))
        return res
    # symbolic length
    def step(t, cs):
        xt = [SArr(x.shape[1:], x.kind,
                   lambda *ix, x=x: x[((L - ONE - t) if rv else t,) + ix],
                   x.dtype) for x in xs]
        out = ev.closed(cj, list(consts) + list(cs) + xt)
        return out[:nk], out[nk:]
    fin, ys, t = iterate(ev, L, init, step)
    res = []
    for k in range(nk):
        res.append(mk(eqn, lambda *ix, k=k: fin[k][ix], k))
    for j in range(nys):
        ix = [fresh("c", s) for s in ys[j].shape]
        e = ys[j][tuple(P(i) for i in ix)]

        def f(i, *jx, e=e, ix=ix):
            mp = {a: b for a, b in zip(ix, jx)}
            mp[t] = (L - ONE - i) if rv else i
            return T.subx(e, mp)
        res.append(mk(eqn, f, nk + j))
    return res


def iterate(ev, L, init, step):
    """L-fold iteration of step from init, L symbolic.

    Carries that are invariant or grow by an amount that does not depend on
    unresolved carries get their closed form; the others are named functions
    of the step number.  Two iterations with provably equal starts and equal
    steps are the same functions (induction over the step number).
    -> final carries, outputs at step t, t"""
    nk = len(init)
    uid = next(T._next)
    t = fresh("t", L)
    named = [array(f"it!{uid}.{k}", (L + ONE,) + c.shape,
                   c.dtype if c.dtype is not None else onp.float64)
             for k, c in enumerate(init)]
    nm = [_array_names(a) for a in named]
    closed = {}

    def at(k, tt, ren=None):
        if k in closed:
            return SArr(init[k].shape, init[k].kind,
                        lambda *ix: closed[k](tt, *ix), init[k].dtype)
        a = named[k] if ren is None else ren[k]
        return SArr(init[k].shape, init[k].kind,
                    lambda *ix: a[(tt,) + ix], init[k].dtype)
    while True:
        cs = [at(k, P(t)) for k in range(nk)]
        out, ys = step(P(t), cs)
        progress = False
        unres = set().union(*[nm[k] for k in range(nk) if k not in closed]) \
            if len(closed) < nk else set()
        for k in range(nk):
            if k in closed:
                continue
            ix = [fresh("c", s) for s in init[k].shape]
            pix = tuple(P(i) for i in ix)
            new, old = out[k][pix], cs[k][pix]
            if new is old or (not isinstance(new, B) and new == old):
                closed[k] = lambda tt, *jx, k=k: init[k][jx]
                progress = True
                continue
            if isinstance(new, B):
                continue
            d = new - old
            if _mentions(d, unres):
                continue

            def cf(tt, *jx, k=k, d=d, ix=ix):
                dd = T.subx(d, {a: b for a, b in zip(ix, jx)})
                w = fresh("t", L)
                dd = T.subx(dd, {t: P(w)})
                return init[k][jx] + msum([(w, tt)], dd)
            closed[k] = cf
            progress = True
        if not progress or len(closed) == nk:
            break
    if len(closed) == nk:
        cs = [at(k, P(t)) for k in range(nk)]
        out, ys = step(P(t), cs)
        return [at(k, L) for k in range(nk)], ys, t
    U = [k for k in range(nk) if k not in closed]

    def run(tt, cur):
        return step(tt, [cur[k] if k in cur else at(k, tt) for k in range(nk)])[0]
    me = LoopSys(L, U, init, named, run)
    rep = join(ev, me)
    if rep is None:
        ev.loops.append(me)
        rep = {}

    def fin(k, tt):
        return rep[k](tt) if k in rep else at(k, tt)
    if rep:
        out, ys = step(P(t), [fin(k, P(t)) for k in range(nk)])
    return [fin(k, L) for k in range(nk)], ys, t


class LoopSys:
    """carries U of a loop: carry k at step t is named[k][t]"""

    def __init__(self, L, U, init, named, run, cond=None):
        self.L, self.U, self.init, self.named = L, U, init, named
        self.run, self.cond = run, cond

    def at(self, k, tt):
        a = self.named[k]
        return SArr(self.init[k].shape, self.init[k].kind,
                    lambda *ix: a[(tt,) + ix], self.init[k].dtype)


def _like(a, b):
    from . import prove as PV
    return a.kind == b.kind and a.ndim == b.ndim and all(
        x == y or PV.prove_zero(x - y) for x, y in zip(a.shape, b.shape))


def _sample(a, cache):
    """element at fixed fresh indices"""
    ix = []
    for pos, s in enumerate(a.shape):
        k = (pos, s)
        if k not in cache:
            cache[k] = P(fresh("m", s))
        ix.append(cache[k])
    return a[tuple(ix)]


def _same(x, y):
    return x is y or (not isinstance(x, B) and not isinstance(y, B) and x == y)


def _eqv(x, y):
    from . import prove as PV
    if _same(x, y):
        return True
    if isinstance(x, B) != isinstance(y, B):
        return False
    return bool(PV.prove_eq(x, y))


def refine(systems, ev=None, joining=False, eqv=None):
    """the coarsest partition of the carries (and of the constants they start
    from) that holds initially and is preserved by every step: members of a
    class are equal at every step (induction)"""
    mem = [(n, k, False) for n, s in enumerate(systems) for k in s.U]
    mem += [(n, k, True) for n, s in enumerate(systems) for k in s.U]
    eqv = eqv or _eqv
    cache = {}
    groups = []
    for m in mem:
        a = systems[m[0]].init[m[1]]
        e = _sample(a, cache)
        for g in groups:
            b, eb = g[0]
            if _like(a, b) and eqv(e, eb):
                g[1].append(m)
                break
        else:
            groups.append(((a, e), [m]))
    classes = []
    for g in groups:        # one constant per starting value
        cst = [m for m in g[1] if m[2]]
        classes.append([m for m in g[1] if not m[2]] + cst[:1])
    t = fresh("t", systems[0].L)

    def hopeless():
        return joining and any(
            m[0] == 1 and not m[2] and not any(q[2] or q[0] == 0 for q in c)
            for c in classes for m in c)
    for _ in range(40):
        if hopeless():
            return None, None, None
        keep = len(ev.loops) if ev is not None else 0
        val = {}
        for c in classes:
            cst = [m for m in c if m[2]]
            for m in c:
                if cst:
                    a = systems[cst[0][0]].init[cst[0][1]]
                    val[m] = lambda tt, a=a: a
                else:
                    n, k, _ = c[0]
                    val[m] = lambda tt, n=n, k=k: systems[n].at(k, tt)
        outs = [s.run(P(t), {k: val[(n, k, False)](P(t)) for k in s.U})
                for n, s in enumerate(systems)]
        new = []
        for c in classes:
            if len(c) == 1:
                new.append(c)
                continue
            parts = []
            for m in c:
                n, k, cst = m
                a = systems[n].init[k] if cst else outs[n][k]
                e = _sample(a, cache)
                for q in sorted(parts, key=lambda q: not _same(e, q[0])):
                    if eqv(e, q[0]):
                        q[1].append(m)
                        break
                else:
                    import os
                    if os.environ.get("VC_DEBUG") == "2" and parts:
                        print("   split", c, m, "|", str(e)[:1500], "| vs |", str(parts[0][0])[:1500])
                    parts.append((e, [m]))
            new.extend(q[1] for q in parts)
        if ev is not None:
            del ev.loops[keep:]      # loops met inside this step
        if len(new) == len(classes):
            return classes, val, t
        classes = new
    return None, None, None


def _partners(old, me, ev, eqv):
    import os
    classes, val, t = refine([old, me], ev, True, eqv)
    if classes is None:
        return None
    rep = {}
    for k in me.U:
        c = next(c for c in classes if (1, k, False) in c)
        if not any(m[2] or m[0] == 0 for m in c):
            return None
        rep[k] = val[(1, k, False)]
    if me.cond is not None:
        c0 = old.cond({k: val[(0, k, False)](P(t)) for k in old.U})
        c1 = me.cond({k: val[(1, k, False)](P(t)) for k in me.U})
        if not _eqv(c0, c1):
            if os.environ.get("VC_DEBUG"):
                print("   loop conditions differ:", str(c0)[:600], "|", str(c1)[:600])
            return None
        me.L = old.L
    return rep


def join(ev, me):
    """express the carries of a loop by those of an earlier equal loop"""
    from . import prove as PV
    cand = []
    for old in reversed(ev.loops):
        if (old.cond is None) != (me.cond is None):
            continue
        if me.cond is None and not (old.L == me.L or PV.prove_zero(old.L - me.L)):
            continue
        if not all(any(_like(me.init[k], old.init[j]) for j in old.U) for k in me.U):
            continue
        cand.append(old)
    for eqv in (_same, _eqv):
        for old in cand:
            rep = _partners(old, me, ev, eqv)
            if rep is not None:
                T.Stats.merged = getattr(T.Stats, "merged", 0) + 1
                return rep
    return None


@rule("while")
def _while(ev, eqn, ins):
    p = eqn.params
    ncc, nbc = p["cond_nconsts"], p["body_nconsts"]
    cc, bc, init = ins[:ncc], ins[ncc:ncc + nbc], ins[ncc + nbc:]
    nk = len(init)
    uid = next(T._next)
    cs = [array(f"w!{uid}.{k}", c.shape, c.dtype if c.dtype is not None
                else onp.float64) for k, c in enumerate(init)]
    out = ev.closed(p["body_jaxpr"], list(bc) + cs)
    c, = ev.closed(p["cond_jaxpr"], list(cc) + cs)
    c = c[()]
    inv = {}
    for k in range(nk):
        ix = tuple(P(fresh("c", s)) for s in init[k].shape)
        a, b = out[k][ix], cs[k][ix]
        if a is b or (not isinstance(a, B) and a == b):
            inv[k] = init[k]
    if inv:             # invariant carries keep their initial value
        cs = [inv.get(k, c0) for k, c0 in enumerate(cs)]
        out = ev.closed(p["body_jaxpr"], list(bc) + cs)
        c = ev.closed(p["cond_jaxpr"], list(cc) + cs)[0][()]
    for k in range(nk):
        if init[k].ndim or init[k].kind != "i":
            continue
        x = cs[k][()]
        if out[k][()] - x != ONE or c.op not in ("lt0", "le0"):
            continue
        q = c.args[0] if c.op == "lt0" else c.args[0] - ONE
        H = x - q           # loop runs while x < H
        names = set().union(*[_array_names(cs[j]) for j in range(nk)
                              if j not in inv])
        if _mentions(H, names):
            continue
        i0 = init[k][()]
        L = H - i0
        if T.bsimp(ge(L, 0)) is not TRUE:
            L = maxp(L, ZERO)

        def step(t, cur):
            cur = list(cur)
            cur[k] = SArr((), "i", lambda: i0 + t, init[k].dtype)
            return ev.closed(p["body_jaxpr"], list(bc) + cur), []
        rest = [init[j] for j in range(nk)]
        if L.is_const() and L.const() <= 16:
            cur = list(init)
            for tt in range(int(L.const())):
                cur, _ = step(P(tt), cur)
            return [mk(eqn, lambda *ix, j=j: cur[j][ix], j) for j in range(nk)]
        fin, _, _ = iterate(ev, L, rest, step)
        return [mk(eqn, lambda *ix, j=j: fin[j][ix], j) for j in range(nk)]
    # any other loop: runs an unknown number W of times
    W = T.var(f"trips!{uid}")
    T.VARFACTS[W] = [ge(P(W), 0)]
    W = P(W)
    ev.assumptions.add("while loops without a plain counter terminate (partial correctness)")
    named = [array(f"wh!{uid}.{k}", (W + ONE,) + c.shape,
                   c.dtype if c.dtype is not None else onp.float64)
             for k, c in enumerate(init)]

    def run(tt, cur):
        return ev.closed(p["body_jaxpr"], list(bc) + [cur[k] for k in range(nk)])

    def cnd(cur):
        return ev.closed(p["cond_jaxpr"], list(cc) + [cur[k] for k in range(nk)])[0][()]
    me = LoopSys(W, list(range(nk)), init, named, run, cnd)
    rep = join(ev, me)
    if rep is None:
        classes, val, _ = refine([me], ev, eqv=_same)
        rep = {k: val[(0, k, False)] for k in me.U} if classes is not None else {
            k: (lambda tt, k=k: me.at(k, tt)) for k in me.U}
        ev.loops.append(me)
    fin = [rep[k](me.L) for k in range(nk)]
    return [mk(eqn, lambda *ix, j=j: fin[j][ix], j) for j in range(nk)]


def _array_names(c):
    e = c[tuple(fresh("q", s) for s in c.shape)]
    names = set()
    for x in ((e.re, e.im) if isinstance(e, Cx) else
              ((e.args[0],) if isinstance(e, B) else (e,))):
        for a in x.atoms():
            names.add(a.args[0])
    return names


def _walk(x, seen, f):
    if id(x) in seen:
        return
    if isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                _walk(a, seen, f)
        return
    if isinstance(x, Cx):
        _walk(x.re, seen, f)
        _walk(x.im, seen, f)
        return
    if isinstance(x, T.Atom):
        seen.add(id(x))
        f(x)
        for y in x.args:
            _walk(y, seen, f)
        return
    if isinstance(x, B):
        for y in x.args:
            _walk(y, seen, f)
        return
    if isinstance(x, Lam):
        for y in x.body + x.ranges:
            _walk(y, seen, f)
        return
    if isinstance(x, tuple):
        for y in x:
            _walk(y, seen, f)


def _mentions(x, names):
    found = []

    def f(a):
        if a.kind == "app" and a.args[0] in names:
            found.append(a)
    _walk(x, set(), f)
    return bool(found)


def mentions(x, names):
    return _mentions(x, set(names))


# --------------------------------------------- dependencies, by contract
@rule("eigh")
def _eigh(ev, eqn, ins):
    a = ins[0]
    n = a.shape[-1]
    nb = a.ndim - 2
    if eqn.params.get("subset_by_index") is not None:
        raise Unsupported("eigh subset")

    def lam(bi):
        return Lam([n, n], lambda i, j: Cx.of(a[tuple(bi) + (i, j)]))

    outs = []
    names = ["vec", "val"]
    for k, o in enumerate(eqn.outvars):
        is_vec = len(o.aval.shape) == a.ndim

        def f(*ix, is_vec=is_vec):
            L = lam(ix[:nb])
            if is_vec:
                r = clo("eigvec.re", (L,), *ix[nb:])
                if a.kind == "c":
                    return Cx(r, clo("eigvec.im", (L,), *ix[nb:]))
                return r
            return clo("eigval", (L,), ix[nb])
        outs.append(mk(eqn, f, k))
    ev.assumptions.add(
        "jax eigh: contract assumed (eigenpairs of the Hermitian argument, "
        "eigenvalues ascending, orthonormal eigenvectors)")
    return outs


@rule("svd")
def _svd(ev, eqn, ins):
    a = ins[0]
    nb = a.ndim - 2
    m, n = a.shape[-2:]
    if eqn.params["compute_uv"]:
        raise Unsupported("svd uv")
    ev.assumptions.add("jax svd: contract assumed (singular values, descending)")

    def f(*ix):
        bi = ix[:nb]
        L = Lam([m, n], lambda i, j: Cx.of(a[tuple(bi) + (i, j)]))
        return clo("singval", (L,), ix[nb])
    return mk(eqn, f)


@rule("sort")
def _sort(ev, eqn, ins):
    d = eqn.params["dimension"]
    nk = eqn.params["num_keys"]
    n = ins[0].shape[d]
    if n.is_const() and n.const() <= 1:
        return ins
    stable = eqn.params["is_stable"]
    ev.assumptions.add(
        "jax sort: contract assumed (stable ascending permutation of the keys)")

    def perm(ix):
        def keys(v):
            r = []
            for a in ins[:nk]:
                j = list(ix); j[d] = v
                r.append(_num(a[tuple(j)]))
            return tuple(r)
        return sortperm(n, keys, ix[d], stable)

    def mkf(a):
        def f(*ix):
            j = list(ix)
            j[d] = perm(ix)
            return a[tuple(j)]
        return f
    return [mk(eqn, mkf(a), k) for k, a in enumerate(ins)]


def sortperm(n, keys, i, stable=True):
    """position of the i-th smallest key (stable)"""
    L = Lam([n], keys)
    # keys that are provably the positions themselves / ascending eigenvalues
    if len(L.body) == 1 and isinstance(L.body[0], Poly):
        b = L.body[0]
        if b == P(T.bv(L.h, 0)):
            return P(i)
        if len(b.t) == 1:
            (m, c), = b.t.items()
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if a.kind == "clo" and a.args[0] == "eigval" \
                        and a.args[3] == (P(T.bv(L.h, 0)),) \
                        and T.bv(L.h, 0) not in T._fvs(a.args[2]):
                    return P(i)   # eigh contract: ascending
    return clo("sortperm", (L,), i, sort="Z")


def _perm_facts(a):
    """axioms of the sort contract for an occurring position"""
    if a.kind == "clo" and a.args[0] == "sortperm":
        n = a.args[2][0].ranges[0]
        p = P(a)
        return [ge(p, 0), lt(p, n)]
    if a.kind == "clo" and a.args[0] in ("argmax", "argmin"):
        n = a.args[2][0].ranges[0]
        return [ge(P(a), 0), lt(P(a), n)]
    if a.kind == "clo" and a.args[0] == "permutation":
        n = a.args[3][1]
        return [ge(P(a), 0), lt(P(a), n)]
    if a.kind == "app" and a.args[0] == "fun:exp":
        return [gt(P(a), 0)]
    if a.kind == "app" and a.args[0] == "fun:floor":
        return [le(P(a), a.args[1]), lt(a.args[1], P(a) + 1)]
    if a.kind == "app" and a.args[0] == "fun:ceil":
        return [ge(P(a), a.args[1]), lt(P(a), a.args[1] + 1)]
    if a.kind == "app" and a.args[0] == "fun:tanh":
        return [gt(P(a), -1), lt(P(a), 1)]
    return []


from . import smt  # noqa: E402

smt._ATOMFACT_FNS.append(_perm_facts)


# ---------------------------------------------------------------- random
@rule("random_wrap")
def _rwrap(ev, eqn, ins):
    a = ins[0]

    def f(*ix):
        return wrapkey(lambda j: a[ix + (j,)])
    return mk(eqn, f)


def wrapkey(fn):
    L = Lam([P(2)], fn)
    # wrap(unwrap(k)) = k
    b = L.body[0]
    if len(b.t) == 1:
        (m, c), = b.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = m[0][0]
            if at.kind == "app" and at.args[0] == "unwrap" \
                    and at.args[2] == P(T.bv(L.h, 0)):
                return at.args[1]
    return clo("wrap", (L,), sort="Z")


@rule("random_unwrap")
def _runwrap(ev, eqn, ins):
    a = ins[0]

    def f(*ix):
        k, j = a[ix[:-1]], ix[-1]
        if len(k.t) == 1:
            (m, c), = k.t.items()
            if c == 1 and len(m) == 1 and m[0][0].kind == "clo" \
                    and m[0][0].args[0] == "wrap":
                return m[0][0].args[2][0].apply(j)[0]
        return app("unwrap", k, j, sort="Z")
    return mk(eqn, f)


@rule("random_seed")
def _rseed(ev, eqn, ins):
    return mk(eqn, lambda *ix: app("keyseed", ins[0][ix], sort="Z"))


@rule("random_split")
def _rsplit(ev, eqn, ins):
    a = ins[0]
    sh = [dim(s) for s in eqn.params["shape"]]
    nb = a.ndim

    def f(*ix):
        return app("keysplit", a[ix[:nb]], *sh, *ix[nb:], sort="Z")
    return mk(eqn, f)


@rule("random_fold_in")
def _rfold(ev, eqn, ins):
    return mk(eqn, lambda *ix: app("keyfold", ins[0][ix], ins[1][ix],
                                   sort="Z"))


@rule("random_bits")
def _rbits(ev, eqn, ins):
    a = ins[0]
    nb = a.ndim
    sh = out_shape(eqn)
    return mk(eqn, lambda *ix: app("keybits%d" % eqn.params["bit_width"],
                                   a[ix[:nb]], *sh, *ix[nb:], sort="Z"))


@rule("debug_callback", "debug_print")
def _dbg(ev, eqn, ins):
    return []


for _n in ("shift_right_logical", "shift_left", "shift_right_arithmetic"):
    reg(_n, lambda a, b, _n=_n: app(_n, a, b, sort="Z"))


@rule("mul_hi")
def _mh(ev, eqn, ins):
    raise Unsupported("mul_hi")


@rule("erf_inv")
def _erfinv(ev, eqn, ins):
    return mk(eqn, lambda *ix: fun("erf_inv", ins[0][ix]))


@rule("pure_callback")
def _pcb(ev, eqn, ins):
    raise Unsupported("pure_callback")


@rule("top_k")
def _topk(ev, eqn, ins):
    raise Unsupported("top_k")
