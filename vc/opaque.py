"""Opaque functions: an uninterpreted JAX primitive.

`bind(tag, ins, outs, row)` is an arbitrary (but fixed) function named `tag` of
the whole input arrays `ins`.  With `row` a tuple of booleans, inputs marked
True and all outputs have a leading batch axis and output row b depends only on
row b of those inputs (the row-wise contract).  In proofs nothing else is
known; in concrete runs it is a fixed pseudo-random smooth function.
"""
from __future__ import annotations

import zlib

import jax
import jax.numpy as jnp
import numpy as onp
from jax._src import core as jcore
from jax.extend.core import Primitive
from jax.interpreters import ad, batching, mlir

from . import sym
from . import terms as T
from .sym import SArr, Unsupported

opaque_p = Primitive("vc_opaque")
opaque_p.multiple_results = True


def bind(tag, ins, outs, row=None):
    """outs: list of (shape, dtype)"""
    ins = [jnp.asarray(x) for x in ins]
    outs = tuple((tuple(s), onp.dtype(t)) for s, t in outs)
    return opaque_p.bind(*ins, tag=str(tag), outs=outs,
                         row=None if row is None else tuple(row))


def _abs(*ins, tag, outs, row):
    return [jcore.ShapedArray(s, t) for s, t in outs]


opaque_p.def_abstract_eval(_abs)


def _seed(*xs):
    return zlib.crc32("|".join(map(str, xs)).encode())


def _digest(x, w):
    """a smooth scalar of one array, sensitive to every element"""
    x = x.astype(jnp.complex128)
    n = x.size
    ph = onp.random.default_rng(w).uniform(0.5, 1.5, size=(n,)).reshape(x.shape)
    return jnp.sum(jnp.sin(x.real * 0.7 * ph + 0.3 * ph) + 0.6 * jnp.cos(
        0.9 * ph * x.imag + ph)) / (1.0 + 0.3 * n) if n else jnp.asarray(0.1)


def _impl(*ins, tag, outs, row):
    def one(ins, shapes):
        res = []
        for k, (s, t) in enumerate(shapes):
            z = jnp.asarray(0.0)
            for j, x in enumerate(ins):
                z = z + _digest(x, _seed(tag, k, j)) * (1 + 0.13 * j)
            sz = int(onp.prod(s)) if len(s) else 1
            ph = onp.random.default_rng(_seed(tag, k, "o")).uniform(
                0.5, 2, size=(sz,)).reshape(s)
            o = jnp.sin(z * ph + ph)
            if onp.dtype(t).kind == "c":
                o = o + 1j * jnp.cos(1.3 * z * ph)
            elif onp.dtype(t).kind in "iu":
                o = jnp.floor(jnp.abs(o) * 1000)
            elif onp.dtype(t).kind == "b":
                o = o > 0
            res.append(o.astype(t))
        return res
    if row is None:
        return one(list(ins), outs)
    b = outs[0][0][0]
    rows = [i for i, r in enumerate(row) if r]

    def f(*rs):
        full = list(ins)
        for i, r in zip(rows, rs):
            full[i] = r
        return one(full, [(s[1:], t) for s, t in outs])
    if b == 0:
        return [jnp.zeros(s, t) for s, t in outs]
    return jax.vmap(f)(*[ins[i] for i in rows])


opaque_p.def_impl(_impl)
mlir.register_lowering(opaque_p, mlir.lower_fun(_impl, multiple_results=True))


def _batch(args, dims, *, tag, outs, row):
    """vmap: only over a non-batched opaque function of whole arrays"""
    sz = next(x.shape[d] for x, d in zip(args, dims)
              if d is not batching.not_mapped)
    ins, r = [], []
    for x, d in zip(args, dims):
        if d is batching.not_mapped:
            ins.append(x)
            r.append(False)
        else:
            ins.append(jnp.moveaxis(x, d, 0))
            r.append(True)
    if row is not None:
        # rows of a rowwise function, itself mapped: allowed when every
        # output row is a batch of one
        if not all(s[0] == 1 for s, _ in outs):
            raise NotImplementedError("vmap of a rowwise opaque function")
        ins2, r2 = [], []
        for x, m, rr in zip(ins, r, row):
            if rr:
                x = x[:, 0] if m else jnp.broadcast_to(x[0][None], (sz,) + x.shape[1:])
                ins2.append(x)
                r2.append(True)
            else:
                ins2.append(x)
                r2.append(m)
        o = opaque_p.bind(*ins2, tag=tag, row=tuple(r2),
                          outs=tuple(((sz,) + s[1:], t) for s, t in outs))
        return [x[:, None] for x in o], [0] * len(outs)
    o = opaque_p.bind(*ins, tag=tag, row=tuple(r),
                      outs=tuple(((sz,) + s, t) for s, t in outs))
    return o, [0] * len(outs)


batching.primitive_batchers[opaque_p] = _batch


def jac(tag, k, j, ins, outs, row):
    """the derivative array of output k with respect to input j"""
    (os_, ot), ish = outs[k], tuple(ins[j].shape)
    if row is not None and row[j]:
        ish = ish[1:]
    return opaque_p.bind(*ins, tag=f"{tag}:d{k}/{j}", row=row,
                         outs=((tuple(os_) + ish, ot),))[0]


def _jvp(primals, tangents, *, tag, outs, row):
    ins = list(primals)
    res = opaque_p.bind(*ins, tag=tag, outs=outs, row=row)
    tans = []
    for k, (s, t) in enumerate(outs):
        acc = None
        if onp.dtype(t).kind in "fc":
            for j, dx in enumerate(tangents):
                if isinstance(dx, ad.Zero) or ins[j].dtype.kind not in "fc":
                    continue
                J = jac(tag, k, j, ins, outs, row)
                nb = 1 if row is not None and row[j] else 0
                no, ni = len(s) - nb, ins[j].ndim - nb
                lo = [chr(97 + q) for q in range(no)]
                li = [chr(110 + q) for q in range(ni)]
                b = "B" if nb else ""
                y = jnp.einsum(f"{b}{''.join(lo)}{''.join(li)},{b}{''.join(li)}->"
                               f"{b}{''.join(lo)}", J, dx)
                acc = y if acc is None else acc + y
        tans.append(ad.Zero.from_primal_value(res[k]) if acc is None else acc)
    return res, tans


ad.primitive_jvps[opaque_p] = _jvp


def _lam(a, fixed=()):
    return T.Lam(a.shape[len(fixed):], lambda *ix: a[tuple(fixed) + ix])


@sym.rule("vc_opaque")
def _rule(ev, eqn, ins):
    tag, row = eqn.params["tag"], eqn.params["row"]
    ev.assumptions.add("opaque callees are deterministic functions of their "
                       "arguments")
    res = []
    cache = {}
    for k, v in enumerate(eqn.outvars):
        kind = sym.kind_of(v.aval.dtype)
        sh = sym.shp(v.aval)

        def f(*ix, k=k, kind=kind, sh=sh):
            key = (tuple(c.id for c in T.CTX), ix[:1] if row is not None else ())
            lams = cache.get(key)
            if lams is None:
                if row is None:
                    lams = tuple(_lam(a) for a in ins)
                else:
                    lams = tuple(_lam(a, ix[:1]) if r else _lam(a)
                                 for a, r in zip(ins, row))
                cache[key] = lams
            jx = ix if row is None else ix[1:]
            osh = sh if row is None else sh[1:]
            args = tuple(osh) + tuple(jx)
            nm = f"op:{tag}:{k}"
            if kind == "c":
                return T.Cx(T.clo(nm + ".re", lams, *args),
                            T.clo(nm + ".im", lams, *args))
            if kind == "b":
                return T.bapp(nm, T.clo(nm, lams, *args, sort="Z"))
            return T.clo(nm, lams, *args, sort="Z" if kind == "i" else "R")
        res.append(sym.mk(eqn, f, k))
    return res
