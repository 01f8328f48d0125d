"""jax.random.permutation by contract.

While code is being extracted, `jax.random.permutation` is replaced by a
primitive whose meaning is: position i along the axis holds what was at
position pi(i), where pi is a bijection of the axis positions determined by the
key and the axis length only (independent=True: additionally by the position in
the other axes).  In concrete runs the real function is used.
"""
import jax
import jax.numpy as jnp
import numpy as onp
from jax._src import core as jcore
from jax.extend.core import Primitive

from . import dimfork, smt, sym
from . import terms as T
from .terms import P

perm_p = Primitive("vc_permutation")
_real = jax.random.permutation


@perm_p.def_abstract_eval
def _abs(x, k, *, axis, independent):
    return jcore.ShapedArray(x.shape, x.dtype)


def permutation(key, x, axis=0, independent=False, **kw):
    if not dimfork.ACTIVE[0] or kw:
        return _real(key, x, axis=axis, independent=independent, **kw)
    if isinstance(x, int) or onp.ndim(x) == 0:
        x = jnp.arange(x)
    x = jnp.asarray(x)
    kd = jax.random.key_data(key) if jnp.issubdtype(key.dtype, jax.dtypes.prng_key) else key
    ax = axis % x.ndim
    return perm_p.bind(x, kd, axis=ax, independent=bool(independent) and x.ndim > 1)


jax.random.permutation = permutation


@sym.rule("vc_permutation")
def _rule(ev, eqn, ins):
    x, k = ins
    ax, ind = eqn.params["axis"], eqn.params["independent"]
    n = x.shape[ax]
    ev.assumptions.add("jax.random.permutation: contract assumed (a bijection of the axis "
                       "positions determined by key and length)")
    key = sym.wrapkey(lambda j: k[(j,)])

    def f(*ix):
        o = [i for a, i in enumerate(ix) if a != ax] if ind else []
        sh = [s for a, s in enumerate(x.shape) if a != ax] if ind else []
        j = list(ix)
        j[ax] = T.app("permutation", key, n, *sh, *o, ix[ax], sort="Z")
        return x[tuple(j)]
    return sym.mk(eqn, f)


def _facts(a):
    if a.kind == "app" and a.args[0] == "permutation":
        n, i = a.args[2], a.args[-1]
        p = P(a)
        inv = T.app("perminv", *a.args[1:-1], p, sort="Z")
        return [T.ge(p, 0), T.lt(p, n), T.eq(inv, i)]
    return []


smt._ATOMFACT_FNS.append(_facts)
