"""Chain rule for a sequential model of opaque row-wise modules, written out
with the modules' own derivative arrays."""
from .opq import *
from parametricmatrixmodels import SequentialModel

isl = dict(is_leaf=is_shape)


def flat_call(tag, params, data, training, state, rng, out, cplx=False):
    """outputs, their Jacobians w.r.t. data leaves and params leaves"""
    pl, dl, sl = jax.tree.leaves(params), jax.tree.leaves(data), jax.tree.leaves(state)
    b = dl[0].shape[0]
    ks = [jax.random.key_data(rng)]
    ol, ot = jax.tree.flatten(out, is_leaf=is_shape)
    ins = dl + pl + sl + ks
    tg = f"{tag}:{jax.tree.structure(data)}:{bool(training)}"
    mask = tuple([True] * len(dl) + [False] * (len(ins) - len(dl)))
    outs = tuple(((b,) + tuple(s), onp.dtype(onp.complex128 if cplx else onp.float64)) for s in ol)
    ys = opaque.bind(tg, ins, outs, row=mask)
    J = lambda k, j: opaque.jac(tg, k, j, ins, outs, mask)
    Jx = [[J(k, j) for j in range(len(dl))] for k in range(len(ol))]
    Jp = [[J(k, len(dl) + j) for j in range(len(pl))] for k in range(len(ol))]
    if sl:
        ns = opaque.bind(tg + ":state", ins, [(s.shape, s.dtype) for s in sl])
        state = jax.tree.unflatten(jax.tree.structure(state), ns)
    return jax.tree.unflatten(ot, ys), state, Jx, Jp


def comp(JB, no, JA, ni, nm):
    """row-wise product of Jacobians: JB (b, no axes, nm axes), JA (b, nm axes, ni axes)"""
    o, m, i = "abcdef"[:no], "klmnpq"[:nm], "uvwxyz"[:ni]
    return jnp.einsum(f"B{o}{m},B{m}{i}->B{o}{i}", JB, JA)


def chain(specs, d, ps, ss, X, ks, training=False):
    """output, new states, d(out leaf)/d(X leaf) and d(out leaf)/d(param leaf of
    module i), all per row"""
    cur, new = X, []
    xl = jax.tree.leaves(X)
    ranks = [x.ndim - 1 for x in xl]
    Dx = None                 # [leaf of cur][leaf of X]
    Dp = []                   # per module: [leaf of cur][param leaf]
    for i, (t, s) in enumerate(specs):
        out, psh, ssh = s(d)[:3]
        cr = [x.ndim - 1 for x in jax.tree.leaves(cur)]
        ign = len(s(d)) > 3
        cur, ns, Jx, Jp = flat_call(t, () if ign else ps[i], cur, training, ss[i], ks[i], out)
        if ign:
            Jp = [[jnp.zeros(y.shape + p.shape) for p in jax.tree.leaves(ps[i])]
                  for y in jax.tree.leaves(cur)]
        orr = [x.ndim - 1 for x in jax.tree.leaves(cur)]
        if Dx is None:
            Dx = Jx
        else:
            Dx = [[sum(comp(Jx[k][m], orr[k], Dx[m][j], ranks[j], cr[m])
                       for m in range(len(cr))) for j in range(len(xl))]
                  for k in range(len(orr))]
        Dp = [[[sum(comp(Jx[k][m], orr[k], D[m][j], pr[j], cr[m]) for m in range(len(cr)))
                for j in range(len(pr))] for k in range(len(orr))] for D, pr in
              ((D, pr) for D, pr in Dp)], Dp
        Dp = [(D, pr) for D, (_, pr) in zip(Dp[0], Dp[1])]
        Dp.append((Jp, [jnp.ndim(x) for x in jax.tree.leaves(ps[i])]))
        new.append(ns)
    return cur, new, Dx, [D for D, _ in Dp]


class Ignoring(Opaque):
    """an opaque module that does not use its parameters"""

    def _get_callable(self):
        f = super()._get_callable()
        return lambda params, data, training, state, rng: f((), data, training, state, rng)


def nested(out, inner, D):
    """tree out-structure of trees inner-structure"""
    ot, it = jax.tree.structure(out), jax.tree.structure(inner)
    return jax.tree.unflatten(ot, [jax.tree.unflatten(it, D[k]) for k in range(ot.num_leaves)])


def ins_of(name, tree):
    leaves, td = jax.tree.flatten(tree, **isl)
    return jax.tree.unflatten(td, [In(f"{name}{k}", s) for k, s in enumerate(leaves)])


def setup(tree, inshape, d, N):
    specs, td = jax.tree.flatten(tree, is_leaf=callable)
    tags = [f"m{k}" for k in range(len(specs))]
    sh = inshape(d)
    lv, st = jax.tree.flatten(sh, **isl)
    X = jax.tree.unflatten(st, [In(f"X{k}", (N,) + tuple(s)) for k, s in enumerate(lv)])
    P_ = [ins_of(f"p_{t}_", s(d)[1]) if s(d)[1] is not None else () for t, s in zip(tags, specs)]
    S_ = [ins_of(f"s_{t}_", s(d)[2]) if s(d)[2] is not None else () for t, s in zip(tags, specs)]
    return (list(zip(tags, specs)), td, sh, jax.tree.unflatten(td, P_),
            jax.tree.unflatten(td, S_), X, In("key", (2,), onp.uint32, gen="key"))


def make(sp, td, sh, d, params, state):
    m = SequentialModel(jax.tree.unflatten(td, [
        (Ignoring if len(s(d)) > 3 else Opaque)(t, *s(d)[:3]) for t, s in sp]))
    m.compile(0, sh)
    m.set_params(params)
    m.set_state(state)
    return m
