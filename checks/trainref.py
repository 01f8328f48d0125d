"""Contract of training.train, written as a plain reference loop over unknown
(opaque) training and validation losses."""
from .opq import *
from parametricmatrixmodels import training as TR
from contextlib import contextmanager

FUNCS = ["training.train", "training._train", "training._train.epoch_body_fn",
         "training._train.epoch_cond_fn", "training._train.batch_body_fn",
         "training._train.batched_val_loss_fn", "training._train_step",
         "tree_util.batch_leaves", "tree_util.random_permute_leaves"]


@contextmanager
def unjitted():
    """extraction drops the jit wrappers of the training module (no change of
    meaning), so that static settings may be symbolic"""
    old = {}
    for k, v in list(vars(TR).items()):
        if hasattr(v, "__wrapped__") and hasattr(v, "lower"):
            old[k] = v
            setattr(TR, k, v.__wrapped__)
    try:
        yield
    finally:
        for k, v in old.items():
            setattr(TR, k, v)


@contextmanager
def opt_by_contract():
    """the optimisers by contract (T05): `update` is some function of gradient
    and optimiser state; the real functions keep all other components"""
    old = {}
    for nm in ("adam", "complex_adam"):
        real = old[nm] = getattr(TR, nm)

        def mk(*a, real=real, nm=nm, **kw):
            init, upd, get, put, inc = real(*a, **kw)

            def update(dx, st):
                x, m, v, i = st
                o = opaque.bind("OPT" + nm, [dx, x, m, v, jnp.asarray(i)],
                                [(z.shape, z.dtype) for z in (x, m, v, jnp.asarray(i))])
                return TR.OptimizerState(*o)
            return init, update, get, put, inc
        setattr(TR, nm, mk)
    try:
        yield
    finally:
        for nm, f in old.items():
            setattr(TR, nm, f)


def opq_loss(tag, epoch, X, Y, U, params, training, state, rng):
    ins = [jnp.asarray(epoch)] + jax.tree.leaves((X, Y, U, params, state)) + [jax.random.key_data(rng)]
    tg = f"{tag}:{bool(training)}"
    v, = opaque.bind(tg, ins, [((), onp.float64)])
    ns = opaque.bind(tg + ":state", ins, [(s.shape, s.dtype) for s in jax.tree.leaves(state)])
    return v, jax.tree.unflatten(jax.tree.structure(state), ns)


def mk_losses(Y, U, samev):
    out = []
    for tag in ("L", "L" if samev else "V"):
        if Y and U:
            out.append(lambda e, X, Y, U, p, t, s, r, tag=tag: opq_loss(tag, e, X, Y, U, p, t, s, r))
        elif Y:
            out.append(lambda e, X, Y, p, t, s, r, tag=tag: opq_loss(tag, e, X, Y, None, p, t, s, r))
        else:
            out.append(lambda e, X, p, t, s, r, tag=tag: opq_loss(tag, e, X, None, None, p, t, s, r))
    return out


def perm(key, t):
    return jax.tree.map(lambda x: jax.random.permutation(key, x, axis=0), t)


def cut(t, start, size):
    return jax.tree.map(lambda x: jax.lax.dynamic_slice_in_dim(x, start, size, 0), t)


def over(N, B, f, acc):
    """acc <- f(start, size, acc) for the minibatches of N samples"""
    q, r = N // B, N % B
    acc = jax.lax.fori_loop(0, q, lambda j, a: f(j * B, B, a), acc)
    if r > 0:
        acc = f(q * B, r, acc)
    return acc, (q + 1 if r > 0 else q)


def reference(flags, real, fwd, lr, b1, b2, eps, clip, p0, s0, key, bkey, X, Y, U, Xv, Yv, Uv, B, VB,
              epochs, target, patience, delta, cb=None):
    """the specification: parameters in a list, `flags[k]`: array k is trained"""
    N = jax.tree.leaves(X)[0].shape[0]
    V = jax.tree.leaves(Xv)[0].shape[0]
    opt = (TR.adam if real else TR.complex_adam)(step_size=lr, b1=b1, b2=b2, eps=eps, clip=clip)
    init, upd, get, put, inc = opt
    tr = [k for k, t in enumerate(flags) if t]

    def lossp(q, ps, *a):
        ps = list(ps)
        for k, x in zip(tr, q):
            ps[k] = x
        e, X, Y, U, s, r = a
        return opq_loss("L", e, X, Y, U, ps, True, s, r)
    grad = (jax.jacfwd if fwd else jax.grad)(lossp, has_aux=True)

    def validate(e, ps, s, r, key):
        Xs, Ys, Us = perm(key, Xv), perm(key, Yv), perm(key, Uv)
        tot, n = over(V, VB, lambda st, sz, acc: acc + opq_loss(
            "V", e, cut(Xs, st, sz), cut(Ys, st, sz), cut(Us, st, sz), ps, False, s, r)[0], 0.0)
        return tot / n

    def epoch(e, os_, s, r, key):
        Xs, Ys, Us = perm(key, X), perm(key, Y), perm(key, U)

        def step(st, sz, acc):
            os_, s, r = acc
            r, k = jax.random.split(r)
            ps = [get(o) for o in os_]
            g, s = grad([ps[j] for j in tr], ps, e, cut(Xs, st, sz), cut(Ys, st, sz), cut(Us, st, sz), s, k)
            os_ = list(os_)
            for j, d in zip(tr, g):
                os_[j] = upd(d, os_[j])
            return os_, s, r
        return over(N, B, step, (os_, s, r))[0]

    r0, k0 = jax.random.split(key)
    os0 = [init(x) for x in p0]
    v0 = validate(0, list(p0), s0, r0, k0)
    snap = (v0, list(p0), s0, r0)

    def body(c):
        e, os_, s, r, bk, snap, pat = c
        bk, k1 = jax.random.split(bk)
        os_, s, r = epoch(e, os_, s, r, k1)
        bk, k2 = jax.random.split(bk)
        ps = [get(o) for o in os_]
        v = validate(e, ps, s, r, k2)
        best = snap[0]
        pat = jnp.where(v <= best - delta, patience, pat - 1)
        snap = jax.tree.map(lambda a, b: jnp.where(v < best, a, b) if not jnp.issubdtype(
            a.dtype, jax.dtypes.prng_key) else jax.lax.select(v < best, a, b), (v, ps, s, r), snap)
        if cb is not None:
            bk, ps = cb(bk, e, ps)
            os_ = [put(p, o) for p, o in zip(ps, os_)]
        os_ = [inc(int(t), o) for t, o in zip(flags, os_)]
        return e + 1, os_, s, r, bk, snap, pat

    def cond(c):
        e, _, _, _, _, snap, pat = c
        return (e < epochs) & (snap[0] > target) & (pat > 0)
    os0 = jax.tree.map(jnp.asarray, os0)
    fin = jax.lax.while_loop(cond, body, (jnp.asarray(0), os0, s0, r0, bkey, snap, jnp.asarray(patience)))
    e, snap = fin[0], fin[5]
    return snap[1], snap[2], jax.random.key_data(snap[3]), e


def case(name, what, refwhat=None, flags=(True, True), Y=True, U=False, val=True, vb=True, real=False, cplx=False,
         fwd=False, cb=False, fixed=None, dims="N B V W n m k E P", cons=(), conc=None, cost=40,
         verbose=False):
    """what: projection of (params, state, rng, epoch) compared"""
    dt = c128 if cplx else f64

    def build(d):
        if fixed:
            d = core.NS({**d.__dict__, **fixed})
        D_ = lambda n, sfx: (
            {"x": In("X0" + sfx, (n, d.n)), "y": [In("X1" + sfx, (n, d.m, d.k))]},
            (In("Y0" + sfx, (n, d.k)),) if Y else None,
            (In("U0" + sfx, (n, d.k)),) if U else None)
        X = D_(d.N, "")
        XV = D_(d.V, "v") if val else (None, None, None)
        p0 = {"a": In("pa", (d.n,), dt), "b": [In("pb", (d.m, d.k), dt)]}
        s0 = [In("s0", (d.k,))]
        ins = (X, XV, p0, s0, In("key", (2,), onp.uint32, gen="key"), In("bkey", (2,), onp.uint32, gen="key"),
               In("target", (), gen="neg"), In("delta", ()))

        def cbf(r, e, ps):
            kd = jax.random.key_data(r)
            o = opaque.bind("CB", [jnp.asarray(e), kd] + list(ps), [(p.shape, p.dtype) for p in ps])
            return r, o
        h = dict(lr=0.05, b1=0.9, b2=0.999, eps=1e-8, clip=10.0)

        def fn(X, XV, p0, s0, key, bkey, target, delta):
            (X, Y_, U_), (Xv, Yv, Uv) = X, XV
            L, V = mk_losses(Y, U, False)
            fl = jax.tree.unflatten(jax.tree.structure(p0), list(flags))
            kw = dict(Y=Y_, Y_unc=U_)
            if val:
                kw.update(X_val=Xv, Y_val=Yv, Y_val_unc=Uv)
            if cb:
                kw["callback"] = cbf
            with unjitted(), opt_by_contract(), silent():
                p, s, r, e, o = TR.train(
                    False, None, p0, fl, s0, jax.random.wrap_key_data(key), L, V, X,
                    batch_size=d.B, val_batch_size=d.W if vb else 0, epochs=d.E, target_loss=target,
                    early_stopping_patience=d.P, early_stopping_min_delta=delta, verbose=verbose,
                    batch_rng=jax.random.wrap_key_data(bkey), real=real, fwd=fwd, **h, **kw)
            return what(jax.tree.leaves(p), s, jax.random.key_data(r), e, jax.tree.leaves(p0))

        def ref(X, XV, p0, s0, key, bkey, target, delta):
            if refwhat is not None:        # stated without the reference loop
                return refwhat(jax.tree.leaves(p0))
            (X, Y_, U_), (Xv, Yv, Uv) = X, XV
            if not val:
                Xv, Yv, Uv = X, Y_, U_
            N = jax.tree.leaves(X)[0].shape[0]
            M = jax.tree.leaves(Xv)[0].shape[0]
            B = N if d.B > N else d.B
            W = (M if M < d.W else d.W) if vb else M
            with opt_by_contract():
              p, s, r, e = reference(
                flags, real, fwd, h["lr"], h["b1"], h["b2"], h["eps"], h["clip"],
                jax.tree.leaves(p0), s0, jax.random.wrap_key_data(key), jax.random.wrap_key_data(bkey),
                X, Y_, U_, Xv, Yv, Uv, B, W, d.E, target, d.P, delta, cbf if cb else None)
            return what(p, s, r, e, jax.tree.leaves(p0))
        return Inst(fn, ins, None, ref=ref)
    full = dict(N=5, B=2, V=4, W=3, n=2, m=1, k=2, E=3, P=2)
    full.update(conc or {})
    conc = [{k: v for k, v in full.items() if k in dims.split()}]
    return Case(name, dims, build, conc, cons, funcs=FUNCS, seeds=1, cost=cost,
                bound=None if not fixed else f"{fixed} (all values, all other sizes)")


def by_sizes(name, what, **kw):
    """one case per relation of batch size and number of samples"""
    out = []
    for nb, cb, x in (("oversize", "B >= N + 1", dict(N=3, B=4)), ("batches", "N >= B", dict(N=5, B=2))):
        if kw.get("vb", True) and kw.get("val", True):
            vs = (("oversize", "W >= V + 1", dict(V=2, W=3)), ("batches", "V >= W", dict(V=5, W=3)))
        else:
            vs = (("one", None, {}),)
        for nv, cv, y in vs:
            out.append(case(f"{name}.{nb}.val-{nv}", what, cons=[c for c in (cb, cv) if c],
                            conc={**x, **y}, cost=60 if nb == nv else 40 if nb == "batches" else 20, **kw))
    return out
