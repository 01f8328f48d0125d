"""B01: batched evaluation equals unbatched evaluation."""
from .opq import *
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.model_util import autobatch

cases = []
FUNCS = ["model_util.autobatch", "tree_util.pytree_split", "tree_util.batch_leaves",
         "tree_util.concatenate"]


def shapes_in(d, kind):
    return {"bare": (d.n,), "dict": {"x": (d.n,), "y": [(d.m, d.k)]},
            "scalar": ()}[kind]


def shapes_out(d, kind):
    return {"bare": (d.k,), "dict": {"u": (d.k,), "v": (d.m, d.n)}, "scalar": (d.k,)}[kind]


def mk_in(d, kind):
    sh = shapes_in(d, kind)
    lv, td = jax.tree.flatten(sh, is_leaf=lambda x: isinstance(x, tuple))
    return jax.tree.unflatten(td, [In(f"X{k}", (d.N,) + tuple(s)) for k, s in enumerate(lv)])


def model(d, kind, dep):
    """opaque rowwise model; `dep`: does the output depend on the state?"""
    out = shapes_out(d, kind)

    def f(params, X, training, state, rng):
        if dep:
            return opq_call("F", params, X, training, state, rng, out)
        y, _ = opq_call("F", params, X, training, (), rng, out)
        _, s = opq_call("S", params, X, training, state, rng, out)
        return y, s
    return f


def cut(X, start, size):
    return jax.tree.map(lambda x: jax.lax.dynamic_slice_in_dim(x, start, size, 0), X)


def spec_chunks(f, d, params, X, training, state, rng, singles):
    """chunks of B rows in order, then the rest (in one piece / row by row)"""
    N, B = d.N, d.B
    if N <= B:
        return f(params, X, training, state, rng)
    q, r = N // B, N % B

    def body(s, j):
        y, s = f(params, cut(X, j * B, B), training, s, rng)
        return s, y
    if isinstance(q, int):
        ys = []
        for j in range(q):
            state, y = body(state, j)
            ys.append(y)
        ends = [(q * B + j, 1) for j in range(r)] if singles else [(q * B, r)] if r else []
    else:
        state, y = jax.lax.scan(body, state, jnp.arange(q))
        ys = [jax.tree.map(lambda o: jnp.reshape(o, (q * B,) + o.shape[2:]), y)]
        ends = [(q * B, r)] if r > 0 else []
    for s0, sz in ends:
        y, state = f(params, cut(X, s0, sz), training, state, rng)
        ys.append(y)
    return jax.tree.map(lambda *o: jnp.concatenate(o, 0), *ys), state


def batch_case(kind, dep, avoid, conc, sym_=True, training=False, verbose=False):
    def build(d):
        ins = (In("p", (d.n, d.k)), mk_in(d, kind), (In("s0", (d.k,)), In("s1", ())),
               In("key", (2,), onp.uint32, gen="key"))

        def fn(p, X, s, key):
            f = model(d, kind, dep)
            with silent():
                g = autobatch(f, d.B, avoid_recompilation=avoid, verbose=verbose)
                return g(p, X, training, s, jax.random.wrap_key_data(key))

        def ref(p, X, s, key):
            f = model(d, kind, dep)
            k = jax.random.wrap_key_data(key)
            y, ns = spec_chunks(f, d, p, X, training, s, k, avoid)
            if not dep:
                # all samples at once
                y, _ = f(p, X, training, s, k)
            return y, ns
        return Inst(fn, ins, None, ref=ref)
    nm = f"{'stateful' if dep else 'pure'}.{kind}.{'noretrace' if avoid else 'scan'}" + (
        ".training" if training else "") + (".verbose" if verbose else "")
    if sym_:
        cases.append(Case(nm, "N B n m k", build, conc, funcs=FUNCS, seeds=1))
    else:
        for c in conc:
            nm2 = nm + f".N{c['N']}B{c['B']}"
            cases.append(Case(nm2, "n m k", lambda d, c=c: build(NSd(d, c)),
                              [dict(n=2, m=1, k=2)], funcs=FUNCS, seeds=1,
                              bound=f"N={c['N']}, batch size {c['B']} (all values, all other sizes)"))


def NSd(d, c):
    return core.NS({**d.__dict__, "N": c["N"], "B": c["B"]})


E = dict(n=2, m=1, k=2)
CC = [dict(N=7, B=3, **E), dict(N=6, B=3, **E), dict(N=2, B=3, **E), dict(N=3, B=3, **E),
      dict(N=4, B=3, **E), dict(N=5, B=1, **E)]
for kind in ("bare", "dict"):
    for dep in (False, True):
        batch_case(kind, dep, False, CC)
        batch_case(kind, dep, True, CC, sym_=False)
batch_case("bare", True, False, CC, training=True)
for kind in ("bare", "dict"):
    batch_case(kind, True, False, CC[:3], verbose=True)
    batch_case(kind, True, True, CC[:3], sym_=False, verbose=True)
batch_case("scalar", False, False, CC)
batch_case("scalar", False, True, CC[:3], sym_=False)


# ---- whole models: predictions and gradients, one setting after another
from . import gradspec as GS

MF = ["model.Model." + f for f in ("__call__", "grad_input", "grad_params")] + FUNCS


def model_case(name, tree, inshape, what, settings, conc, dims="N B n m k q", fixed=None, fwd=True):
    """settings: list of (batch size or None, avoid_recompilation) used in a row"""
    def build(d):
        if fixed:
            d = NSd(d, fixed)
        sp, td, sh, P_, S_, X, key = GS.setup(tree, inshape, d, d.N)

        def fn(params, state, X, key):
            m = GS.make(sp, td, sh, d, params, state)
            k = jax.random.wrap_key_data(key)
            outs = []
            for bs, av in settings:
                bs = None if bs is None else bs(d)
                kw = dict(rng=k, max_batch_size=bs, avoid_recompilation=av)
                outs.append(m(X, **kw) if what == "call" else
                            getattr(m, what)(X, fwd=fwd, **kw))
            return outs

        def ref(params, state, X, key):
            ks = jax.random.split(jax.random.wrap_key_data(key), len(sp))
            ps, ss = td.flatten_up_to(params), td.flatten_up_to(state)
            y, new, Dx, Dp = GS.chain(sp, d, ps, ss, X, ks)
            if what == "call":
                r = y
            elif what == "grad_input":
                r = GS.nested(y, X, Dx)
            else:
                ot = jax.tree.structure(y)
                r = jax.tree.unflatten(ot, [jax.tree.unflatten(td, [
                    jax.tree.unflatten(jax.tree.structure(p), D[k])
                    for p, D in zip(ps, Dp)]) for k in range(ot.num_leaves)])
            return [r] * len(settings)
        return Inst(fn, (P_, S_, X, key), None, ref=ref)
    cases.append(Case(f"model.{what}.{name}", dims, build, conc, funcs=MF, seeds=1,
                      bound=None if not fixed else f"{fixed} (all values, all other sizes)"))


MA = lambda d: ((d.m,), {"w": (d.n, d.m)}, None)
MB = lambda d: ({"u": (d.k,), "v": [(d.m, d.q)]}, (d.q,), None)
one = lambda d: (d.n,)
two = lambda d: {"x": (d.n,), "y": [(d.m, d.k)]}
bB, b1, no = (lambda d: d.B), (lambda d: 1), None
E2 = dict(n=2, m=1, k=2, q=3)
C2 = [dict(N=7, B=3, **E2), dict(N=6, B=3, **E2), dict(N=2, B=3, **E2)]
for what in ("call", "grad_input", "grad_params"):
    model_case("scan", [MA, MB], two, what, [(bB, False)], C2)
    model_case("switch-scan", [MA, MB], one, what, [(bB, False), (no, False), (b1, False),
                                                    (lambda d: d.B + 1, False)], C2)
    for f in (dict(N=5, B=2), dict(N=4, B=2), dict(N=2, B=3)):
        model_case(f"switch.N{f['N']}B{f['B']}", [MA, MB], one, what,
                   [(bB, True), (bB, False), (no, True), (b1, True), (bB, True)], [E2],
                   "n m k q", f)
model_case("switch-rev.N5B2", [MA, MB], one, "grad_input",
           [(bB, True), (bB, False), (no, True)], [E2], "n m k q", dict(N=5, B=2), fwd=False)

if __name__ == "__main__":
    main("B01", cases)
