"""G01: reported gradients are the derivatives of the forward pass."""
from .gradspec import *

cases = []
FUNCS = ["model.Model.grad_input", "model.Model.grad_params",
         "sequentialmodel.SequentialModel._get_callable", "model_util.autobatch"]


def grad_case(name, tree, inshape, conc, what, fwd, freeze=()):
    def build(d):
        sp, td, sh, P_, S_, X, key = setup(tree, inshape, d, d.b)

        def fn(params, state, X, key):
            m = make(sp, td, sh, d, params, state)
            mods = jax.tree.leaves(m.modules, is_leaf=lambda x: isinstance(x, Opaque))
            for i in freeze:
                mods[i].trainable = False
            k = jax.random.wrap_key_data(key)
            g, ns = getattr(m, "grad_" + what)(X, rng=k, fwd=fwd, return_state=True)
            return g, ns, m.get_params(), m.get_state()

        def ref(params, state, X, key):
            ks = jax.random.split(jax.random.wrap_key_data(key), len(sp))
            ps, ss = td.flatten_up_to(params), td.flatten_up_to(state)
            y, new, Dx, Dp = chain(sp, d, ps, ss, X, ks)
            if what == "input":
                g = nested(y, X, Dx)
                # the new states of a sample evaluated alone
                if jax.tree.leaves(state):
                    new = [jax.vmap(lambda *x, i=i: chain(
                        sp, d, ps, ss, jax.tree.map(lambda q: q[None], jax.tree.unflatten(
                            jax.tree.structure(X), x)), ks)[1][i])(*jax.tree.leaves(X))
                        for i in range(len(sp))]
            else:
                ot = jax.tree.structure(y)
                g = jax.tree.unflatten(ot, [jax.tree.unflatten(td, [
                    jax.tree.unflatten(jax.tree.structure(p), D[k])
                    for p, D in zip(ps, Dp)]) for k in range(ot.num_leaves)])
            return g, jax.tree.unflatten(td, new), params, state
        return Inst(fn, (P_, S_, X, key), None, ref=ref)
    cases.append(Case(f"{what}.{name}.{'fwd' if fwd else 'auto' if fwd is None else 'rev'}",
                      "b n m k q", build, conc, funcs=FUNCS, seeds=1))


C = [dict(b=3, n=2, m=3, k=2, q=1), dict(b=1, n=1, m=2, k=3, q=2)]
A = lambda d: ((d.m,), {"w": (d.n, d.m)}, None)
B_ = lambda d: ((d.m, d.k), [(d.k,), (2,)], None)
E = lambda d: ({"u": (d.k,), "v": [(d.m, d.q)]}, None, None)
F = lambda d: ((d.q,), (d.k,), None)
S = lambda d: ((d.q,), (d.k,), {"c": (2,)})
one = lambda d: (d.n,)
two = lambda d: {"x": (d.n,), "y": [(d.m, d.k)]}
for what in ("input", "params"):
    for fwd in (True, False):
        grad_case("single", [A], one, C, what, fwd)
        grad_case("chain2", [A, B_], one, C, what, fwd)
        grad_case("multi-output", [A, E], two, C, what, fwd)
        grad_case("through-trees", [E, F], two, C, what, fwd)
        grad_case("dict-modules", {"b": A, "a": B_, "c": F}, one, C, what, fwd)
        grad_case("frozen", [A, F], one, C, what, fwd, freeze=(0,))
        grad_case("no-params", [E, A], one, C, what, fwd)
    grad_case("chain2", [A, B_], one, C, what, None)
U = lambda d: ((d.q,), {"w": (d.k,), "v": (2, d.n)}, None, "ignores its parameters")
for fwd in (True, False):
    for what in ("input", "params"):
        grad_case("unused-params", [A, U, F], one, C, what, fwd)
    grad_case("stateful", [S, A], one, C, "params", fwd)


def fd_params(f, params, eps=1e-5):
    """central differences: df/dx - i df/dy for complex parameters"""
    lv, td = jax.tree.flatten(params)
    y0 = onp.asarray(f(params))
    outs = []
    for i, p in enumerate(lv):
        p = onp.asarray(p)
        g = onp.zeros(y0.shape + p.shape, p.dtype)
        for ix in onp.ndindex(*p.shape):
            def at(h):
                q = p.copy()
                q[ix] += h
                return onp.asarray(f(jax.tree.unflatten(td, lv[:i] + [jnp.asarray(q)] + lv[i + 1:])))
            d = (at(eps) - at(-eps)) / (2 * eps)
            if p.dtype.kind == "c":
                d = d - 1j * (at(1j * eps) - at(-1j * eps)) / (2 * eps)
            g[(...,) + ix] = d
        outs.append(g)
    return jax.tree.unflatten(td, outs)


def extra(rep):
    ms = pmm.modules
    key = jax.random.key(5)

    def complex_params(order):
        def run():
            m = SequentialModel([ms.AffineHermitianMatrix(matrix_size=2, smoothing=0.1),
                                 ms.Eigenvalues(num_eig=2)])
            m.compile(1, (2,))
            m.set_precision(64)
            X = onp.asarray(onp.random.default_rng(0).normal(size=(3, 2)))
            call = m._get_callable()
            want = fd_params(lambda p: call(p, jnp.asarray(X), False, m.get_state(), key)[0],
                             m.get_params())
            wx = onp.zeros((3, 2, 2))
            for j in range(2):
                e = onp.zeros((3, 2)); e[:, j] = 1e-5
                wx[:, :, j] = (onp.asarray(m(X + e)) - onp.asarray(m(X - e))) / 2e-5
            for fwd in order:
                if fwd is not True:   # forward mode: not available for complex parameters
                    g = m.grad_params(X, rng=key, fwd=fwd)
                    need(tree_same(g, want, 1e-5), "grad_params differs from difference quotients",
                         fwd=fwd, order=order, got=g, want=want)
                else:
                    try:
                        m.grad_params(X, rng=key, fwd=True)
                    except TypeError:
                        pass
                gi = m.grad_input(X, rng=key, fwd=fwd)
                need(tree_same(gi, wx, 1e-5), "grad_input differs from difference quotients",
                     fwd=fwd, order=order)
        return run
    for order in ((None,), (False,), (True, False), (False, True, False), (None, True, False)):
        native(rep, f"complex-params.{'-'.join(map(str, order))}", "difference-quotients",
               complex_params(order), "2x2 AffineHermitianMatrix + Eigenvalues, 3 samples, float64")


def types(rep):
    """with the run-time type checks on"""
    typed(rep, "annotations", "accepted", """
from parametricmatrixmodels import SequentialModel, modules as M
jax.config.update('jax_enable_x64', True)
for a, b in ((2, 1), (2, 2), (1, 3)):
    m = SequentialModel([M.ConcatenateLeaves(), M.LinearNN(2)]); m.compile(0, ((a,), (b,)))
    X = (jnp.ones((3, a)), jnp.ones((3, b)))
    for fwd in (None, True, False):
        g = m.grad_input(X, fwd=fwd)
        assert jax.tree.map(jnp.shape, g) == ((3, 2, a), (3, 2, b)), jax.tree.map(jnp.shape, g)
        m.grad_params(X, fwd=fwd)
""", "three pairs of input sizes, each mode")


if __name__ == "__main__":
    main("G01", cases, [extra, types])
