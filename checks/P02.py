"""P02: one-hot encoding is exact and invertible.

numpy's `unique` is a dependency with an assumed contract: unique(R, axis=0)
returns the distinct rows of R, each once.  Under that contract `fit` is proved
to store exactly those rows of every leaf; `transform` is proved to give 1 at
(n, k) exactly when row n equals stored row k and 0 elsewhere; decoding the
code of stored row k is proved to give that row in its original shape.  The
three together are the property (a known row equals exactly one stored row).
"""
from .common import *
from parametricmatrixmodels.preprocessing import OneHot

cases = []
C = [dict(N=4, M=3, u=3, f=2, g=2), dict(N=3, M=1, u=1, f=1, g=3)]
tm = jax.tree.map


def close_values(rng, sh):
    """ties, values that differ by little (relatively or absolutely) and large ones"""
    k = rng.integers(0, 4)
    if k == 0:
        return onp.round(rng.normal(size=sh) * 2) / 2
    x = rng.integers(-1, 3, size=sh)
    return (1.0 + x * 1e-7, x * 1e-10, 1e9 + x)[k - 1]


def leaves(kind, d, rows, nm, dt):
    mk = lambda k, s: In(f"{nm}{k}", (rows,) + s, dt, gen=close_values)
    a, b = mk(0, (d.f,)), mk(1, (d.g, d.f))
    return {"bare": a, "tensor": b, "tuple": (a, b), "dict": {"y": [b], "x": a}}[kind]


def codes(kind, d, dt):
    mk = lambda k, n: In(f"u{k}", (d.u, n), dt, gen=close_values)
    a, b = mk(0, d.f), mk(1, d.g * d.f)
    return {"bare": a, "tensor": b, "tuple": (a, b), "dict": {"y": [b], "x": a}}[kind]


class ByContract:
    """jax.numpy.unique replaced by its contract inside `fit`: returns the given
    distinct rows and records what it was applied to"""

    def __init__(self, res):
        self.res, self.args = list(res), []

    def __enter__(self):
        self.old = jnp.unique

        def unique(ar, *a, axis=None, **k):
            if a or k or axis != 0 or ar.ndim != 2:
                raise sym.Unsupported("unique called outside its contract")
            # leaves come in tree order; pick the rows of the matching width
            i = len(self.args)
            self.args.append(ar)
            return self.res[i]
        jnp.unique = unique
        return self

    def __exit__(self, *a):
        jnp.unique = self.old


def enc_case(kind, dt, dtn):
    def build(d):
        ins = (leaves(kind, d, d.N, "x", dt), leaves(kind, d, d.M, "z", dt), codes(kind, d, dt))

        def fn(X, Z, U):
            o = OneHot()
            us = jax.tree.leaves(U)
            with ByContract(us) as c:
                o.fit(X)
            if len(c.args) != len(us):
                raise sym.Unsupported("fit does not use unique")
            t = o.transform(Z)
            eye = tm(lambda u: jnp.eye(u.shape[0], dtype=u.dtype), U)
            return c.args, t, o.inverse_transform(eye)

        def ref(X, Z, U):
            def code(z, u):
                zz = z.reshape(z.shape[0], u.shape[1])
                hit = jax.vmap(lambda r: jax.vmap(lambda q: jnp.all(r == q))(u))(zz)
                return jnp.where(hit, 1.0, 0.0).astype(z.dtype)
            return ([x.reshape(x.shape[0], -1) for x in jax.tree.leaves(X)],
                    tm(code, Z, U), tm(lambda u, x: u.reshape((u.shape[0],) + x.shape[1:]), U, X))
        return Inst(fn, ins, None, ref=ref)
    cases.append(Case(f"encode.{kind}.{dtn}", "N M u f g", build, C, seeds=2,
                      funcs=["preprocessing.OneHot.fit", "preprocessing.OneHot.transform",
                             "preprocessing.OneHot.inverse_transform"]))


for k in ("bare", "tensor", "tuple", "dict"):
    enc_case(k, f64, "f")
    enc_case(k, c128, "c")


def extra(rep):
    rep.assume("jax.numpy.unique(rows, axis=0): contract assumed (the distinct rows, each once, in sorted order)")
    rng = onp.random.default_rng(5)

    def leaf(n, shape, vals, dt):
        v = rng.integers(0, vals, size=(n,) + shape).astype(float) - 1
        if dt == "c":
            v = v + 1j * rng.integers(0, 2, size=v.shape)
        return jnp.asarray(v)

    def one(X):
        o = OneHot()
        t = o.fit_transform(X)
        need(jax.tree.structure(t) == jax.tree.structure(X), "structure kept", X=X)
        back = o.inverse_transform(t)
        need(jax.tree.structure(back) == jax.tree.structure(X), "structure kept by decoding", X=X)
        for x, y, b in zip(*map(jax.tree.leaves, (X, t, back))):
            x, y, b = map(onp.asarray, (x, y, b))
            rows = [r.tobytes() for r in x.reshape(len(x), -1)]
            uni = len(set(rows))
            need(y.shape == (len(x), uni), "one place per distinct row", X=x, T=y)
            need(((y == 0) | (y == 1)).all() and (y.sum(1) == 1).all(),
                 "known rows get exactly one 1", X=x, T=y)
            for i in range(len(x)):
                for j in range(len(x)):
                    need((rows[i] == rows[j]) == bool((y[i] == y[j]).all()),
                         "different rows get different codes", X=x, T=y, i=i, j=j)
            need(b.shape == x.shape and (b == x).all(), "decoding gives the row back", X=x, T=y, back=b)
        # unknown rows
        Z = tm(lambda x: x.at[0].add(100.0) if x.shape[0] > 0 else x, X)
        for x, z, y in zip(*map(jax.tree.leaves, (X, Z, o.transform(Z)))):
            y = onp.asarray(y)
            need((y[0] == 0).all(), "unknown rows get all 0", X=x, Z=z, T=y)
        # rows that mix components of known rows
        M = tm(lambda x: _mix(x), X)
        for x, z, y in zip(*map(jax.tree.leaves, (X, M, o.transform(M)))):
            x, z, y = map(onp.asarray, (x, z, y))
            known = {r.tobytes() for r in x.reshape(len(x), -1)}
            for i, r in enumerate(z.reshape(len(z), -1)):
                need(y[i].sum() == (r.tobytes() in known), "code of a recombined row", X=x, Z=z, T=y)

    def _mix(x):
        f = onp.asarray(x).reshape(len(x), -1).copy()
        for c in range(f.shape[1]):
            f[:, c] = rng.permutation(f[:, c])
        return jnp.asarray(f.reshape(x.shape))

    def sweep():
        for n in (1, 2, 3, 5, 8):
            for shape in ((1,), (2,), (3,), (2, 2), (1, 3)):
                for vals in (1, 2, 3):
                    for dt in "fc":
                        one(leaf(n, shape, vals, dt))
        for _ in range(12):
            n = int(rng.integers(1, 7))
            one({"b": leaf(n, (2,), 2, "f"), "a": (leaf(n, (1,), 3, "f"), [leaf(n, (2, 2), 2, "f")])})
            one((leaf(n, (3,), 2, "f"), leaf(n, (2,), 3, "f")))
    native(rep, "onehot", "exact and invertible", sweep, "150 arrays, 24 trees, values in {-1,0,1}")

    def exhaustive():
        import itertools
        pts = list(itertools.product((0.0, 1.0), repeat=2))
        for n in (1, 2, 3):
            for rows in itertools.product(pts, repeat=n):
                one(jnp.asarray(rows))

    def close():
        for a, h in ((1.0, 1e-4), (1.0, 1e-7), (1.0, 2.0 ** -50), (0.0, 1e-7), (0.0, 1e-10),
                     (0.0, 1e-300), (1e5, 1.0), (1e9, 1.0), (1e15, 1.0), (-3.0, 1e-6)):
            for _ in range(6):
                n = int(rng.integers(2, 7))
                x = jnp.asarray(a + h * rng.integers(0, 3, size=(n, 2)))
                one(x)
                o = OneHot()
                o.fit(x[:1])
                y = onp.asarray(o.transform(x))
                need(((y[:, 0] == 1) == onp.all(onp.asarray(x) == onp.asarray(x[0]), axis=1)).all(),
                     "rows that differ by little", fitted=x[:1], X=x, T=y)
    native(rep, "onehot", "rows that differ by little", close, "60 data sets")
    native(rep, "onehot", "all two-component data sets", exhaustive, "all 84 sets of 1..3 rows over {0,1}^2")

    def refit():
        X, Y = leaf(5, (2,), 3, "f"), leaf(4, (2,), 2, "f")
        o = OneHot()
        o.fit(Y)
        need(tree_same(o.fit_transform(X), OneHot().fit_transform(X)), "a second fit replaces the first", X=X, Y=Y)
        p = OneHot.deserialize(o.serialize())
        need(tree_same(p.inverse_transform(p.transform(X)), X), "copied encoder", X=X)
    native(rep, "onehot", "refit", refit, "one pair of data sets")


def types(rep):
    """with the run-time type checks on"""
    typed(rep, "annotations", "accepted", """
from parametricmatrixmodels.preprocessing import OneHot
jax.config.update('jax_enable_x64', True)
for cats in ((2, 3), (3, 3), (1, 4)):
    X = {'a': jnp.arange(12.).reshape(12, 1) % cats[0], 'b': [jnp.arange(12.).reshape(12, 1) % cats[1]]}
    o = OneHot(); y = o.fit_transform(X)
    assert y['a'].shape == (12, cats[0]) and y['b'][0].shape == (12, cats[1])
    z = o.inverse_transform(y)
    assert bool((z['a'] == X['a']).all() and (z['b'][0] == X['b'][0]).all())
""", "three pairs of numbers of categories")


if __name__ == "__main__":
    main("P02", cases, [extra, types])
