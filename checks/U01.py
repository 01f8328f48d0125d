"""U01: tree arithmetic, splitting, shuffling."""
from .common import *
from parametricmatrixmodels import tree_util as tu

cases = []
C = [dict(n=3, m=2, k=1), dict(n=1, m=3, k=4)]
DT = {"f": f64, "c": c128}


def tree(kind, nm, d, dt, gen="normal"):
    mk = lambda k, s: In(f"{nm}{k}", s, dt, gen=gen)
    a, b, c = mk(0, (d.n, d.m)), mk(1, (d.n,)), mk(2, (d.n, d.k, d.m))
    return {"bare": a, "tuple": (a, b), "dict": {"y": a, "x": [b, c]},
            "none": {"y": a, "z": None, "w": ()}, "scalar": [mk(3, ()), a]}[kind]


def op_case(name, f, ref, nargs, kinds="fc", scal=None, gen="normal", gen2=None):
    for tk in ("bare", "tuple", "dict", "none", "scalar"):
        for dk in kinds:
            def build(d, tk=tk, dk=dk):
                ins = [tree(tk, "ab"[i], d, DT[dk], (gen, gen2 or gen)[i]) for i in range(nargs)]
                return Inst(f, tuple(ins), None, ref=ref)
            cases.append(Case(f"{name}.{tk}.{dk}", "n m k", build, C,
                              funcs=[f"tree_util.{name.split('.')[0]}"], seeds=1))


def m2(g):
    return lambda a, b: jax.tree.map(g, a, b)


def m1(g):
    return lambda a: jax.tree.map(g, a)


op_case("add", tu.add, m2(lambda x, y: x + y), 2)
op_case("sub", tu.sub, m2(lambda x, y: x - y), 2)
op_case("mul", tu.mul, m2(lambda x, y: x * y), 2)
op_case("div", tu.div, m2(lambda x, y: x / y), 2, gen2="pos")
op_case("neg", tu.neg, m1(lambda x: -x), 1)
sq = lambda x: jnp.real(x) ** 2 + jnp.imag(x) ** 2
op_case("abs", tu.abs, m1(lambda x: jnp.abs(x)), 1)
op_case("abs_sqr", tu.abs_sqr, m1(sq), 1)
op_case("sqrt", tu.sqrt, m1(jnp.sqrt), 1, "f", gen="pos")
op_case("abs_sqrt", tu.abs_sqrt, m1(lambda x: jnp.sqrt(jnp.abs(x))), 1)
op_case("pow.2", lambda a: tu.pow(a, 2), m1(lambda x: x * x), 1, "f")
op_case("pow.3", lambda a: tu.pow(a, 3), m1(lambda x: x * x * x), 1, "f")
op_case("pow.-1", lambda a: tu.pow(a, -1), m1(lambda x: 1 / x), 1, "f", gen="pos")
for s in (2.5, -3):
    op_case(f"scalar_add.{s}", lambda a, s=s: tu.scalar_add(a, s), m1(lambda x, s=s: x + s), 1)
    op_case(f"scalar_mul.{s}", lambda a, s=s: tu.scalar_mul(a, s), m1(lambda x, s=s: x * s), 1)


def mean_ref(a):
    lv = jax.tree.leaves(a)
    tot, cnt = 0, 0
    for x in lv:
        t = x
        while t.ndim:
            t = jnp.sum(t, axis=-1)
        c = 1
        for q in x.shape:
            c = c * q
        tot, cnt = tot + t, cnt + c
    return tot / cnt


op_case("mean", tu.mean, mean_ref, 1)


# ---- splitting and batching
def btree(kind, nm, d):
    mk = lambda k, s: In(f"{nm}{k}", s, [f64, c128, f64][k])
    a, b, c = mk(0, (d.N, d.m)), mk(1, (d.N,)), mk(2, (d.N, d.k, d.m))
    return {"bare": a, "vec": b, "dict": {"y": a, "x": [b, c]}}[kind]


def at(x, i):
    return jax.lax.dynamic_index_in_dim(x, i, 0, keepdims=False)


SC = [dict(N=7, B=3, n=1, m=2, k=1), dict(N=6, B=3, n=1, m=2, k=1), dict(N=4, B=1, n=1, m=1, k=2),
      dict(N=3, B=3, n=1, m=1, k=2), dict(N=2, B=3, n=1, m=1, k=2)]
for kind in ("bare", "vec", "dict"):
    def build(d, kind=kind):
        def fn(X):
            parts, rest = tu.pytree_split(X, d.B, axis=0)
            return parts, rest

        def ref(X):
            q, r = d.N // d.B, d.N % d.B
            parts = jax.tree.map(lambda x: jnp.reshape(
                jax.lax.slice_in_dim(x, 0, q * d.B), (q, d.B) + x.shape[1:]), X)
            rest = jax.tree.map(lambda x: jax.lax.slice_in_dim(x, q * d.B, d.N), X) \
                if r > 0 else None
            return parts, rest
        return Inst(fn, (btree(kind, "X", d),), None, ref=ref)
    cases.append(Case(f"split.{kind}", "N B n m k", build, SC[:4], constraints=["N >= B"],
                      funcs=["tree_util.pytree_split", "tree_util.batch_leaves"], seeds=1))

    def build(d, kind=kind):
        def fn(X):
            parts, rest = tu.pytree_split(X, d.B, axis=0)
            whole = jax.tree.map(lambda p: jnp.reshape(p, (-1,) + p.shape[2:]), parts)
            return whole if rest is None else tu.concatenate([whole, rest], axis=0)
        return Inst(fn, (btree(kind, "X", d),), None, ref=lambda X: X)
    cases.append(Case(f"split-concatenate.{kind}", "N B n m k", build, SC[:4],
                      constraints=["N >= B"],
                      funcs=["tree_util.pytree_split", "tree_util.concatenate"], seeds=1))

    # batch j of size B is rows jB .. jB+B-1
    def build(d, kind=kind):
        def fn(X, j):
            return tu.batch_leaves(X, d.B, j, axis=0), \
                tu.batch_leaves(X, d.B, 0, length=d.L, axis=0)

        def ref(X, j):
            one = jax.tree.map(lambda x: jax.vmap(lambda t: at(x, j * d.B + t))(
                jnp.arange(d.B)), X)
            return one, jax.tree.map(lambda x: jax.lax.slice_in_dim(x, 0, d.L), X)
        ij = In("j", (), onp.int32, gen=lambda rng, sh: rng.integers(0, int(d.N) // int(d.B)),
                fact=lambda j: T.band(T.ge(j, 0), T.le((j + 1) * sym.dim(d.B), sym.dim(d.N))))
        return Inst(fn, (btree(kind, "X", d), ij), None, ref=ref)
    cases.append(Case(f"batch.{kind}", "N B L m k", build,
                      [dict(N=7, B=3, L=2, m=2, k=1), dict(N=4, B=1, L=4, m=1, k=2)],
                      constraints=["N >= B", "N >= L"], funcs=["tree_util.batch_leaves"], seeds=2))


# ---- shuffling: an index leaf reveals the permutation
def shuffle_case(kind, axis, indep_arrays=False, indep_leaves=False):
    def build(d):
        X = btree(kind, "X", d)

        def fn(X, key):
            idx = jnp.arange(d.N)
            kw = {}
            if axis:
                X = jax.tree.map(lambda x: jnp.moveaxis(x, 0, axis), X)
                idx = jnp.reshape(idx, (1,) * axis + (d.N,))
            o = tu.random_permute_leaves({"t": X, "i": idx}, jax.random.wrap_key_data(key),
                                         axis=axis, **kw)
            back = lambda t: jax.tree.map(lambda x: jnp.moveaxis(x, axis, 0), t)
            return jnp.reshape(o["i"], (d.N,)), back(o["t"])

        def goals(out, X, key):
            idx, t = out
            xs = jax.tree.leaves(X, is_leaf=lambda x: isinstance(x, SArr))
            os_ = jax.tree.leaves(t, is_leaf=lambda x: isinstance(x, SArr))
            gs = [Goal(f"rows-follow-the-permutation{k}", "eq", o, SArr(
                x.shape, x.kind, lambda i, *r, x=x: x[(idx[(i,)],) + r], x.dtype))
                for k, (x, o) in enumerate(zip(xs, os_))]
            N = sym.dim(d.N)
            gs.append(Goal("in-range", "true", lambda i: T.band(
                T.ge(idx[(i,)], 0), T.lt(idx[(i,)], N)), ranges=(N,)))
            gs.append(Goal("no-row-twice", "true", lambda i, j: T.bor(
                T.eq(i, j), T.ne(idx[(i,)], idx[(j,)])), ranges=(N, N)))
            return gs
        return Inst(fn, (X, In("key", (2,), onp.uint32, gen="key")), None, goals=goals)
    cases.append(Case(f"shuffle.{kind}.axis{axis}", "N m k", build,
                      [dict(N=5, m=2, k=1), dict(N=2, m=1, k=3)],
                      funcs=["tree_util.random_permute_leaves"], seeds=2))


for kind in ("bare", "vec", "dict"):
    shuffle_case(kind, 0)
shuffle_case("bare", 1)


def extra(rep):
    rng = onp.random.default_rng(3)

    def dtypes():
        for dt in (onp.float32, onp.float64, onp.complex64, onp.complex128):
            t = {"a": jnp.asarray(rng.normal(size=(2, 3)), dt), "b": [jnp.asarray(2.0, dt)]}
            for nm, o in (("add", tu.add(t, t)), ("sub", tu.sub(t, t)), ("mul", tu.mul(t, t)),
                          ("div", tu.div(t, t)), ("neg", tu.neg(t)),
                          ("scalar_add", tu.scalar_add(t, 2.0)), ("scalar_mul", tu.scalar_mul(t, 2.0))):
                need(jax.tree.structure(o) == jax.tree.structure(t), f"{nm} changes the structure")
                for x, y in zip(jax.tree.leaves(o), jax.tree.leaves(t)):
                    need(x.dtype == y.dtype and x.shape == y.shape,
                         f"{nm} changes dtype or shape", got=(x.dtype, x.shape), want=(y.dtype, y.shape))
    native(rep, "dtypes", "kept", dtypes, "4 dtypes, one tree")

    def shuffles():
        for N in range(1, 7):
            for seed in range(4):
                k = jax.random.key(seed)
                X = {"i": jnp.arange(N), "x": jnp.arange(N) * 1.5,
                     "m": jnp.arange(N * 3.0).reshape(N, 3),
                     "t": jnp.arange(N * 4).reshape(N, 2, 2) * 1j}
                o = tu.random_permute_leaves(X, k, axis=0)
                i = onp.asarray(o["i"])
                need(sorted(i.tolist()) == list(range(N)), "rows lost", N=N, seed=seed, got=i)
                for n in X:
                    need((onp.asarray(o[n]) == onp.asarray(X[n])[i]).all(),
                         "leaves shuffled differently", N=N, seed=seed, leaf=n)
                o = tu.random_permute_leaves(X, k, axis=0, independent_leaves=True)
                for n in X:
                    rows = lambda a: sorted(map(str, onp.asarray(a).tolist()))
                    need(rows(o[n]) == rows(X[n]), "independent leaf shuffle loses rows",
                         N=N, seed=seed, leaf=n)
                o = tu.random_permute_leaves(X, k, axis=0, independent_arrays=True)
                for n in X:
                    a, b = onp.asarray(o[n]).reshape(N, -1), onp.asarray(X[n]).reshape(N, -1)
                    for c in range(a.shape[1]):
                        need(sorted(a[:, c].tolist(), key=str) == sorted(b[:, c].tolist(), key=str),
                             "independent shuffle moves values between columns", N=N, leaf=n)
        # independent leaves really use different permutations
        o = tu.random_permute_leaves({"a": jnp.arange(40), "b": jnp.arange(40)}, jax.random.key(0),
                                     independent_leaves=True)
        need((onp.asarray(o["a"]) != onp.asarray(o["b"])).any(), "independent leaves share a shuffle")
        # every combination of the two options
        N = 40
        for cols in (False, True):
            for leaves in (False, True):
                for ax in (0, 1):
                    a = jnp.tile(jnp.arange(N)[:, None], (1, 3))
                    X = {"a": a if ax == 0 else a.T, "b": [a if ax == 0 else a.T]}
                    o = tu.random_permute_leaves(X, jax.random.key(1), axis=ax, independent_arrays=cols,
                                                 independent_leaves=leaves)
                    p, q = [onp.asarray(x) if ax == 0 else onp.asarray(x).T for x in (o["a"], o["b"][0])]
                    cfg = dict(independent_arrays=cols, independent_leaves=leaves, axis=ax)
                    for x in (p, q):
                        need((onp.sort(x, 0) == onp.asarray(a)).all(), "values lost", **cfg)
                        need((x[:, 0] != onp.arange(N)).any(), "not shuffled", **cfg)
                        need((x == x[:, :1]).all() != cols, "columns are shuffled "
                             + ("together" if cols else "differently"), **cfg)
                    need((p == q).all() != leaves, "leaves are shuffled "
                         + ("together" if leaves else "differently"), **cfg)
    native(rep, "shuffle.native", "rows", shuffles, "N<=6, 4 keys, 4 leaves")


if __name__ == "__main__":
    main("U01", cases, extra)
