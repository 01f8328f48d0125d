"""P01: scalers standardise as documented and invert exactly."""
from .common import *
from parametricmatrixmodels.preprocessing import (
    StandardScaler, MinMaxScaler, RobustScaler, MixedScaler)

cases = []
C = [dict(N=5, M=3, f=3, g=2), dict(N=4, M=1, f=1, g=3), dict(N=6, M=2, f=2, g=1)]


def data(kind, d, rows, nm):
    mk = lambda k, s: In(f"{nm}{k}", (rows,) + s)
    a, b = mk(0, (d.f,)), mk(1, (d.g, d.f))
    return {"bare": a, "tensor": b, "tuple": (a, b), "dict": {"u": [b], "s": {"t": a}}}[kind]


KINDS = ("bare", "tensor", "tuple", "dict")
tm = jax.tree.map


def case(name, kind, fn, ref, funcs, seeds=2, rtol=1e-8):
    def build(d):
        ins = (data(kind, d, d.N, "x"), data(kind, d, d.M, "z"))
        return Inst(lambda X, Z: fn(X, Z), ins, None, ref=lambda X, Z: ref(X, Z))
    cases.append(Case(f"{name}.{kind}", "N M f g", build, C, funcs=funcs, seeds=seeds, rtol=rtol))


def run(s, X, Z):
    """transform of new rows, round trip, transform after another fit/instance"""
    s.fit(tm(lambda x: 2 * x + 1, Z))      # replaced by the second fit
    s.fit(X)
    T_ = s.transform(Z)
    return T_, s.inverse_transform(T_), s.transform(s.inverse_transform(Z))


def summ(x):
    return jnp.sum(x, axis=0)


# ---- standard scaler
def std_stats(x):
    n = x.shape[0]
    mu = summ(x) / n
    return mu, jnp.sqrt(summ((x - mu) * (x - mu)) / n)


def std_fn(X, Z):
    s = StandardScaler()
    out = run(s, X, Z)
    t = s.transform(X)
    n = jax.tree.leaves(X)[0].shape[0]
    return out, tm(lambda y: summ(y) / n, t), tm(lambda y: summ(y * y) / n, t)


def std_ref(X, Z):
    def tr(x, z):
        mu, sg = std_stats(x)
        return (z - mu) / sg
    return ((tm(tr, X, Z), Z, Z), tm(lambda x: jnp.zeros_like(x[0]), X),
            tm(lambda x: jnp.ones_like(x[0]), X))


for k in KINDS:
    case("standard", k, std_fn, std_ref,
         ["preprocessing.StandardScaler.fit", "preprocessing.StandardScaler.transform",
          "preprocessing.StandardScaler.inverse_transform"])


# ---- min-max scaler
def mm_opts(kind_opt, X):
    if kind_opt == "default":
        return None
    if kind_opt == "scalar":
        return (-1.5, 2)
    if kind_opt == "list":
        return [-0.5, 3.0]
    if kind_opt == "perleaf":
        return (tm(lambda x: -2.0, X), tm(lambda x: 1.25, X))
    if kind_opt == "perfeature":
        return (tm(lambda x: jnp.ones_like(x[0]) * -2.0 + 0.25 * x[0] * 0, X),
                tm(lambda x: jnp.ones_like(x[0]) * 4.0, X))
    if kind_opt == "nolow":
        return (None, 1.0)
    if kind_opt == "nohigh":
        return (0.0, None)


def mm_case(opt, k):
    def mk(X):
        o = mm_opts(opt, X)
        return MinMaxScaler() if o is None else MinMaxScaler(o)

    def fn(X, Z):
        s = mk(X)
        out = run(s, X, Z)
        ext = tm(lambda x: jnp.stack([jnp.min(x, axis=0), jnp.max(x, axis=0)]), X)
        return out, s.transform(ext)

    def ref(X, Z):
        o = mm_opts(opt, X)
        lo, hi = (0.0, 1.0) if o is None else o
        none = lo is None or hi is None
        full = lambda v: v if isinstance(v, (dict, tuple)) or k in ("bare", "tensor") else tm(lambda _: v, X)

        def tr(x, z, a=None, b=None):
            if none:
                return z
            mn, mx = jnp.min(x, axis=0), jnp.max(x, axis=0)
            return (z - mn) / (mx - mn) * (b - a) + a

        def ends(x, a=None, b=None):
            if none:
                return jnp.stack([jnp.min(x, axis=0), jnp.max(x, axis=0)])
            one = jnp.ones_like(x[0])
            return jnp.stack([one * a, one * b])
        if none:
            return (tm(tr, X, Z), Z, Z), tm(ends, X)
        return (tm(tr, X, Z, full(lo), full(hi)), Z, Z), tm(ends, X, full(lo), full(hi))
    case(f"minmax.{opt}", k, fn, ref,
         ["preprocessing.MinMaxScaler.fit", "preprocessing.MinMaxScaler.transform",
          "preprocessing.MinMaxScaler.inverse_transform"])


for k in KINDS:
    for o in ("default", "scalar", "list", "perleaf", "perfeature", "nolow", "nohigh"):
        mm_case(o, k)


# ---- robust scaler
def rb_case(nm, k, kw, lo, hi, cen, sca):
    """lo/hi/cen/sca: per-leaf functions of (leaf number) giving the documented options"""
    def fn(X, Z):
        return run(RobustScaler(**kw(X)), X, Z)

    def ref(X, Z):
        xs, td = jax.tree.flatten(X)
        zs = jax.tree.leaves(Z)
        out = []
        for i, (x, z) in enumerate(zip(xs, zs)):
            y = z
            if cen(i):
                y = y - jnp.median(x, axis=0)
            if sca(i) and lo(i) is not None and hi(i) is not None:
                s = jnp.quantile(x, hi(i), axis=0) - jnp.quantile(x, lo(i), axis=0)
                y = y / jnp.where(jnp.abs(s) > 1e-12, s, 1.0)
            out.append(y)
        return jax.tree.unflatten(td, out), Z, Z
    case(f"robust.{nm}", k, fn, ref,
         ["preprocessing.RobustScaler.fit", "preprocessing.RobustScaler.transform",
          "preprocessing.RobustScaler.inverse_transform"])


def leafno(X, f):
    xs, td = jax.tree.flatten(X)
    return jax.tree.unflatten(td, [f(i) for i in range(len(xs))])


q25, q75, yes, no = (lambda i: 0.25), (lambda i: 0.75), (lambda i: True), (lambda i: False)
alt = lambda i: i % 2 == 0
for k in KINDS:
    rb_case("default", k, lambda X: {}, q25, q75, yes, yes)
    rb_case("nocentre", k, lambda X: dict(with_centering=False), q25, q75, no, yes)
    rb_case("noscale", k, lambda X: dict(with_scaling=False), q25, q75, yes, no)
    rb_case("range", k, lambda X: dict(quantile_range=(0.1, 0.875)),
            lambda i: 0.1, lambda i: 0.875, yes, yes)
    rb_case("openlow", k, lambda X: dict(quantile_range=(None, 0.875)),
            lambda i: None, lambda i: 0.875, yes, yes)
    rb_case("openhigh", k, lambda X: dict(quantile_range=(0.1, None)),
            lambda i: 0.1, lambda i: None, yes, yes)
    rb_case("perleaf", k, lambda X: dict(
        quantile_range=(leafno(X, lambda i: 0.125 + 0.125 * i), leafno(X, lambda i: 0.75)),
        with_centering=leafno(X, alt), with_scaling=leafno(X, lambda i: not alt(i))),
        lambda i: 0.125 + 0.125 * i, lambda i: 0.75, alt, lambda i: not alt(i))


# ---- mixed scaler: each part by its own scaler
def mixed_fn(X, Z):
    s = MixedScaler({"u": StandardScaler(), "s": {"t": None}})
    return run(s, X, Z)


def mixed_ref(X, Z):
    o = StandardScaler().fit(X["u"]).transform(Z["u"])
    return {"u": o, "s": Z["s"]}, Z, Z


case("mixed.std+none", "dict", mixed_fn, mixed_ref,
     ["preprocessing.MixedScaler.fit", "preprocessing.MixedScaler.transform",
      "preprocessing.MixedScaler.inverse_transform"])


def mixed2_fn(X, Z):
    return run(MixedScaler((MinMaxScaler((-1.0, 1.0)), StandardScaler())), X, Z)


def mixed2_ref(X, Z):
    return ((MinMaxScaler((-1.0, 1.0)).fit(X[0]).transform(Z[0]),
             StandardScaler().fit(X[1]).transform(Z[1])), Z, Z)


case("mixed.mm+std", "tuple", mixed2_fn, mixed2_ref, ["preprocessing.MixedScaler.fit"])
case("mixed.none", "tuple", lambda X, Z: run(MixedScaler(), X, Z),
     lambda X, Z: (Z, Z, Z), ["preprocessing.MixedScaler.fit"])


# ---- concrete runs against a numpy oracle written from the documentation
def extra(rep):
    rng = onp.random.default_rng(3)
    shapes = [(7, 3), (5, 1), (4, 2, 2), (9, 4), (2, 2), (6, 1, 3)]

    def trees():
        for s in shapes:
            yield jnp.asarray(rng.normal(size=s) * 10 + 3)
        for _ in range(4):
            n = int(rng.integers(2, 9))
            L = lambda *s: jnp.asarray(rng.normal(size=(n,) + s) * rng.choice([1e-3, 1, 1e3]))
            yield {"b": L(3), "a": (L(1), [L(2, 2)])}
            yield (L(2), L(3))
            yield [L(1, 2), {"k": L(4)}]

    def leaves(*ts):
        return zip(*[[onp.asarray(l) for l in jax.tree.leaves(t)] for t in ts])

    def back(s, X, what):
        Z = tm(lambda x: x[:2] * 1.7 + 0.3, X)
        t0 = s.transform(Z)
        need(jax.tree.structure(t0) == jax.tree.structure(Z), what + ": structure", X=X)
        need(tree_same(s.inverse_transform(t0), Z, 1e-7), what + ": inverse of transform", X=X)
        return Z, t0

    def standard():
        for X in trees():
            s = StandardScaler()
            t = s.fit_transform(X)
            back(s, X, "standard")
            for x, y in leaves(X, t):
                need(x.shape == y.shape and onp.allclose(y.mean(0), 0, atol=1e-9)
                     and onp.allclose(y.std(0), 1), "standard: mean 0, variance 1", X=x, T=y)
    native(rep, "standard", "moments", standard, "18 data trees")

    def ends(x, y, lo, hi):
        at = lambda k: onp.take_along_axis(y, k[None], 0)[0]
        return onp.allclose(at(x.argmin(0)), lo) and onp.allclose(at(x.argmax(0)), hi)

    def minmax():
        for X in trees():
            for lo, hi in ((0.0, 1.0), (-3, 5), (2.5, -1.0)):
                s = MinMaxScaler((lo, hi))
                t = s.fit_transform(X)
                back(s, X, "minmax")
                for x, y in leaves(X, t):
                    need(ends(x, y, lo, hi), "minmax: extremes map to the ends", X=x, T=y, lo=lo, hi=hi)
            a = tm(lambda x: jnp.asarray(rng.normal(size=x.shape[1:])), X)
            b = tm(lambda x: jnp.asarray(rng.normal(size=x.shape[1:]) + 5), X)
            s = MinMaxScaler((a, b))
            t = s.fit_transform(X)
            back(s, X, "minmax arrays")
            for x, y, lo, hi in leaves(X, t, a, b):
                need(ends(x, y, lo, hi), "minmax: per-feature ends", X=x, T=y, lo=lo, hi=hi)
            for r in ((None, 1.0), (0.0, None)):
                s = MinMaxScaler(r)
                need(tree_same(s.fit_transform(X), X), "minmax: open range scales nothing", X=X)
                back(s, X, "minmax open")
            # some features open, the others not
            na, nb = leafno(X, lambda i: None if i % 2 == 0 else -1.0), leafno(X, lambda i: None if i % 2 == 0 else 2.0)
            s = MinMaxScaler((na, nb))
            t = s.fit_transform(X)
            back(s, X, "minmax partly open")
            for i, (x, y) in enumerate(leaves(X, t)):
                if i % 2 == 0:
                    need(onp.array_equal(x, y), "minmax: open features untouched", X=x, T=y)
                else:
                    need(onp.allclose(y.min(0), -1) and onp.allclose(y.max(0), 2), "minmax: closed features scaled", X=x, T=y)
    native(rep, "minmax", "extremes", minmax, "18 data trees x 7 ranges")

    def robust():
        for X in trees():
            for lo, hi in ((0.25, 0.75), (0.0, 1.0), (0.8, 0.1)):
                for c in (True, False):
                    for sc in (True, False):
                        s = RobustScaler((lo, hi), with_centering=c, with_scaling=sc)
                        t = s.fit_transform(X)
                        back(s, X, "robust")
                        for x, y in leaves(X, t):
                            w = x - (onp.median(x, 0) if c else 0)
                            if sc:
                                w = w / (onp.quantile(x, hi, axis=0) - onp.quantile(x, lo, axis=0))
                            need(onp.allclose(w, y), "robust: documented formula", X=x, T=y, q=(lo, hi), c=c, sc=sc)
            # per-feature quantile arrays
            a = tm(lambda x: jnp.asarray(rng.uniform(0, 0.4, x.shape[1:])), X)
            b = tm(lambda x: jnp.asarray(rng.uniform(0.6, 1, x.shape[1:])), X)
            s = RobustScaler((a, b))
            t = s.fit_transform(X)
            back(s, X, "robust arrays")
            for x, y, lo, hi in leaves(X, t, a, b):
                q = lambda p: onp.stack([onp.quantile(x.reshape(len(x), -1)[:, j], p.ravel()[j])
                                         for j in range(p.size)]).reshape(p.shape)
                need(onp.allclose(y, (x - onp.median(x, 0)) / (q(hi) - q(lo))), "robust: per-feature quantiles",
                     X=x, T=y, lo=lo, hi=hi)
        # features without spread are only centred
        X = jnp.asarray([[1.0, 2.0], [1.0, 3.0], [1.0, 5.0]])
        s = RobustScaler()
        t = onp.asarray(s.fit_transform(X))
        need(onp.allclose(t[:, 0], 0) and onp.allclose(t[:, 1], (onp.array([2., 3., 5.]) - 3) / 1.5),
             "robust: no spread", X=X, T=t)
        back(s, X, "robust no spread")
    native(rep, "robust", "quantiles", robust, "18 data trees x 13 option sets")

    def mixed():
        for X in trees():
            mk = [StandardScaler, lambda: MinMaxScaler((-2., 3.)), RobustScaler, lambda: None]
            for sh in range(4):
                s = MixedScaler(leafno(X, lambda i: mk[(i + sh) % 4]()))
                t = s.fit_transform(X)
                back(s, X, "mixed")
                for i, (x, y) in enumerate(leaves(X, t)):
                    o = mk[(i + sh) % 4]()
                    w = x if o is None else onp.asarray(o.fit_transform(jnp.asarray(x)))
                    need(onp.allclose(w, y), "mixed: every feature by its own scaler", X=x, T=y, i=i)
            s = MixedScaler()
            need(tree_same(s.fit_transform(X), X), "mixed: no scalers", X=X)
            # a scaler for a whole subtree
            s = MixedScaler(StandardScaler())
            s.fit(jax.tree.leaves(X)[0])
    native(rep, "mixed", "parts", mixed, "18 data trees x 4 assignments")

    def refit():
        for X in trees():
            for mk in (StandardScaler, MinMaxScaler, RobustScaler):
                s = mk()
                s.fit(tm(lambda x: x * 3 + 100, X))
                t = s.fit(X).transform(X)
                need(tree_same(t, mk().fit_transform(X)), "a second fit replaces the first", X=X, cls=mk.__name__)
                w = MixedScaler(tm(lambda _: mk(), X))
                w.fit(tm(lambda x: x * 3 + 100, X))
                need(tree_same(w.fit(X).transform(X), t), "mixed: a second fit replaces the first", X=X,
                     cls=mk.__name__)
                u = type(s).deserialize(s.serialize())
                need(tree_same(u.transform(X), t), "copied scaler", X=X, cls=mk.__name__)
    native(rep, "refit", "refit", refit, "18 data trees x 3 scalers")


if __name__ == "__main__":
    main("P01", cases, extra)
