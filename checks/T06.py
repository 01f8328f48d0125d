"""T06: built-in losses equal their named formula on any output tree."""
from .opq import *
from parametricmatrixmodels import training as TR

cases = []
C = [dict(b=3, n=2, m=3, k=2), dict(b=1, n=1, m=2, k=3)]


def trees(kind, d, nm, dt, gen="normal", fact=None):
    mk = lambda k, s: In(f"{nm}{k}", (d.b,) + s, dt, gen=gen, fact=fact)
    return {"bare": lambda: mk(0, (d.n,)), "dict": lambda: {"u": mk(0, (d.k,)), "v": [mk(1, (d.m, d.n))]},
            "scalar": lambda: (mk(0, ()), mk(1, (d.k,)))}[kind]()


def shapes(kind, d):
    return jax.tree.map(lambda x: tuple(x.shape[1:]), trees(kind, d, "z", f64),
                        is_leaf=lambda x: isinstance(x, In))


def size(x):
    c = 1
    for q in x.shape:
        c = c * q
    return c


def tot(x):
    while x.ndim:
        x = jnp.sum(x, axis=-1)
    return x


def mean(trees_, f):
    ls = [jax.tree.leaves(t) for t in trees_]
    t, c = 0, 0
    for xs in zip(*ls):
        e = f(*xs)
        t, c = t + tot(e), c + size(e)
    return t / c


def absq(z):
    return jnp.real(z) ** 2 + jnp.imag(z) ** 2


def ab(z):
    return jnp.sqrt(absq(z)) if jnp.iscomplexobj(z) else jnp.maximum(z, -z)


def huber(d):
    return lambda p, y: d * d * (jnp.sqrt(1 + absq(p - y) / (d * d)) - 1)


E = 1e-4
FORM = {
    "mse": lambda p, y: absq(p - y),
    "mae": lambda p, y: ab(p - y),
    "pseudo_huber": huber(1.0), "pseudo_huber:2.0": huber(2.0), "pseudo_huber:0.5": huber(0.5),
    "mse_unc": lambda p, y, s: absq((p - y) / s),
    "mae_unc": lambda p, y, s: ab((p - y) / s),
    "mre": lambda p, y: ab((p - y) / (y + E)),
    "mre_unc": lambda p, y, s: ab((p - y) / ((y + E) * s)),
    "mrd": lambda p, y: ab((p - y) / (2.0 * (y + p) + E)),
    "mrd_unc": lambda p, y, s: ab((p - y) / ((2.0 * (y + p) + E) * s)),
    "mse_unsupervised": lambda p, y: absq(p - y),
    "mae_unsupervised": lambda p, y: ab(p - y),
    "mre_unsupervised": lambda p, y: ab((p - y) / (y + E)),
}


def loss_case(name, kind, cplx, training):
    dt = c128 if cplx else f64
    uns = name.endswith("_unsupervised")
    unc = name.endswith("_unc")

    def build(d):
        X = trees(kind, d, "X", dt if uns else f64)
        Y = trees(kind, d, "Y", dt)
        S = trees(kind, d, "S", f64, "pos", fact=lambda a, *ix: T.gt(a, 0))
        out = shapes(kind, d)

        def model(x, p, t, s, r):
            # prediction and new state are unknown functions
            return opq_call("M", p, x, t, s, r, out, cplx=cplx, row=False)

        ins = (In("e", (), onp.int32), X, Y, S, In("p", (d.n,)), In("s", (d.k,)),
               In("key", (2,), onp.uint32, gen="key"))

        def fn(e, X, Y, S, p, s, key):
            k = jax.random.wrap_key_data(key)
            f = TR.make_loss_fn(name, model)
            a = (X,) if uns else (X, Y, S) if unc else (X, Y)
            l_, ns = f(e, *a, {"w": p}, training, (s,), k)
            assert jnp.ndim(l_) == 0 and not jnp.iscomplexobj(l_), "loss must be a real scalar"
            return l_, ns

        def ref(e, X, Y, S, p, s, key):
            k = jax.random.wrap_key_data(key)
            y, ns = model(X, {"w": p}, training, (s,), k)
            a = (y, X) if uns else (y, Y, S) if unc else (y, Y)
            return mean(a, FORM[name]), ns
        return Inst(fn, ins, None, ref=ref)
    cases.append(Case(f"{name}.{kind}.{'complex' if cplx else 'real'}{'.training' if training else ''}",
                      "b n m k", build, C, funcs=["training.make_loss_fn", "tree_util.mean",
                                                  "tree_util.abs_sqr", "tree_util.abs", "tree_util.div"],
                      seeds=1))


for nm in FORM:
    for kind in ("bare", "dict"):
        for cp in (False, True):
            loss_case(nm, kind, cp, kind == "dict")

if __name__ == "__main__":
    main("T06", cases)
