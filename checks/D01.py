"""D01: precision changes cast every array and lose nothing silently."""
import warnings
from .common import *
from . import M01
from .S01 import models, SEQ, NON, _frz, same_py, SKIP
from parametricmatrixmodels import modules as M, tree_util as U

cases = []
P32 = [jnp.float32, jnp.complex64, "float32", "complex64", "single", "f32", "c64", 32]
P64 = [jnp.float64, jnp.complex128, "float64", "complex128", "double", "f64", "c128", 64]


def want_dtype(x, prec):
    d = onp.dtype(x.dtype)
    if d.kind == "c":
        return onp.dtype(onp.complex64 if prec == 32 else onp.complex128)
    if d.kind == "f":
        return onp.dtype(onp.float32 if prec == 32 else onp.float64)
    return d


def cast_case(name, mk, shapes, dims, conc, cons, dtype, gen):
    """after set_precision every array has the requested precision of its own
       kind and the same (rounded) value; options and freeze flag are unchanged"""
    def build(d):
        sh = shapes(d)
        rec = {}
        sym_ = not isinstance(d.b, int)

        def fn(key):
            outs, py = [], []
            with Branches() as br:
                m = mk(d)
                m.compile(key, sh)
                for k, (prec, p) in enumerate([(32, P32[7]), (64, P64[7]), (32, P32[2]),
                                               (64, P64[3])]):
                    p0, s0 = m.get_params(), m.get_state()
                    hp0, fl0 = dict(m.get_hyperparameters()), m.trainable
                    if k == 3:
                        ret = m.astype(p)
                        py.append(("astype returns the module", ret is m))
                    else:
                        m.set_precision(p)
                    p1, s1 = m.get_params(), m.get_state()
                    py += [("structure", jax.tree.structure((p0, s0)) ==
                            jax.tree.structure((p1, s1))),
                           ("dtypes", all(onp.dtype(y.dtype) == want_dtype(x, prec)
                                          for x, y in zip(jax.tree.leaves((p0, s0)),
                                                          jax.tree.leaves((p1, s1))))),
                           ("freeze flag", m.trainable == fl0)]
                    hp1 = m.get_hyperparameters()
                    py += [(f"option {k}", k in hp1 and same_py(v, hp1[k]))
                           for k, v in hp0.items() if k not in SKIP + ("params",)]
                    outs.append(((p0, s0), (p1, s1)))
            rec["py"] = py
            if not sym_:
                for w, ok in py:
                    assert ok, f"{w}: wrong after set_precision"
            return [jax.tree.leaves(o) for o in outs], [jnp.asarray(c) for c in br.conds]

        def goals(out, key):
            outs, conds = out
            gs = [Goal(f"python-values: {w}", "true", lambda ok=ok: T.bconst(ok))
                  for w, ok in rec["py"]]
            for r, ls in enumerate(outs):
                n = len(ls) // 2
                gs += [Goal(f"value{r}.{k}", "eq", ls[k], ls[n + k]) for k in range(n)]
            gs += [Goal(f"accepted{k}", "true", lambda c=c: c[()])
                   for k, c in enumerate(conds)]
            return gs
        return Inst(fn, (In("key", (2,), onp.uint32, gen="key"),), None, goals)
    cases.append(Case(name, dims, build, conc, cons, seeds=1, rtol=1e-5, funcs=[
        f"modules.{name.split('.')[0]}.{m}" for m in
        ("set_precision", "astype", "get_params", "set_params")]))


seen = set()
for s in M01.SPECS:
    base = s[0].split(".")[0]
    if base == "reduction" or (base, ) in seen and base in (
            "Eigenvalues", "Eigenvectors", "Eigensystem", "ReLU", "Tanh", "Exp", "Softmax",
            "LogSoftmax", "Standardize", "LeakyReLU", "GELU", "Square", "Flatten",
            "TreeFlatten", "TreeKey", "Comment", "Reshape"):
        continue
    seen.add((base,))
    cast_case(*s)
cast_case("Constant.mixed", lambda d: M.Constant(
    trainable=True, shape={"u": (d.k, d.n), "v": [(d.m,)]},
    real={"u": True, "v": [False]}), lambda d: (d.k,), "b n m k", M01.C3, (), f64, "normal")
for nm in models(core.NS(dict(n=2))):
    cast_case(f"model.{nm}", lambda d, nm=nm: models(d)[nm](), lambda d: (d.p,),
              "b p n", [dict(b=2, p=2, n=2)], (), f64, "normal")


# ------------------------------------------------- casting helpers, all shapes
TR = {"bare": lambda mk: mk(0), "dict": lambda mk: {"y": mk(0), "x": [mk(1)]},
      "tuple": lambda mk: (mk(0), {"a": mk(1), "b": mk(2)})}
for t, tr in TR.items():
    for src, sn in ((f64, "f64"), (onp.dtype("f4"), "f32"), (i64, "i64"), (c128, "c128"),
                    (onp.dtype("c8"), "c64")):
        for dst, dn in ((onp.float64, "f64"), (onp.float32, "f32"),
                        (onp.complex128, "c128"), (onp.complex64, "c64")):
            if onp.dtype(src).kind == "c" and onp.dtype(dst).kind != "c":
                continue

            def build(d, src=src, dst=dst, tr=tr):
                shp = [(d.n, d.m), (d.k,), ()]
                X = tr(lambda k: In(f"X{k}", shp[k], src))

                def fn(X):
                    rec = []
                    y, z = U.safecast(X, dst), U.astype(X, dst)
                    for r in (y, z):
                        if not isinstance(d.n, int):
                            rec += [l.dtype == onp.dtype(dst) for l in jax.tree.leaves(r)]
                            rec.append(jax.tree.structure(r) == jax.tree.structure(X))
                        else:
                            assert all(l.dtype == onp.dtype(dst) for l in
                                       jax.tree.leaves(r)), "wrong dtype"
                    fn.rec = rec
                    return y, z

                def goals(out, X):
                    y, z = out
                    isS = dict(is_leaf=lambda x: isinstance(x, SArr))
                    gs = [Goal("dtypes", "true", lambda: T.bconst(all(fn.rec)))]
                    for w, r in (("safecast", y), ("astype", z)):
                        gs += [Goal(f"{w}.value{k}", "eq", a if b.kind != "c" or
                                    a.kind == "c" else SArr(a.shape, "c",
                                    lambda *ix, a=a: Cx(a[ix])), b)
                               for k, (a, b) in enumerate(zip(
                                   jax.tree.leaves(X, **isS), jax.tree.leaves(r, **isS)))]
                    return gs
                return Inst(fn, (X,), None, goals)
            cases.append(Case(f"cast.{t}.{sn}-{dn}", "n m k", build,
                              [dict(n=2, m=1, k=3)], (), seeds=1, rtol=1e-5,
                              funcs=["tree_util.safecast", "tree_util.astype"]))


# ------------------------------------------------------------------ refusals
def refusals():
    for tr in TR.values():
        for cplx in (0, 1, 2):
            X = tr(lambda k: jnp.ones((2,), "c16" if k == cplx else "f8") * (1 + 2j if
                   k == cplx else 1))
            if not any(x.dtype.kind == "c" for x in jax.tree.leaves(X)):
                continue
            for dst in (onp.float32, onp.float64):
                try:
                    y = U.safecast(X, dst)
                except ValueError:
                    pass
                else:
                    need(False, "safecast dropped an imaginary part", X=X, dtype=dst, got=y)
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    U.astype(X, dst)
                need(any(issubclass(x.category, RuntimeWarning) and "imag" in str(x.message)
                         for x in w), "astype dropped an imaginary part without a warning",
                     X=X, dtype=dst)
    for dst in (onp.float64, onp.float32, onp.complex128):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            U.astype({"a": jnp.ones((2,))}, dst)
        need(not any("imag" in str(x.message) for x in w), "warning for a real array")
    # the model's own evaluations
    m = SEQ([M.Bias(real=False)])
    m.compile(0, (2,))
    m2 = SEQ([M.Bias(), M.Tanh()])
    m2.compile(0, {"a": (2,), "b": (1,)})
    Z = jnp.asarray([[1 + 1j, 2.0]])
    for mm, X in ((m, Z), (m2, {"a": jnp.ones((1, 2)), "b": 1j * jnp.ones((1, 1))})):
        for f in ("__call__", "grad_input", "grad_params"):
            for dst in (None, onp.float32, onp.float64):
                kw = {} if dst is None else dict(dtype=dst)
                try:
                    y = getattr(mm, f)(X, **kw)
                except ValueError:
                    continue
                need(False, f"{f} dropped the imaginary part of its input", X=X, got=y, **kw)
    y = m(Z, dtype=onp.complex128)
    need(tree_same(y, Z + m.get_params()[0], 1e-6), "complex evaluation", got=y)


class Gadget(M.BaseModule):
    """a user module with parameters and state of every kind"""
    __version__: str = "0.0.0"

    def __init__(self):
        self.p, self.s = None, None

    def is_ready(self):
        return self.p is not None

    def compile(self, rng, shape):
        self.p = {"r": jnp.asarray(onp.linspace(0, 1, 7)), "h": jnp.ones((2,), "f4") / 3,
                  "z": [jnp.asarray([1 / 3 + 2j / 7])], "c": jnp.ones((1,), "c8")}
        self.s = (jnp.asarray(2**30 + 1), {"k": jnp.asarray([True, False]),
                                           "m": jnp.asarray([1 / 3]),
                                           "z": jnp.asarray(1j / 3)})

    def get_output_shape(self, shape):
        return shape

    def _get_callable(self):
        return lambda params, data, training, state, rng: (data, state)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return self.p

    def set_params(self, p):
        self.p = p

    def get_state(self):
        return self.s

    def set_state(self, s):
        self.s = s


def kinds():
    for mk in (lambda: Gadget(), lambda: SEQ([Gadget(), M.Tanh()]),
               lambda: SEQ({"a": SEQ([SEQ([Gadget()])]), "b": _frz(Gadget())}),
               lambda: NON({"g": Gadget(), "u": M.AffineHermitianMatrix(matrix_size=2),
                            "s": SEQ([Gadget(), M.Bias()])},
                           {"input": "g", "g": "s", "s": "output"})):
        for seqn in [[p] for p in P32 + P64] + [[32, 64], [64, 32, 64], [32, 32]]:
            m = mk()
            m.compile(jax.random.key(0), (2,))
            for p in seqn:
                prec = 32 if any(p is q or p == q for q in P32) else 64
                p0, s0 = m.get_params(), m.get_state()
                m.set_precision(p)
                for what, a, b in (("parameters", p0, m.get_params()),
                                   ("state", s0, m.get_state())):
                    need(jax.tree.structure(a) == jax.tree.structure(b),
                         f"structure of the {what}", precision=seqn)
                    for x, y in zip(jax.tree.leaves(a), jax.tree.leaves(b)):
                        need(onp.dtype(y.dtype) == want_dtype(x, prec),
                             f"{what}: array of kind {x.dtype} became {y.dtype}",
                             precision=seqn)
                        need(onp.array_equal(onp.asarray(y), onp.asarray(x).astype(y.dtype)),
                             f"{what}: value changed", precision=seqn, before=x, after=y)
    m = SEQ([Gadget()])
    m.compile(0, (2,))
    for mod in (m, m[0]):
        for bad in ("float16", 16, "half", None, "int32", 128):
            d0 = [x.dtype for x in jax.tree.leaves(mod.get_params())]
            try:
                mod.set_precision(bad)
            except Exception:
                need([x.dtype for x in jax.tree.leaves(mod.get_params())] == d0,
                     "a refused precision changed arrays", precision=bad)
            else:
                need(False, "an unknown precision was accepted", precision=bad)


def extras(rep):
    native(rep, "refusals", "imaginary-parts", refusals,
           "three trees, every position of a complex array, every evaluation function")
    native(rep, "kinds", "every-array-of-its-own-kind", kinds,
           "four modules and models with arrays of every kind, all names of precisions")


if __name__ == "__main__":
    main("D01", cases, extras)
