"""M01: announced output shapes are right, samples never mix, state passes."""
from .common import *
from parametricmatrixmodels import modules as M
from parametricmatrixmodels.tree_util import is_shape_leaf as _isl  # noqa

cases = []
SPECS = []          # (name, module, input shapes, sizes, ...), also used by S01 and D01


def leafshape(x):
    return isinstance(x, tuple) and all(
        isinstance(i, int) or hasattr(i, "_to_scope") or
        type(i).__name__ == "_DimExpr" for i in x)


def row_case(name, mk, shapes, dims, conc, cons=(), dtype=f64, callable_only=False,
             gen="normal", herm=False):
    """the contract, for one module and one input structure:
       shape(f(X)) = (b,) + announced; f(X)[c] = f(X[c:c+1])[0]; state = state"""
    SPECS.append((name, mk, shapes, dims, conc, cons, dtype, gen))

    def build(d):
        sh = shapes(d)
        leaves, td = jax.tree.flatten(sh, is_leaf=leafshape)
        ins = jax.tree.unflatten(td, [
            In(f"X{k}", (d.b,) + tuple(s), dtype, gen=gen)
            for k, s in enumerate(leaves)])
        b = d.b
        c = In("c", (), i64, gen=lambda rng, s: rng.integers(0, int(b), s),
               fact=lambda p: T.band(ge(p, 0), lt(p, D(b))))
        rec = {}

        def fn(data, c, key, s):
            mod = mk(d)
            if not callable_only or isinstance(d.b, int):
                mod.compile(key, sh)
                ann = mod.get_output_shape(sh)
            else:
                ann = None
            f, params = mod._get_callable(), mod.get_params()
            nst = isinstance(mod, pmm.Model)
            st0 = mod.get_state() if nst else ()
            y, st = f(params, data, False, (s,) if not nst else st0, key)
            one = jax.tree.map(
                lambda x: jax.lax.dynamic_slice_in_dim(x, c, 1, 0), data)
            z, _ = f(params, one, False, () if not nst else st0, key)
            rec["ann"] = ann
            rec["out"] = jax.tree.map(lambda x: tuple(x.shape), y)
            if isinstance(d.b, int):
                want = jax.tree.map(lambda t: (b,) + tuple(t), ann,
                                    is_leaf=leafshape)
                assert want == rec["out"], (
                    f"announced {ann}, batch of {b} gives {rec['out']}")
            return y, z, ((s,) if nst else st)

        def goals(out, data, c, key, s):
            y, z, st = out
            isS = dict(is_leaf=lambda x: isinstance(x, SArr))
            gs = []
            if rec["ann"] is not None:
                al, at = jax.tree.flatten(rec["ann"], is_leaf=leafshape)
                ol, ot = jax.tree.flatten(rec["out"], is_leaf=leafshape)
                ok = at == ot and all(len(a) + 1 == len(o)
                                      for a, o in zip(al, ol))
                g = T.bconst(ok)
                if ok:
                    for a, o in zip(al, ol):
                        for p, q in zip((b,) + tuple(a), o):
                            g = T.band(g, eq(D(p), D(q)))
                gs.append(Goal("announced-shape", "true", lambda g=g: g))
            for k, (a, o) in enumerate(zip(jax.tree.leaves(y, **isS),
                                           jax.tree.leaves(z, **isS))):
                gs.append(Goal(f"row-independent{k}", "eq", SArr(
                    a.shape[1:], a.kind, lambda *ix, a=a: a[(c[()],) + ix]),
                    SArr(o.shape[1:], o.kind, lambda *ix, o=o: o[(ZERO,) + ix])))
            gs.append(Goal("state-passthrough", "eq", st[0], s))
            return gs
        return Inst(fn, (ins, c, In("key", (2,), onp.uint32, gen="key"),
                         In("s", ())), None, goals)
    cases.append(Case(name, dims, build, conc, cons, seeds=1, rtol=1e-4, funcs=[
        f"modules.{name.split('.')[0]}.{m}" for m in
        ("compile", "get_output_shape", "_get_callable")]))


CM = [dict(b=3, p=2, n=2, r=1), dict(b=1, p=1, n=3, r=2)]
for bias in (True, False):
    for sm in (None, 0.5):
        t = (".bias" if bias else ".nobias") + (".smooth" if sm else "")
        cons = ["p>=2"] if sm and not bias else []
        cc = [c for c in CM if c["p"] >= 2] if cons else CM
        row_case("AffineHermitianMatrix" + t, lambda d, bias=bias, sm=sm:
                 M.AffineHermitianMatrix(matrix_size=d.n, bias_term=bias, smoothing=sm),
                 lambda d: (d.p,), "b p n", cc, cons)
        row_case("LowRankAffineHermitianMatrix" + t, lambda d, bias=bias, sm=sm:
                 M.LowRankAffineHermitianMatrix(matrix_size=d.n, matrix_rank=d.r,
                                                bias_term=bias, smoothing=sm),
                 lambda d: {"a": (d.p,)}, "b p n r", cc, cons + ["n>=r"])
    for real in (True, False):
        row_case(f"AffineTensor.{'bias' if bias else 'nobias'}.{'real' if real else 'complex'}",
                 lambda d, bias=bias, real=real: M.AffineTensor(
                     tensor_shape=(d.n, d.r, 2), bias_term=bias, real=real),
                 lambda d: [(d.p,)], "b p n r", CM)

CE = [dict(b=3, n=3, k=2, m=4), dict(b=1, n=2, k=1, m=2)]
for which in ("SA", "LM", "EA", "IM"):
    for cls in (M.Eigenvalues, M.Eigenvectors, M.Eigensystem):
        row_case(f"{cls.__name__}.{which}", lambda d, cls=cls, which=which:
                 cls(num_eig=d.k, which=which), lambda d: (d.n, d.n), "b n k",
                 CE, ["n>=k"])
for cls in (M.Eigenvalues, M.Eigenvectors, M.Eigensystem):
    row_case(f"{cls.__name__}.all", lambda d, cls=cls: cls(num_eig=None),
             lambda d: (d.n, d.n), "b n", CE)
    row_case(f"{cls.__name__}.all.tree", lambda d, cls=cls: cls(num_eig=None),
             lambda d: {"u": (d.n, d.n), "v": [(d.m, d.m)]}, "b n m", CE)
    row_case(f"{cls.__name__}.tree", lambda d, cls=cls: cls(num_eig=d.k),
             lambda d: {"u": (d.n, d.n), "v": [(d.m, d.m)]}, "b n m k", CE,
             ["n>=k", "m>=k"])

CO = [dict(b=2, n=2, k=2, q=2, l=1), dict(b=3, n=3, k=1, q=1, l=2)]
for cls in (M.ExpectationValueSum, M.TransitionAmplitudeSum):
    for cen in (True, False):
        row_case(f"{cls.__name__}.{'centered' if cen else 'plain'}",
                 lambda d, cls=cls, cen=cen: cls(num_observables=d.l, output_size=d.q,
                                                 centered=cen),
                 lambda d: {"v": (d.n, d.k)}, "b n k q l", CO, dtype=c128)

C3 = [dict(b=2, n=2, m=3, k=2), dict(b=3, n=1, m=2, k=4)]
TREES = {"bare": lambda d: (d.n, d.m), "scalar": lambda d: (),
         "dict": lambda d: {"y": (d.n, d.m), "x": (d.k,)},
         "deep": lambda d: {"q": {"z": (d.n,), "b": [(d.m, d.k)]}, "a": ()}}
for t, sh in TREES.items():
    row_case(f"Bias.{t}", lambda d: M.Bias(), sh, "b n m k", C3)
    row_case(f"Bias.complex.{t}", lambda d: M.Bias(real=False), sh, "b n m k", C3)
    row_case(f"Comment.{t}", lambda d: M.Comment("x"), sh, "b n m k", C3)
    row_case(f"TreeKey.none.{t}", lambda d: M.TreeKey(), sh, "b n m k", C3)
    row_case(f"TreeFlatten.{t}", lambda d: M.TreeFlatten(), sh, "b n m k", C3)
    row_case(f"PReLU.single.{t}", lambda d: M.PReLU(), sh, "b n m k", C3)
    row_case(f"Reshape.none.{t}", lambda d: M.Reshape(None), sh, "b n m k", C3)
    row_case(f"Flatten.{t}", lambda d: M.Flatten(), sh, "b n m k", C3)
    for act in ("ReLU", "Tanh", "Exp", "Softmax", "LogSoftmax", "Standardize",
                "LeakyReLU", "GELU", "Square"):
        if t in ("scalar", "deep") and act in ("Softmax", "LogSoftmax", "Standardize"):
            continue
        row_case(f"{act}.{t}", lambda d, act=act: getattr(M, act)(), sh, "b n m k", C3)
    if t != "deep":
        row_case(f"Constant.trainable.{t}", lambda d: M.Constant(
            trainable=True, shape=(d.k, d.n)), sh, "b n m k", C3)
row_case("Bias.scalar", lambda d: M.Bias(scalar=True), TREES["dict"], "b n m k", C3)
row_case("Constant.trainable.treeshape", lambda d: M.Constant(
    trainable=True, shape={"u": (d.k, d.n), "v": [(d.m,)]}), TREES["deep"],
    "b n m k", C3)
row_case("Constant.fixed", lambda d: M.Constant(
    {"u": jnp.ones((2, 3)), "v": jnp.zeros((4,))}), TREES["dict"], "b n m k", C3)
for t in ("bare", "dict"):
    row_case(f"PReLU.multi.{t}", lambda d: M.PReLU(single_parameter=False),
             TREES[t], "b n m k", C3)
row_case("PReLU.complex", lambda d: M.PReLU(real=False), TREES["bare"], "b n m k",
         C3, dtype=f64) if False else None
row_case("Reshape.bare", lambda d: M.Reshape((d.m, -1)), lambda d: (d.n, d.m),
         "b n m", C3)
row_case("Reshape.tree", lambda d: M.Reshape({"x": (1, d.k), "y": (-1,)}),
         TREES["dict"], "b n m k", C3)
row_case("TreeKey.sub", lambda d: M.TreeKey({"u": "q.z", "v": ["a", "q"]}),
         TREES["deep"], "b n m k", C3)
row_case("TreeKey.one", lambda d: M.TreeKey("q.b.0"), TREES["deep"], "b n m k", C3)
row_case("ConcatenateLeaves.flat", lambda d: M.ConcatenateLeaves(),
         lambda d: [(d.n, d.m), ((d.k,), (d.m,))], "b n m k", C3)
row_case("ConcatenateLeaves.axis0", lambda d: M.ConcatenateLeaves(axis=0),
         lambda d: {"x": (d.n, d.m), "a": (d.k, d.m)}, "b n m k", C3)
row_case("ConcatenateLeaves.axis1", lambda d: M.ConcatenateLeaves(
    axis=1, path_order=["x", "a"]), lambda d: {"x": (d.n, d.m), "a": (d.n, d.k)},
    "b n m k", C3)
row_case("Einsum.inputs", lambda d: M.Einsum("ij,j->i"), lambda d: [(d.n, d.m), (d.m,)],
         "b n m", C3)
row_case("Einsum.infer", lambda d: M.Einsum({"u": "ki", "v": "kj"}),
         lambda d: {"v": (d.k, d.m), "u": (d.k, d.n)}, "b n m k", C3)
row_case("Einsum.train", lambda d: M.Einsum("ij,j->i", trainable=True, dim_map={"i": d.k}),
         lambda d: (d.m,), "b m k", C3)
row_case("Einsum.train2", lambda d: M.Einsum(
    "ab,bc,c->a", trainable=True, dim_map={"a": d.k, "b": d.n}),
    lambda d: (d.m,), "b n m k", C3)
row_case("Einsum.train.complex", lambda d: M.Einsum(
    "ij,jl->li", trainable=True, real=False, dim_map={"i": d.k}),
    lambda d: (d.m, d.n), "b n m k", C3)
row_case("MatMul.vec", lambda d: M.MatMul(output_shape=d.k, trainable=True),
         lambda d: (d.m,), "b m k", C3)
row_case("MatMul.mat", lambda d: M.MatMul(output_shape=(d.k, d.n), trainable=True),
         lambda d: (d.m, d.n), "b n m k", C3)
row_case("MatMul.mat.none", lambda d: M.MatMul(output_shape=(d.k, None), trainable=True),
         lambda d: (d.m, d.n), "b n m k", C3)
row_case("MatMul.inputs", lambda d: M.MatMul(), lambda d: [(d.n, d.m), (d.m, d.k)],
         "b n m k", C3)
row_case("MatMul.inputs.order", lambda d: M.MatMul(path_order=["y", "x"]),
         lambda d: {"x": (d.m, d.k), "y": (d.n, d.m)}, "b n m k", C3)
row_case("MatMul.middle", lambda d: M.MatMul(
    path_order=["0", "..", "1"], trainable=True),
    lambda d: ((d.n, d.m), (d.k, 2)), "b n m k", C3)
row_case("MatMul.end.vec", lambda d: M.MatMul(
    path_order=["0", "1", ".."], trainable=True),
    lambda d: ((d.n, d.m), (d.m, d.k)), "b n m k", C3)
row_case("MatMul.end.mat", lambda d: M.MatMul(
    output_shape=(d.n, d.p), path_order=["0", "1", ".."], trainable=True),
    lambda d: ((d.n, d.m), (d.m, d.k)), "b n m k p", [dict(c, p=2) for c in C3])

# composite modules (sequential models)
row_case("AffineEigenvaluePMM", lambda d: M.AffineEigenvaluePMM(
    matrix_size=d.n, num_eig=d.k), lambda d: (d.p,), "b p n k",
    [dict(b=2, p=2, n=3, k=2)], ["n>=k"])
row_case("AffineEigenvaluePMM.tree", lambda d: M.AffineEigenvaluePMM(
    matrix_size=d.n, num_eig=d.k, which="LM", bias_term=False),
    lambda d: {"a": (d.p,)}, "b p n k", [dict(b=2, p=2, n=3, k=2)], ["n>=k"])
for ev in (True, False):
    row_case(f"AffineObservablePMM.{'exp' if ev else 'trans'}",
             lambda d, ev=ev: M.AffineObservablePMM(
                 matrix_size=d.n, num_eig=d.k, output_size=d.q,
                 use_expectation_values=ev), lambda d: (d.p,), "b p n k q",
             [dict(b=2, p=2, n=3, k=2, q=2)], ["n>=k"])
row_case("LinearNN", lambda d: M.LinearNN(d.k, activation=M.Tanh()),
         lambda d: (d.n, d.m), "b n m k", C3)
row_case("LinearNN.nobias", lambda d: M.LinearNN(d.k, bias=False),
         lambda d: (d.n,), "b n k", C3)

# activations that reduce or resize an axis: known findings, see DESIGN.md
row_case("reduction.GLU", lambda d: M.GLU(), lambda d: (2 * d.n,), "b n", C3)
row_case("reduction.AMax.axis", lambda d: M.AMax(axis=1), lambda d: (d.n, d.m),
         "b n m", C3)
row_case("reduction.AMin.axis", lambda d: M.AMin(axis=1), lambda d: (d.n, d.m),
         "b n m", C3)
row_case("reduction.LogSumExp.axis", lambda d: M.LogSumExp(axis=1),
         lambda d: (d.n, d.m), "b n m", C3)
row_case("reduction.OneHot", lambda d: M.OneHot(3), lambda d: (d.n,), "b n", C3,
         dtype=i64)

if __name__ == "__main__":
    main("M01", cases)
