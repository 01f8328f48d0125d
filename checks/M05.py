"""M05: tensor and elementwise modules compute their documented map."""
import warnings
from .common import *
from parametricmatrixmodels import modules as M

KEY = jax.random.PRNGKey(0)
cases = []


def case(name, dims, build, conc, cons=(), funcs=(), **kw):
    cases.append(Case(name, dims, build, conc, cons, funcs=funcs, **kw))


def shape_of(tree):
    """per-sample shapes of a tree of batched arrays"""
    return jax.tree.map(lambda x: tuple(x.shape[1:]), tree)


TREES = {
    "bare": lambda a, b, c: a,
    "tuple": lambda a, b, c: (a, b),
    "list": lambda a, b, c: [a, b],
    "dict": lambda a, b, c: {"y": a, "x": b},      # leaf order: x, y
    "nest": lambda a, b, c: [a, (b, c)],
    "deep": lambda a, b, c: {"q": {"z": a, "b": [b]}, "a": c},  # c, b, a
}


# --------------------------------------------------------------- einsum
def einsum_case(name, tree, estr, ref, nparam=0, trainable=True, pshapes=(),
                shapes=None, cplx=False, bareparam=False):
    """estr as the user gives it; ref the equivalent explicit batched einsum
    over (params..., leaves in tree-leaf order)"""
    def build(d):
        sh = [tuple(getattr(d, c) for c in s) for s in shapes]
        arrs = [In(f"X{k}", (d.b,) + s, c128 if cplx and k == 0 else f64)
                for k, s in enumerate(sh)]
        arrs += [None] * (3 - len(arrs))
        data = TREES[tree](*arrs)
        ps = tuple(In(f"W{k}", tuple(getattr(d, c) for c in s))
                   for k, s in enumerate(pshapes))
        params = ps[0] if len(ps) == 1 else ps

        def fn(params, data, s):
            mod = M.Einsum(estr, params=params if nparam else None,
                           trainable=trainable)
            mod.compile(KEY, shape_of(data))
            arg = params if trainable else ()
            return call(mod, arg, data, state=(s,))

        def reff(params, data, s):
            ls = jax.tree.leaves(data)
            pl = jax.tree.leaves(params)
            return jnp.einsum(ref, *pl, *ls), (s,)
        return Inst(fn, (params if nparam else (), data, In("s", ())), None,
                    ref=reff)
    letters = sorted(set("".join(shapes) + "".join(pshapes)))
    conc = [dict(b=2, **{c: 2 + (i % 3) for i, c in enumerate(letters)}),
            dict(b=1, **{c: 1 + (i * 2) % 3 for i, c in enumerate(letters)})]
    case(f"Einsum.{name}" + ("" if trainable or not nparam else ".fixed"),
         " ".join(["b"] + letters), build, conc,
         funcs=["modules.Einsum._get_concrete_einsum_str",
                "modules.Einsum._get_dimension_map",
                "modules.Einsum.compile", "modules.Einsum._get_callable"])


einsum_case("dot", "tuple", "i,i->", "Bi,Bi->B", shapes=["n", "n"])
einsum_case("dot.dict", "dict", "i,i->", "Bi,Bi->B", shapes=["n", "n"])
einsum_case("trace", "bare", "ii->", "Bii->B", shapes=["nn"])
einsum_case("transpose", "bare", "ij->ji", "Bij->Bji", shapes=["nm"], cplx=True)
einsum_case("transpose.infer", "bare", "ji", "Bji->Bij", shapes=["nm"])
einsum_case("outer3.str", "nest", "c,a,b->abc", "Bc,Ba,Bb->Babc",
            shapes=["n", "m", "k"])
einsum_case("outer3.infer", "nest", "c,a,b", "Bc,Ba,Bb->Babc",
            shapes=["n", "m", "k"])
einsum_case("outer3.tree", "nest", ["k", ("i", "j")], "Bk,Bi,Bj->Bijk",
            shapes=["n", "m", "k"])
einsum_case("outer3.tuple", "nest", (["a", ("b", "c")], "bca"),
            "Ba,Bb,Bc->Bbca", shapes=["n", "m", "k"])
# dict leaves come in sorted key order: x (second array), y (first array)
einsum_case("matvec.dict", "dict", ({"y": "j", "x": "ij"}, "i"),
            "Bij,Bj->Bi", shapes=["m", "nm"])
einsum_case("matvec.dict.infer", "dict", {"y": "j", "x": "ij"},
            "Bij,Bj->Bi", shapes=["m", "nm"])
einsum_case("deep", "deep", ({"q": {"z": "ij", "b": ["jk"]}, "a": "k"}, "ik"),
            "Bk,Bjk,Bij->Bik", shapes=["nm", "mk", "k"])
einsum_case("deep.str", "deep", "k,jk,ij->ik", "Bk,Bjk,Bij->Bik",
            shapes=["nm", "mk", "k"])
for tr in (True, False):
    einsum_case("lead1.str", "bare", "ij,j->i", "ij,Bj->Bi", nparam=1,
                trainable=tr, pshapes=["nm"], shapes=["m"], cplx=True)
    einsum_case("lead1.infer", "nest", "ab,c,a,b", "ab,Bc,Ba,Bb->Bc", nparam=1,
                trainable=tr, pshapes=["mk"], shapes=["n", "m", "k"])
    einsum_case("lead1.tuple", "nest", ("ij", ["k", ("i", "j")], "k"),
                "ij,Bk,Bi,Bj->Bk", nparam=1, trainable=tr, pshapes=["mk"],
                shapes=["n", "m", "k"])
    einsum_case("lead1.tuple2", "nest", ("ij", ["k", ("i", "j")]),
                "ij,Bk,Bi,Bj->Bk", nparam=1, trainable=tr, pshapes=["mk"],
                shapes=["n", "m", "k"])
    einsum_case("lead1.doc", "nest", "ij,jk,jk,jk->ik", "ij,Bjk,Bjk,Bjk->Bik",
                nparam=1, trainable=tr, pshapes=["pn"],
                shapes=["nm", "nm", "nm"])
    einsum_case("lead2", "nest", "ab,cd,c,a,b->d", "ab,cd,Bc,Ba,Bb->Bd",
                nparam=2, trainable=tr, pshapes=["mk", "np"],
                shapes=["n", "m", "k"])
    einsum_case("lead2.tuple", "nest", ("ab,cd", ["c", ("a", "b")]),
                "ab,cd,Bc,Ba,Bb->Bd", nparam=2, trainable=tr,
                pshapes=["mk", "np"], shapes=["n", "m", "k"])


# --------------------------------------------------------------- matmul
def matmul_case(name, tree, shapes, order, pshape=None, out=None, pos=0,
                trainable=False, sep=None, leaforder=None):
    """order: the factors, left to right, as indices of the arrays (-1: the
    parameter); None: parameter then leaves"""
    def build(d):
        sh = [tuple(getattr(d, c) for c in s) for s in shapes]
        arrs = [In(f"X{k}", (d.b,) + s) for k, s in enumerate(sh)]
        arrs += [None] * (3 - len(arrs))
        data = TREES[tree](*arrs)
        has = pshape is not None
        params = In("W", tuple(getattr(d, c) for c in pshape)) if has else ()
        kw = {}
        if order is not None:
            kw["path_order"] = list(order[0])
        if sep:
            kw["separator"] = sep
        if out is not None:
            o = out(d)
            kw["output_shape"] = o

        def fn(params, data, s):
            mod = M.MatMul(params=params if has else None, trainable=trainable,
                           **kw)
            mod.compile(KEY, shape_of(data))
            return call(mod, params if trainable else (), data, state=(s,))

        def reff(params, data, s):
            ls = jax.tree.leaves(data)
            fs = ([params] if has else []) + ls
            if order is not None:
                fs = [params if i == -1 else ls[i] for i in order[1]]
            r = None
            for f in fs:
                f = f if f is not params or not has else f[None]
                if r is None:
                    r = f
                elif f.ndim == 2:     # vector
                    r = jnp.sum(r * f[:, None, :], axis=-1)
                else:
                    r = jnp.sum(r[:, :, :, None] * f[:, None, :, :], axis=2)
            return r, (s,)
        return Inst(fn, (params, data, In("s", ())), None, ref=reff)
    letters = sorted(set("".join(shapes) + (pshape or "")))
    conc = [dict(b=2, **{c: 2 + (i % 3) for i, c in enumerate(letters)}),
            dict(b=1, **{c: 1 + (i * 2) % 3 for i, c in enumerate(letters)})]
    case(f"MatMul.{name}", " ".join(["b"] + letters), build, conc,
         funcs=["modules.MatMul._get_einsum_str_and_dim_map",
                "modules.MatMul.compile", "modules.Einsum._get_callable"])


for tr in (True, False):
    t = ".train" if tr else ".fixed"
    matmul_case("vec" + t, "bare", ["m"], None, "nm", trainable=tr)
    matmul_case("mat" + t, "bare", ["mk"], None, "nm", trainable=tr)
    matmul_case("vec.out" + t, "bare", ["m"], None, "nm", trainable=tr,
                out=lambda d: d.n)
    matmul_case("three" + t, "nest", ["mk", "kp", "p"], None, "nm", trainable=tr)
    # parameter in the middle / at the end
    matmul_case("middle" + t, "tuple", ["nm", "kp"], (["0", "..", "1"], [0, -1, 1]),
                "mk", trainable=tr)
    matmul_case("end" + t, "tuple", ["nm", "mk"], (["0", "1", ".."], [0, 1, -1]),
                "kp", trainable=tr)
    matmul_case("end.vec" + t, "tuple", ["nm", "mk"], (["0", "1", ".."], [0, 1, -1]),
                "k", trainable=tr)
    matmul_case("swap.middle" + t, "tuple", ["kp", "nm"],
                (["1", "..", "0"], [1, -1, 0]), "mk", trainable=tr)
    # dict: leaves are x (array 1), y (array 0)
    matmul_case("dict.end" + t, "dict", ["nm", "mk"], (["y", "x", ".."], [1, 0, -1]),
                "kp", trainable=tr)
matmul_case("inputs", "tuple", ["nm", "mk"], None)
matmul_case("inputs.vec", "nest", ["nm", "mk", "k"], None)
matmul_case("inputs.dict", "dict", ["mk", "nm"], None)
matmul_case("inputs.order", "dict", ["nm", "mk"], (["y", "x"], [1, 0]))
matmul_case("inputs.order.deep", "deep", ["nm", "mk", "kp"],
            (["q.z", "q.b.0", "a"], [2, 1, 0]))
matmul_case("inputs.order.deep2", "deep", ["mk", "nm", "k"],
            (["q.b.0", "q.z", "a"], [1, 2, 0]))
matmul_case("inputs.order.sep", "deep", ["nm", "mk", "kp"],
            (["q/z", "q/b/0", "a"], [2, 1, 0]), sep="/")
matmul_case("param.order.sep", "tuple", ["nm", "kp"],
            (["0", "//", "1"], [0, -1, 1]), "mk", trainable=True, sep="/")
matmul_case("square.order", "nest", ["nn", "nn", "nn"],
            (["1.1", "0", "1.0"], [2, 0, 1]))
matmul_case("square.order.param", "nest", ["nn", "nn", "nn"],
            (["1.1", "0", "..", "1.0"], [2, 0, -1, 1]), "nn", trainable=True)
matmul_case("square.inputs", "deep", ["nn", "nn", "nn"], None)


def many(n):
    def build(d):
        data = [In(f"X{k}", (2, (3 if k == 0 else 2), (4 if k == n - 1 else 2)))
                for k in range(n)]

        def fn(data):
            mod = M.MatMul()
            mod.compile(KEY, shape_of(data))
            return call(mod, (), data)[0]

        def ref(data):
            r = data[0]
            for x in data[1:]:
                r = r @ x
            return r
        return Inst(fn, (data,), None, ref=ref)
    cases.append(Bounded(f"MatMul.many{n}", "", build, [{}], seeds=1, rtol=1e-5))


many(12)
many(27)


# ------------------------------------------------------- bias / constant
def three(d, cplx=False):
    dt = c128 if cplx else f64
    return [In("X0", (d.b, d.n, d.m), dt), In("X1", (d.b, d.k), dt),
            In("X2", (d.b,), dt)]


C3 = [dict(b=2, n=2, m=3, k=2), dict(b=3, n=1, m=2, k=4)]


def bias_case(kind, tree, cplx):
    def build(d):
        X = TREES[tree](*three(d))
        dt = c128 if cplx else f64
        if kind == "scalar":
            bias = In("w", (1,), dt)
        elif kind == "tree":
            bias = TREES[tree](In("w0", (d.n, d.m), dt), In("w1", (d.k,), dt),
                               In("w2", (), dt))
        else:   # one array for every leaf
            bias = In("w", (d.n, d.m), dt)
            X = {"bare": In("X0", (d.b, d.n, d.m)),
                 "tuple": (In("X0", (d.b, d.n, d.m)), In("X1", (d.b, d.n, d.m))),
                 }[tree]
        if kind == "scalar":
            # a batch-only leaf cannot take a (1,) bias
            X = {"bare": X, "tuple": X}[tree]

        def fn(bias, X, s):
            mod = M.Bias(real=not cplx, scalar=kind == "scalar")
            mod.set_params(bias)
            mod.compile(KEY, shape_of(X))
            return call(mod, mod.get_params(), X, state=(s,))

        def ref(bias, X, s):
            if kind == "scalar":
                return jax.tree.map(lambda x: x + bias[0], X), (s,)
            if kind == "shared":
                return jax.tree.map(lambda x: x + bias[None], X), (s,)
            return jax.tree.map(lambda x, w: x + w[None], X, bias), (s,)
        return Inst(fn, (bias, X, In("s", ())), None, ref=ref)
    case(f"Bias.{kind}.{tree}{'.complex' if cplx else ''}", "b n m k", build, C3,
         funcs=["modules.Bias._get_callable", "modules.Bias.compile",
                "modules.Bias.set_params"])


for cplx in (False, True):
    for tree in ("bare", "tuple"):
        bias_case("scalar", tree, cplx)
        bias_case("shared", tree, cplx)
    for tree in ("tuple", "dict", "nest", "deep"):
        bias_case("tree", tree, cplx)


def const_case(ctree, tree):
    def build(d):
        X = TREES[tree](*three(d))
        C = TREES[ctree](In("c0", (d.k, d.n)), In("c1", (d.m,), c128), In("c2", ()))

        def fn(C, X, s):
            mod = M.Constant(C)
            mod.compile(KEY, shape_of(X))
            return call(mod, mod.get_params(), X, state=(s,))

        def ref(C, X, s):
            o = jnp.ones_like(jax.tree.leaves(X)[0], dtype=f64)
            o = o.reshape(o.shape[0], -1)[:, 0]
            return jax.tree.map(lambda c: o.reshape((-1,) + (1,) * c.ndim) * c[None],
                                C), (s,)
        return Inst(fn, (C, X, In("s", ())), None, ref=ref)
    case(f"Constant.{ctree}.on.{tree}", "b n m k", build, C3,
         funcs=["modules.Constant._get_callable", "modules.Constant.__init__"])


for ctree, tree in (("bare", "bare"), ("nest", "bare"), ("bare", "deep"),
                    ("deep", "dict"), ("tuple", "nest")):
    const_case(ctree, tree)


# ------------------------------------------------------ reshape / flatten
def flat(x, ix, dims):
    """row-major position of ix in dims"""
    p = ZERO
    for i, d in zip(ix, dims):
        p = p * D(d) + i
    return p


def unflat(p, dims):
    out = []
    for d in reversed(dims[1:]):
        out.append(T.mod(p, D(d)))
        p = T.floordiv(p, D(d))
    return [p] + out[::-1]


def reshape_case(name, tree, shapes, targets, outs, cls="Reshape"):
    """shapes/targets/outs: per array, functions of the dims"""
    def build(d):
        sh = [f(d) for f in shapes]
        arrs = [In(f"X{k}", (d.b,) + s, c128 if k == 1 else f64)
                for k, s in enumerate(sh)] + [None] * (3 - len(sh))
        data = TREES[tree](*arrs)
        tg = [f(d) for f in targets] + [None] * 3

        def fn(data, s):
            if cls == "Flatten":
                mod = M.Flatten()
                mod.compile(KEY, shape_of(data))
            elif targets:
                mod = M.Reshape(TREES[tree](*tg[:3]))
            else:
                mod = M.Reshape(None)
            return call(mod, (), data, state=(s,))

        def spec(data, s):
            def leaf(X, ish, osh):
                def el(b, *ix):
                    if not ish:
                        return X[b]
                    return X[(b,) + tuple(unflat(flat(X, ix, osh), ish))]
                return SArr((X.shape[0],) + tuple(D(o) for o in osh), X.kind, el)
            names = [f"X{k}" for k in range(len(sh))]
            fl, td = jax.tree.flatten(data, is_leaf=lambda x: isinstance(x, SArr))
            byname = {}
            ref = TREES[tree](*(list(range(len(sh))) + [None] * (3 - len(sh))))
            order = jax.tree.leaves(ref)
            res = [leaf(X, sh[k], outs[k](d)) for X, k in zip(fl, order)]
            return jax.tree.unflatten(td, res), (s,)
        return Inst(fn, (data, In("s", ())), spec)
    case(f"{cls}.{name}", "b n m k", build, C3,
         funcs=["modules.Reshape._get_callable", "modules.Flatten.compile"])


L = [lambda d: (d.n, d.m), lambda d: (d.k,), lambda d: (d.n, d.m, d.k)]
reshape_case("none", "bare", L[:1], [], L[:1])
reshape_case("none.tree", "deep", L, [], L)
reshape_case("merge", "bare", L[2:], [lambda d: (d.n, -1)],
             [lambda d: (d.n, d.m * d.k)])
reshape_case("merge2", "bare", L[2:], [lambda d: (-1, d.k)],
             [lambda d: (d.n * d.m, d.k)])
reshape_case("split", "bare", [lambda d: (d.n * d.m,)], [lambda d: (d.n, d.m)],
             [lambda d: (d.n, d.m)])
reshape_case("tuple", "tuple", L[:2], [lambda d: (-1,), lambda d: (1, d.k)],
             [lambda d: (d.n * d.m,), lambda d: (1, d.k)])
reshape_case("deep", "deep", L, [lambda d: (-1,), lambda d: (d.k, 1),
                                 lambda d: (d.n, -1)],
             [lambda d: (d.n * d.m,), lambda d: (d.k, 1),
              lambda d: (d.n, d.m * d.k)])
FL = [lambda d: (d.n * d.m,), lambda d: (d.k,), lambda d: (d.n * d.m * d.k,)]
reshape_case("bare2", "bare", L[:1], [], FL[:1], cls="Flatten")
reshape_case("bare3", "bare", L[2:], [], FL[2:], cls="Flatten")
reshape_case("tuple", "tuple", L[:2], [], FL[:2], cls="Flatten")
reshape_case("dict", "dict", L[:2], [], FL[:2], cls="Flatten")
reshape_case("deep", "deep", L, [], FL, cls="Flatten")
reshape_case("nest", "nest", L, [], FL, cls="Flatten")


# ------------------------------------- leaf concatenation, tree selection
def concat_case(name, tree, axis, paths, order, shapes, sep=None):
    def build(d):
        sh = [f(d) for f in shapes]
        arrs = [In(f"X{k}", (d.b,) + s) for k, s in enumerate(sh)]
        arrs += [None] * (3 - len(arrs))
        data = TREES[tree](*arrs)

        def fn(data, s):
            mod = M.ConcatenateLeaves(axis=axis, path_order=paths,
                                      **({"separator": sep} if sep else {}))
            return call(mod, (), data, state=(s,))

        def ref(data, s):
            ls = jax.tree.leaves(data)
            ls = [ls[i] for i in order]
            if axis is None:
                return jnp.concatenate(
                    [l.reshape(l.shape[0], -1) for l in ls], axis=1), (s,)
            ax = axis if axis < 0 else axis + 1
            return jnp.concatenate(ls, axis=ax), (s,)
        return Inst(fn, (data, In("s", ())), None, ref=ref)
    case(f"ConcatenateLeaves.{name}", "b n m k", build, C3,
         funcs=["modules.ConcatenateLeaves._get_callable"])


V = [lambda d: (d.n,), lambda d: (d.m,), lambda d: (d.k,)]
concat_case("vec", "tuple", 0, None, [0, 1], V[:2])
concat_case("vec3", "deep", 0, None, [0, 1, 2], V)
concat_case("vec.order", "deep", 0, ["q.z", "a", "q.b.0"], [2, 0, 1], V)
concat_case("vec.order.sep", "deep", 0, ["q:z", "a", "q:b:0"], [2, 0, 1], V,
            sep=":")
concat_case("repeat", "tuple", 0, ["1", "0", "1"], [1, 0, 1], V[:2])
concat_case("flat", "nest", None, None, [0, 1, 2], L)
concat_case("flat.order", "nest", None, ("1.1", "0", "1.0"), [2, 0, 1], L)
concat_case("mat0", "tuple", 0, None, [0, 1],
            [lambda d: (d.n, d.m), lambda d: (d.k, d.m)])
concat_case("mat1", "dict", 1, None, [0, 1],
            [lambda d: (d.n, d.m), lambda d: (d.n, d.k)])


def tree_case(name, tree, mk, sel):
    def build(d):
        data = TREES[tree](*three(d))

        def fn(data, s):
            return call(mk(), (), data, state=(s,))

        def spec(data, s):
            return sel(data), (s,)
        return Inst(fn, (data, In("s", ())), spec)
    case(name, "b n m k", build, C3, seeds=1,
         funcs=["modules.TreeKey._get_callable", "modules.TreeFlatten._get_callable",
                "modules.Comment._get_callable"])


isS = dict(is_leaf=lambda x: isinstance(x, SArr))
for tr in ("bare", "dict", "deep"):
    tree_case(f"TreeKey.none.{tr}", tr, lambda: M.TreeKey(), lambda x: x)
    tree_case(f"Comment.{tr}", tr, lambda: M.Comment("hi"), lambda x: x)
    tree_case(f"TreeFlatten.{tr}", tr, lambda: M.TreeFlatten(),
              lambda x: jax.tree.leaves(x, **isS))
tree_case("TreeKey.one", "deep", lambda: M.TreeKey("a"), lambda x: x["a"])
tree_case("TreeKey.deep", "deep", lambda: M.TreeKey("q.b.0"),
          lambda x: x["q"]["b"][0])
tree_case("TreeKey.subtree", "deep", lambda: M.TreeKey("q.b"),
          lambda x: x["q"]["b"])
tree_case("TreeKey.dict", "deep",
          lambda: M.TreeKey({"u": "q.z", "v": ["a", "q"]}),
          lambda x: {"u": x["q"]["z"], "v": [x["a"], x["q"]]})
tree_case("TreeKey.sep", "deep", lambda: M.TreeKey(("q/z", "a"), separator="/"),
          lambda x: (x["q"]["z"], x["a"]))
tree_case("TreeKey.index", "nest", lambda: M.TreeKey(["1.1", "0"]),
          lambda x: [x[1][1], x[0]])


# ------------------------------------------------------------------ prelu
def prelu_case(single, tree):
    def build(d):
        X = TREES[tree](*three(d))
        A = (In("a", (1,)),) if single else TREES[tree](
            In("a0", (d.n, d.m)), In("a1", (d.k,)), In("a2", ()))

        def fn(A, X, s):
            mod = M.PReLU(single_parameter=single)
            return call(mod, A, X, state=(s,))

        def spec(A, X, s):
            def leaf(x, a):
                def el(*ix):
                    v = x[ix]
                    aa = a[ZERO] if single else a[ix[1:]]
                    return ite(ge(v, 0), v, aa * v)
                return SArr(x.shape, x.kind, el)
            if single:
                return jax.tree.map(lambda x: leaf(x, A[0]), X, **isS), (s,)
            return jax.tree.map(leaf, X, A, **isS), (s,)
        return Inst(fn, (A, X, In("s", ())), spec)
    case(f"PReLU.{'single' if single else 'multi'}.{tree}", "b n m k", build, C3,
         funcs=["modules.PReLU._get_callable"])


for single in (True, False):
    for tree in ("bare", "dict", "deep"):
        prelu_case(single, tree)


# ------------------------------------------------------------ activations
J, NN = jax.numpy, jax.nn
ACT = dict(
    ReLU=NN.relu, ReLU6=NN.relu6, Sigmoid=NN.sigmoid, Softplus=NN.softplus,
    SparsePlus=NN.sparse_plus, SparseSigmoid=NN.sparse_sigmoid,
    SoftSign=NN.soft_sign, SiLU=NN.silu, Swish=NN.swish,
    LogSigmoid=NN.log_sigmoid, LeakyReLU=NN.leaky_relu,
    HardSigmoid=NN.hard_sigmoid, HardSiLU=NN.hard_silu, HardSwish=NN.hard_swish,
    HardTanh=NN.hard_tanh, ELU=NN.elu, CELU=NN.celu, SELU=NN.selu, GELU=NN.gelu,
    GLU=NN.glu, SquarePlus=NN.squareplus, Mish=NN.mish, Identity=NN.identity,
    Softmax=NN.softmax, LogSoftmax=NN.log_softmax, LogSumExp=NN.logsumexp,
    Standardize=NN.standardize, OneHot=NN.one_hot,
    Abs=J.abs, Absolute=J.absolute, ACos=J.acos, ACosh=J.acosh, AMax=J.amax,
    AMin=J.amin, Angle=J.angle, ArcCos=J.arccos, ArcCosh=J.arccosh,
    ArcSin=J.arcsin, ArcSinh=J.arcsinh, ArcTan=J.arctan, ArcTan2=J.arctan2,
    ArcTanh=J.arctanh, ASin=J.asin, ASinh=J.asinh, ATan=J.atan, ATanh=J.atanh,
    Cbrt=J.cbrt, Ceil=J.ceil, Clip=J.clip, Conj=J.conj, Conjugate=J.conjugate,
    Cos=J.cos, Cosh=J.cosh, Deg2Rad=J.deg2rad, Degrees=J.degrees, Exp=J.exp,
    Exp2=J.exp2, Expm1=J.expm1, FAbs=J.fabs, FloatPower=J.float_power,
    Floor=J.floor, FloorDivide=J.floor_divide, FrExp=J.frexp, I0=J.i0,
    Imag=J.imag, Invert=J.invert, LDExp=J.ldexp, Log=J.log, Log10=J.log10,
    Log1p=J.log1p, Log2=J.log2, NaNToNum=J.nan_to_num, NanToNum=J.nan_to_num,
    NextAfter=J.nextafter, Packbits=J.packbits, Piecewise=J.piecewise,
    Positive=J.positive, Pow=J.pow, Power=J.power, Rad2Deg=J.rad2deg,
    Radians=J.radians, Real=J.real, Reciprocal=J.reciprocal, RInt=J.rint,
    Round=J.round, Sign=J.sign, Signbit=J.signbit, Sin=J.sin, Sinc=J.sinc,
    Sinh=J.sinh, Sqrt=J.sqrt, Square=J.square, Tan=J.tan, Tanh=J.tanh,
    Trunc=J.trunc, Unpackbits=J.unpackbits)
# (args, kwargs) variants besides none
ARGS = dict(
    LeakyReLU=[((0.3,), {}), ((), dict(negative_slope=0.7))],
    ELU=[((1.5,), {})], CELU=[((), dict(alpha=2.0))],
    GELU=[((), dict(approximate=False)), ((True,), {})],
    GLU=[((), dict(axis=-1))], SquarePlus=[((2.0,), {})],
    Softmax=[((-1,), {}), ((), dict(axis=1))], LogSoftmax=[((), dict(axis=1))],
    LogSumExp=[((), dict(axis=-1)), ((1,), {}), ((), dict(axis=1, keepdims=True))],
    Standardize=[((), dict(axis=-1)), ((), dict(axis=-1, epsilon=0.1))],
    OneHot=[((5,), {})], AMax=[((1,), {}), ((), dict(axis=-1, keepdims=True))],
    AMin=[((1,), {})], ArcTan2=[((1.0,), {}), ((-2.5,), {})],
    Clip=[((-0.5, 0.5), {}), ((), dict(max=0.2))], FloatPower=[((2.0,), {})],
    FloorDivide=[((2.0,), {})], LDExp=[((3,), {})], NextAfter=[((1.0,), {})],
    Pow=[((3,), {}), ((2.0,), {})], Power=[((3,), {})],
    Round=[((), {}), ((), dict(decimals=2))], Angle=[((), dict(deg=True))],
    NanToNum=[((), dict(nan=1.0))], NaNToNum=[((), dict(nan=1.0))])
NEEDARGS = {"OneHot", "ArcTan2", "FloatPower", "FloorDivide", "LDExp",
            "NextAfter", "Pow", "Power"}
INTS = {"OneHot", "Invert", "Packbits", "Unpackbits"}
SKIP = {"Piecewise"}


def act_case(nm, f, args, kw, tag, cplx=False):
    def build(d):
        dt = {"OneHot": i64, "Invert": i64, "Packbits": onp.uint8,
              "Unpackbits": onp.uint8}.get(nm, c128 if cplx else f64)
        n = 2 * d.n if nm == "GLU" else d.n
        data = {"u": In("X0", (d.b, d.m, n), dt), "v": [In("X1", (d.b, n), dt)]}

        def fn(data, s):
            mod = getattr(M, nm)(*args, **kw)
            return call(mod, (), data, state=(s,))

        def ref(data, s):
            return jax.tree.map(lambda x: f(x, *args, **kw), data), (s,)
        return Inst(fn, (data, In("s", ())), None, ref=ref)
    case(f"{nm}{tag}{'.complex' if cplx else ''}", "b n m", build,
         [dict(b=2, n=3, m=2)], seeds=1,
         funcs=[f"modules.{nm}.func", "modules.ActivationBase._get_callable"])


for nm, f in ACT.items():
    if nm in SKIP or not hasattr(M, nm):
        continue
    if nm not in NEEDARGS:
        act_case(nm, f, (), {}, "")
        if nm in ("Conj", "Conjugate", "Real", "Imag", "Abs", "Square", "Exp"):
            act_case(nm, f, (), {}, "", cplx=True)
    for k, (a, kw) in enumerate(ARGS.get(nm, [])):
        act_case(nm, f, a, kw, f".args{k}")


def extra(rep):
    """every exported activation class is in the table (none escapes)"""
    import parametricmatrixmodels.modules._autogenerated_activationfuncs as A
    from parametricmatrixmodels.modules.activationbase import ActivationBase
    names = {n for n, c in vars(A).items() if isinstance(c, type)
             and issubclass(c, ActivationBase) and c is not ActivationBase}
    new = sorted(names - set(ACT))
    if new:
        rep.notes.append(f"activation classes without a contract: {new}")


if __name__ == "__main__":
    main("M05", cases, extra)
