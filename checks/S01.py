"""S01: saving and loading restores the same function."""
from .common import *
from . import M01
from parametricmatrixmodels import modules as M

cases = []


def same_py(a, b):
    """equality of hyperparameter values (symbolic sizes included)"""
    if isinstance(a, dict) or isinstance(b, dict):
        return isinstance(a, dict) and isinstance(b, dict) and \
            set(a) == set(b) and all(same_py(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(
            same_py(x, y) for x, y in zip(a, b))
    if isinstance(a, pmm.modules.BaseModule):
        return type(a) is type(b)
    if isinstance(a, jax.core.Tracer) or isinstance(b, jax.core.Tracer):
        return type(a) is type(b) and a.shape == b.shape and a.dtype == b.dtype
    if hasattr(a, "dtype") and jax.dtypes.issubdtype(a.dtype, jax.dtypes.prng_key):
        return True
    if hasattr(a, "shape") or hasattr(b, "shape"):
        return tree_same(a, b)
    return bool(a == b) and (type(a) is type(b) or not isinstance(a, (bool, str, float)))


SKIP = ("rng", "_optimizer_state")


def trip_case(name, mk, shapes, dims, conc, cons, dtype, gen):
    def build(d):
        sh = shapes(d)
        leaves, td = jax.tree.flatten(sh, is_leaf=M01.leafshape)
        data = jax.tree.unflatten(td, [
            In(f"X{k}", (d.b,) + tuple(s), dtype, gen=gen)
            for k, s in enumerate(leaves)])
        rec = {}
        sym_ = not isinstance(d.b, int)

        def fn(data, key):
            with Branches() as br:
                m = mk(d)
                m.compile(key, sh)
                outs, py = [], []
                flags = [m.trainable]
                if jax.tree.leaves(m.get_params()):
                    flags.append(not m.trainable)
                for flag in flags:
                    m.trainable = flag
                    p0, hp0 = m.get_params(), dict(m.get_hyperparameters())
                    name0 = m.name
                    ann0 = m.get_output_shape(sh)
                    nst = isinstance(m, pmm.Model)
                    st0 = m.get_state()
                    y0, _ = m._get_callable()(p0, data, False, st0, key)
                    stored = m.serialize()
                    # later changes of the original must not reach the copy
                    m.set_params(jax.tree.map(lambda p: 2 * p, p0))
                    m.trainable = not flag
                    n = type(m)()
                    n.deserialize(stored)
                    m.set_params(p0)
                    p1 = n.get_params()
                    y1, st1 = n._get_callable()(p1, data, False, n.get_state(), key)
                    n2 = n.copy()
                    p2 = n2.get_params()
                    outs.append(((p0, p0, y0), (p1, p2, y1)))
                    hp1 = n.get_hyperparameters()
                    py += [("ready", n.is_ready()),
                           ("announced", n.get_output_shape(sh) == ann0),
                           ("state", n.get_state() == st0),
                           ("name", n.name == name0),
                           ("freeze-flag", n.trainable == flag and
                            n2.trainable == flag),
                           ("hyperparameters", set(hp0) == set(hp1))]
                    py += [(f"hyperparameter {k}", same_py(v, hp1[k]))
                           for k, v in hp0.items() if k in hp1 and k not in SKIP]
            rec["py"] = py
            if not sym_:
                for what, ok in py:
                    assert ok, f"{what} differs after the round trip"
                for a, b in outs:
                    assert jax.tree.structure(a) == jax.tree.structure(b), \
                        "structure of parameters or outputs differs"
                    assert tree_same(a, b), "parameters or outputs differ"
            conds = [jnp.asarray(c) for c in br.conds]
            return outs, conds

        def goals(out, data, key):
            outs, conds = out
            isS = dict(is_leaf=lambda x: isinstance(x, SArr))
            gs = [Goal(f"python-values: {w}", "true", lambda ok=ok: T.bconst(ok))
                  for w, ok in rec["py"]]
            for r, (a, b) in enumerate(outs):
                al, at = jax.tree.flatten(a, **isS)
                bl, bt = jax.tree.flatten(b, **isS)
                gs.append(Goal(f"structure{r}", "true",
                               lambda ok=at == bt: T.bconst(ok)))
                if at == bt:
                    gs += [Goal(f"restored{r}.{k}", "eq", x, y)
                           for k, (x, y) in enumerate(zip(al, bl))]
            gs += [Goal(f"accepted{k}", "true", lambda c=c: c[()])
                   for k, c in enumerate(conds)]
            return gs
        return Inst(fn, (data, In("key", (2,), onp.uint32, gen="key")), None, goals)
    cases.append(Case(name, dims, build, conc, cons, seeds=1, rtol=1e-6, funcs=[
        f"modules.{name.split('.')[0]}.{m}" for m in
        ("serialize", "deserialize", "get_hyperparameters", "set_hyperparameters",
         "get_params", "set_params", "copy")]))


for s in M01.SPECS:
    trip_case(*s)

# non-default settings of every stored option
C3 = M01.C3


def opt(name, mk, shapes, dims="b n m k", conc=C3, cons=(), dtype=f64, gen="normal"):
    trip_case("options." + name, mk, shapes, dims, conc, cons, dtype, gen)


for cls in (M.AffineHermitianMatrix, M.LowRankAffineHermitianMatrix):
    kw = dict(matrix_rank=1) if cls is M.LowRankAffineHermitianMatrix else {}
    opt(cls.__name__, lambda d, cls=cls, kw=kw: cls(
        matrix_size=d.n, smoothing=0.25, init_magnitude=0.5, bias_term=False, **kw),
        lambda d: (d.k,), cons=["k>=2"], conc=[dict(b=2, n=2, m=1, k=3)])
opt("AffineTensor", lambda d: M.AffineTensor(
    tensor_shape=(d.n, d.m), init_magnitude=0.5, bias_term=False, real=False),
    lambda d: (d.k,))
opt("Bias", lambda d: M.Bias(init_magnitude=0.5, real=False), lambda d: {"u": (d.k,)})
opt("Bias.scalar", lambda d: M.Bias(init_magnitude=0.5, scalar=True, trainable=False),
    lambda d: (d.k,))
opt("Comment", lambda d: M.Comment("a remark"), lambda d: (d.k,))
opt("ConcatenateLeaves", lambda d: M.ConcatenateLeaves(
    axis=1, path_order=["u/y", "u/x"], separator="/"),
    lambda d: {"u": {"x": (d.n, d.m), "y": (d.n, d.k)}})
opt("Constant", lambda d: M.Constant(
    trainable=True, shape={"u": (d.k, d.n), "v": [(d.m,)]}, init_magnitude=0.5,
    real=False, name="other"), lambda d: (d.k,))
opt("Constant.tree", lambda d: M.Constant(
    trainable=True, shape={"u": (d.k, d.n), "v": [(d.m,)]},
    real={"u": True, "v": [False]}), lambda d: (d.k,))
for cls in (M.ExpectationValueSum, M.TransitionAmplitudeSum):
    opt(cls.__name__, lambda d, cls=cls: cls(
        num_observables=2, output_size=d.m, init_magnitude=0.5, centered=False),
        lambda d: (d.n, d.k), dtype=c128)
opt("Einsum", lambda d: M.Einsum("ij,jl->li", trainable=True, real=False,
                                 dim_map={"i": d.k}, init_magnitude=0.5),
    lambda d: (d.m, d.n))
opt("Einsum.fixed", lambda d: M.Einsum("ij,j->i", params=jnp.arange(6.).reshape(2, 3)),
    lambda d: (3,))
opt("Einsum.tuple", lambda d: M.Einsum(("ij", {"a": "j", "b": "l"}, "il"), trainable=True,
                                       dim_map={"i": d.k}),
    lambda d: {"a": (d.m,), "b": (d.n,)})
opt("MatMul.sep", lambda d: M.MatMul(path_order=["u/y", "u/x"], separator="/"),
    lambda d: {"u": {"x": (d.m, d.k), "y": (d.n, d.m)}})
opt("MatMul.sep.train", lambda d: M.MatMul(
    path_order=["u/y", "//", "u/x"], trainable=True, separator="/",
    init_magnitude=0.5, real=False),
    lambda d: {"u": {"x": (d.m, d.k), "y": (d.n, d.m)}})
opt("MatMul.fixed", lambda d: M.MatMul(params=jnp.arange(6.).reshape(2, 3)),
    lambda d: (3,))
opt("PReLU", lambda d: M.PReLU(single_parameter=False, init_magnitude=0.5),
    lambda d: {"y": (d.n, d.m), "x": (d.k,)})
opt("TreeKey", lambda d: M.TreeKey({"u": "q/z", "v": ["a", "q"]}, separator="/"),
    M01.TREES["deep"])
for nm, mk in (("LeakyReLU", lambda: M.LeakyReLU(0.3)),
               ("LeakyReLU.kw", lambda: M.LeakyReLU(negative_slope=0.3)),
               ("ELU", lambda: M.ELU(alpha=1.5)), ("CELU", lambda: M.CELU(1.5)),
               ("GELU", lambda: M.GELU(approximate=False)),
               ("HardTanh", lambda: M.HardTanh()),
               ("Softmax", lambda: M.Softmax(axis=1)),
               ("Standardize", lambda: M.Standardize(axis=1, epsilon=1e-3)),
               ("LogSoftmax", lambda: M.LogSoftmax(axis=1)),
               ("Power", lambda: M.Power(3)), ("FloatPower", lambda: M.FloatPower(2.0)),
               ("NanToNum", lambda: M.NanToNum(copy=True, nan=1.5))):
    if hasattr(M, nm.split(".")[0]):
        opt(nm, lambda d, mk=mk: mk(), lambda d: (d.n, d.m))
opt("LinearNN", lambda d: M.LinearNN(d.k, bias=False, activation=M.LeakyReLU(0.3),
                                     init_magnitude=0.5, real=False),
    lambda d: (d.n,), dtype=c128)
opt("AffineEigenvaluePMM", lambda d: M.AffineEigenvaluePMM(
    matrix_size=d.n, num_eig=1, which="LM", smoothing=0.5, init_magnitude=0.5,
    bias_term=False), lambda d: (d.k,), cons=["k>=2"], conc=[dict(b=2, n=2, m=1, k=3)])
opt("AffineObservablePMM", lambda d: M.AffineObservablePMM(
    matrix_size=d.n, num_eig=1, which="LA", smoothing=0.5, affine_bias_matrix=False,
    num_secondaries=2, output_size=d.m, centered=False, bias_term=False,
    use_expectation_values=True, init_magnitude=0.5), lambda d: (d.k,), cons=["k>=2"],
    conc=[dict(b=2, n=2, m=1, k=3)])

# models: containers of every kind, nesting, frozen parts
SEQ = pmm.SequentialModel
NON = pmm.NonSequentialModel


def _frz(m):
    m.trainable = False
    return m


def models(d):
    def core_(k):
        return [M.AffineHermitianMatrix(matrix_size=d.n), M.Eigenvalues(num_eig=1),
                M.Bias()][:k]
    return {
        "list": lambda: SEQ(core_(3)),
        "tuple": lambda: SEQ(tuple(core_(3))),
        "dict": lambda: SEQ({"b": core_(3)[1], "c": core_(3)[2], "a": core_(3)[0]}),
        "single": lambda: SEQ(M.Bias()),
        "nested.list": lambda: SEQ([[core_(3)[0], core_(3)[1]], [[core_(3)[2]], M.Tanh()]]),
        "ragged": lambda: SEQ([core_(2), M.Bias(), [M.Tanh(), M.Bias(), M.ReLU()]]),
        "mixed": lambda: SEQ([{"x": core_(1)[0], "y": (M.Eigenvalues(num_eig=1),)},
                              M.Bias()]),
        "frozen": lambda: SEQ([_frz(core_(1)[0]), M.Eigenvalues(num_eig=1), M.Bias()]),
        "submodel": lambda: SEQ([SEQ({"h": core_(1)[0], "z": M.Eigenvalues(num_eig=1)}),
                                 M.Bias()]),
        "subsub.frozen": lambda: SEQ([SEQ([SEQ([_frz(M.Bias()), M.Tanh()]), M.Bias()]),
                                      _frz(SEQ([M.Bias()]))]),
        "graph": lambda: NON({"h": core_(1)[0], "e": M.Eigenvalues(num_eig=1),
                              "b": _frz(M.Bias())},
                             {"input": ["h", "b"], "h": "e", "e": "output.e",
                              "b": "output.b"}),
        "graph.sep": lambda: NON({"u.v": M.Bias(), "w": [M.Tanh(), M.Bias()]},
                                 {"input": ["u.v", "w/0"], "w/0": "w/1",
                                  "u.v": "output/p", "w/1": "output/q"}, separator="/"),
        "graph.sub": lambda: NON({"m": SEQ([M.Bias(), M.Tanh()]), "c": M.ConcatenateLeaves()},
                                 {"input": ["m", "c.x"], "m": "c.y", "c": "output"}),
        "graph.unused": lambda: NON({"a": M.Bias(), "u": M.AffineHermitianMatrix(
            matrix_size=2), "v": M.LowRankAffineHermitianMatrix(matrix_size=2, matrix_rank=1),
            "w": SEQ([M.Bias()])}, {"input": "a", "a": "output"}),
        "graph.list": lambda: NON([M.Bias(), M.Tanh(), M.ConcatenateLeaves()],
                                  {"input": ["0", "1"], "0": "2.x", "1": "2.y",
                                   "2": "output"}),
    }


MODELS = list(models(core.NS(dict(n=2))))
for nm in MODELS:
    trip_case(f"model.{nm}", lambda d, nm=nm: models(d)[nm](), lambda d: (d.p,),
              "b p n", [dict(b=2, p=2, n=2)], (), f64, "normal")


class Counter(M.BaseModule):
    """a user module with state, parameters and a hyperparameter"""
    __version__: str = "1.2.3"

    def __init__(self, gain=1.0, table=None):
        self.gain, self.table = gain, table
        self.w, self.count = None, None

    def is_ready(self):
        return self.w is not None

    def compile(self, rng, shape):
        self.w = jax.random.normal(rng, shape)
        self.count = {"n": jnp.zeros(()), "last": [jnp.ones(shape)]}

    def get_output_shape(self, shape):
        return shape

    def _get_callable(self):
        g = self.gain

        def f(params, data, training, state, rng):
            return g * params * data + state["n"], {
                "n": state["n"] + 1, "last": [data[0]]}
        return f

    def get_hyperparameters(self):
        return {"gain": self.gain, "table": self.table}

    def get_params(self):
        return self.w

    def set_params(self, p):
        self.w = p

    def get_state(self):
        return self.count

    def set_state(self, s):
        self.count = s


def _same_model(a, b, X, what, **inp):
    need(b.is_ready() == a.is_ready(), f"{what}: readiness", **inp)
    need(tree_same(a.get_params(), b.get_params(), 0) and all(
        x.dtype == y.dtype for x, y in zip(jax.tree.leaves(a.get_params()),
                                           jax.tree.leaves(b.get_params()))),
        f"{what}: parameters differ", **inp)
    need(tree_same(a.get_state(), b.get_state(), 0), f"{what}: state differs", **inp)
    need(same_py(a.get_trainable_modules(), b.get_trainable_modules()),
         f"{what}: freeze flags differ", want=a.get_trainable_modules(),
         got=b.get_trainable_modules(), **inp)
    need(a.input_shape == b.input_shape and a.output_shape == b.output_shape and
         a.get_output_shape(a.input_shape) == b.get_output_shape(a.input_shape),
         f"{what}: shapes differ", **inp)
    need(a.name == b.name, f"{what}: name differs", **inp)
    need(jax.tree.structure(a.modules) == jax.tree.structure(b.modules) and [
        type(m) for m in jax.tree.leaves(a.modules)] == [
        type(m) for m in jax.tree.leaves(b.modules)], f"{what}: modules differ", **inp)
    need(tree_same(jax.random.key_data(a.get_rng()), jax.random.key_data(b.get_rng())),
         f"{what}: random key differs", **inp)
    for m, n in zip(jax.tree.leaves(a.modules), jax.tree.leaves(b.modules)):
        h, g = m.get_hyperparameters(), n.get_hyperparameters()
        need(set(h) == set(g) and all(same_py(v, g[k]) for k, v in h.items()
                                      if k not in SKIP),
             f"{what}: hyperparameters of {m.name} differ", want=h, got=g, **inp)
    oa, ob = a._optimizer_state, b._optimizer_state
    need((oa is None) == (ob is None) and tree_same(oa, ob, 0),
         f"{what}: optimiser state differs", want=oa, got=ob, **inp)
    need(tree_same(a(X), b(X), 0), f"{what}: outputs differ", want=a(X), got=b(X), **inp)


def _all_models():
    ns = core.NS(dict(n=2))
    out = [(nm, mk) for nm, mk in models(ns).items()]
    out += [("stateful", lambda: SEQ([M.Bias(), Counter(2.5, {"a": [1, 2]}), M.Tanh()])),
            ("stateful.graph", lambda: NON({"c": Counter(0.5), "d": Counter(3.0, (4,))},
                                           {"input": ["c"], "c": "d", "d": "output"})),
            ("stateful.sub", lambda: SEQ([SEQ([Counter(2.0)]), _frz(Counter(0.5))]))]
    return out


def _ready(mk, seed=3):
    m = mk()
    m.compile(jax.random.key(seed), (2,))
    m.set_rng(seed + 17)
    X = jnp.asarray(onp.random.default_rng(seed).normal(size=(3, 2)))
    m(X, update_state=True)
    return m, X


def extras(rep):
    import copy
    import tempfile
    import io
    from pathlib import Path
    for nm, mk in _all_models():
        def files(mk=mk, nm=nm):
            m, X = _ready(mk)
            with tempfile.TemporaryDirectory() as tmp:
                for k, (save, tgt) in enumerate([
                        ("save", f"{tmp}/a"), ("save", f"{tmp}/b.npz"),
                        ("save_compressed", f"{tmp}/c"),
                        ("save_compressed", f"{tmp}/d.npz"),
                        ("save", Path(f"{tmp}/e.npz")),
                        ("save", Path(f"{tmp}/g")),
                        ("save_compressed", Path(f"{tmp}/f.npz"))]):
                    getattr(m, save)(tgt)
                    n = type(m).from_file(tgt)
                    _same_model(m, n, X, f"{save} and from_file", model=nm, file=str(tgt))
                    n2 = mk()
                    n2.load(tgt)
                    _same_model(m, n2, X, f"{save} and load", model=nm, file=str(tgt))
                for save in ("save", "save_compressed"):
                    f = io.BytesIO()
                    getattr(m, save)(f)
                    f.seek(0)
                    _same_model(m, type(m).from_file(f), X, f"{save} to a stream", model=nm)
        native(rep, f"file.{nm}", "restored", files,
               "this model, plain and compressed, by name, path and stream")

        def memory(mk=mk, nm=nm):
            m, X = _ready(mk)
            want = type(m)()
            want.deserialize(m.serialize())
            _same_model(m, want, X, "copy", model=nm)
            data = m.serialize()
            hyper = copy.deepcopy([c.get_hyperparameters() for c in
                                   jax.tree.leaves(m.modules) if isinstance(c, Counter)])
            # change everything that can be changed, then restore
            m.set_params(jax.tree.map(lambda p: 2 * p, m.get_params()))
            m.set_state(jax.tree.map(lambda p: p + 1, m.get_state()))
            m.trainable = not m.trainable
            m.set_rng(99)
            for mod in jax.tree.leaves(m.modules):
                for k, v in mod.get_hyperparameters().items():
                    if isinstance(v, dict) and isinstance(mod, Counter):
                        v["a"].append(7)
            if isinstance(m, NON):
                m.connections["extra"] = "nothing"
            m.modules = jax.tree.map(lambda _: M.Bias(), m.modules)
            for what in ("first", "second"):
                n = type(m)()
                n.deserialize(data)
                _same_model(want, n, X, f"{what} restore after the original changed",
                            model=nm)
                got = [c.get_hyperparameters() for c in jax.tree.leaves(n.modules)
                       if isinstance(c, Counter)]
                need(same_py(hyper, got), "hyperparameters changed with the original",
                     want=hyper, got=got, model=nm)
        native(rep, f"memory.{nm}", "isolated", memory, "this model")

        def trained(mk=mk, nm=nm):
            m, X = _ready(mk)
            if isinstance(m, NON) and nm not in ("graph.sub", "graph.unused"):
                return
            if not any(jax.tree.leaves(m.get_trainable_modules())):
                return
            Y = jax.tree.map(lambda y: y + 1.0, m(X))
            m.train(X, Y, epochs=3, batch_size=2, verbose=False)
            n = m.copy()
            _same_model(m, n, X, "copy of a trained model", model=nm)
            with tempfile.TemporaryDirectory() as tmp:
                m.save(f"{tmp}/a")
                _same_model(m, type(m).from_file(f"{tmp}/a"), X,
                            "file of a trained model", model=nm)
            m.train(X, Y, epochs=2, batch_size=3, verbose=False, resume=True, batch_rng=4)
            n.train(X, Y, epochs=2, batch_size=3, verbose=False, resume=True, batch_rng=4)
            need(tree_same(m.get_params(), n.get_params(), 1e-9),
                 "resuming the copy trains differently", model=nm)
        native(rep, f"trained.{nm}", "restored", trained, "this model, one training run")

    def acts():
        rng = onp.random.default_rng(5)
        X = jnp.asarray(rng.uniform(0.1, 0.9, size=(2, 2, 4)))
        from parametricmatrixmodels.modules.activationbase import ActivationBase
        for nm in sorted(dir(M)):
            cls = getattr(M, nm)
            if not (isinstance(cls, type) and issubclass(cls, ActivationBase)) \
                    or cls is ActivationBase:
                continue
            for args, kw in (((), {}), ((2,), {}), ((), {"axis": 1}),
                             ((), {"axis": 1, "epsilon": 0.5}), ((0.3,), {}),
                             ((2, 0.5), {}), ((), {"keepdims": True, "axis": 1})):
                try:
                    m = cls(*args, **kw)
                    y = m(X)[0]
                except Exception:
                    continue
                n = m.copy()
                need(same_py(n.get_hyperparameters(), m.get_hyperparameters()),
                     f"{nm}: settings differ", args=args, kw=kw,
                     got=n.get_hyperparameters())
                need(tree_same(n(X)[0], y), f"{nm}: output differs", args=args, kw=kw)
    native(rep, "activations", "restored", acts,
           "every activation module, seven settings of arguments each")


def pairwise(opts):
    """few settings that contain every pair of option values"""
    import itertools
    ks = list(opts)
    todo = {((a, i), (b, j)) for a, b in itertools.combinations(ks, 2)
            for i in range(len(opts[a])) for j in range(len(opts[b]))}
    allp = list(itertools.product(*(range(len(opts[k])) for k in ks)))
    cover = lambda t: {((a, i), (b, j)) for (a, i), (b, j) in
                       itertools.combinations(list(zip(ks, t)), 2)}
    out = []
    if len(ks) == 1:
        return [{ks[0]: v} for v in opts[ks[0]]]
    while todo:
        t = max(allp, key=lambda t: len(cover(t) & todo))
        todo -= cover(t)
        out.append({k: opts[k][i] for k, i in zip(ks, t)})
    return out


TF = [True, False]
PAIRS = [
    ("AffineHermitianMatrix", dict(matrix_size=[2, 3], smoothing=[None, 0.25, 0.0], bias_term=TF,
                                   init_magnitude=[1e-2, 0.5]), (2,), f64),
    ("LowRankAffineHermitianMatrix", dict(matrix_size=[2, 3], matrix_rank=[1, 2], smoothing=[None, 0.25],
                                          bias_term=TF, init_magnitude=[1e-2, 0.5]), (2,), f64),
    ("AffineTensor", dict(tensor_shape=[(2,), (2, 3)], bias_term=TF, real=TF, init_magnitude=[1e-2, 0.5]),
     (2,), f64),
    ("Bias", dict(real=TF, scalar=TF, trainable=TF, init_magnitude=[1e-2, 0.5]), (2,), f64),
    ("Constant", dict(trainable=[True], real=TF, shape=[(2,), {"a": (2,), "b": (1, 2)}],
                      init_magnitude=[1e-2, 0.5], name=["Constant", "c"]), (2,), f64),
    ("Eigenvalues", dict(num_eig=[1, 2, None], which=["SA", "LA", "LM", "SM", "EA", "EM", "IA", "IM"]),
     (3, 3), f64),
    ("Eigenvectors", dict(num_eig=[1, 2, None], which=["SA", "LA", "LM", "SM", "EA", "EM", "IA", "IM"]),
     (3, 3), f64),
    ("Eigensystem", dict(num_eig=[1, 2, None], which=["SA", "LA", "LM", "SM", "EA", "EM", "IA", "IM"]),
     (3, 3), f64),
    ("ExpectationValueSum", dict(num_observables=[1, 2], output_size=[1, 2], centered=TF,
                                 init_magnitude=[1e-2, 0.5]), (3, 2), c128),
    ("TransitionAmplitudeSum", dict(num_observables=[1, 2], output_size=[1, 2], centered=TF,
                                    init_magnitude=[1e-2, 0.5]), (3, 2), c128),
    ("PReLU", dict(single_parameter=TF, real=TF, init_magnitude=[0.25, 0.5]), (2, 3), f64),
    ("LinearNN", dict(out_features=[1, 2], bias=TF, real=TF, init_magnitude=[1e-2, 0.5],
                      activation=[None, lambda: M.Tanh()]), (2,), f64),
    ("AffineEigenvaluePMM", dict(matrix_size=[3, 4], num_eig=[1, 2], which=["SA", "LM", "LA"],
                                 smoothing=[None, 0.5], bias_term=TF, init_magnitude=[1e-2, 0.5]), (2,), f64),
    ("AffineObservablePMM", dict(matrix_size=[3, 4], num_eig=[1, 2], which=[None, "SA", "LM"],
                                 smoothing=[None, 0.5], affine_bias_matrix=TF, num_secondaries=[1, 2],
                                 output_size=[1, 2], centered=TF, bias_term=TF, use_expectation_values=TF,
                                 init_magnitude=[1e-2, 0.5]), (2,), f64),
]


def options(rep):
    """every pair of option values: the restored module computes the same, also
    after it is compiled anew"""
    for name, opts, shape, dt in PAIRS:
        cls = getattr(M, name, None)
        if cls is None:
            continue

        def go(cls=cls, opts=opts, shape=shape, dt=dt, name=name):
            rng = onp.random.default_rng(11)
            X = rng.normal(size=(2,) + shape)
            if dt is c128:
                X = X + 1j * rng.normal(size=X.shape)
            if name.startswith("Eigen"):
                X = X + X.swapaxes(-1, -2)
            X = jnp.asarray(X)
            call = lambda m: m._get_callable()(m.get_params(), X, False, m.get_state(), jax.random.key(0))[0]
            for kw in pairwise(opts):
                kw = {k: v() if callable(v) else v for k, v in kw.items()}
                m = cls(**kw)
                m.compile(jax.random.key(1), shape)
                y = call(m)
                n = cls()
                n.deserialize(m.serialize())
                k = m.copy()
                for w, q in (("restored", n), ("copied", k)):
                    need(tree_same(call(q), y), f"{name} {w}: output differs", options=kw, X=X,
                         got=call(q), expected=y)
                    need(q.trainable == m.trainable and q.name == m.name, f"{name} {w}: freeze flag or name",
                         options=kw)
                if not isinstance(m, pmm.Model):
                    continue
                f = cls(**kw)
                for q in (f, n, k):
                    q.reset()
                    q.compile(jax.random.key(2), shape)
                for w, q in (("restored", n), ("copied", k)):
                    need(tree_same(call(q), call(f)), f"{name} {w} and compiled anew: not the model of the "
                         "same options", options=kw, X=X, got=call(q), expected=call(f))
        native(rep, f"pairs.{name}", "restored", go, "every pair of option values")


def types(rep):
    """with the run-time type checks on"""
    typed(rep, "annotations", "accepted", """
import io, pathlib, tempfile
from parametricmatrixmodels import SequentialModel, modules as M
from parametricmatrixmodels.preprocessing import StandardScaler, MinMaxScaler
jax.config.update('jax_enable_x64', True)
m = SequentialModel([M.LinearNN(2)]); m.compile(0, (3,))
X = jnp.arange(6.).reshape(2, 3)
s = StandardScaler(); s.fit(X + X ** 2)
with tempfile.TemporaryDirectory() as tmp:
    for k, mk in enumerate((io.BytesIO, lambda: open(tmp + '/f', 'w+b'), lambda: tmp + '/g',
                            lambda: pathlib.Path(tmp) / 'h', lambda: tmp + '/i.npz')):
        for save in ('save', 'save_compressed'):
            f = mk(); getattr(m, save)(f)
            if hasattr(f, 'seek'): f.seek(0)
            assert bool((SequentialModel.from_file(f)(X) == m(X)).all())
        if k == 3: continue
        f = mk(); s.save(f)
        if hasattr(f, 'seek'): f.seek(0)
        assert bool((StandardScaler.load(f).transform(X) == s.transform(X)).all())
""", "five kinds of file")


if __name__ == "__main__":
    main("S01", cases, [extras, options, types])
