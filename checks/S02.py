"""S02: edits of a model are isolated and never leave stale results."""
import itertools
from .common import *
from .editspec import prove_edits
from parametricmatrixmodels import modules as M

SEQ, NON = pmm.SequentialModel, pmm.NonSequentialModel
cases = []


# ------------------------------------------------------- reference containers
def items_of(mods):
    return list(mods.items()) if isinstance(mods, dict) else list(mods)


def mk_container(kind, mods):
    if kind == "dict":
        return {k: m for k, m in zip("pqrst", mods)}
    return list(mods) if kind == "list" else tuple(mods)


def kindof(mods):
    return "dict" if isinstance(mods, dict) else type(mods).__name__


def reference(kind, items, op):
    """the intended result of an edit: (items, returned module or None)"""
    out = list(items)
    name = op[0]
    if name in ("append", "prepend", "insert"):
        m, key = op[-2], op[-1]
        pos = len(out) if name == "append" else 0 if name == "prepend" else op[1]
        out.insert(pos, (key, m) if kind == "dict" else m)
        return out, None
    if name == "pop":
        got = out.pop(op[1])
        return out, got[1] if kind == "dict" else got
    if name == "popkey":
        if kind == "dict":
            k = [k for k, _ in out].index(op[1])
            return out[:k] + out[k + 1:], out[k][1]
        got = out.pop(op[1])
        return out, got
    if name == "set":
        if kind == "dict":
            k = [k for k, _ in out].index(op[1]) if op[1] in [k for k, _ in out] else None
            if k is None:
                return out + [(op[1], op[2])], None
            out[k] = (op[1], op[2])
        else:
            out[op[1]] = op[2]
        return out, None
    if name == "setslice":
        out[op[1]] = op[2]
        return out, None
    if name == "setall":
        return list(op[1]), None
    raise ValueError(name)


def perform(model, op):
    name = op[0]
    if name in ("append", "prepend"):
        f = getattr(model, name + "_module")
        return f(op[1], key=op[2]) if op[2] is not None else f(op[1])
    if name == "insert":
        return model.insert_module(op[1], op[2], key=op[3]) if op[3] is not None \
            else model.insert_module(op[1], op[2])
    if name == "pop":
        return model.pop_module_by_index(op[1])
    if name == "popkey":
        return model.pop_module_by_key(op[1])
    if name in ("set", "setslice"):
        model[op[1]] = op[2]
        return None
    if name == "setall":
        model[None] = op[1]
        return None


def ops_for(kind, n, fresh):
    """every edit of a container of n modules"""
    key = (lambda k: f"new{k}") if kind == "dict" else (lambda k: None)
    out = [("append", fresh, key(0)), ("prepend", fresh, key(1))]
    out += [("insert", i, fresh, key(2)) for i in range(-n - 1, n + 2)]
    out += [("pop", i) for i in range(-n, n)]
    if kind == "dict":
        out += [("popkey", k) for k in "pqrst"[:n]]
        out += [("set", k, fresh) for k in list("pqrst"[:n]) + ["zz"]]
    else:
        out += [("popkey", i) for i in range(-n, n)]
        out += [("set", i, fresh) for i in range(-n, n)]
        if kind == "list":
            out += [("setslice", slice(a, b), [fresh]) for a in range(n + 1)
                    for b in range(a, n + 1)]
    return out


def same_items(a, b):
    return len(a) == len(b) and all(
        (x[0] == y[0] and x[1] is y[1]) if isinstance(x, tuple) else x is y
        for x, y in zip(a, b))


def edits(kind, cls):
    def run():
        for n in range(0, 4):
            base = [M.Comment(str(k)) for k in range(n)]
            for op in ops_for(kind, n, M.Comment("fresh")):
                one(kind, cls, base, [op])
            if n == 2:
                for a in ops_for(kind, n, M.Comment("first")):
                    want, _ = reference(kind, items_of(mk_container(kind, base)), a)
                    for b in ops_for(kind, len(want), M.Comment("second")):
                        if kind == "dict":
                            ks = [k for k, _ in want]
                            if b[0] == "popkey" and b[1] not in ks:
                                continue
                            if b[0] in ("append", "prepend", "insert") and b[-1] in ks:
                                b = b[:-1] + (b[-1] + "'",)
                        one(kind, cls, base, [a, b])
    return run


def one(kind, cls, base, ops):
    cont = mk_container(kind, base)
    model = cls(cont) if cls is SEQ else cls(cont, {"input": "output"})
    want = items_of(model.modules)
    kd = kindof(model.modules)
    for op in ops:
        inp = dict(container=kind, modules=len(base), edits=[str(o[:2]) for o in ops])
        want, ret = reference(kd, want, op)
        got = perform(model, op)
        if ret is not None:
            need(got is ret, "another module was taken out", **inp)
        need(kindof(model.modules) == kd, "the kind of container changed", **inp)
        need(same_items(items_of(model.modules), want),
             "the modules are not those expected", got=items_of(model.modules),
             want=want, **inp)


# ---------------------------------------------------------------- isolation
def _nest():
    return {"l": [M.Comment("0"), [M.Comment("1"), M.Comment("2")]],
            "d": {"x": M.Comment("3"), "y": M.Comment("4")}}


def skeleton(t):
    if isinstance(t, dict):
        return {k: skeleton(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return [type(t).__name__] + [skeleton(v) for v in t]
    return id(t)


def isolation():
    mk = {"list": lambda: [M.Comment("0"), M.Comment("1"), M.Comment("2")],
          "tuple": lambda: (M.Comment("0"), M.Comment("1"), M.Comment("2")),
          "dict": lambda: {"p": M.Comment("0"), "q": M.Comment("1"), "r": M.Comment("2")},
          "empty": lambda: [], "emptydict": lambda: {}, "nested": _nest,
          "nestedlist": lambda: [_nest()["l"], _nest()["d"]]}
    for kind, m in mk.items():
        cont = m()
        a = SEQ(cont)
        twins = {"built from the same container": lambda: SEQ(cont),
                 "joined": lambda: a + M.Comment("joined"),
                 "copied": lambda: a.copy(), "deep-copied": lambda: a.deepcopy(),
                 "set from its modules": lambda: _setall(SEQ(), a.modules)}
        for how, tw in twins.items():
            b = tw()
            n = len(b.modules)
            kd = kindof(b.modules)
            if how == "joined":
                got, src = items_of(b.modules), items_of(a.modules)
                need(len(got) == len(src) + 1 and skeleton(got[:-1]) == skeleton(src),
                     "joining does not append to the modules", kind=kind)
            todo = [("append", M.Comment("x"), "kx" if kd == "dict" else None),
                    ("prepend", M.Comment("y"), "ky" if kd == "dict" else None)]
            if len(a.modules):
                todo += [("pop", 0)]
                k0 = next(iter(a.modules)) if kd == "dict" else 0
                todo += [("set", k0, M.Comment("z"))]
                todo += [("popkey", k0)]
            if kind.startswith("nested"):
                p = ("l", 1, 0) if kind == "nested" else (0, 1, 0)
                q = ("d", "x") if kind == "nested" else (1, "x")
                todo += [("set", p, M.Comment("deep")), ("set", q, M.Comment("deeper"))]
            for which in (0, 1):
                for op in todo:
                    a1, b1 = SEQ(m()), None
                    cont1 = a1.modules
                    if how == "built from the same container":
                        cont1 = m()
                        a1, b1 = SEQ(cont1), SEQ(cont1)
                    elif how == "joined":
                        b1 = a1 + M.Comment("joined")
                    elif how == "set from its modules":
                        b1 = _setall(SEQ(), a1.modules)
                    else:
                        b1 = getattr(a1, "copy" if how == "copied" else "deepcopy")()
                    ed, other = (b1, a1) if which else (a1, b1)
                    if op[0] in ("pop", "set", "popkey") and not len(ed.modules):
                        continue
                    before = skeleton(other.modules)
                    perform(ed, op)
                    need(skeleton(other.modules) == before,
                         f"editing one model changed a model {how}", container=kind,
                         edit=str(op[:2]), edited="original" if not which else "other")

    # a copy shares nothing
    m = SEQ([M.Bias(), M.Bias()])
    m.compile(0, (2,))
    X = jnp.ones((2, 2))
    y0, p0 = m(X), m.get_params()
    c = m.copy()
    c.set_params(jax.tree.map(lambda p: p + 1, c.get_params()))
    c[0].trainable = False
    c[0].init_magnitude = 5.0
    need(tree_same(m(X), y0, 0) and tree_same(m.get_params(), p0, 0) and
         m[0].trainable and m[0].init_magnitude != 5.0,
         "changing a copy changed the original")


def _setall(m, mods):
    m[None] = mods
    return m


# -------------------------------------------------------------- stale caches
X1 = onp.random.default_rng(0).normal(size=(3, 2))


def evals(m, X):
    """every evaluation of the model"""
    X = jnp.asarray(X)
    out = {"call": m(X), "call.batched": m(X, max_batch_size=2),
           "grad_input": m.grad_input(X), "grad_input.rev": m.grad_input(X, fwd=False),
           "grad_params": m.grad_params(X, fwd=False)}
    return out


def rebuilt(m):
    """a new model of new modules with the same content"""
    if isinstance(m, NON):
        n = NON(jax.tree.map(rebuilt, m.modules), dict(m.connections),
                separator=m.separator)
    elif isinstance(m, SEQ):
        n = SEQ(jax.tree.map(rebuilt, m.modules))
    else:
        n = type(m)()
        n.set_hyperparameters({k: v for k, v in m.get_hyperparameters().items()})
        if m.get_params() is not None and m.is_ready():
            n.set_params(m.get_params())
            n.set_state(m.get_state())
        return n
    n.input_shape, n.output_shape = m.input_shape, m.output_shape
    if isinstance(m, NON):
        n.execution_order = list(m.execution_order)
    n.set_rng(m.get_rng())
    return n


def fresh_check(m, X, history, what):
    got = evals(m, X)
    n, X = rebuilt(m), jnp.asarray(X)
    f, p, st, k = n._get_callable(), n.get_params(), n.get_state(), n.get_rng()
    want = {"call": f(p, X, False, st, k)[0]}
    want["call.batched"] = want["call"]
    want["grad_input"] = jax.tree.map(lambda *x: jnp.stack(x), *[jax.jacrev(
        lambda x: jax.tree.map(lambda y: y[0], f(p, x[None], False, st, k)[0]))(x)
        for x in X])
    want["grad_input.rev"] = want["grad_input"]
    want["grad_params"] = jax.jacrev(lambda p: f(p, X, False, st, k)[0])(p)
    for q in want:
        need(tree_same(got[q], want[q], 1e-5 if "precision" in history else 1e-9),
             f"{what}: {q} does not reflect the change", got=got[q], want=want[q],
             history=history)


def _seq():
    return SEQ([M.Bias(), M.Tanh(), M.Bias()])


def _dict():
    return SEQ({"a": M.Bias(), "b": M.Tanh(), "c": M.Bias()})


def _tuple():
    return SEQ((M.Bias(), M.Tanh(), M.Bias()))


def _graph():
    return NON({"a": M.Bias(), "b": M.Tanh(), "c": M.Bias()},
               {"input": "a", "a": "b", "b": "c", "c": "output"})


def _outer():
    return SEQ([M.Bias(), SEQ([M.Tanh(), M.Bias()]), M.Bias()])


def _outer2():
    return NON({"a": SEQ([M.Bias(), SEQ([M.Tanh(), M.Bias()])]), "b": M.Bias()},
               {"input": "a", "a": "b", "b": "output"})


def _rand(m, seed):
    rng = onp.random.default_rng(seed)
    m.set_params(jax.tree.map(lambda p: jnp.asarray(rng.normal(size=p.shape)),
                              m.get_params()))


def stale(mk, name):
    def at(m, k):
        mods = m.modules
        return list(mods)[k] if isinstance(mods, dict) else k

    def recompile(m, shape=(2,)):
        m.compile(5, shape)
        _rand(m, 6)

    def replace(m):
        m[at(m, 1)] = M.Square() if hasattr(M, "Square") else M.ReLU()
        recompile(m)

    def swap(m):
        m[at(m, 1)] = M.Exp()
        recompile(m)

    def append(m):
        m.append_module(M.Square(), **({"key": "z"} if isinstance(m.modules, dict) else {}))
        recompile(m)

    def pop(m):
        m.pop_module_by_key(at(m, 1))
        recompile(m)

    def popi(m):
        m.pop_module_by_index(1)
        recompile(m)

    def params(m):
        _rand(m, 11)

    def one_param(m):
        b = jax.tree.leaves(m.modules)[0]
        while isinstance(b, pmm.Model):
            b = jax.tree.leaves(b.modules)[0]
        b.set_params(jnp.asarray([3., -2.]))

    def precision(m):
        m.set_precision(32)

    def retrain(m):
        m.train(jnp.asarray(X1), jnp.asarray(X1) + 1, epochs=2, batch_size=2,
                verbose=False)

    def loaded(m):
        n = mk()
        n.compile(9, (2,))
        _rand(n, 12)
        n[at(n, 1)] = M.Square()
        n.compile(9, (2,))
        _rand(n, 13)
        m.deserialize(n.serialize())

    edits_ = [params, one_param, precision, retrain]
    if not name.startswith("outer"):
        edits_ += [replace, swap, loaded]
        if not name.startswith("graph"):
            edits_ += [append, pop, popi]

    def run():
        for a, b in itertools.product(edits_, [None, params] + edits_[4:6]):
            m = mk()
            m.compile(1, (2,))
            _rand(m, 2)
            fresh_check(m, X1, ["compile"], name)
            h = ["compile", "evaluate"]
            for e in (a, b):
                if e is None:
                    continue
                try:
                    e(m)
                except IndexError:
                    continue
                h += [e.__name__, "evaluate"]
                fresh_check(m, X1, h, name)
    return run


def shapes():
    """another input shape: the next evaluation is for that shape"""
    for mk in (lambda: SEQ([M.Flatten(), M.Tanh()]),
               lambda: SEQ({"a": M.Reshape((-1,)), "b": M.Square()}),
               lambda: SEQ([SEQ([M.Flatten()]), M.Tanh()])):
        m = mk()
        for sh in ((2,), (3,), (2, 2), (2,)):
            m.compile(0, sh)
            X = onp.random.default_rng(1).normal(size=(3,) + sh)
            need(m.input_shape == sh, "input shape not taken over")
            got, want = m(jnp.asarray(X)), rebuilt(m)(jnp.asarray(X))
            need(tree_same(got, want), "evaluation is not for the new shape", shape=sh)
            g, w = m.grad_input(jnp.asarray(X)), rebuilt(m).grad_input(jnp.asarray(X))
            need(tree_same(g, w), "gradient is not for the new shape", shape=sh)


def inner():
    """changes inside a nested model reach the outer evaluation"""
    for mk, get in ((_outer, lambda m: m[1]), (_outer2, lambda m: m["a"]),
                    (_outer2, lambda m: m["a"][1])):
        for how in ("outer", "inner"):
            for edit in ("replace", "append", "pop", "prepend"):
                m = mk()
                m.compile(1, (2,))
                _rand(m, 2)
                evals(m, X1)
                i = get(m)
                if edit == "replace":
                    k = [type(x) for x in i.modules].index(M.Tanh) \
                        if M.Tanh in [type(x) for x in i.modules] else 0
                    i[k] = M.Square()
                elif edit == "append":
                    i.append_module(M.Square())
                elif edit == "prepend":
                    i.prepend_module(M.Square())
                else:
                    i.pop_module_by_index(0)
                if how == "inner":
                    i.compile(3, (2,))
                if how == "outer" or not m.is_ready():
                    m.compile(3, (2,))
                _rand(m, 4)
                fresh_check(m, X1, ["compile", "evaluate", f"{edit} in the nested model",
                                    f"compile {how}"], "nested")


def unready():
    """after an edit the old function is not available any more"""
    for mk in (_seq, _dict, _tuple):
        m = mk()
        m.compile(1, (2,))
        m(jnp.asarray(X1))
        m.append_module(M.AffineTensor(tensor_shape=(2,)),
                        **({"key": "z"} if isinstance(m.modules, dict) else {}))
        try:
            y = m(jnp.asarray(X1))
        except RuntimeError:
            continue
        need(False, "a model with an uncompiled module was evaluated", got=y)


def job(case, oblig, fn, bound):
    return lambda rep: native(rep, case, oblig, fn, bound)


extras = [job(f"edit.{cls.__name__}.{kind}", "exactly-the-addressed-position",
              edits(kind, cls), "up to 3 modules, every edit at every position, "
              "and every pair of edits of 2 modules")
          for cls in (SEQ, NON) for kind in ("list", "tuple", "dict")]
extras += [job("isolation", "other-models-unchanged", isolation,
               "seven containers, five ways to share, every kind of edit on either side")]
extras += [job(f"stale.{mk.__name__[1:]}", "reflects-the-change",
               stale(mk, mk.__name__[1:]),
               "every edit and pair of edits between evaluations of one model")
           for mk in (_seq, _dict, _tuple, _graph, _outer, _outer2)]
extras += [job("stale.shapes", "reflects-the-change", shapes, "three models, four shapes"),
           job("stale.nested", "reflects-the-change", inner,
               "edits inside models nested once or twice"),
           job("stale.unready", "old-function-unavailable", unready, "three models")]



def confirm(cls):
    """one edit of a container of n modules, as text if it goes wrong"""
    def go(kind, n, i, name):
        base = [M.Comment("m") for _ in range(n)]
        kd = kind
        try:
            cont = {f"k{j}": m for j, m in enumerate(base)} if kind == "dict" else mk_container(kind, base)
            new, key = M.Comment("fresh"), "new" if kind == "dict" else None
            op = {"append": ("append", new, key), "prepend": ("prepend", new, key),
                  "insert": ("insert", i, new, key), "pop": ("pop", i),
                  "popkey": ("popkey", f"k{i % n}" if kind == "dict" and n else i),
                  "set": ("set", f"k{i % n}" if kind == "dict" and n else i, new)}[name]
            if name in ("pop", "popkey", "set") and not -n <= i < n:
                return None
            m = cls(cont) if cls is SEQ else cls(cont, {"input": "output"})
            want, ret = reference(kd, items_of(m.modules), op)
            got = perform(m, op)
            if ret is not None and got is not ret:
                return f"{name} at {i} of {n} modules in a {kind}: another module was taken out"
            if kindof(m.modules) != kd or not same_items(items_of(m.modules), want):
                return f"{name} at {i} of {n} modules in a {kind}: the modules are not those expected"
        except Exception as e:
            return f"{name} at {i} of {n} modules in a {kind}: {type(e).__name__}: {e}"
        return None
    return go


extras += [prove_edits(cls, confirm(cls)) for cls in (SEQ, NON)]

if __name__ == "__main__":
    main("S02", cases, extras)
