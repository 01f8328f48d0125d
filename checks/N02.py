"""N02: a graph model computes the dataflow its connections describe."""
import random as _random
from .opq import *
from . import graphspec as GS
from parametricmatrixmodels import NonSequentialModel, SequentialModel

cases = []
isl = dict(is_leaf=is_shape)
C = [dict(b=2, n=2, m=3, k=2), dict(b=1, n=1, m=2, k=3)]
DM = "b n m k"


def ins_of(name, tree):
    leaves, td = jax.tree.flatten(tree, **isl)
    return jax.tree.unflatten(td, [In(f"{name}{k}", s) for k, s in enumerate(leaves)])


def put(tree, path, v):
    for k in path[:-1]:
        tree = tree[int(k)] if isinstance(tree, list) else tree[k]
    if isinstance(tree, list):
        tree[int(path[-1])] = v
    else:
        tree[path[-1]] = v


def copy_tree(t):
    if isinstance(t, dict):
        return {k: copy_tree(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return [copy_tree(v) for v in t]
    return t


def graph_case(name, modules, conns, inshape, training=False, sep=".", conc=C, orders=1):
    """modules: tree of d -> (out, params, state) ; conns: wiring"""
    paths = list(GS.module_paths(modules))

    def build(d):
        sh = inshape(d)
        X = jax.tree.unflatten(jax.tree.structure(sh, **isl), [
            In(f"X{k}", (d.b,) + tuple(s))
            for k, s in enumerate(jax.tree.leaves(sh, **isl))])
        params, state = copy_tree(modules), copy_tree(modules)
        spec = {}
        for p in paths:
            spec[p] = GS.follow(modules, p)(d)
            _, ps, ss = spec[p]
            put(params, p, ins_of("p_" + "_".join(p) + "_", ps) if ps is not None else ())
            put(state, p, ins_of("s_" + "_".join(p) + "_", ss) if ss is not None else ())
        key = In("key", (2,), onp.uint32, gen="key")

        def run(order, params, state, X, key):
            rnd = _random.Random(order)
            mods = copy_tree(modules)
            items = list(paths)
            for p in items:
                out, ps, ss = spec[p]
                put(mods, p, Opaque(sep.join(p), out, ps, ss))
            cn = {k: v for k, v in conns.items()}
            if order:
                cn = {k: (rnd.sample(list(v), len(v)) if isinstance(v, (list, tuple)) else v)
                      for k, v in rnd.sample(list(cn.items()), len(cn))}
                if isinstance(mods, dict):
                    mods = dict(rnd.sample(list(mods.items()), len(mods)))
            m = NonSequentialModel(mods, cn, separator=sep)
            pre = m.get_output_shape(sh)
            m.compile(0, sh)
            k = jax.random.wrap_key_data(key)
            # every module was compiled for the structure it is going to see
            seen = {}

            def ap(p, x):
                seen[p] = x
                out = spec[p][0]
                return out(x) if callable(out) else out
            oshape = GS.dataflow(GS.edges(conns, modules, sep), sh, ap)
            for p in paths:
                q = GS.follow(mods, p)
                if p in seen:
                    assert norm(q.seen_shape) == norm(seen[p]), (
                        f"module {p} compiled for {q.seen_shape}, its input is {seen[p]}")
                else:
                    assert q.seen_shape is None, f"unneeded module {p} was compiled"
            assert norm(m.get_output_shape(sh)) == norm(oshape) == norm(pre)
            st = copy_tree_arrays(state)
            return m._get_callable()(params, X, training, st, k)

        def fn(params, state, X, key):
            return [run(o, params, state, X, key) for o in range(orders)]

        def ref(params, state, X, key):
            k = jax.random.wrap_key_data(key)
            new = copy_tree_arrays(state)

            def ap(p, x):
                out = spec[p][0]
                xs = jax.tree.map(lambda a: tuple(a.shape[1:]), x)
                out = out(xs) if callable(out) else out
                y, ns = opq_call(sep.join(p), GS.follow(params, p), x, training,
                                 GS.follow(state, p), k, out)
                put(new, p, ns)
                return y
            y = GS.dataflow(GS.edges(conns, modules, sep), X, ap)
            return [(y, new) for _ in range(orders)]
        return Inst(fn, (params, state, X, key), None, ref=ref)
    cases.append(Case(name, DM, build, conc, seeds=1, funcs=[
        "nonsequentialmodel.NonSequentialModel." + f for f in (
            "compile", "_get_module_input_dependencies", "_get_shape_progression",
            "get_output_shape", "_get_callable", "get_execution_order")] + [
        "graph_util.place_connections_in_tree", "tree_util.getitem_by_strpath",
        "tree_util.setitem_by_strpath"]))


def copy_tree_arrays(t):
    """fresh containers down to module level only"""
    if isinstance(t, dict):
        return {k: copy_tree_arrays(v) for k, v in t.items()}
    if isinstance(t, list):
        return [copy_tree_arrays(v) for v in t]
    return t


def norm(s):
    if isinstance(s, dict):
        return {k: norm(v) for k, v in s.items()}
    if is_shape(s):
        return tuple(map(str, s))
    if isinstance(s, (list, tuple)):
        return [norm(v) for v in s]
    return s


A = lambda d: ((d.m,), {"w": (d.n, d.m)}, None)
Bm = lambda d: ((d.m, d.k), [(d.k,)], ((d.n,),))
Cm = lambda d: ({"u": (d.k,), "v": [(d.m, d.n), (d.n,)]}, None, ((d.k,),))
Dm = lambda d: ((d.k,), (d.k,), (d.m,))
Em = lambda d: ([(d.n,), (d.m,)], None, None)
one = lambda d: (d.n,)
two = lambda d: {"x1": (d.n,), "x2": (d.m, d.k)}
tup = lambda d: [(d.n,), (d.m,), (d.k,)]

G = graph_case
G("chain-list", [A, Bm, Dm], {"input": "0", "0": "1", "1": "2", "2": "output"}, one)
G("chain-tuple.training", (A, Bm, Dm), {"input": "0", "0": "1", "1": "2", "2": "output"}, one, True)
G("chain-names", {"M0": A, "M1": Bm, "M2": Dm},
  {"input": "M0", "M0": "M1", "M1": "M2", "M2": "output"}, one, orders=3)
G("chain-reversed-names", {"c": A, "b": Bm, "a": Dm},
  {"a": "output", "b": "a", "c": "b", "input": "c"}, one, orders=3)
G("chain-nested", {"block1": [A, Bm], "block2": {"M3": Dm}},
  {"input": "block1.0", "block1.0": "block1.1", "block1.1": "block2.M3",
   "block2.M3": "output"}, one, orders=3)
G("leaf-swap", {"M1": Em, "M2": Dm},
  {"input": "M1", "M1.0": "M2.1", "M1.1": "M2.0", "M2": "output"}, one, orders=3)
G("leaf-pick", {"M1": Cm, "M2": Dm},
  {"input": "M1", "M1.v.1": "M2.p.q", "M1.u": "M2.r", "M2": "output"}, one, orders=3)
G("passthrough", {"M1": A, "M2": Bm},
  {"input.x1": "M1", "M1": "M2", "M2": "output.1", "input.x2": "output.0"}, two, orders=3)
G("subtree", {"M1": Cm, "M2": Dm}, {"input": "M1", "M1.v": ["M2.a", "output.t"],
                                   "M2": "output.s", "M1.u": "M2.b"}, one, orders=3)
G("fan-out", {"M1": A, "M2": Bm, "M3": Dm},
  {"input": "M1", "M1": ["M2", "M3"], "M2": "output.0", "M3": "output.1"}, one, orders=3)
G("diamond", {"a": A, "b": Bm, "c": Cm, "d": Dm},
  {"input": ["a"], "a": ["b.0", "c.0", "d.2"], "b": "d.0", "c.v.0": "d.1",
   "c.u": "output.u", "d": "output.d", "input": ["a", "c.1", "b.1"]}, one, orders=4)
G("implicit-slots", {"M1": A, "M2": Dm},
  {"input.0": "M1", "input.1": "M1", "input.2": "M2", "M1": "M2", "M2": "output"}, tup)
G("implicit-output", {"M1": A, "M2": Dm},
  {"input": ["M1", "M2"], "M1": "output", "M2": "output"}, one)
G("implicit-deep", {"M1": A, "M2": Dm},
  {"input": ["M1", "M2"], "M1": "output.0", "M2": "output.0"}, one)
G("implicit-partial", {"M1": A, "M2": Dm},
  {"input": ["M1", "M2"], "M1": "output.1", "M2": "output"}, one)
G("unneeded", {"M1": A, "M2": Bm, "M3": Dm, "M4": Dm},
  {"input": ["M1", "M3"], "M1": "M2", "M3": "M4", "M2": "output"}, one, orders=3)
G("separator", {"b/1": A, "c": [Bm, Dm]},
  {"input": "b/1", "b/1": "c|0|x", "c|0": "c|1", "c|1": "output|y|0",
   "b/1 ": "output"} and {"input": "b/1", "b/1": "c|0|x", "c|0": "c|1",
                          "c|1": "output|y"}, one, sep="|", orders=3)
G("list-of-input-leaves", [Dm, Dm, Em],
  {"input.2": "0.b", "input.0": ["0.a", "1"], "input.1": "2",
   "0": "output.z", "1": "output.y.1", "2": "output.y.0"}, tup)
G("same-source-twice", {"M": Dm}, {"input": ["M.0", "M.1", "M.2"], "M": ["output.a", "output.b"]},
  one, orders=3)
G("names-like-reserved", {"inputs": A, "outputs": Dm},
  {"input": "inputs", "inputs": "outputs", "outputs": "output"}, one, orders=3)
G("names-like-reserved.nested", {"input_block": {"M1": A}, "output_block": [Bm, Dm]},
  {"input": "input_block.M1", "input_block.M1": "output_block.0",
   "output_block.0": "output_block.1", "output_block.1": "output"}, one, orders=3)
G("names-like-reserved.out-tree", {"input_block": {"M1": A}, "output_block": [Bm, Dm]},
  {"input": "input_block.M1", "input_block.M1": "output_block.0",
   "output_block.0": ["output_block.1", "output.a"], "output_block.1": "output.b"}, one, orders=3)
G("mixed-key-kinds", {"M1": A, "M2": Dm, "M3": Bm},
  {"input": ["M1", "M2", "M3"], "M1": "output.1", "M2": "output.b", "M3": "output.0"}, one, orders=4)
G("mixed-key-kinds.modules", {"blk": {"1": A, "b": Dm}},
  {"input": "blk.1", "blk.1": "blk.b", "blk.b": "output"}, one, orders=3)
G("digit-names", {"7": A, "3": Dm, "x": Bm},
  {"input": ["7", "x"], "7": "3.0", "x": "3.1", "3": "output"}, one, orders=3)


def random_graph(seed, n):
    """layered random wiring with explicit slots"""
    r = _random.Random(seed)
    kinds = {"A": A, "B": Bm, "C": Cm, "D": Dm, "E": Em}
    leaves = {"A": [""], "B": [""], "C": ["", "u", "v", "v.0", "v.1"], "D": [""], "E": ["", "0", "1"]}
    names = r.sample(["a", "b", "c", "d", "x0", "inp", "out", "10", "z"], n)
    mods, conns, srcs = {}, {}, [("input", ["", "x1", "x2"])]
    ks = {}
    used = set()
    for nm in names:
        kd = r.choice(list(kinds))
        ks[nm] = kd
        mods[nm] = kinds[kd]
        q = r.randint(1, 3)
        for j in range(q):
            s, lv = r.choice(srcs[-3:] if r.random() < .7 else srcs)
            lf = r.choice(lv)
            used.add(s)
            key = s + ("." + lf if lf else "")
            dst = nm if q == 1 else f"{nm}.{j}"
            conns.setdefault(key, []).append(dst)
        srcs.append((nm, leaves[kd]))
    outs = [nm for nm in names if nm not in used]
    for j, nm in enumerate(outs):
        conns.setdefault(nm, []).append("output" if len(outs) == 1 else f"output.o{j}")
    return mods, conns


import os as _os
_N = 10 if _os.environ.get("VERIF_TIER", "quick") == "quick" and "thorough" not in sys.argv else 80
for s in range(_N):
    m, c = random_graph(s, 2 + s % 4)
    G(f"random{s}", m, c, two, orders=3, training=bool(s % 2))

if __name__ == "__main__":
    main("N02", cases)
