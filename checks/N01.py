"""N01: a sequential model is the composition of its modules."""
from .opq import *
from parametricmatrixmodels import SequentialModel

cases = []
isl = dict(is_leaf=is_shape)


def opq_mod(tag, spec, d):
    out, ps, ss = spec(d)
    return Opaque(tag, out, ps, ss)


def ins_of(name, tree):
    leaves, td = jax.tree.flatten(tree, **isl)
    return jax.tree.unflatten(td, [In(f"{name}{k}", s) for k, s in enumerate(leaves)])


def seq_case(name, tree, inshape, dims, conc, training=False, nested=()):
    """tree: module specs as a pytree of d -> (out, params, state)"""
    specs, td = jax.tree.flatten(tree, is_leaf=callable)
    tags = [f"m{k}" for k in range(len(specs))]

    def build(d):
        sh = inshape(d)
        X = jax.tree.unflatten(jax.tree.structure(sh, **isl), [
            In(f"X{k}", (d.b,) + tuple(s)) for k, s in enumerate(jax.tree.leaves(sh, **isl))])
        P_, S_ = [], []
        for t, s in zip(tags, specs):
            _, ps, ss = s(d)
            P_.append(ins_of(f"p_{t}_", ps) if ps is not None else ())
            S_.append(ins_of(f"s_{t}_", ss) if ss is not None else ())
        params = jax.tree.unflatten(td, P_)
        state = jax.tree.unflatten(td, S_)
        key = In("key", (2,), onp.uint32, gen="key")

        def fn(params, state, X, key):
            mods = [opq_mod(t, s, d) for t, s in zip(tags, specs)]
            mt = jax.tree.unflatten(td, mods)
            if nested:
                mt = [SequentialModel(x) if i in nested else x for i, x in enumerate(mt)]
            m = SequentialModel(mt)
            pre = m.get_output_shape(sh)
            m.compile(0, sh)
            # shapes are announced accordingly
            want, cur = [], sh
            for q in mods:
                assert same_shape(q.seen_shape, cur), f"module compiled for {q.seen_shape}, gets {cur}"
                cur = q.get_output_shape(cur)
            assert same_shape(m.get_output_shape(sh), cur)
            assert same_shape(pre, cur)
            assert same_shape(m.input_shape, sh) and same_shape(m.output_shape, cur)
            k = jax.random.wrap_key_data(key)
            if name.endswith("call"):
                m.set_params(params)
                m.set_state(state)
                y, st = m(X, rng=k, return_state=True)
                return y, st, m.get_params(), m.get_state()
            return m._get_callable()(params, X, training, state, k)

        def ref(params, state, X, key):
            k = jax.random.wrap_key_data(key)
            ks = jax.random.split(k, len(tree) if nested else len(specs))
            if nested:      # an inner model splits its own key
                ks = [kk for i, sub in enumerate(tree) for kk in (
                    jax.random.split(ks[i], len(jax.tree.leaves(sub, is_leaf=callable)))
                    if i in nested else [ks[i]])]
            ps, ss = td.flatten_up_to(params), td.flatten_up_to(state)
            cur, new = X, []
            for i, (t, s) in enumerate(zip(tags, specs)):
                csh = jax.tree.map(lambda x: tuple(x.shape[1:]), cur)
                out = s(d)[0]
                out = out(csh) if callable(out) else out
                cur, ns = opq_call(t, ps[i], cur, training, ss[i], ks[i], out)
                new.append(ns)
            r = cur, jax.tree.unflatten(td, new)
            return r + (params, state) if name.endswith("call") else r
        return Inst(fn, (params, state, X, key), None, ref=ref)
    cases.append(Case(name, dims, build, conc, funcs=[
        "sequentialmodel.SequentialModel." + f for f in
        ("compile", "get_output_shape", "_get_callable")] + [
        "model.Model." + f for f in ("__init__", "__call__", "get_params", "set_params",
                                     "get_state", "set_state", "is_ready")], seeds=1))


def same_shape(a, b):
    al, at = jax.tree.flatten(a, **isl)
    bl, bt = jax.tree.flatten(b, **isl)
    return at == bt and al == bl


C = [dict(b=3, n=2, m=3, k=2, q=1), dict(b=1, n=1, m=2, k=3, q=2)]
DM = "b n m k q"
A = lambda d: ((d.m,), {"w": (d.n, d.m)}, None)
B_ = lambda d: ((d.m, d.k), [(d.k,), (2,)], ((d.q,),))
E = lambda d: ({"u": (d.k,), "v": [(d.m, d.q)]}, None, None)
F = lambda d: ((d.q,), (d.k,), {"c": (2,), "a": (d.n, d.k)})
G = lambda d: (lambda s: s, (d.q, d.q), ((d.n,),))
H = lambda d: ((d.n,), None, (d.q,))
one = lambda d: (d.n,)
two = lambda d: {"x": (d.n,), "y": [(d.m, d.k)]}
for tr in (False, True):
    t = ".training" if tr else ""
    seq_case("list1" + t, [A], one, DM, C, tr)
    seq_case("list2" + t, [A, B_], one, DM, C, tr)
    seq_case("list4" + t, [A, B_, E, F], one, DM, C, tr)
    seq_case("same-structure" + t, [G, G, G], one, DM, C, tr)
    seq_case("swap-detect" + t, [H, A, H, G], two, DM, C, tr)
    seq_case("tuple" + t, (A, F, B_), two, DM, C, tr)
    seq_case("dict" + t, {"b": A, "a": B_, "c": F}, one, DM, C, tr)
    seq_case("nested-structure" + t, [A, {"z": B_, "y": [F, G]}, (E,)], one, DM, C, tr)
    seq_case("long" + t, [A, F, G, B_, E, H, A, G, F, B_, G, H], two, DM, C, tr)
seq_case("list4.call", [A, B_, E, F], one, DM, C)
seq_case("dict.call", {"b": A, "a": B_, "c": F}, two, DM, C)
seq_case("stateful.call", [H, G, F], two, DM, C)

for tr in (False, True):
    t = ".training" if tr else ""
    seq_case("nested-model" + t, [A, [B_, F, G], H], one, DM, C, tr, nested=(1,))
    seq_case("nested-models" + t, [{"p": A, "o": G}, (B_, F), E, [H]], two, DM, C, tr,
             nested=(0, 1, 3))
seq_case("nested.call", [A, [B_, F, G], H], one, DM, C, nested=(1,))

if __name__ == "__main__":
    main("N01", cases)
