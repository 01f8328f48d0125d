"""Model.train on real models, observed through recording losses"""
from .trainspec import *
from parametricmatrixmodels import SequentialModel, NonSequentialModel
from parametricmatrixmodels.model import Model
from parametricmatrixmodels.modules import LinearNN, Bias, AffineHermitianMatrix, Eigenvalues, AffineTensor, PReLU
import contextlib
import io


def quiet(fn):
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        r = fn()
        jax.effects_barrier()
    return r


def leafmods(m):
    for x in jax.tree.leaves(m.modules):
        if isinstance(x, Model):
            yield from leafmods(x)
        else:
            yield x


def models():
    return [
        ("flat", lambda: SequentialModel([LinearNN(2), Bias(), LinearNN(1)])),
        ("nested", lambda: SequentialModel([SequentialModel([LinearNN(2), Bias()]), PReLU(), LinearNN(1)])),
        ("deep", lambda: SequentialModel([SequentialModel([Bias(), SequentialModel([LinearNN(2), PReLU()])]),
                                          Bias(), LinearNN(1)])),
        ("dict", lambda: SequentialModel({"b": LinearNN(2), "a": Bias(), "c": [PReLU(), LinearNN(1)]})),
        ("pmm", lambda: SequentialModel([AffineHermitianMatrix(3), Eigenvalues(1), Bias()])),
        ("graph", lambda: NonSequentialModel(
            {"a": Bias(), "n": SequentialModel([LinearNN(2), Bias()]), "z": LinearNN(1)},
            {"input": "a", "a": "n", "n": "z", "z": "output"})),
    ]


def par(m):
    return [f(x) for x in jax.tree.leaves(m.get_params())]


def away(X0, pred0):
    """validation loss that falls the further predictions move (the validation
       rows arrive in some order: each is found by its inputs)"""
    def v(epoch, X, Y, P):
        ix = jnp.argmin(jnp.sum((X[:, None] - X0[None]) ** 2, -1), 1)
        return -jnp.mean(jnp.abs(P - pred0[ix]) ** 2)
    return v


def frozen():
    r = onp.random.default_rng(5)
    X = jnp.asarray(r.normal(size=(6, 2)))
    Y = jnp.asarray(r.normal(size=(6, 1)))
    pick = onp.random.default_rng(8)
    for nm, mk in models():
        for trial in range(2):
            m = mk()
            quiet(lambda: m.compile(trial + 3, (2,)))
            hist = []
            for phase in range(2):
                mods = [x for x in leafmods(m) if len(jax.tree.leaves(x.get_params())) > 0]
                fl = [bool(b) for b in pick.random(len(mods)) < 0.5]
                if not any(fl):
                    fl[int(pick.integers(len(fl)))] = True
                for x, t in zip(mods, fl):
                    x.trainable = t
                hist.append(fl)
                before = [[f(p) for p in jax.tree.leaves(x.get_params())] for x in mods]
                pred0 = quiet(lambda: m(X))
                key = m.get_rng()
                call = m._get_callable()
                loss = lambda ps: jnp.mean((call(ps, X, True, m.get_state(), key)[0] - Y) ** 2)
                g = jax.tree.leaves(jax.grad(loss)(m.get_params()))
                quiet(lambda: m.train(X, Y, loss_fn="mse", val_loss_fn=away(X, pred0), epochs=1, batch_size=6,
                                      lr=0.05, verbose=False, batch_rng=4))
                k = 0
                init, upd, get, _, _ = TR.complex_adam(step_size=0.05, clip=1e3)
                for x, t, b in zip(mods, fl, before):
                    for j, (p, q) in enumerate(zip(b, jax.tree.leaves(x.get_params()))):
                        q = f(q)
                        if not t:
                            need(p.tobytes() == q.tobytes(), f"model {nm}: array {j} of frozen module {x.name} changed",
                                 history=hist, before=p, after=q)
                        else:
                            w = f(get(upd(g[k], init(jnp.asarray(p)))))
                            need(tree_same(w, q, 1e-5), f"model {nm}: array {j} of trainable module {x.name} was not "
                                 "moved by its own gradient", history=hist, before=p, after=q, want=w)
                        k += 1
            # several epochs, resumed training
            before = [[f(p) for p in jax.tree.leaves(x.get_params())] for x in mods]
            for resume in (False, True):
                quiet(lambda: m.train(X, Y, epochs=3, batch_size=4, lr=0.05, verbose=False, batch_rng=9,
                                      resume=resume))
                for x, t, b in zip(mods, fl, before):
                    if not t:
                        need(tree_same(b, [f(p) for p in jax.tree.leaves(x.get_params())], 0.0),
                             f"model {nm}: frozen module {x.name} changed", resume=resume, flags=fl)


def recording(kind):
    recs = []

    def mk(isval):
        def body(epoch, X, Y, U, P):
            l_ = jnp.mean((P - (Y[:, 1:] if Y is not None else 0.3)) ** 2 / (U[:, 1:] if U is not None else 1.0))
            if isval:
                l_ = 2 + jnp.sin(200 * jnp.sum(P))
            jax.debug.callback(lambda *a: recs.append((isval,) + tuple(None if x is None else f(x) for x in a)),
                               epoch, X, Y, U, P, l_)
            return l_
        if kind == "YU":
            return body
        if kind == "Y":
            return lambda e, X, Y, P: body(e, X, Y, None, P)
        return lambda e, X, P: body(e, X, None, None, P)
    return recs, mk


def setup(seed, n, base):
    r = onp.random.default_rng(seed)
    ids = base + onp.arange(n, dtype=float)
    return [jnp.asarray(onp.stack([ids, r.normal(size=n)], 1)),
            jnp.asarray(onp.stack([ids + 0.5, r.normal(size=n)], 1)),
            jnp.asarray(onp.stack([ids + 0.25, 1 + r.random(size=n)], 1))]


class Second(pmm.modules.BaseModule):
    """keeps the second feature only (the first is the sample number)"""
    __version__: str = "0.0.0"

    def __init__(self):
        pass

    def is_ready(self):
        return True

    def compile(self, rng, s):
        pass

    def get_output_shape(self, s):
        return (1,)

    def _get_callable(self):
        return lambda p, X, t, s, r: (X[:, 1:], s)

    def get_hyperparameters(self):
        return {}

    def get_params(self):
        return ()

    def set_params(self, p):
        pass


def one_run(kind, N, B, NV, VB, epochs, seed, same_val=False, **kw):
    recs, mk = recording(kind)
    X, Y, U = setup(seed, N, 0)
    m = SequentialModel([Second(), LinearNN(2), PReLU(), LinearNN(1)])
    quiet(lambda: m.compile(seed, (2,)))
    pos, a = [X], {}
    if "Y" in kind:
        pos.append(Y)
    if "U" in kind:
        a["Y_unc"] = U
    Xv = X
    if NV:
        Xv, Yv, Uv = setup(seed + 1, NV, 500)
        a["X_val"] = Xv
        if "Y" in kind:
            a["Y_val"] = Yv
        if "U" in kind:
            a["Y_val_unc"] = Uv
    if not same_val:
        a["val_loss_fn"] = mk(True)
    quiet(lambda: m.train(*pos, loss_fn=mk(False), epochs=epochs, batch_size=B, val_batch_size=VB, lr=0.05,
                          verbose=False, batch_rng=seed, **a, **kw))
    return m, recs, Xv


RUNS = [("YU", 5, 2, 4, 3), ("Y", 5, 2, None, 0), ("Y", 6, 4, 3, 2), ("none", 5, 3, None, 2), ("none", 4, 4, 3, 0),
        ("YU", 3, 9, None, 2)]


def batches():
    for s, (kind, N, B, NV, VB) in enumerate(RUNS):
        E = 3
        m, recs, Xv = one_run(kind, N, B, NV, VB, E, s)
        tr = [q for q in recs if not q[0]]
        va = [q for q in recs if q[0]]
        cfg = dict(kind=kind, N=N, B=B, NV=NV, VB=VB)
        need(len(tr) == E * len(splits(N, B)), f"{len(tr)} optimiser steps in {E} epochs", **cfg)
        for what, rs, n, b, base, times, sd in (("training", tr, N, B, 0, E, s),
                                                ("validation", va, NV or N, VB, 500 if NV else 0, E + 1,
                                                 s + 1 if NV else s)):
            X, Y, U = [f(x) for x in setup(sd, n, base)]
            need(sorted(len(q[2]) for q in rs) == sorted(splits(n, b) * times),
                 f"{what} minibatch sizes {[len(q[2]) for q in rs]}", **cfg)
            al = sorted(onp.concatenate([q[2][:, 0] for q in rs]).tolist())
            need(al == sorted((base + onp.arange(n)).tolist() * times), f"{what} samples used {al}", **cfg)
            for q in rs:
                ix = (q[2][:, 0] - base).astype(int)
                need(tree_same(q[2], X[ix]), f"{what} inputs mixed", **cfg)
                if "Y" in kind:
                    need(tree_same(q[3], Y[ix]), f"{what} targets are not those of the samples", **cfg)
                if "U" in kind:
                    need(tree_same(q[4], U[ix]), f"{what} uncertainties are not those of the samples", **cfg)


def snapshots():
    for s, (kind, N, B, NV, VB) in enumerate(RUNS):
        m, recs, Xv = one_run(kind, N, B, NV, 0, 6, s + 20)
        va = [q for q in recs if q[0]]
        v = [float(q[6]) for q in va]
        # all samples in one validation batch; the runs are told apart by their predictions
        b = int(onp.argmin(v))
        q = va[b]
        base = 500 if NV else 0
        o = onp.argsort(q[2][:, 0])
        got = f(quiet(lambda: m(Xv)))
        need(tree_same(got, q[5][o], 1e-8), f"the trained model does not predict what the best snapshot predicted; "
             f"validation losses {v}", kind=kind, N=N, B=B, NV=NV, got=got, want=q[5][o])
