"""native oracle for T01-T04: the real training.train run on a recording loss"""
from .opq import *
import math
import warnings
from parametricmatrixmodels import training as TR

f = onp.asarray


def val_gen(v):          # generic: no ties
    return v


def val_grid(v):         # multiples of 1/4 (exact sums): many ties
    return jnp.round(v * 4) / 4


class Cfg:
    def __init__(self, N=5, B=2, NV=None, VB=0, epochs=4, patience=100, min_delta=-onp.inf,
                 target=-onp.inf, flags=(True, True, True), cplx=False, Y=True, U=False, lr=0.05,
                 real=False, fwd=False, val="gen", scale=40.0, seed=0, cb=False, unroll=None, nan=False,
                 clip=1e3, gs=1.0, off=2.0, verbose=False):
        self.__dict__.update(locals())
        del self.__dict__["self"]

    def __repr__(self):
        return "Cfg(" + ", ".join(f"{k}={v!r}" for k, v in self.__dict__.items()) + ")"


def params0(c):
    r = onp.random.default_rng(c.seed)
    a, b, d = r.normal(size=(2,)), r.normal(size=()), r.normal(size=(2, 1))
    if c.cplx:
        a, d = a + 1j * r.normal(size=(2,)), d + 1j * r.normal(size=(2, 1))
    return {"m": [jnp.asarray(a), jnp.asarray(b)], "z": (jnp.asarray(d),)}


def flag_tree(c):
    a, b, d = c.flags
    return {"m": [a, b], "z": (d,)}


def data(n, base, seed, U):
    r = onp.random.default_rng(seed + base)
    ids = base + onp.arange(n, dtype=float)
    X = {"a": jnp.asarray(onp.stack([ids, r.normal(size=n)], 1)), "b": [jnp.asarray(ids * 3)]}
    Y = (jnp.asarray(onp.stack([ids + 0.5, r.normal(size=n)], 1)),)
    Yu = (jnp.asarray(onp.stack([ids + 0.25, 1 + r.random(size=n)], 1)),) if U else None
    return X, Y, Yu


def coef(x):
    """a fixed, irregular array of the shape of x"""
    n = int(onp.prod(x.shape, dtype=int))
    v = onp.sin(1.0 + 1.7 * onp.arange(n) + n).reshape(x.shape)
    return v + (1j * onp.cos(2.0 + onp.arange(n)).reshape(x.shape) if jnp.iscomplexobj(x) else 0)


def train_loss(c, X, Y, Yu, params, rng):
    h = 0.0
    for k, p in enumerate(jax.tree.leaves(params)):
        h = h + (k + 1) * jnp.sum(jnp.real(p * coef(p))) + 0.3 * jnp.sum(jnp.abs(p) ** 2)
    t = X["a"][:, 1] + 0.01 * X["b"][0]
    y = Y[0][:, 1] if Y is not None else 0.0
    u = Yu[0][:, 1] if Yu is not None else 1.0
    return c.gs * jnp.mean(((h * t - y) / u) ** 2) / 50


def val_loss(c, X, Y, Yu, params, epoch):
    h = 0.0
    for k, p in enumerate(jax.tree.leaves(params)):
        h = h + (k + 1) * jnp.sum(jnp.real(p * coef(p)))
    v = c.off + jnp.sin(c.scale * h)
    if c.val == "grid":
        v = jnp.round(v * 4) / 4
    else:
        v = v + 0.01 * jnp.mean(X["a"][:, 1] ** 2)
    if c.nan:
        v = jnp.where(jnp.sin(7 * c.scale * h + 1) > 0.75, jnp.nan, v)
    return v


@contextmanager
def signals_kept():
    """training with progress reports installs signal handlers"""
    import signal
    old = [(s, signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM)]
    try:
        yield
    finally:
        for s, h in old:
            if signal.getsignal(s) is not h:
                signal.signal(s, h)


def run(c):
    recs = []

    def rec(training, epoch, cnt, X, Y, Yu, params, key, loss):
        recs.append((bool(training), int(epoch), int(cnt), jax.tree.map(f, X), jax.tree.map(f, Y),
                     jax.tree.map(f, Yu), jax.tree.map(f, params), f(key), float(loss)))

    def mk(isval):
        def body(epoch, X, Y, Yu, params, training, state, rng):
            l_ = val_loss(c, X, Y, Yu, params, epoch) if isval else train_loss(c, X, Y, Yu, params, rng)
            def cbk(*a):
                rec(training, *a)
            jax.debug.callback(cbk, epoch, state["n"], X, Y, Yu, params,
                               jax.random.key_data(rng), l_)
            return l_, {"n": state["n"] + 1, "w": [state["w"] * 0.5 + l_]}
        def b3(e, X, Y, Yu, p, t, s, r):
            s = {"n": s["n"], "w": s["w"][0]}
            return body(e, X, Y, Yu, p, t, s, r)
        if c.Y and c.U:
            return b3
        if c.Y:
            return lambda e, X, Y, p, t, s, r: b3(e, X, Y, None, p, t, s, r)
        return lambda e, X, p, t, s, r: b3(e, X, None, None, p, t, s, r)
    X, Y, Yu = data(c.N, 0, c.seed, c.U)
    kw = dict(Y=Y if c.Y else None, Y_unc=Yu if c.Y else None)
    if c.NV is not None:
        Xv, Yv, Yuv = data(c.NV, 500, c.seed, c.U)
        kw.update(X_val=Xv, Y_val=Yv if c.Y else None, Y_val_unc=Yuv if c.Y else None)
    if c.cb:
        kw["callback"] = lambda r, e, p: (r, [0.9 * q if t else q for q, t in zip(p, c.flags)])
    p0 = params0(c)
    s0 = {"n": jnp.asarray(0), "w": [jnp.asarray(0.25)]}
    import contextlib
    import io
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), signals_kept():
        warnings.simplefilter("ignore")
        out = TR.train(False, None, p0, flag_tree(c), s0, jax.random.key(c.seed + 7),
                       mk(False), mk(True), X, lr=c.lr, batch_size=c.B, val_batch_size=c.VB,
                       epochs=c.epochs, target_loss=c.target, early_stopping_patience=c.patience,
                       early_stopping_min_delta=c.min_delta, unroll=c.unroll, verbose=c.verbose,
                       batch_rng=c.seed + 3, clip=c.clip, real=c.real, fwd=c.fwd, **kw)
        jax.effects_barrier()
    return analyse(c, recs, p0, out)


class R:
    pass


def analyse(c, recs, p0, out):
    r = R()
    r.c, r.p0 = c, p0
    r.params, r.state, r.rng, r.epoch, r.opt = jax.tree.map(lambda x: x, out)
    tr = [q for q in recs if q[0]]
    if c.fwd:        # the gradient runs the loss once per direction
        seen = {}
        for q in tr:
            seen.setdefault(q[2], q)
        tr = list(seen.values())
    r.train = sorted(tr, key=lambda q: q[2])
    g = {}
    for q in recs:
        if not q[0]:
            g.setdefault(q[2], []).append(q)
    r.val = [g[k] for k in sorted(g)]
    r.val_at = sorted(g)
    return r


def ids(q):
    return q[3]["a"][:, 0]


def splits(n, b):
    b = min(b, n) if b > 0 else n
    return [b] * (n // b) + ([n % b] if n % b else [])


def batches_ok(c, bs, n, b, base, what, last=True):
    Xr, Yr, Ur = data(n, base, c.seed, c.U)
    want = splits(n, b)
    got = [len(ids(q)) for q in bs]
    need(sorted(got) == sorted(want) and (not last or got == want),
         f"{what}: minibatch sizes are {got}, expected {want}", cfg=c)
    al = onp.concatenate([ids(q) for q in bs])
    need(sorted(al.tolist()) == [base + i for i in range(n)],
         f"{what}: samples used {sorted(al.tolist())}, expected each of {base}..{base + n - 1} once", cfg=c)
    for q in bs:
        ix = (ids(q) - base).astype(int)
        for nm, got_, ref in (("input", q[3], Xr), ("target", q[4], Yr if c.Y else None),
                              ("uncertainty", q[5], Ur if c.Y else None)):
            need((got_ is None) == (ref is None), f"{what}: {nm} missing or unexpected", cfg=c)
            if ref is not None:
                need(tree_same(got_, jax.tree.map(lambda x: f(x)[ix], ref), 1e-12),
                     f"{what}: the {nm}s beside samples {ix.tolist()} are not their own", cfg=c)


def epochs_of(r):
    c = r.c
    nb = len(splits(c.N, c.B))
    need([q[2] for q in r.train] == list(range(len(r.train))),
         "the model state is not threaded through the optimiser steps one after the other", cfg=c,
         counters=[q[2] for q in r.train])
    need(len(r.train) % nb == 0, f"{len(r.train)} optimiser steps are not whole epochs of {nb}", cfg=c)
    E = len(r.train) // nb
    need(r.val_at == [k * nb for k in range(E + 1)],
         f"validation ran after steps {r.val_at}, expected at the start and after every epoch of {nb} steps",
         cfg=c)
    return E, nb


def vals(r):
    return [math.fsum(q[8] for q in g) / len(g) for g in r.val]


def check_T04(r):
    c = r.c
    E, nb = epochs_of(r)
    for e in range(E):
        batches_ok(c, r.train[e * nb:(e + 1) * nb], c.N, c.B, 0, f"epoch {e}")
    orders = [tuple(onp.concatenate([ids(q) for q in r.train[e * nb:(e + 1) * nb]])) for e in range(E)]
    if c.N >= 7 and E >= 3:
        need(len(set(orders)) > 1, "the shuffle never changes", cfg=c)
    n, base = (c.N, 0) if c.NV is None else (c.NV, 500)
    for k, g in enumerate(r.val):
        batches_ok(c, g, n, c.VB, base, f"validation {k}", last=False)


def best_of(v):
    """earliest lowest; a nan never counts as lower"""
    b = 0
    for k in range(1, len(v)):
        if v[k] < v[b]:
            b = k
    return b


def gap_ok(c, v, seq):
    """comparisons far enough from rounding for the verdict to be certain"""
    return c.val == "grid"


def stop_rule(c, v):
    """epochs run, given the validation losses that followed"""
    best, pat, e = v[0], c.patience, 0
    while e < c.epochs and best > c.target and pat > 0:
        if e + 1 >= len(v):
            return e + 1       # should have gone on
        x = v[e + 1]
        pat = c.patience if x <= best - c.min_delta else pat - 1
        if x < best:
            best = x
        e += 1
    return e


def check_T03(r):
    c = r.c
    E, _ = epochs_of(r)
    v = vals(r)
    want = stop_rule(c, v)
    need(E == want and int(r.epoch) == want,
         f"ran {E} epochs (reported {int(r.epoch)}), the stop rules give "
         f"{'more than ' + str(E) if want > E else want}; validation losses {v}", cfg=c)
    return E, v


def check_T02(r):
    c = r.c
    E, nb = epochs_of(r)
    v = vals(r)
    k = best_of(v)
    for e, g in enumerate(r.val):
        for q in g:
            need(tree_same(q[6], g[0][6], 1e-13), f"validation {e} uses differing parameters", cfg=c)
    ref = r.val[k][0]
    need(tree_same(r.params, ref[6], 1e-12),
         f"returned parameters are not those of validation {k}, the lowest of {v}", cfg=c,
         got=jax.tree.map(f, r.params), want=ref[6])
    need(int(r.state["n"]) == k * nb, f"returned model state belongs to step {int(r.state['n'])}, "
         f"not to snapshot {k} (step {k * nb}) of {v}", cfg=c)
    need((f(jax.random.key_data(r.rng)) == ref[7]).all(),
         f"returned random state is not that of snapshot {k} of {v}", cfg=c)
    # the parameters validated after an epoch are those its last step produced
    return k, v


def check_T01(r):
    c = r.c
    E, nb = epochs_of(r)
    p0 = jax.tree.leaves(r.p0)
    for q in r.train + [q for g in r.val for q in g]:
        for k, (a, b, t) in enumerate(zip(p0, jax.tree.leaves(q[6]), c.flags)):
            if not t:
                need(f(a).tobytes() == f(b).tobytes() and f(a).dtype == f(b).dtype,
                     f"frozen array {k} changed during training (step {q[2]})", cfg=c, before=f(a), after=b)
    for k, (a, b, t) in enumerate(zip(p0, jax.tree.leaves(r.params), c.flags)):
        if not t:
            need(f(a).tobytes() == f(b).tobytes(), f"frozen array {k} returned changed", cfg=c,
                 before=f(a), after=f(b))
    # every step moves each trainable array along its own clipped Adam step
    opt = (TR.adam if c.real else TR.complex_adam)(step_size=c.lr, clip=c.clip)
    init, upd, get, put, inc = opt
    st = [init(x) for x in p0]
    upd = jax.jit(upd)
    gr = jax.jit(jax.grad(lambda p, X, Y, U: train_loss(c, X, Y, U, p, None)))
    for n, q in enumerate(r.train):
        cur = [get(s) for s in st]
        for k, (a, b) in enumerate(zip(cur, jax.tree.leaves(q[6]))):
            need(tree_same(a, b, 1e-7), f"array {k} before step {n} is not what its own gradients give",
                 cfg=c, got=b, want=f(a))
        g = jax.tree.leaves(gr(q[6], q[3], q[4], q[5]))
        st = [upd(x, s) if t else s for x, s, t in zip(g, st, c.flags)]
        if (n + 1) % nb == 0:
            e = (n + 1) // nb
            for k, (a, b) in enumerate(zip([get(s) for s in st], jax.tree.leaves(r.val[e][0][6]))):
                need(tree_same(a, b, 1e-7), f"array {k} after epoch {e} is not what its own gradients give",
                     cfg=c, got=b, want=f(a))
            if c.cb:
                st = [put(0.9 * get(s) if t else get(s), s) for s, t in zip(st, c.flags)]
            st = [inc(int(t), s) for s, t in zip(st, c.flags)]


def sweep(prop, check, cfgs, chunk=8):
    """tasks: the contract on recorded runs of the real training loop"""
    cfgs = list(cfgs)
    tasks = []
    for k in range(0, len(cfgs), chunk):
        def task(rep, part=cfgs[k:k + chunk], k=k):
            def go():
                for c in part:
                    check(run(c))
            native(rep, f"recorded.{k // chunk}", prop, go,
                   f"{len(part)} recorded runs of training.train (settings {k}..{k + len(part) - 1})")
        task.cost = 30
        tasks.append(task)
    return tasks


def rand_cfgs(n, seed, **fix):
    """varied settings"""
    r = onp.random.default_rng(seed)
    out = []
    for k in range(n):
        N = int(r.integers(1, 12))
        c = dict(N=N, B=int(r.integers(1, N + 3)), seed=int(r.integers(1, 10 ** 6)),
                 NV=None if r.random() < 0.3 else int(r.integers(1, 10)),
                 VB=int(r.choice([0, -1, 1, 2, 3, 4, 20])), epochs=int(r.integers(1, 14)),
                 flags=[(True, True, True), (True, False, True), (False, True, False),
                        (False, False, True)][int(r.integers(4))],
                 cplx=bool(r.random() < 0.4), Y=bool(r.random() < 0.8), U=bool(r.random() < 0.5),
                 lr=float(r.choice([0.05, 0.3, 0.01])), scale=float(r.choice([20., 60., 300.])),
                 val="gen" if r.random() < 0.5 else "grid",
                 patience=int(r.choice([1, 2, 3, 100])),
                 min_delta=float(r.choice([-onp.inf, 0.0, 0.25, 0.5, -0.25])),
                 target=float(r.choice([-onp.inf, -onp.inf, 1.25, 1.5])),
                 cb=bool(r.random() < 0.25), nan=bool(r.random() < 0.15))
        if not c["Y"]:
            c["U"] = False
        c["real"] = not c["cplx"] and bool(r.random() < 0.4)
        c["fwd"] = not c["cplx"] and bool(r.random() < 0.15)
        if c["VB"] > 0 and c["val"] == "grid":      # sums of quarters stay exact
            n_ = c["NV"] or c["N"]
            while len(splits(n_, c["VB"])) not in (1, 2, 4, 8):
                c["VB"] += 1
        c["verbose"] = k % 4 == 2
        c.update(fix)
        out.append(Cfg(**c))
    return out
