"""C02: intervals are those of the latest calibration, whatever happened before it
and also after serialisation."""
from .confspec import *
import io
import itertools
import pathlib
import tempfile

cases = []
FN = ["conformal." + x for x in ("ConformalizedModel.calibrate", "ConformalizedModel.__call__",
      "ConformalizedModel.get_qhat", "ConformalizedModel.serialize", "ConformalizedModel.deserialize")]
D2 = "N K M L f g t u p q"
SZ = [dict(c, N=n, K=k) for c, n, k in zip(CFG, (23, 9), (11, 12))]

# calibrations: (name, with training data, options)
CALS = {"plain": (False, {}), "train": (True, {}),
        "bias": (False, dict(stratified_bias_corrections=True)),
        "nodist": (True, dict(distance_sensitivity=False, stratified_bias_corrections=True)),
        "noinput": (True, dict(input_sensitivity=False)),
        "noparam": (True, dict(parameter_sensitivity=False))}
KEY = {"parameter_sensitivity": "psel", "input_sensitivity": "isel",
       "distance_sensitivity": "dsel", "stratified_bias_corrections": "bias"}


def ask(c, Z, als):
    return [c(Z, alpha=a) for a in als]


def case(i, o, p, first, second, reload=None):
    """calibrate as `first`, ask, calibrate as `second`, ask: as if only the second
    had happened; reload: serialised and restored at that point"""
    als = [0.1, [0.3, 0.1], 0.1, [0.05, 0.3, 0.1, 0.3]]

    def build(d):
        ins, names = [params(PARS[p](d))], ["pv"]
        for k, (nm, n) in enumerate((("A", d.N), ("B", d.K))):
            ins += [data("X" + nm, INS[i](d), n), data("Y" + nm, OUTS[o](d), n)]
            names += ["X" + nm, "Y" + nm]
        ins += [data("T", INS[i](d), d.M), data("Z", INS[i](d), d.L)]
        names += ["T", "Z"]

        def again(c):
            return Conf.deserialize(c.serialize())

        def fn(*a):
            v = dict(zip(names, a))
            with contracts():
                c = Conf(model(d, i, o, p, v["pv"]), alpha=0.25, nn_dist_quantile=0.75, name="n")
                if first is not None:
                    tr, op = CALS[first]
                    c.calibrate(v["XA"], v["YA"], X_train=v["T"] if tr else None,
                                skip_sanity_checks=True, **op)
                    ask(c, v["XB"], als)
                if reload == "between":
                    c = again(c)
                tr, op = CALS[second]
                c.calibrate(v["XB"], v["YB"], X_train=v["T"] if tr else None,
                            skip_sanity_checks=True, **op)
                r = []
                if reload == "after":
                    r = [ask(c, v["Z"], als[:2])]
                    c = again(c)
                r = [ask(c, v["Z"], als), c(v["Z"])] + r
                assert c.nn_dist_quantile == 0.75 and c.name == "n"
            return r

        def ref(*a):
            v = dict(zip(names, a))
            tr, op = CALS[second]
            R = Ref(d, i, o, p, v["pv"], v["XB"], v["YB"], Xt=v["T"] if tr else None,
                    **{KEY[k]: q for k, q in op.items()})
            y = R.tree(R.predict(v["Z"]))
            one = lambda al: (y, R.bands(v["Z"], al) if onp.ndim(al) == 0 else
                              [R.bands(v["Z"], b) for b in al])
            return [[one(x) for x in als], one(0.25)] + (
                [[one(x) for x in als[:2]]] if reload == "after" else [])
        return Inst(fn, tuple(ins), None, ref=ref)
    cases.append(Case(f"{i}.{o}.{p}.{first}.then.{second}" + (f".reload-{reload}" if reload else ""),
                      D2, build, SZ, funcs=FN, seeds=1, rtol=1e-7))


for a in ("plain", "train", "nodist"):
    for b in ("plain", "train", "bias"):
        case("bare", "bare", "one", a, b)
case("bare", "bare", "one", "noparam", "noinput")
case("bare", "bare", "one", "noinput", "noparam")
case("bare", "bare", "one", "bias", "plain")
case("bare", "bare", "one", "plain", "plain", reload="between")
case("bare", "bare", "one", None, "plain", reload="between")
for b in CALS:
    case("bare", "bare", "one", None, b, reload="after")
case("bare", "bare", "one", "train", "train", reload="after")
case("dict", "bare", "one", "train", "bias", reload="after")


# ---------------------------------------------------------- real models and files, natively
def histories(part, parts=4):
    """every pair of calibrations of the same model, with requests in between"""
    def run(rep):
        from .confnum import situations, close
        groups = {}
        for sit in situations(2):
            groups.setdefault(sit[0].split(".")[0], []).append(sit)
        pairs = [(a, b) for g in groups.values() for a in g for b in g]
        for k, (a, b) in enumerate(pairs):
            if k % parts != part:
                continue

            def go():
                c = ConformalizedModel(a[1], alpha=0.35)
                f = ConformalizedModel(a[1], alpha=0.35)
                _, m, kw, X, Y, Z, Zu = a
                c.calibrate(X, Y, skip_sanity_checks=True, **kw)
                c.get_qhat([0.1, 0.2]), c(Z, X_unc=Zu), c.get_qhat(0.2)
                _, m, kw, X, Y, Z, Zu = b
                for q in (c, f):
                    q.calibrate(X, Y, skip_sanity_checks=True, **kw)
                inp = dict(first=a[0], second=b[0], options=kw)
                for al in (0.1, [0.2, 0.5, 0.1], None, 0.2, (0.1,)):
                    need(close(c(Z, X_unc=Zu, alpha=al), f(Z, X_unc=Zu, alpha=al), 1e-12),
                         "calibrated twice: not the intervals of the second calibration",
                         alpha=al, **inp)
            native(rep, f"history.{a[0]}.{b[0]}", "latest", go, "two calibrations, seed 2")
    return run


def _same(c, d, Z, Zu, **inp):
    from .confnum import close
    for k in ("default_alpha", "nn_dist_quantile", "name"):
        need(getattr(c, k) == getattr(d, k) and type(getattr(c, k)) is type(getattr(d, k)),
             f"{k} changed by saving and loading", got=getattr(d, k), expected=getattr(c, k), **inp)
    need(type(c.model) is type(d.model), "type of the model", **inp)
    for al in (None, 0.1, [0.3, 0.1], 0.77, [0.3, 0.05]):
        x, y = c(Z, X_unc=Zu, alpha=al), d(Z, X_unc=Zu, alpha=al)
        need(jax.tree.structure(x) == jax.tree.structure(y) and close(x, y, 1e-12),
             "saved and loaded: different intervals", alpha=al, got=y, expected=x, **inp)
    need(close(c.uncertainty_heuristic(Z, X_unc=Zu), d.uncertainty_heuristic(Z, X_unc=Zu), 1e-12),
         "saved and loaded: different uncertainties", **inp)


def files(part, parts=4):
    def run(rep):
        from .confnum import situations
        for k, (nm, m, kw, X, Y, Z, Zu) in enumerate(situations(3)):
            if k % parts != part:
                continue

            def go():
                c = ConformalizedModel(m, alpha=0.35, nn_dist_quantile=0.8, name="my name")
                with tempfile.TemporaryDirectory() as tmp:
                    c.calibrate(X, Y, skip_sanity_checks=True, **kw)
                    c.get_qhat([0.1, 0.6])
                    ways = {
                        "no suffix": f"{tmp}/a", "suffix": f"{tmp}/b.npz", "dots": f"{tmp}/c.d",
                        "path": pathlib.Path(tmp) / "e", "path suffix": pathlib.Path(tmp) / "f.npz"}
                    for w, f in ways.items():
                        (c.save_compressed if w in ("dots", "suffix") else c.save)(f)
                        d = ConformalizedModel.from_file(f)
                        _same(c, d, Z, Zu, situation=nm, way=w)
                    b = io.BytesIO()
                    c.save(b)
                    b.seek(0)
                    d = ConformalizedModel.from_file(b)
                    _same(c, d, Z, Zu, situation=nm, way="file object")
                    d = ConformalizedModel.deserialize(c.serialize())
                    _same(c, d, Z, Zu, situation=nm, way="dictionary")
                    # what happens to one of them afterwards does not reach the other
                    before = [c(Z, X_unc=Zu, alpha=q) for q in (0.1, 0.5, 0.6)]
                    d.calibrate(X, jax.tree.map(lambda y: 3 * y + 1, Y), skip_sanity_checks=True, **kw)
                    d.get_qhat([0.1, 0.5, 0.77])
                    after = [c(Z, X_unc=Zu, alpha=q) for q in (0.1, 0.5, 0.6)]
                    need(tree_same(before, after), "calibrating the copy changed the original",
                         situation=nm)
                    # and the copy can be saved again
                    c2 = ConformalizedModel(m, nn_dist_quantile=0.8)
                    c2.calibrate(X, jax.tree.map(lambda y: 3 * y + 1, Y), skip_sanity_checks=True, **kw)
                    d.save(f"{tmp}/g")
                    e = ConformalizedModel.from_file(f"{tmp}/g")
                    need(tree_same(e(Z, X_unc=Zu, alpha=[0.1, 0.5]), c2(Z, X_unc=Zu, alpha=[0.1, 0.5])),
                         "recalibrated after loading, saved and loaded: not the intervals of the "
                         "latest calibration", situation=nm)
            native(rep, f"file.{nm}", "restored", go, "one calibration, eight ways of saving, seed 3")

            def name():
                c = ConformalizedModel(m)
                c.calibrate(X, Y, skip_sanity_checks=True, **kw)
                with tempfile.TemporaryDirectory() as tmp:
                    c.save(f"{tmp}/a")
                    d = ConformalizedModel.from_file(f"{tmp}/a")
                    need(d.name == c.name and type(d.name) is str, "default name", got=d.name,
                         expected=c.name)
            if k % 5 == 0:
                native(rep, f"file.{nm}", "name", name, "default name")
    return run


def levels(rep):
    """quantiles asked for before do not stand in for those of other levels"""
    def go():
        rng = onp.random.default_rng(3)
        n = 9
        X, Y, Z = (jnp.asarray(rng.normal(size=z)) for z in ((n, 3), (n, 2), (2, 3)))

        def fresh():
            c = ConformalizedModel(_small())
            c.calibrate(X, Y, skip_sanity_checks=True)
            return c
        for k in (2, 5, 8):
            a = (n + 1 - k) / (n + 1)
            for h in (1e-4, 1e-6, 1e-9):
                want = {q: fresh()(Z, alpha=q) for q in (a, a + h, a - h)}
                for order in ((a, a + h, a - h), (a - h, a, a + h)):
                    c = fresh()
                    for q in order * 2:
                        got = c(Z, alpha=q)
                        need(tree_same(got, want[q]), "intervals of a level that differs by little "
                             "from one asked for before", X=X, Y=Y, Z=Z, asked_before=order,
                             level=q, got=got, expected=want[q])
                    y, bands = c(Z, alpha=list(order))
                    need(tree_same(bands, [want[q][1] for q in order]), "list of close levels",
                         X=X, Y=Y, Z=Z, levels=order, got=bands)
    native(rep, "levels", "close levels", go, "9 samples, levels 1e-4, 1e-6 and 1e-9 apart")


_SMALL = []


def _small():
    if not _SMALL:
        from parametricmatrixmodels import SequentialModel, modules
        m = SequentialModel([modules.LinearNN(2)])
        m.compile(0, (3,))
        _SMALL.append(m)
    return _SMALL[0]


def types(rep):
    typed(rep, "annotations", "accepted", """
from parametricmatrixmodels import SequentialModel, modules as M
from parametricmatrixmodels.conformal import ConformalizedModel as CM
import io, tempfile, pathlib
jax.config.update('jax_enable_x64', True)
rng = onp.random.default_rng(0)
A = lambda *s: jnp.asarray(rng.normal(size=s))
m = SequentialModel([M.LinearNN(2)]); m.compile(0, (3,))
for kw in ({}, dict(X_train=A(9, 3)), dict(stratified_bias_corrections=True)):
    c = CM(m, name='x'); c.calibrate(A(8, 3), A(8, 2), skip_sanity_checks=True, **kw)
    Z = A(2, 3); y = c(Z, alpha=[.1, .2])
    for f in (io.BytesIO(), tempfile.mkdtemp() + '/a', pathlib.Path(tempfile.mkdtemp()) / 'b'):
        c.save(f)
        if hasattr(f, 'seek'): f.seek(0)
        d = CM.from_file(f)
        assert jax.tree.all(jax.tree.map(lambda a, b: bool((a == b).all()), d(Z, alpha=[.1, .2]), y))
        c.calibrate(A(8, 3), A(8, 2), skip_sanity_checks=True, **kw); y = c(Z, alpha=[.1, .2])
""", "three settings, three ways of saving")


if __name__ == "__main__":
    main("C02", cases, [f(k) for k in range(4) for f in (histories, files)] + [types, levels])
