"""C01: intervals are prediction plus or minus quantile times uncertainty."""
from .confspec import *

cases = []
FN = ["conformal." + x for x in ("ConformalizedModel.calibrate", "ConformalizedModel.__call__",
      "ConformalizedModel.get_qhat", "ConformalizedModel.uncertainty_heuristic")]

ALPHAS = {"default": None, "scalar": 0.05, "large": 0.9, "single": [0.3], "list": [0.3, 0.05, 0.7],
          "tuple": (0.5, 1 / 3), "array": onp.array([0.9, 0.25]), "repeat": [0.2, 0.1, 0.2],
          "near": [0.1, 0.1 + 1e-12]}

BIG = [dict(c, N=n) for c, n in zip(CFG, (23, 9))]


def case(i, o, p, alpha, train=False, xu=False, yu=False, bias=False, y=True, opts={}, deep=False):
    al = ALPHAS[alpha]

    def build(d):
        ins = [params(PARS[p](d)), data("X", INS[i](d), d.N), data("Z", INS[i](d), d.L)]
        names = ["pv", "X", "Z"]
        if y:
            ins.append(data("Y", OUTS[o](d), d.N)); names.append("Y")
        if train:
            ins.append(data("T", INS[i](d), d.M)); names.append("Xt")
        if xu:
            ins += [data("Xu", INS[i](d), d.N), data("Zu", INS[i](d), d.L)]; names += ["Xu", "Zu"]
        if yu:
            ins.append(data("Yu", OUTS[o](d), d.N, gen="pos")); names.append("Yu")

        def fn(*a):
            v = dict(zip(names, a))
            with contracts():
                c = (Conf if deep else ConfU)(model(d, i, o, p, v["pv"]), alpha=0.15)
                c.calibrate(v["X"], v.get("Y"), X_cal_unc=v.get("Xu"), Y_cal_unc=v.get("Yu"),
                            X_train=v.get("Xt"), skip_sanity_checks=True,
                            stratified_bias_corrections=bias, **opts)
                r, b = c(v["Z"], X_unc=v.get("Zu"), **({} if al is None else dict(alpha=al)))
                st = c(v["Z"], X_unc=v.get("Zu"), alpha=al, return_state=True)
                assert len(st) == 3 and jax.tree.structure(st[:2]) == jax.tree.structure((r, b))
            return r, b, c.scores, st[:2]

        def ref(*a):
            v = dict(zip(names, a))
            R = Ref(d, i, o, p, v["pv"], v["X"], v.get("Y"), Xu=v.get("Xu"), Yu=v.get("Yu"),
                    Xt=v.get("Xt"), bias=bias, heur_=not deep,
                    **{{"parameter_sensitivity": "psel", "input_sensitivity": "isel",
                        "distance_sensitivity": "dsel"}[k]: q for k, q in opts.items()})
            one = lambda q: R.bands(v["Z"], q, v.get("Zu"))
            if al is None:
                b = one(0.15)
            elif onp.ndim(al) == 0 or len(al) == 1:
                b = one(float(onp.ravel(al)[0]))
            else:
                b = [one(float(q)) for q in al]
            y_ = R.tree(R.predict(v["Z"]))
            return y_, b, R.tree(R.scores), (y_, b)
        return Inst(fn, tuple(ins), None, ref=ref)
    nm = f"{i}.{o}.{p}.{alpha}" + "".join(
        s for s, c in ((".train", train), (".xunc", xu), (".yunc", yu), (".bias", bias),
                       (".self", not y), (".composed", deep)) if c) + "".join("." + k[:5] for k in opts)
    cases.append(Case(nm, DIMS, build, BIG, funcs=FN, seeds=1, rtol=1e-7))


for a in ALPHAS:
    case("bare", "bare", "one", a)
for i, o, p in (("pair", "matrix", "tree"), ("dict", "dict", "tree"), ("bare", "dict", "one"),
                ("dict", "bare", "tree")):
    case(i, o, p, "default")
    case(i, o, p, "list", bias=True)
    case(i, o, p, "scalar", train=True, bias=True)
    case(i, o, p, "tuple", train=True, xu=True)
    case(i, o, p, "scalar", train=True, yu=True)
    case(i, o, p, "scalar", train=True, xu=True, yu=True, bias=True)
# with the uncertainty heuristic's own code instead of its contract
case("bare", "bare", "one", "list", deep=True)
case("bare", "dict", "one", "tuple", train=True, xu=True, deep=True)
case("dict", "bare", "tree", "scalar", train=True, bias=True, deep=True)
case("bare", "bare", "none", "scalar", train=True, deep=True, opts=dict(parameter_sensitivity=False))
case("bare", "bare", "one", "scalar", train=True, deep=True,
     opts=dict(input_sensitivity=False, distance_sensitivity=False))
case("pair", "matrix", "tree", "list", train=True, deep=True, opts=dict(distance_sensitivity=False))


def self_case():
    """no targets given: the inputs are the targets"""
    def build(d):
        ins = (params(PARS["one"](d)), data("X", (d.t,), d.N), data("Z", (d.t,), d.L))

        def fn(pv, X, Z):
            with contracts():
                m = SequentialModel([Plain("f", (d.t,), PARS["one"](d))])
                m.compile(0, (d.t,))
                m.set_params([pv])
                c = ConfU(m)
                c.calibrate(X, skip_sanity_checks=True)
                return c(Z, alpha=0.2)

        def ref(pv, X, Z):
            y = lambda q: plain("f", q, pv, [(d.t,)])[0][0]
            u = lambda q: heur(q, None, [(d.t,)])[0]
            n = X.shape[0]
            qh = quantile(jnp.abs(X - y(X)) / u(X), jnp.ceil((n + 1) * (1 - 0.2)) / n)
            return y(Z), (y(Z) - qh * u(Z), y(Z) + qh * u(Z))
        return Inst(fn, ins, None, ref=ref)
    cases.append(Case("self-supervised", DIMS, build, BIG, funcs=FN, seeds=1, rtol=1e-7))


self_case()


# ---------------------------------------------------------- real models, natively
AL = [0.01, 0.05, 0.1, 0.25, 1 / 3, 0.5, 0.75, 0.95, 0.999]


def real(part, parts=4):
    def run(rep):
        from .confnum import situations, Num, close, lv
        for k, (nm, m, kw, X, Y, Z, Zu) in enumerate(situations(1)):
            if k % parts != part:
                continue

            def go():
                c = ConformalizedModel(m, alpha=0.4)
                c.calibrate(X, Y, skip_sanity_checks=True, **kw)
                N = Num(m, X, Y, nnq=c.nn_dist_quantile, **kw)
                inp = dict(model=m, options=dict(kw), X_cal=X, Y_cal=Y, X=Z, X_unc=Zu)
                y, many = c(Z, X_unc=Zu, alpha=AL)
                need(close(y, N.predict(Z)), f"{nm}: prediction with bias correction", got=y,
                     expected=N.predict(Z), **inp)
                need(close(c.scores, N.scores), f"{nm}: scores", got=c.scores,
                     expected=N.scores, **inp)
                last = None
                for a, b in [(0.4, c(Z, X_unc=Zu)[1])] + list(zip(AL, many)):
                    lo, hi = N.bands(Z, a, Zu)
                    need(close(b[0], lo) and close(b[1], hi), f"{nm}: interval at alpha={a}",
                         got=b, expected=(lo, hi), **inp)
                    need(all((l <= q).all() and (q <= h).all() for l, q, h in zip(
                        lv(b[0]), lv(y), lv(b[1]))),
                         f"{nm}: interval without the prediction at alpha={a}", got=b, **inp)
                    for s_, q_ in zip(lv(c.scores), lv(c.get_qhat(a))):
                        kmin = min(N.n, int(onp.ceil((N.n + 1) * (1 - a) - 1e-12)))
                        need(((s_ <= q_ + 1e-9).sum(0) >= kmin - (q_ < s_.max(0))).all(),
                             f"{nm}: quantile below its order statistic at alpha={a}", **inp)
                wid = [[h - l for l, h in zip(lv(b[0]), lv(b[1]))] for b in many]
                for w1, w2, a in zip(wid, wid[1:], AL[1:]):
                    need(all((x + 1e-12 >= y_).all() for x, y_ in zip(w1, w2)),
                         f"{nm}: interval wider at alpha={a} than below", **inp)
                # the same one request at a time, and from a batch of one sample each
                for a, b in zip(AL, many):
                    need(close(c(Z, X_unc=Zu, alpha=a)[1], b), f"{nm}: alpha={a} on its own "
                         "differs from the list", **inp)
            native(rep, f"real.{nm}", "interval", go,
                   "one calibration of 17 samples, 5 evaluation points, nine alphas, seed 1")
    return run


def misc(rep):
    M = pmm.modules

    def setup(n=12, t=2):
        rng = onp.random.default_rng(4)
        m = SequentialModel([M.LinearNN(t)])
        m.compile(1, (2,))
        X, Y = jnp.asarray(rng.normal(size=(n, 2))), jnp.asarray(rng.normal(size=(n, t)))
        return m, X, Y, jnp.asarray(rng.normal(size=(3, 2)))

    def refused():
        m, X, Y, Z = setup()
        c = ConformalizedModel(m)
        for f in (lambda: c(Z), lambda: c.get_qhat(0.1)):
            try:
                f()
                need(False, "intervals from a model that was not calibrated")
            except ValueError:
                pass
        c.calibrate(X, Y, skip_sanity_checks=True)
        for a in (0.0, 1.0, -0.1, 1.5, [0.1, 0.0], (0.5, 2.0)):
            for f in (lambda: c(Z, alpha=a), lambda: c.get_qhat(a)):
                try:
                    f()
                    need(False, "alpha outside of (0, 1) accepted", alpha=a)
                except ValueError:
                    pass
    native(rep, "alpha", "refused", refused, "six alphas outside of (0, 1)")

    def sizes():
        for n in (1, 2, 3, 9, 10, 19, 20, 21):
            m, X, Y, Z = setup(n + 1)
            c = ConformalizedModel(m)
            c.calibrate(X[:n + 1], Y[:n + 1], skip_sanity_checks=True)
            s = onp.sort(onp.asarray(c.scores), axis=0)
            n_ = n + 1
            for a in (0.05, 0.1, 0.2, 0.5, 0.9):
                lev = min(1.0, onp.ceil((n_ + 1) * (1 - a)) / n_)
                want = onp.quantile(s, lev, axis=0)
                need(onp.allclose(c.get_qhat(a), want), "quantile of the scores", n=n_, alpha=a,
                     got=c.get_qhat(a), expected=want)
    native(rep, "sizes", "quantile", sizes, "calibration sets of 2 to 22 samples")


if __name__ == "__main__":
    main("C01", cases, [real(k) for k in range(4)] + [misc])
