"""C03: the uncertainty heuristics are the documented sensitivities."""
from .confspec import *
import warnings

cases = []
FN = ["conformal." + x for x in ("ConformalizedModel.calibrate", "ConformalizedModel.parameter_sensitivity",
      "ConformalizedModel.input_sensitivity", "ConformalizedModel.uncertainty_heuristic",
      "handle_naninf", "accumulate_sum_sq_over_output_leaves")]


def opts(d, i, p, which):
    """selection masks: (calibrate options, Ref options)"""
    X = tm(lambda s: True, INS[i](d), **isl)
    P = [tm(lambda s: True, PARS[p](d), **isl)] if PARS[p](d) is not None else [()]
    alt = lambda t, k0: jax.tree.unflatten(jax.tree.structure(t), [
        k % 2 == k0 for k in range(len(jax.tree.leaves(t)))])
    o = {
        "all": {},
        "noparam": dict(parameter_sensitivity=False),
        "noinput": dict(input_sensitivity=False),
        "nodist": dict(distance_sensitivity=False),
        "mask": dict(parameter_sensitivity=alt(P, 0), input_sensitivity=alt(X, 0),
                     distance_sensitivity=alt(X, 0)),
        "mask1": dict(parameter_sensitivity=alt(P, 1), input_sensitivity=alt(X, 1),
                      distance_sensitivity=False),
        "cat": dict(continuous_features=alt(X, 0), distance_sensitivity=alt(X, 0)),
    }[which]
    r = dict(psel=o.get("parameter_sensitivity", True), isel=o.get("input_sensitivity", True),
             dsel=o.get("distance_sensitivity", True), cont=o.get("continuous_features"))
    return o, r


def case(i, o, p, which, train, xu=False, yu=False):
    def build(d):
        ins = [params(PARS[p](d)), data("X", INS[i](d), d.N), data("Y", OUTS[o](d), d.N),
               data("Z", INS[i](d), d.L)]
        names = ["pv", "X", "Y", "Z"]
        if train:
            ins.append(data("T", INS[i](d), d.M)); names.append("Xt")
        if xu:
            ins += [data("Xu", INS[i](d), d.N), data("Zu", INS[i](d), d.L)]; names += ["Xu", "Zu"]
        if yu:
            ins.append(data("Yu", OUTS[o](d), d.N, gen="pos")); names.append("Yu")

        def fn(*a):
            v = dict(zip(names, a))
            co, _ = opts(d, i, p, which)
            with contracts():
                c = Conf(model(d, i, o, p, v["pv"]))
                c.calibrate(v["X"], v["Y"], X_cal_unc=v.get("Xu"), Y_cal_unc=v.get("Yu"),
                            X_train=v.get("Xt"), skip_sanity_checks=True, **co)
                r = [c.uncertainty_heuristic(v["Z"], X_unc=v.get("Zu"))]
                r.append(c.parameter_sensitivity(v["Z"]))
                r.append(c.parameter_sensitivity(v["Z"], normalize=False))
                if train:
                    r.append(c.input_sensitivity(v["Z"], X_unc=v.get("Zu")))
                    r.append(c.input_sensitivity(v["Z"], normalize=False))
            return r

        def ref(*a):
            v = dict(zip(names, a))
            R = Ref(d, i, o, p, v["pv"], v["X"], v["Y"], Xu=v.get("Xu"), Yu=v.get("Yu"),
                    Xt=v.get("Xt"), **opts(d, i, p, which)[1])
            div = lambda s, n: R.tree([x / y for x, y in zip(s, n)])
            r = [R.tree(R.u(v["Z"], v.get("Zu")))]
            if any(R.psel):
                s = R.sp(v["Z"])
                r += [div(s, R.np_), R.tree(s)]
            else:
                r += [None, None]
            if train:
                if any(R.isel):
                    r += [div(R.si(v["Z"], v.get("Zu")), R.ni), R.tree(R.si(v["Z"]))]
                else:
                    r += [None, None]
            return r
        return Inst(fn, tuple(ins), None, ref=ref)
    nm = f"u.{i}.{o}.{p}.{which}" + (".train" if train else "") + (".xunc" if xu else "") + (
        ".yunc" if yu else "")
    cases.append(Case(nm, DIMS, build, CFG, funcs=FN, seeds=1, rtol=1e-7))


for i, o, p in (("bare", "bare", "one"), ("pair", "matrix", "tree"), ("dict", "dict", "tree"),
                ("bare", "dict", "tree"), ("dict", "bare", "one")):
    case(i, o, p, "all", False)
    case(i, o, p, "all", True)
    case(i, o, p, "all", True, xu=True)
    case(i, o, p, "nodist", True, yu=True)
    case(i, o, p, "noinput", True)
    case(i, o, p, "noparam", True)
    if i != "bare":
        case(i, o, p, "cat", True, xu=True)
    if i != "bare" and p == "tree":
        case(i, o, p, "mask", True)
        case(i, o, p, "mask1", True, xu=True)
case("bare", "bare", "none", "noparam", True)


# ---------------------------------------------------------- normalisation
def q_(x, a):
    return jnp.quantile(x, a, axis=0)


def interp(x, xp, fp):
    """jax.numpy.interp: a function of its arguments"""
    return opaque.bind("interp", [jnp.asarray(x), xp, fp], [(jnp.shape(x), onp.float64)])[0]


def wq_(x, w, a, itp):
    """quantile of the values in increasing order, by cumulated weight"""
    o = jnp.argsort(x, axis=0)
    xs = jnp.take_along_axis(x, o, axis=0)
    cw = jnp.cumsum(jnp.take_along_axis(w, o, axis=0), axis=0)
    f1 = lambda c, v: itp(a * c[-1], c, v)
    for _ in range(x.ndim - 1):
        f1 = jax.vmap(f1, in_axes=-1, out_axes=-1)
    return f1(cw, xs)


def spreads(x, w, itp):
    if w is None:
        med = jnp.median(x, axis=0)
        mad = jnp.median(jnp.abs(x - med), axis=0)
        rng = lambda lo, hi: q_(x, hi) - q_(x, lo)
    else:
        med = wq_(x, w, 0.5, itp)
        mad = wq_(jnp.abs(x - med), w, 0.5, itp)
        # both quantiles are interpolated in one call
        rng = lambda lo, hi: (lambda q: q[1] - q[0])(wq_(x, w, jnp.array([lo, hi]), itp))
    return [mad, rng(0.25, 0.75), rng(0.05, 0.95), jnp.max(x, axis=0) - jnp.min(x, axis=0)]


EPS = 1e-12


def norm_case(rank, weighted):
    def build(d):
        sh = (d.N,) + (d.t, d.u)[:rank]
        ins = [In("x", sh)] + ([In("w", sh, gen="pos")] if weighted else [])
        symb = not isinstance(d.N, int)
        itp = interp if symb else jnp.interp

        def fn(x, w=None):
            with warnings.catch_warnings(), Patched(
                    (CC, "np", EagerNp(over=dict(interp=itp)))):
                warnings.simplefilter("ignore")
                paths = all_paths(lambda: CC.robust_normalization(x, w))
            sp = spreads(x, w, itp)
            if not symb:
                want = next((s for s in sp if not bool(jnp.any(s < EPS))),
                            jnp.full_like(sp[0], jnp.inf))
                return paths[0][2], want
            return [(c, [jnp.asarray(o) for o in os_], r) for c, os_, r in paths], sp, [
                jnp.any(s < EPS) for s in sp]

        def goals(out, x, w=None):
            if not symb:
                return [Goal("value", "eq", out[0], out[1])]
            paths, sp, small = out
            s = [z[()] for z in small]
            gs = []
            for k, (conds, outs, r) in enumerate(paths):
                # the path condition: every test had the outcome followed
                here = [T.bor(T.band(o[()], c[()]), T.band(T.bnot(o[()]), T.bnot(c[()])))
                        for c, o in zip(conds, outs)]

                def g(*ix, r=r, here=here):
                    v, parts = r[ix], []
                    for j in range(4):
                        first = s[:j] + [T.bnot(s[j])]
                        same = T.eq(v, sp[j][ix])
                        if rank == 0:     # one number: it is also bounded away from zero
                            same = T.band(same, T.ge(v, P(T.Fraction(1, 10**12))))
                        parts.append(T.bor(*[T.bnot(b) for b in here + first], same))
                    return T.band(*parts)
                gs.append(Goal(f"path{k}", "true", g, ranges=r.shape))
            return gs
        return Inst(fn, tuple(ins), None, goals)
    cases.append(Case(f"norm.rank{rank}" + (".weighted" if weighted else ""), DIMS, build, CFG,
                      funcs=["conformal.robust_normalization", "conformal.mad",
                             "conformal.weighted_quantile"], seeds=2))


for r_ in (0, 1, 2):
    norm_case(r_, False)
    if r_ < 2:
        norm_case(r_, True)



# ---------------------------------------------------------- real models, natively
def real(part, parts=4):
    def run(rep):
        from .confnum import situations, Num, close
        for k, (nm, m, kw, X, Y, Z, Zu) in enumerate(situations()):
            if k % parts != part:
                continue

            def go():
                c = ConformalizedModel(m)
                c.calibrate(X, Y, skip_sanity_checks=True, **kw)
                N = Num(m, X, Y, nnq=c.nn_dist_quantile, **kw)
                inp = dict(model=m, options={a: b for a, b in kw.items()}, X_cal=X, Y_cal=Y, X=Z, X_unc=Zu)
                got = c.uncertainty_heuristic(Z, X_unc=Zu)
                need(close(got, N.u(Z, Zu)), f"{nm}: the uncertainty is not the sum of the "
                     "documented sensitivities", got=got, expected=N.u(Z, Zu), **inp)
                need(all((onp.asarray(g) >= 0).all() for g in jax.tree.leaves(got)),
                     f"{nm}: negative uncertainty", **inp)
                T_ = kw.get("X_train") is not None
                for on, have, raw, norm in (
                        (any(N.ps), lambda **a: c.parameter_sensitivity(Z, **a),
                         lambda: N.sp(Z), lambda: N.np_),
                        (T_ and any(N.is_), lambda **a: c.input_sensitivity(Z, X_unc=Zu, **a),
                         lambda: N.si(Z, Zu), lambda: N.ni),
                        (T_ and any(N.ds), lambda **a: c.distance_sensitivity(Z, **a),
                         lambda: [N.dist(Z)], lambda: [N.nd])):
                    if on:
                        need(close(have(normalize=False), raw()), f"{nm}: sensitivity",
                             got=have(normalize=False), expected=raw(), **inp)
                        want = [a / b for a, b in zip(raw(), norm())]
                        need(close(have(), want), f"{nm}: normalised sensitivity", got=have(),
                             expected=want, **inp)
                    elif T_:
                        need(have() is None, f"{nm}: a disabled sensitivity is not None", **inp)
            native(rep, f"real.{nm}", "formula", go,
                   "one calibration of 17 samples, 5 evaluation points, random seed 0")
    return run


def wq(rep):
    from .confnum import wquant
    """weighted quantiles of small samples with ties and integer weights, against
    the quantile by cumulated weight"""
    def go():
        rng = onp.random.default_rng(2)
        for n in range(1, 7):
            for rep_ in range(8):
                x = rng.integers(0, 4, size=(n, 2)).astype(float)
                w = rng.integers(1, 4, size=(n, 2)).astype(float)
                if rep_ % 2:
                    x = x + rng.normal(size=x.shape)
                for q in (0.05, 0.25, 0.5, 0.75, 0.95):
                    got = onp.asarray(CC.weighted_quantile(jnp.asarray(x), jnp.asarray(w), quantiles=q))
                    want = onp.array([wquant(x[:, j], w[:, j], q) for j in range(2)])
                    # equal values may be ordered either way: both have their cumulated weight
                    if len(set(x[:, 0])) == n and len(set(x[:, 1])) == n:
                        need(onp.allclose(got, want), "weighted quantile", x=x, w=w, q=q,
                             got=got, expected=want)
                    need((got >= x.min(0) - 1e-12).all() and (got <= x.max(0) + 1e-12).all(),
                         "weighted quantile outside of the data", x=x, w=w, q=q, got=got)
    native(rep, "weighted_quantile", "formula", go, "samples of up to 6 values")


def types(rep):
    typed(rep, "annotations", "accepted", """
from parametricmatrixmodels import SequentialModel, modules as M
from parametricmatrixmodels.conformal import ConformalizedModel as CM
jax.config.update('jax_enable_x64', True)
rng = onp.random.default_rng(0)
A = lambda *s: jnp.asarray(rng.normal(size=s))
C = lambda n, k: jnp.asarray(rng.integers(0, 3, size=(n, k)).astype(float))
m = SequentialModel([M.ConcatenateLeaves(), M.LinearNN(2)]); m.compile(0, ((2,), (3,)))
X, T, Z = (A(20, 2), C(20, 3)), (A(30, 2), C(30, 3)), (A(4, 2), C(4, 3))
for kw in (dict(), dict(X_train=T), dict(X_train=T, X_cal_unc=(abs(A(20, 2)), abs(A(20, 3)))),
           dict(Y_cal_unc=abs(A(20, 2)) + .1), dict(X_train=T, distance_sensitivity=False),
           dict(X_train=T, parameter_sensitivity=False), dict(X_train=T, input_sensitivity=False),
           dict(X_train=T, stratified_bias_corrections=(False, True))):
    c = CM(m)
    c.calibrate(X, A(20, 2), continuous_features=(True, False), skip_sanity_checks=True, **kw)
    u = c.uncertainty_heuristic(Z)
    assert u.shape == (4, 2)
    c.parameter_sensitivity(Z)
    if 'X_train' in kw:
        c.input_sensitivity(Z); c.distance_sensitivity(Z)
    y, (l, h) = c(Z)
    assert bool((l <= y).all() and (y <= h).all())
""", "eight settings of calibrate")


if __name__ == "__main__":
    main("C03", cases, [real(k) for k in range(4)] + [wq, types])
