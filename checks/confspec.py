"""Set-up shared by the conformal checks: an opaque model, the callees that are
replaced by their contracts, and the documented formulas."""
from .opq import *
from parametricmatrixmodels import SequentialModel
from parametricmatrixmodels.conformal import conformalizedmodel as CC
from parametricmatrixmodels.conformal import ConformalizedModel

isl = dict(is_leaf=is_shape)
tm = jax.tree.map


class Plain(Opaque):
    """an opaque stateless module: rows of the output are an arbitrary smooth
    function of the same rows of the input and of the parameters"""

    def _get_callable(self):
        def g(params, data, training, state, rng):
            sh = tm(lambda x: tuple(x.shape[1:]), data)
            ol, ot = jax.tree.flatten(self.get_output_shape(sh), **isl)
            return jax.tree.unflatten(ot, plain(self.tag, data, params, ol)[0]), state
        return g


def plain(tag, data, params, ol):
    dl, pl = jax.tree.leaves(data), jax.tree.leaves(params)
    b = dl[0].shape[0]
    ins = dl + pl
    mask = tuple([True] * len(dl) + [False] * len(pl))
    outs = tuple(((b,) + tuple(s), onp.dtype(onp.float64)) for s in ol)
    ys = opaque.bind(tag, ins, outs, row=mask)
    J = lambda k, j: opaque.jac(tag, k, j, ins, outs, mask)
    return (ys, lambda: [[J(k, j) for j in range(len(dl))] for k in range(len(ol))],
            lambda: [[J(k, len(dl) + j) for j in range(len(pl))] for k in range(len(ol))])


# input trees, output trees, parameter trees by name
INS = {"bare": lambda d: (d.f,), "pair": lambda d: ((d.f,), (d.g, d.f)),
       "dict": lambda d: {"s": [(d.g,)], "r": (d.f,)}}
OUTS = {"bare": lambda d: (d.t,), "matrix": lambda d: (d.t, d.u),
        "dict": lambda d: {"y": (d.t,), "x": [(d.u, d.t)]}}
PARS = {"one": lambda d: [(d.p,)], "tree": lambda d: {"v": (d.p, d.q), "u": [(d.p,)]},
        "none": lambda d: None}
CFG = [dict(N=5, M=4, L=2, f=2, g=1, t=2, u=1, p=2, q=1),
       dict(N=4, M=3, L=3, f=1, g=2, t=1, u=2, p=1, q=3)]
DIMS = "N M L f g t u p q"


def data(nm, shape, rows, **kw):
    ls, td = jax.tree.flatten(shape, **isl)
    return jax.tree.unflatten(td, [In(f"{nm}{k}", (rows,) + tuple(s), **kw)
                                   for k, s in enumerate(ls)])


def params(shape):
    if shape is None:
        return ()
    ls, td = jax.tree.flatten(shape, **isl)
    return jax.tree.unflatten(td, [In(f"p{k}", tuple(s)) for k, s in enumerate(ls)])


def model(d, i, o, p, pv):
    m = SequentialModel([Plain("f", OUTS[o](d), PARS[p](d))])
    m.compile(0, INS[i](d))
    if PARS[p](d) is not None:
        m.set_params([pv])
    return m


# ---- callees under contract
def norm_contract(dat, weights=None, eps=1e-12):
    """pytree_robust_normalization: for every array some positive statistic of
    its samples (C03 proves which)"""
    if dat is None:
        return None
    if weights is None:
        return tm(lambda x: _pos(opaque.bind("norm", [x], [(x.shape[1:], onp.float64)])[0]), dat)
    return tm(lambda x, w: _pos(opaque.bind("wnorm", [x, w], [(x.shape[1:], onp.float64)])[0]),
              dat, weights)


def _pos(x):
    return 0.5 + x * x


class Tree:
    """scipy.spatial.KDTree: queries are functions of the rows asked for"""

    def __init__(self, dat):
        self.data = dat

    def query(self, x, k=1, p=2.0, workers=1):
        assert p == 1.0
        sh = (x.shape[0],) if k == 1 else (x.shape[0], k)
        return opaque.bind(f"kd{k}", [x, self.data], [(sh, onp.float64)],
                           row=(True, False))[0], None


class Conf(ConformalizedModel):
    """the distance sensitivity by its contract: a function of the row, over the
    normalisation"""

    def distance_sensitivity(self, X, dtype=None, normalize=True, **kw):
        if not pmm.tree_util.any(self._distance_sensitivity):
            return None
        r = dist_raw(X)
        return r / self._norm_S_dist if normalize else r


class ConfU(Conf):
    """the whole uncertainty heuristic by its contract (proved in C03): once
    calibrated, a positive function of the row and its stated uncertainty"""

    def uncertainty_heuristic(self, X, X_unc=None, **kw):
        sh, td = jax.tree.flatten(self.model.output_shape, **isl)
        return jax.tree.unflatten(td, heur(X, X_unc, sh))

    def parameter_sensitivity(self, X, **kw):
        return None
    input_sensitivity = parameter_sensitivity


def heur(X, Xu, sh):
    ls = jax.tree.leaves(X) + jax.tree.leaves(Xu)
    return [_pos(u) for u in opaque.bind(
        "heur", ls, tuple(((ls[0].shape[0],) + tuple(s), onp.dtype(onp.float64)) for s in sh),
        row=(True,) * len(ls))]


def dist_raw(X):
    ls = jax.tree.leaves(X)
    return _pos(opaque.bind("dist", ls, [((ls[0].shape[0], 1), onp.float64)],
                            row=(True,) * len(ls))[0])


def quantile(x, q, axis=0, **kw):
    """jax.numpy.quantile: for every level a function of the data and the level
    (the real one where the number of samples is a number)"""
    assert axis == 0 and not kw
    if all(isinstance(s, int) for s in x.shape):
        return jnp.quantile(x, q, axis=0)
    one = lambda l: opaque.bind("quantile", [x, l], [(x.shape[1:], onp.float64)])[0]
    q = jnp.asarray(q, dtype=jnp.float64)
    return one(q) if q.ndim == 0 else jnp.stack([one(q[k]) for k in range(q.shape[0])])


def median(x, axis=0):
    return quantile(x, 0.5, axis)


def contracts():
    return Patched((CC, "np", EagerNp(over=dict(unique=lambda x, axis=None: x,
                                                quantile=quantile, median=median))),
                   (CC, "KDTree", Tree),
                   (CC, "pytree_robust_normalization", norm_contract))


# ---- the documented formulas
def fin(x):
    """derivatives and scales that are not finite count as zero"""
    return jnp.where(jnp.isfinite(x), x, jnp.zeros_like(x))


class Ref:
    """X, Y: calibration data; options as given to calibrate"""

    def __init__(self, d, i, o, p, pv, X, Y, Xu=None, Yu=None, Xt=None, psel=True, isel=True,
                 dsel=True, cont=None, bias=False, heur_=False):
        self.o, self.pv = OUTS[o](d), pv
        self.osh, self.ot = jax.tree.flatten(self.o, **isl)
        full = lambda v, t: tm(lambda _: v, t) if isinstance(v, bool) else v
        self.psel = jax.tree.leaves(full(psel, [pv] if PARS[p](d) is not None else []))
        self.isel = jax.tree.leaves(full(isel, X))
        self.dsel = jax.tree.leaves(full(dsel, X))
        self.cont = jax.tree.leaves(full(True if cont is None else cont, X))
        self.Xt = Xt
        self.X = X
        self.heur = heur_
        if heur_:
            self.psel = self.isel = self.dsel = [False]
        w = None if Yu is None else [1 / y for y in jax.tree.leaves(Yu)]
        nrm = lambda s: norm_contract(s) if w is None else [
            norm_contract(a, b) for a, b in zip(s, w)]
        if any(self.psel):
            self.np_ = nrm(self.sp(X))
        if Xt is not None:
            if any(self.isel):
                self.ni = nrm(self.si(X, Xu))
            if any(self.dsel):
                self.nd = norm_contract(dist_raw(X))
        pred = self.f(X)
        tgt = jax.tree.leaves(X if Y is None else Y)
        self.bias = [median(t - y, axis=0) if bias else jnp.zeros(y.shape[1:])
                     for t, y in zip(tgt, pred)]
        u = self.u(X, Xu)
        self.scores = [jnp.abs(t - (y + b)) / v for t, y, b, v in
                       zip(tgt, pred, self.bias, u)]

    def f(self, Z):
        return plain("f", Z, self.pv, self.osh)[0]

    def sp(self, Z):
        """sum of |dy/dp p|^2 over the selected parameters, over their number"""
        J = plain("f", Z, self.pv, self.osh)[2]()
        pl = jax.tree.leaves(self.pv)
        cnt = sum(x.size for x, s in zip(pl, self.psel) if s)
        out = []
        for k, sh in enumerate(self.osh):
            tot = 0
            for j, (x, s) in enumerate(zip(pl, self.psel)):
                if s:
                    tot = tot + jnp.sum(jnp.abs(fin(J[k][j]) * fin(x)) ** 2,
                                        axis=tuple(range(1 + len(sh), 1 + len(sh) + x.ndim)))
            out.append(tot / cnt)
        return out

    def si(self, Z, Zu=None):
        J = plain("f", Z, self.pv, self.osh)[1]()
        zl = jax.tree.leaves(Z)
        xt = jax.tree.leaves(self.Xt)
        use = [a and b for a, b in zip(self.isel, self.cont)]
        iqr = [quantile(x, 0.75, axis=0) - quantile(x, 0.25, axis=0) for x in xt]
        cnt = sum(jnp.prod(jnp.array(x.shape[1:])) for x, s in zip(zl, use) if s)
        out = []
        for k, sh in enumerate(self.osh):
            tot = 0
            for j, s in enumerate(use):
                if not s:
                    continue
                ax = tuple(range(1 + len(sh), 1 + len(sh) + iqr[j].ndim))
                tot = tot + jnp.sum(jnp.abs(fin(J[k][j]) * fin(iqr[j])) ** 2, axis=ax)
                if Zu is not None:
                    z = jax.tree.leaves(Zu)[j]
                    z = z.reshape(z.shape[:1] + (1,) * len(sh) + z.shape[1:])
                    tot = tot + jnp.sum(jnp.abs(fin(J[k][j]) * fin(z)) ** 2, axis=ax)
            out.append(tot / cnt)
        return out

    def u(self, Z, Zu=None):
        if self.heur:
            return heur(Z, Zu, self.osh)
        u = [jnp.zeros((jax.tree.leaves(Z)[0].shape[0],) + tuple(s)) for s in self.osh]
        if any(self.psel):
            u = [a + b / c for a, b, c in zip(u, self.sp(Z), self.np_)]
        if self.Xt is not None:
            if any(self.isel):
                u = [a + b / c for a, b, c in zip(u, self.si(Z, Zu), self.ni)]
            if any(self.dsel):
                r = (dist_raw(Z) / self.nd)[:, 0]
                u = [a + r.reshape(r.shape + (1,) * (a.ndim - 1)) for a in u]
        return u

    def tree(self, ls):
        return jax.tree.unflatten(self.ot, ls)

    def qhat(self, a):
        n = jax.tree.leaves(self.X)[0].shape[0]
        return [quantile(s, jnp.ceil((n + 1) * (1 - a)) / n, axis=0) for s in self.scores]

    def predict(self, Z):
        return [y + b for y, b in zip(self.f(Z), self.bias)]

    def bands(self, Z, a, Zu=None):
        u, q, y = self.u(Z, Zu), self.qhat(a), self.predict(Z)
        return (self.tree([y_ - q_ * u_ for y_, q_, u_ in zip(y, q, u)]),
                self.tree([y_ + q_ * u_ for y_, q_, u_ in zip(y, q, u)]))
