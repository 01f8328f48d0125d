"""The documented conformal quantities, computed directly from their definitions
(numpy, brute force) for the natively run checks of real models."""
from .confspec import *


def lv(t):
    return [onp.asarray(x) for x in jax.tree.leaves(t)]


def full(v, t, **kw):
    return [v] * len(jax.tree.leaves(t, **kw)) if isinstance(v, bool) else [bool(x) for x in jax.tree.leaves(v)]


def zero(x):
    return onp.where(onp.isfinite(x), x, 0)


def wquant(x, w, q):
    o = onp.argsort(x, kind="stable")
    c = onp.cumsum(w[o])
    return onp.interp(onp.asarray(q) * c[-1], c, x[o])


def spread(x, w=None):
    """first of MAD, interquartile range, 5-95 % range, full range that is nowhere
    vanishing"""
    n, sh = x.shape[0], x.shape[1:]
    xf = x.reshape(n, -1)
    wf = None if w is None else w.reshape(n, -1)
    cand = []
    for k in range(4):
        col = []
        for j in range(xf.shape[1]):
            v = xf[:, j]
            if wf is None:
                Q = lambda z, q: onp.quantile(z, q)
            else:
                Q = lambda z, q, j=j: wquant(z, wf[:, j], q)
            med = Q(v, 0.5)
            col.append([lambda: Q(abs(v - med), 0.5), lambda: Q(v, 0.75) - Q(v, 0.25),
                        lambda: Q(v, 0.95) - Q(v, 0.05), lambda: v.max() - v.min()][k]())
        cand.append(onp.array(col).reshape(sh))
    for c in cand:
        if not (c < 1e-12).any():
            return c
    return onp.full(sh, onp.inf)


def gower(a, b, rng, cont):
    """L1 distance over the training range of continuous components, 0/1 for
    categorical features"""
    d = 0.0
    for x, y, r, c in zip(a, b, rng, cont):
        d += onp.sum(onp.abs(x - y) / r) if c else float((x != y).any())
    return d


class Num:
    def __init__(self, m, X, Y, X_cal_unc=None, Y_cal_unc=None, X_train=None,
                 parameter_sensitivity=True, input_sensitivity=True, distance_sensitivity=True,
                 continuous_features=True, stratified_bias_corrections=False, nnq=0.95):
        self.m, self.ot = m, jax.tree.structure(m.output_shape, **isl)
        self.ps = full(parameter_sensitivity, m.get_params())
        self.is_ = full(input_sensitivity, X)
        self.ds = full(distance_sensitivity, X)
        self.ct = full(True if continuous_features is None else continuous_features, X)
        self.T = None if X_train is None else lv(X_train)
        self.X, self.n = X, lv(X)[0].shape[0]
        w = [None] * 99 if Y_cal_unc is None else [1 / y for y in lv(Y_cal_unc)]
        if self.T is not None and any(self.ds):
            sel = [k for k, s in enumerate(self.ds) if s]
            self.sel, self.rg = sel, [self.T[k].max(0) - self.T[k].min(0) if self.ct[k] else None
                                      for k in sel]
            pts = [[self.T[k][i] for k in sel] for i in range(len(self.T[0]))]
            uniq = []
            for p in pts:
                if not any(all((x == y).all() for x, y in zip(p, q)) for q in uniq):
                    uniq.append(p)
            self.pts, ct = uniq, [self.ct[k] for k in sel]
            nn = [min(gower(p, q, self.rg, ct) for q in uniq if q is not p) for p in uniq]
            self.cut = onp.quantile(nn, nnq)
        if any(self.ps):
            self.np_ = [spread(s, ww) for s, ww in zip(self.sp(X), w)]
        if self.T is not None:
            if any(self.is_):
                self.ni = [spread(s, ww) for s, ww in zip(self.si(X, X_cal_unc), w)]
            if any(self.ds):
                self.nd = spread(self.dist(X))
        tgt = lv(X if Y is None else Y)
        pred = lv(m(X))
        self.sb = stratified_bias_corrections
        if self.sb is True:
            self.b = [onp.median(t - p, axis=0) for t, p in zip(tgt, pred)]
        elif self.sb is not False and any(full(self.sb, X)):
            self.strata = {}
            key = self.keys(X)
            for k in set(key):
                rows = [i for i, kk in enumerate(key) if kk == k]
                self.strata[k] = [onp.median((t - p)[rows], axis=0) for t, p in zip(tgt, pred)]
        y = self.predict(X)
        self.scores = [abs(t - p) / u for t, p, u in zip(tgt, y, self.u(X, X_cal_unc))]

    def keys(self, Z):
        ls = [x for x, s in zip(lv(Z), full(self.sb, Z)) if s]
        return [tuple(tuple(x[i].ravel()) for x in ls) for i in range(len(lv(Z)[0]))]

    def predict(self, Z):
        y = lv(self.m(Z))
        if self.sb is True:
            return [a + b for a, b in zip(y, self.b)]
        if self.sb is False or not any(full(self.sb, Z)):
            return y
        out = [a.copy() for a in y]
        for i, k in enumerate(self.keys(Z)):
            for j in range(len(out)):
                out[j][i] += self.strata[k][j] if k in self.strata else 0.0
        return out

    def jac(self, Z, wrt):
        """derivative of every sample's outputs, one sample at a time"""
        f = self.m._get_callable()
        st, n = self.m.get_state(), lv(Z)[0].shape[0]
        res = None
        for i in range(n):
            row = tm(lambda x: jnp.asarray(x)[i:i + 1], Z)
            if wrt == "p":
                J = jax.jacrev(lambda p: f(p, row, False, st, jax.random.key(0))[0])(
                    self.m.get_params())
            else:
                J = jax.jacrev(lambda r: f(self.m.get_params(), r, False, st,
                                           jax.random.key(0))[0])(row)
            Jl = [
                jax.tree.leaves(s) for s in jax.tree.structure(self.m(Z)).flatten_up_to(J)]
            Jl = [[onp.asarray(a)[0] for a in r] for r in Jl]
            res = [[[a] for a in r] for r in Jl] if res is None else [
                [q + [a] for q, a in zip(qr, r)] for qr, r in zip(res, Jl)]
        return [[onp.stack(q) for q in r] for r in res]

    def sp(self, Z):
        J, pl = self.jac(Z, "p"), lv(self.m.get_params())
        cnt = sum(x.size for x, s in zip(pl, self.ps) if s)
        out = []
        for r in J:
            out.append(sum((abs(zero(a) * zero(x)) ** 2).reshape(
                a.shape[:a.ndim - x.ndim] + (-1,)).sum(-1)
                for a, x, s in zip(r, pl, self.ps) if s) / cnt)
        return out

    def si(self, Z, Zu=None):
        use = [a and b for a, b in zip(self.is_, self.ct)]
        J, zl = self.jac(Z, "x"), lv(Z)
        cnt = sum(x[0].size for x, s in zip(zl, use) if s)
        out = []
        for r in J:
            tot = 0
            for k, s in enumerate(use):
                if not s:
                    continue
                a = zero(r[k])
                a = a.reshape(a.shape[:a.ndim - zl[k].ndim] + (-1,))   # row axis of the input: 1
                q = (onp.quantile(self.T[k], .75, axis=0) - onp.quantile(self.T[k], .25, axis=0)).ravel()
                tot = tot + (abs(a * zero(q)) ** 2).sum(-1)
                if Zu is not None:
                    z = zero(lv(Zu)[k].reshape(len(a), -1))
                    tot = tot + (abs(a * z.reshape((len(a),) + (1,) * (a.ndim - 2) + (-1,))) ** 2).sum(-1)
            out.append(tot / cnt)
        return out

    def dist(self, Z):
        ct = [self.ct[k] for k in self.sel]
        num = sum(lv(Z)[k][0].size if self.ct[k] else 1 for k in self.sel)
        out = []
        for i in range(len(lv(Z)[0])):
            p = [lv(Z)[k][i] for k in self.sel]
            d = onp.array([gower(p, q, self.rg, ct) for q in self.pts])
            near = d[d <= self.cut]
            out.append(max(d.min(), near.mean() if len(near) else 0.0) / num)
        return onp.array(out)[:, None]

    def u(self, Z, Zu=None):
        r = [onp.zeros(y.shape) for y in lv(self.m(Z))]
        if any(self.ps):
            r = [a + b / c for a, b, c in zip(r, self.sp(Z), self.np_)]
        if self.T is not None:
            if any(self.is_):
                r = [a + b / c for a, b, c in zip(r, self.si(Z, Zu), self.ni)]
            if any(self.ds):
                q = (self.dist(Z) / self.nd)[:, 0]
                r = [a + q.reshape((-1,) + (1,) * (a.ndim - 1)) for a in r]
        return r

    def qhat(self, a):
        lev = min(1.0, onp.ceil((self.n + 1) * (1 - a)) / self.n)
        return [onp.quantile(s, lev, axis=0) for s in self.scores]

    def bands(self, Z, a, Zu=None):
        y, u, q = self.predict(Z), self.u(Z, Zu), self.qhat(a)
        return [b - c * d for b, c, d in zip(y, q, u)], [b + c * d for b, c, d in zip(y, q, u)]


def close(a, b, tol=1e-7):
    a, b = lv(a), lv(b)
    return len(a) == len(b) and all(
        x.shape == y.shape and onp.allclose(x, y, rtol=tol, atol=1e-9) for x, y in zip(a, b))


# ---- real models and data
def situations(seed=0):
    """(name, model, calibration options as keyword arguments, X, Y, Z, Zu)"""
    M = pmm.modules
    rng = onp.random.default_rng(seed)
    A = lambda *s: jnp.asarray(rng.normal(size=s))
    C = lambda n, k, hi=3: jnp.asarray(rng.integers(0, hi, size=(n, k)).astype(float))

    def mk(mods, shape):
        m = SequentialModel(mods)
        m.compile(3, shape)
        m.set_precision(64)
        return m
    one = lambda: mk([M.LinearNN(2)], (3,))
    mat = lambda: mk([M.AffineHermitianMatrix(2), M.Eigenvalues(2)], (2,))
    herm = lambda: mk([M.LinearNN(6), M.Reshape((2, 3))], (2,))
    two = lambda: mk([M.ConcatenateLeaves(), M.LinearNN(2), M.LinearNN(3)], ((2,), (2,)))
    n, t, l = 17, 12, 5
    for nm, m, f, k in (("linear", one(), 3, 2), ("spectrum", mat(), 2, 2)):
        Z, X = A(l, f), A(n, f)
        Y = m(X) + A(n, k)
        yield f"{nm}.plain", m, {}, X, Y, Z, None
        yield f"{nm}.train", m, dict(X_train=A(t, f)), X, Y, Z, None
        yield f"{nm}.unc", m, dict(X_train=A(t, f), X_cal_unc=abs(A(n, f))), X, Y, Z, abs(A(l, f))
        yield f"{nm}.weights", m, dict(X_train=A(t, f), Y_cal_unc=abs(A(n, k)) + .2), X, Y, Z, None
        yield f"{nm}.nodist", m, dict(X_train=A(t, f), distance_sensitivity=False,
                                      stratified_bias_corrections=True), X, Y, Z, None
        yield f"{nm}.distonly", m, dict(X_train=jnp.concatenate([A(t, f)] * 2),
                                        parameter_sensitivity=False,
                                        input_sensitivity=False), X, Y, Z, None
    m = herm()
    X = A(n, 2)
    yield "matrix.train", m, dict(X_train=A(t, 2)), X, m(X) + A(n, 2, 3), A(l, 2), None
    for nm, mods in (("inf", [M.Sqrt()]), ("nan", [M.Square(), M.Sqrt()])):
        m = mk(mods + [M.LinearNN(2)], (2,))
        X, Z = abs(A(n, 2)), abs(A(l, 2)).at[0, 0].set(0.0).at[1, 1].set(0.0)
        X = X.at[2, 0].set(0.0)
        yield f"nonfinite.{nm}", m, dict(X_train=abs(A(t, 2)), X_cal_unc=abs(A(n, 2))), X, \
            m(X) + A(n, 2), Z, abs(A(l, 2))
    m = two()
    for nm, kw in (("cat", {}), ("strata", dict(stratified_bias_corrections=(False, True))),
                   ("strata.nodist", dict(stratified_bias_corrections=(False, True),
                                          distance_sensitivity=False)),
                   ("mask", dict(parameter_sensitivity=tm(lambda p: p.ndim == 2, m.get_params()),
                                 input_sensitivity=(True, False), distance_sensitivity=(True, False))),
                   ("catdist", dict(distance_sensitivity=(False, True), input_sensitivity=False))):
        X = (A(n, 2), C(n, 2))
        # every category occurs in the training data
        T_ = (A(t, 2), jnp.asarray([[i % 3, i // 3 % 3] for i in range(t)], float))
        Z = (A(l + 1, 2), jnp.concatenate([C(l, 2), jnp.full((1, 2), 9.0)]))
        if nm == "catdist":
            Z = (A(l, 2), C(l, 2))
        elif nm != "strata.nodist":
            Z = (Z[0], jnp.concatenate([Z[1][:-1], T_[1][:1]]))
        Y = m(X) + A(n, 3) + X[1][:, :1]
        yield f"tree.{nm}", m, dict(X_train=T_, continuous_features=(True, False), **kw), X, Y, Z, None
