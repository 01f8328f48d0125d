"""M03: spectral modules return the requested part of the spectrum."""
from .common import *
from vc.sym import sortperm
from vc.terms import clo, Lam, floordiv, absp
from parametricmatrixmodels.modules import Eigenvalues, Eigenvectors, Eigensystem
from parametricmatrixmodels.eigen_util import (
    select_eigenpairs_by_eigenvalue, select_eigenvalues)


def position(which, j, n, k):
    w = which.lower()[0]
    kh = floordiv(k, P(2))
    if w == "s":
        return j
    if w == "l":
        return n - k + j
    if w == "e":
        return ite(lt(j, kh), j, n - k + j)
    return floordiv(n, P(2)) - kh + j


def perm(which, n, key, i):
    if which.lower()[1] == "a":
        return sortperm(n, lambda v: key(v), i)
    return sortperm(n, lambda v: absp(key(v)), i)


def matrix_lam(X, b, n, real):
    def el(i, j):
        x = (Cx.of(X[b, i, j]) + Cx.of(X[b, j, i]).conj()) * Cx(HALF)
        return x
    return Lam([n, n], el)


def module_case(cls, which, kmode, real, tree=False):
    def build(d):
        k = d.n if kmode == "all" else (1 if kmode == "one" else d.k)
        mod = cls(num_eig=2, which=which)
        mod.num_eig = None if kmode == "all" else k
        ins = (In("X", (d.b, d.n, d.n), f64 if real else c128), In("s", ()))

        def fn(X, s):
            return call(mod, (), {"u": X} if tree else X, state=(s,))

        def spec(X, s):
            n, kk = D(d.n), D(k)

            def idx(L, j):
                def ev(v):
                    return clo("eigval", (L,), v)
                return perm(which, n, ev, position(which, j, n, kk))

            def E(b, j):
                L = matrix_lam(X, b, n, real)
                return clo("eigval", (L,), idx(L, j))

            def V(b, i, j):
                L = matrix_lam(X, b, n, real)
                q = idx(L, j)
                r = clo("eigvec.re", (L,), i, q)
                return r if real else Cx(r, clo("eigvec.im", (L,), i, q))
            aE = arr((d.b, k), E)
            aV = arr((d.b, d.n, k), V, "f" if real else "c")
            w = (lambda x: {"u": x}) if tree else (lambda x: x)
            if cls is Eigenvalues:
                o = w(aE)
            elif cls is Eigenvectors:
                o = w(aV)
            else:
                o = {"eigenvalues": w(aE), "eigenvectors": w(aV)}
            return o, (s,)
        return Inst(fn, ins, spec)
    conc = [dict(b=2, n=4, k=3), dict(b=1, n=5, k=2), dict(b=2, n=5, k=5),
            dict(b=1, n=1, k=1)]
    return Case(f"{cls.__name__}.{which}.{kmode}.{'real' if real else 'complex'}"
                + (".tree" if tree else ""),
                "b n k", build, conc if kmode != "one" else conc[:2],
                ["k<=n"], seeds=1,
                funcs=[f"modules.{cls.__name__}._get_callable",
                       "eigen_util.select_eigenpairs_by_eigenvalue",
                       "eigen_util.select_eigenpairs_by_fn"])


def select_case(which, withV, allk):
    def build(d):
        k = d.n if allk else d.k
        ins = (In("E", (d.n,), f64, gen="coarse"),) + (
            (In("V", (d.m, d.n), c128),) if withV else ())

        def fn(E, V=None):
            if not withV:
                return select_eigenvalues(E, None if allk else d.k, which)
            return select_eigenpairs_by_eigenvalue(E, V, None if allk else d.k, which)

        def spec(E, V=None):
            n, kk = D(d.n), D(k)

            def q(j):
                return perm(which, n, lambda v: E[v], position(which, j, n, kk))
            a = arr((k,), lambda j: E[q(j)])
            if not withV:
                return a
            return a, arr((d.m, k), lambda i, j: V[i, q(j)], "c")
        return Inst(fn, ins, spec)
    return Case(f"select.{which}.{'V' if withV else 'E'}.{'all' if allk else 'k'}",
                "n m k", build,
                [dict(n=5, m=2, k=3), dict(n=4, m=4, k=1), dict(n=3, m=3, k=3),
                 dict(n=6, m=1, k=4)],
                ["k<=n"],
                funcs=["eigen_util.select_eigenpairs_by_eigenvalue",
                       "eigen_util.select_eigenvalues"])


cases = []
for w in ("SA", "LA", "SM", "LM", "EA", "EM", "IA", "IM"):
    cases.append(select_case(w, True, False))
    cases.append(select_case(w.lower(), False, False))
    cases.append(select_case(w, True, True))
    for cls in (Eigenvalues, Eigenvectors, Eigensystem):
        cases.append(module_case(cls, w, "k", False))
    cases.append(module_case(Eigensystem, w, "all", True))
    cases.append(module_case(Eigenvalues, w, "one", True))
cases.append(module_case(Eigensystem, "LM", "k", False, tree=True))
cases.append(module_case(Eigenvectors, "EM", "all", False, tree=True))
cases.append(module_case(Eigenvalues, "IM", "k", True, tree=True))


def extra(rep):
    """shape validation: exactly the square shapes with n >= k are accepted"""
    for cls in (Eigenvalues, Eigenvectors, Eigensystem):
        for num in (None, 1, 2, 3):
            mod = cls(num_eig=num)
            for sh in ((1, 1), (2, 2), (3, 3), (2, 3), (3, 2), (3,), (2, 2, 2)):
                good = len(sh) == 2 and sh[0] == sh[1] and (num is None or sh[0] >= num)
                try:
                    mod.compile(None, sh)
                    acc = True
                except ValueError:
                    acc = False
                if acc != good:
                    rep.fail(f"{cls.__name__}.compile", "accepts exactly square shapes",
                             dict(num_eig=num, shape=sh, accepted=acc),
                             replay=dict(num_eig=num, shape=sh))
                    return
        rep.ok_bounded(f"{cls.__name__}.compile accepts exactly n x n, n >= num_eig",
                       "7 shapes x 4 num_eig")


if __name__ == "__main__":
    main("M03", cases, extra)
