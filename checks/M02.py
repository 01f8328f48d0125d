"""M02: affine matrix modules give exactly Hermitian, affine matrices."""
from .common import *
from parametricmatrixmodels.modules import (
    AffineHermitianMatrix, AffineTensor, LowRankAffineHermitianMatrix)
from parametricmatrixmodels.modules._smoothing import exact_smoothing_matrix


def herm(M, p, i, j):
    return (Cx.of(M[p, i, j]) + Cx.of(M[p, j, i]).conj()) * Cx(HALF)


def commsum(H, p, n, i, j):
    """i * sum_{a>b} [H_a, H_b]_ij with a=1..p-1, b<a"""
    def term(a):
        return S([a + 1], lambda b: S([n], lambda k: (
            H(a + 1, i, k) * H(b, k, j) - H(b, i, k) * H(a + 1, k, j))))
    # symbolic range over a; inner range depends on a
    if p.is_const():
        r = Cx(0)
        for a in range(int(p.const()) - 1):
            r = r + term(P(a))
    else:
        v = T.fresh("a", p - 1)
        r = T.msum([(v, p - 1)], term(P(v)))
    return I * r


def affine_case(cls, bias, smooth, real, wrap=False, lowrank=False):
    def build(d):
        mod = cls(matrix_size=2, bias_term=bias, **(
            dict(matrix_rank=1) if lowrank else {}))
        mod.matrix_size = d.n
        p = d.p + 1 if bias else d.p
        dt = f64 if real else c128
        if lowrank:
            ins = ((In("ls", (p, d.r), f64), In("us", (p, d.n, d.r), dt)),)
        else:
            ins = (In("Ms", (p, d.n, d.n), dt),)
        ins = ins + (In("X", (d.b, d.p)), In("s", ()))

        def fn(params, X, s):
            mod.smoothing = NZ(s) if smooth else 0.0
            out, st = call(mod, params, {"a": X} if wrap else X, state=(s,))
            return out, st

        def spec(params, X, s):
            n, pp = D(d.n), D(p)
            if lowrank:
                ls, us = params

                def M0(q, i, j):
                    return S([d.r], lambda r: Cx.of(ls[q, r]) * (
                        Cx.of(us[q, i, r]) * Cx.of(us[q, j, r]).conj()))

                def H(q, i, j):
                    return (M0(q, i, j) + M0(q, j, i).conj()) * Cx(HALF)
            else:
                def H(q, i, j):
                    return herm(params, q, i, j)

            def el(b, i, j):
                if bias:
                    v = H(ZERO, i, j) + S([d.p], lambda q: Cx.of(X[b, q]) * H(q + 1, i, j))
                else:
                    v = S([d.p], lambda q: Cx.of(X[b, q]) * H(q, i, j))
                v = Cx.of(v)
                if smooth:
                    v = v + Cx(s[()]) * commsum(H, pp, n, i, j)
                return v if (not real or smooth) else v.re
            o = arr((d.b, d.n, d.n), el, "f" if real and not smooth else "c")
            return ({"a": o} if wrap else o), (s,)

        def goals(out, params, X, s):
            o = out[0]["a"] if wrap else out[0]
            return [Goal("hermitian", "eq", o, SArr(
                o.shape, o.kind, lambda b, i, j: conj(o[b, j, i])))]
        return Inst(fn, ins, spec, goals)
    nm = cls.__name__ + (".bias" if bias else ".nobias") + (
        ".smooth" if smooth else "") + (".real" if real else ".complex") + (
        ".tree" if wrap else "")
    conc = [dict(b=2, p=2, n=2), dict(b=3, p=1, n=3), dict(b=1, p=3, n=1)]
    dims = "b p n"
    if lowrank:
        dims += " r"
        conc = [dict(c, r=r) for c, r in zip(conc, (1, 2, 1))]
    cons = ["p>=2"] if (smooth and not bias) else []
    if cons:
        conc = [c for c in conc if c["p"] >= 2]
    return Case(nm, dims, build, conc, cons,
                funcs=[f"modules.{cls.__name__}._get_callable",
                       "modules._smoothing.exact_smoothing_matrix"])


def tensor_case(bias, real, nd):
    def build(d):
        mod = AffineTensor(tensor_shape=(2,) * nd, bias_term=bias, real=real)
        ts = (d.n, d.m, d.k)[:nd]
        mod.tensor_shape = ts
        p = d.p + 1 if bias else d.p
        ins = (In("Ms", (p,) + ts, f64 if real else c128), In("X", (d.b, d.p)), In("s", ()))

        def fn(params, X, s):
            return call(mod, params, {"q": X}, state=(s,))

        def spec(Ms, X, s):
            def el(b, *ix):
                if bias:
                    return Ms[(ZERO,) + ix] + S([d.p], lambda q: X[b, q] * Ms[(q + 1,) + ix])
                return S([d.p], lambda q: X[b, q] * Ms[(q,) + ix])
            return {"q": arr((d.b,) + ts, el, "f" if real else "c")}, (s,)
        return Inst(fn, ins, spec)
    return Case(f"AffineTensor.{'bias' if bias else 'nobias'}."
                f"{'real' if real else 'complex'}.{nd}d", "b p n m k", build,
                [dict(b=2, p=2, n=2, m=3, k=2), dict(b=1, p=1, n=3, m=1, k=2)],
                funcs=["modules.AffineTensor._get_callable"])


cases = []
for bias in (True, False):
    for smooth in (True, False):
        for real in (True, False):
            cases.append(affine_case(AffineHermitianMatrix, bias, smooth, real))
            cases.append(affine_case(LowRankAffineHermitianMatrix, bias, smooth,
                                     real, lowrank=True))
cases.append(affine_case(AffineHermitianMatrix, True, True, False, wrap=True))
cases.append(affine_case(LowRankAffineHermitianMatrix, False, True, False,
                         wrap=True, lowrank=True))
for bias in (True, False):
    for real in (True, False):
        for nd in (1, 2, 3):
            cases.append(tensor_case(bias, real, nd))

if __name__ == "__main__":
    main("M02", cases)
