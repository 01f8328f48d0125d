"""M04: observable modules are real, phase-invariant quadratic forms."""
from .common import *
from vc.terms import clo, Lam, sqrt, maxp
from vc.sym import functional
from parametricmatrixmodels.modules import ExpectationValueSum, TransitionAmplitudeSum


def H(Ds, k, l, a, b):
    return (Cx.of(Ds[k, l, a, b]) + Cx.of(Ds[k, l, b, a]).conj()) * Cx(HALF)


def opnorm2(Ds, k, l, n):
    """largest singular value of the Hermitian part"""
    L = Lam([n, n], lambda a, b: H(Ds, k, l, a, b))
    if n.is_const():
        return sym._fold(maxp, [clo("singval", (L,), P(i)) for i in range(int(n.const()))])
    return functional("rmax", [n], lambda i: clo("singval", (L,), i))


def build_case(cls, centered, realD, realV, tree=False):
    def build(d):
        mod = cls(num_observables=2, output_size=2, centered=centered)
        mod.num_observables, mod.output_size = d.l, d.q
        ins = (In("Ds", (d.q, d.l, d.n, d.n), f64 if realD else c128),
               In("V", (d.b, d.n, d.k), f64 if realV else c128), In("s", ()))

        def fn(Ds, V, s):
            return call(mod, Ds, {"v": V} if tree else V, state=(s,))

        def spec(Ds, V, s):
            n = D(d.n)

            def form(k, l, b, i, j):
                return S([d.n, d.n], lambda a, c: Cx.of(V[b, a, i]).conj()
                         * H(Ds, k, l, a, c) * Cx.of(V[b, c, j]))

            def el(b, k):
                if cls is ExpectationValueSum:
                    z = Cx.of(S([d.l, d.k], lambda l, i: form(k, l, b, i, i))).re
                else:
                    z = S([d.l, d.k, d.k],
                          lambda l, i, j: form(k, l, b, i, j).abs2())
                if centered:
                    z = z - HALF * S([d.l], lambda l: nrm(k, l) * nrm(k, l))
                return z

            def nrm(k, l):
                x = opnorm2(Ds, k, l, n)
                return maxp(ZERO, x)
            o = arr((d.b, d.q), el)
            return ({"v": o} if tree else o), (s,)
        return Inst(fn, ins, spec)
    conc = [dict(b=2, n=2, k=2, q=2, l=1), dict(b=1, n=3, k=1, q=1, l=2)]
    if cls is TransitionAmplitudeSum:
        conc = [dict(b=1, n=2, k=2, q=2, l=1), dict(b=2, n=2, k=1, q=1, l=2)]
    return Case(f"{cls.__name__}.{'centered' if centered else 'plain'}."
                f"{'r' if realD else 'c'}D.{'r' if realV else 'c'}V" + (".tree" if tree else ""),
                "b n k q l", build, conc, seeds=1,
                funcs=[f"modules.{cls.__name__}._get_callable"])


def phase_case(cls, sign):
    def build(d):
        mod = cls(num_observables=2, output_size=2, centered=True)
        mod.num_observables, mod.output_size = d.l, d.q
        ins = (In("Ds", (d.q, d.l, d.n, d.n), c128),
               In("V", (d.b, d.n, d.k), c128),
               In("c", (d.b, d.k), f64, gen="unit"))

        def fn(Ds, V, c):
            ph = c + sign * 1j * jnp.sqrt(1 - c * c)
            a, _ = call(mod, Ds, V)
            b, _ = call(mod, Ds, V * ph[:, None, :])
            return a, b

        def goals(out, Ds, V, c):
            return [Goal("phase-invariant", "eq", out[1], out[0]),
                    Goal("real", "true", lambda: T.bconst(out[0].kind == "f"))]
        return Inst(fn, ins, None, goals)
    return Case(f"{cls.__name__}.phase{'+' if sign > 0 else '-'}", "b n k q l", build,
                [dict(b=2, n=2, k=2, q=2, l=1), dict(b=1, n=3, k=2, q=1, l=2)],
                seeds=1, funcs=[f"modules.{cls.__name__}._get_callable"])


cases = []
for cls in (ExpectationValueSum, TransitionAmplitudeSum):
    for cent in (True, False):
        for rd, rv in ((False, False), (True, False), (False, True), (True, True)):
            cases.append(build_case(cls, cent, rd, rv))
    cases.append(build_case(cls, True, False, False, tree=True))
    cases.append(phase_case(cls, 1))
    cases.append(phase_case(cls, -1))

if __name__ == "__main__":
    main("M04", cases)
