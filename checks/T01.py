"""T01: training never changes frozen parameters."""
from .trainspec import *
from . import trainref as TF

cases = []
for fl in ((True, False), (False, True)):
    k = fl.index(False)
    FR = lambda p, s, r, e, p0, k=k: p[k]
    nm = "frozen-first" if k == 0 else "frozen-second"
    cases += [TF.case(f"{nm}.complex", FR, lambda p0, k=k: p0[k], flags=fl, cplx=True, U=True),
              TF.case(f"{nm}.real", FR, lambda p0, k=k: p0[k], flags=fl, real=True, Y=False),
              TF.case(f"{nm}.fwd", FR, lambda p0, k=k: p0[k], flags=fl, real=True, fwd=True)]
    cases += [TF.case(f"own-gradient.{nm}", lambda p, s, r, e, p0: p, flags=fl, cplx=True,
                      cons=["N >= B", "W >= V"], conc=dict(N=5, B=2, V=2, W=2), cost=60)]
cases += [TF.case("own-gradient.all.fwd", lambda p, s, r, e, p0: p, real=True, fwd=True,
                  cons=["N >= B", "W >= V"], conc=dict(N=5, B=2, V=2, W=2), cost=60)]
cfgs = rand_cfgs(24, 11, patience=100, min_delta=-onp.inf) + [
    Cfg(flags=f, cplx=c, seed=3 + s, clip=k, gs=g, epochs=3, lr=lambda i: 0.1 / (1 + i))
    for s, (f, c, k, g) in enumerate([((True, False, False), True, 0.01, 5.), ((False, True, True), True, 1e3, 1.),
                                      ((True, True, False), False, 0.05, 30.), ((True, True, True), True, 0.1, 9.)])]
extra = sweep("T01", check_T01, cfgs, 5)


def model_level(rep):
    from . import modeltrain as MT
    native(rep, "Model.train", "T01", MT.frozen, "Model.train on nested models, 10 freeze patterns")


extra.append(model_level)
if __name__ == "__main__":
    main("T01", cases, extra)
