"""T03: training stops exactly when its stop rules say so."""
from .trainspec import *
from . import trainref as TF

EP = lambda p, s, r, e, p0: e
cases = TF.by_sizes("supervised", EP)
cases += [TF.case("callback", EP, cb=True, fixed=dict(N=2, B=2, V=2, W=2), dims="n m k E P", cost=20),
          TF.case("unsupervised", EP, Y=False, cons=["B >= N", "W >= V"]),
          TF.case("verbose", EP, verbose=True, cons=["B + B >= N + 1", "N >= B + 1", "W >= V"],
                  conc=dict(N=5, B=3, V=3, W=3))]
G = dict(val="grid", VB=0, scale=300.)
cfgs = rand_cfgs(16, 31, epochs=14, **G) + rand_cfgs(8, 32, epochs=9) + [
    Cfg(epochs=12, patience=p, min_delta=d, target=t, seed=s, NV=3, **G)
    for s, (p, d, t) in enumerate([(1, 0.0, -9.), (2, 0.0, -9.), (3, 0.25, -9.), (2, 0.5, -9.), (4, -0.25, -9.),
                                   (3, 0.0, 1.25), (100, 0.0, 1.0), (100, -onp.inf, 1.5), (1, -onp.inf, -9.),
                                   (2, 10.0, -9.), (0, 0.0, -9.), (3, -10.0, 1.0), (3, 0.0, 3.0), (3, 0., 9.)])]
cfgs += [Cfg(epochs=0), Cfg(epochs=1, patience=0), Cfg(epochs=7, patience=7, min_delta=5.0),
         Cfg(epochs=7, patience=6, min_delta=5.0)]
extra = sweep("T03", check_T03, cfgs, 6)
if __name__ == "__main__":
    main("T03", cases, extra)
