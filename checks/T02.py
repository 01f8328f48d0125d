"""T02: training returns the snapshot with the lowest validation loss."""
from .trainspec import *
from . import trainref as TF

SNAP = lambda p, s, r, e, p0: (p, s, r)
cases = TF.by_sizes("supervised", SNAP)
cases += [TF.case("callback", SNAP, cb=True, fixed=dict(N=2, B=2, V=2, W=2), dims="n m k E P", cost=20),
          TF.case("no-validation-data", SNAP, val=False, vb=False, cons=["B >= N"], dims="N B n m k E P"),
          TF.case("verbose", SNAP, verbose=True, cons=["B + B >= N + 1", "N >= B + 1", "W >= V"],
                  conc=dict(N=5, B=3, V=3, W=3))]

Q = dict(patience=100, min_delta=-onp.inf)
cfgs = rand_cfgs(20, 21, **Q) + rand_cfgs(12, 22, val="grid", scale=300., epochs=13, NV=4, VB=2, **Q)
extra = sweep("T02", check_T02, cfgs, 6)


def model_level(rep):
    from . import modeltrain as MT
    native(rep, "Model.train", "T02", MT.snapshots, "Model.train on small models, 6 settings")


extra.append(model_level)
if __name__ == "__main__":
    main("T02", cases, extra)
