"""T04: every epoch uses each sample exactly once, correctly paired."""
from .trainspec import *
from . import trainref as TF

ALL = lambda p, s, r, e, p0: (p, s, r, e)
cases = TF.by_sizes("with-uncertainty", ALL, U=True)
cases += TF.by_sizes("unsupervised", ALL, Y=False, vb=False)
cases += TF.by_sizes("no-validation-data", ALL, U=True, val=False, vb=False)
cases += [TF.case("verbose", ALL, verbose=True, cons=["B + B >= N + 1", "N >= B + 1", "W >= V"],
                  conc=dict(N=5, B=3, V=3, W=3), U=True)]
cfgs = rand_cfgs(12, 41, patience=100, min_delta=-onp.inf, U=True, Y=True) + rand_cfgs(
    12, 42, patience=100, min_delta=-onp.inf) + [
    Cfg(N=n, B=b, NV=v, VB=w, U=True, epochs=3, seed=n) for n, b, v, w in
    [(7, 3, 5, 2), (6, 3, 6, 2), (5, 1, 5, 1), (1, 1, 1, 1), (9, 4, 3, 9), (8, 5, 7, 4), (3, 8, 8, 3), (10, 9, 4, 0)]]
cfgs += [Cfg(N=9, B=2, epochs=3, unroll=2), Cfg(N=9, B=4, NV=7, VB=3, epochs=3, fwd=True, U=True)]
extra = sweep("T04", check_T04, cfgs, 5)


def partition(rep):
    """the minibatches of the reference loop: every position of the shuffled
    data lies in exactly one of them (integer arithmetic, all N, B)"""
    import z3
    N, B, x, j, t, j2, t2 = z3.Ints("N B x j t j2 t2")
    q, r = N / B, N % B
    pre = [N >= 1, B >= 1, B <= N]
    inb = lambda j, t: z3.Or(z3.And(0 <= j, j < q, 0 <= t, t < B), z3.And(j == q, 0 <= t, t < r))
    for nm, neg in (("in range", [inb(j, t), z3.Not(z3.And(0 <= j * B + t, j * B + t < N))]),
                    ("covered", [0 <= x, x < N, z3.Not(inb(x / B, x % B))]),
                    ("once", [inb(j, t), inb(j2, t2), j * B + t == j2 * B + t2, z3.Or(j != j2, t != t2)])):
        s = z3.SolverFor("QF_NIA") if nm != "once" else z3.Solver()
        s.set("timeout", 60000)
        s.add(*pre, *neg)
        v = s.check()
        if v == z3.unsat:
            rep.ok(f"lemma.partition/{nm}", "z3")
        else:
            rep.undecided.append((f"lemma.partition/{nm}", str(v)))


extra.append(partition)


def model_level(rep):
    from . import modeltrain as MT
    native(rep, "Model.train", "T04", MT.batches, "Model.train with recording losses, 6 settings")


extra.append(model_level)
if __name__ == "__main__":
    main("T04", cases, extra)
