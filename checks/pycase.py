"""Cases about plain Python functions, see vc/pysym.py."""
import copy
import inspect
import itertools
import os
import time
import traceback

from .common import *
from vc import pysym as Y
from vc.pysym import z3, Val, SStr, SInt, SBool, Opq


def pycase(rep, name, run, spec, facts=(), confirm=None):
    """run(): executes the real function; spec(): [(label, guard, check)] with
    check(outcome, log) -> z3 formula or bool.  Every path of the function must
    satisfy the check of every clause whose guard can hold on it.  confirm(model):
    runs concrete inputs like the model's; the failure of one, or None."""
    only = os.environ.get("VC_ONLY", "extra")
    if only != "extra" and only not in name:
        return
    now = time.time()
    Y.Run.deadline = min(now + 100, core.START + 450) if rep.tier == "quick" else now + 900
    try:
        paths = Y.runs(run, facts)
        hit = {}
        for r, out in paths:
            if out[0] == "raise" and core.harness_mismatch(out[1]):
                raise Y.Unsupported(f"{type(out[1]).__name__}: {out[1]}")
            for label, guard, check in spec():
                if r.sat(guard) == z3.unsat:
                    continue
                g = check(out, r.log)
                g = z3.BoolVal(g) if isinstance(g, bool) else g
                ok, m = Y.prove(r, z3.Implies(guard, g))
                nm = f"{name}/{label}/path{hit.get(label, 0)}"
                hit[label] = hit.get(label, 0) + 1
                if ok:
                    rep.ok(nm, "z3:pysym")
                elif ok is None:
                    rep.undecided.append((nm, "z3: unknown"))
                else:
                    wrong = confirm(m) if confirm else None
                    if wrong is None:
                        # the step is not the contract's, e.g. another recursion scheme
                        rep.undecided.append((nm, f"not proved: outcome {show(out)}; model {m}"))
                    else:
                        rep.fail(name, nm, f"{wrong}",
                                 dict(obligation=nm, verifier_output=f"z3 model {m}", failure=str(wrong),
                                      path=[str(c) for c in r.pc]))
        for label, _, _ in spec():
            if label not in hit:
                rep.undecided.append((f"{name}/{label}", "no path reaches this clause"))
    except Y.Unsupported as e:
        rep.unsupported.append((name, str(e)))
    except Exception as e:
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
        rep.unsupported.append((name, f"{type(e).__name__}: {e}"))
    finally:
        Y.Run.deadline = None


def show(out):
    return f"{out[0]} {type(out[1]).__name__} {getattr(out[1], 'e', out[1])!s}"[:200]


def term(x):
    """the term of a symbolic or concrete value"""
    return x.e if hasattr(x, "e") else x


def stub(orig, record):
    """a callee by contract: record(**bound arguments) gives its result"""
    sig = inspect.signature(orig)

    def f(*a, **k):
        b = sig.bind(*a, **k)
        b.apply_defaults()
        return record(**b.arguments)
    return f


def raises(*kinds):
    return lambda out, log: out[0] == "raise" and isinstance(out[1], kinds) and not log


def lemma(rep, name, claim, *hyps):
    """a consequence of contracts"""
    only = os.environ.get("VC_ONLY", "extra")
    if only != "extra" and only not in name:
        return
    s = z3.Solver()
    s.set("timeout", 60000)
    s.add(*hyps, z3.Not(claim))
    r = s.check()
    core.T.Stats.queries += 1
    if r == z3.unsat:
        rep.ok(name, "z3:lemma")
    else:
        rep.undecided.append((name, f"lemma: z3 {r}"))
