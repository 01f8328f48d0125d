"""Contracts of the container edits for containers of any length."""
from .pycase import *
from vc import pyseq as Q
from vc.pyseq import Sq, PList, PTuple, PDict
from parametricmatrixmodels import model as MD

KEYS = z3.Function("key_at", z3.IntSort(), z3.StringSort())
MODS = z3.Function("mod_at", z3.IntSort(), Val)
N, IX = z3.Ints("n ix")
NEW = z3.Const("new_module", Val)
KEY = z3.Const("the_key", z3.StringSort())
k_ = z3.Int("k")
PRE = [N >= 0]


def seq(kind):
    if kind == "dict":
        return Sq(N, lambda k: (KEYS(k), MODS(k)), True)
    return Sq(N, lambda k: (MODS(k),))


def container(kind):
    return {"list": PList, "tuple": PTuple, "dict": PDict}[kind](seq(kind))


SH = dict(list=Q.SHIMS["list"], tuple=Q.SHIMS["tuple"], dict=Q.SHIMS["dict"],
          List=Q.SHIMS["list"], Tuple=Q.SHIMS["tuple"], Dict=Q.SHIMS["dict"])


class Holder:
    """what the last run left behind"""
    m = None


def runner(cls, kind, call):
    def run():
        m = object.__new__(cls)
        m.__dict__["modules"] = container(kind)
        m.__dict__["reset"] = lambda: Y.Run.cur.log.append(("reset",))
        Holder.m = m
        with Y.Shims(MD, **SH):
            return call(m)
    return run


def holds(kind, n, at, keys=None):
    """the container left is of the same kind, has n elements, and at(k) at k"""
    c = Holder.m.__dict__["modules"]
    if not isinstance(c, {"list": list, "tuple": tuple, "dict": dict}[kind]) or not hasattr(c, "q"):
        return False
    q = c.q
    e = q.at(k_)
    want = at(k_)
    return z3.And(q.n == n, z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < n),
                                                       z3.And(*[a == b for a, b in zip(e, want)]))))


def el(kind, k):
    return (KEYS(k), MODS(k)) if kind == "dict" else (MODS(k),)


def ins(kind, p, key=KEY):
    """one more element, at p, the others in their order"""
    new = (key, NEW) if kind == "dict" else (NEW,)
    return N + 1, lambda k: Q._ite(k < p, el(kind, k), Q._ite(k == p, new, el(kind, k - 1)))


def rem(kind, p):
    return N - 1, lambda k: Q._ite(k < p, el(kind, k), el(kind, k + 1))


def rep_(kind, p):
    return N, lambda k: Q._ite(k == p, el(kind, k)[:-1] + (NEW,), el(kind, k))


def same(kind):
    return N, lambda k: el(kind, k)


def after(kind, shape, ret=None, fresh=True):
    """returned (ret), container as described, and the caches were discarded"""
    def check(out, log):
        if out[0] != "return" or (fresh and ("reset",) not in log):
            return False
        g = [holds(kind, *shape)]
        if ret is not None:
            if not isinstance(out[1], Opq):
                return False
            g.append(out[1].e == ret)
        return z3.And(*g) if all(not isinstance(x, bool) for x in g) else all(
            x for x in g if isinstance(x, bool)) and z3.And(*[x for x in g if not isinstance(x, bool)])
    return check


def refused(kind, *exc):
    def check(out, log):
        if out[0] != "raise" or not isinstance(out[1], exc):
            return False
        return holds(kind, *same(kind))
    return check


def contracts(cls):
    """(name, kind, call, [(label, guard, check)], concrete edit for a model)"""
    T = z3.BoolVal(True)
    ix, new, key = SInt(IX), Opq(NEW), SStr(KEY)
    inr = z3.And(IX >= -N, IX < N)
    pos = z3.If(IX < 0, IX + N, IX)
    point = z3.If(IX < 0, z3.If(IX + N < 0, 0, IX + N), z3.If(IX > N, N, IX))
    nokey = z3.ForAll([k_], z3.Implies(z3.And(0 <= k_, k_ < N), KEYS(k_) != KEY))
    p = z3.Int("p")
    haskey = z3.And(0 <= p, p < N, KEYS(p) == KEY)
    for kind in ("list", "tuple", "dict"):
        kw = dict(key=key) if kind == "dict" else {}
        pre = nokey if kind == "dict" else T
        cat = "dict" if kind == "dict" else "seq"
        yield "append", kind, lambda m, kw=kw: m.append_module(new, **kw), [
            ("last", pre, after(kind, ins(kind, N)))], ("append",)
        yield "prepend", kind, lambda m, kw=kw: m.prepend_module(new, **kw), [
            ("first", pre, after(kind, ins(kind, z3.IntVal(0))))], ("prepend",)
        yield "insert", kind, lambda m, kw=kw: m.insert_module(ix, new, **kw), [
            ("at-the-position", pre, after(kind, ins(kind, point)))], ("insert",)
        yield "pop-index", kind, lambda m: m.pop_module_by_index(ix), [
            ("taken-out", inr, after(kind, rem(kind, pos), MODS(pos))),
            ("out-of-range", z3.Not(inr), refused(kind, IndexError))], ("pop",)
        if kind == "dict":
            yield "pop-key", kind, lambda m: m.pop_module_by_key(key), [
                ("taken-out", haskey, after(kind, rem(kind, p), MODS(p))),
                ("unknown", nokey, refused(kind, KeyError))], ("popkey",)
            yield "set-key", kind, lambda m: m.__setitem__(key, new), [
                ("replaced", haskey, after(kind, rep_(kind, p))),
                ("new", nokey, after(kind, ins(kind, N)))], ("set",)
            yield "get-key", kind, lambda m: m[key], [
                ("read", haskey, after(kind, same(kind), MODS(p), False)),
                ("unknown", nokey, refused(kind, KeyError))], None
            for what, call in (("pop", lambda m: m.pop_module_by_key(ix)), ("get", lambda m: m[ix]),
                               ("set", lambda m: m.__setitem__(ix, new))):
                yield what + "-by-index", kind, call, [("refused", T, refused(kind, KeyError))], None
        else:
            yield "pop-key", kind, lambda m: m.pop_module_by_key(ix), [
                ("taken-out", inr, after(kind, rem(kind, pos), MODS(pos))),
                ("out-of-range", z3.Not(inr), refused(kind, IndexError))], ("popkey",)
            yield "set-index", kind, lambda m: m.__setitem__(ix, new), [
                ("replaced", inr, after(kind, rep_(kind, pos))),
                ("out-of-range", z3.Not(inr), refused(kind, IndexError))], ("set",)
            yield "get-index", kind, lambda m: m[ix], [
                ("read", inr, after(kind, same(kind), MODS(pos), False)),
                ("out-of-range", z3.Not(inr), refused(kind, IndexError))], None
            for what, call in (("pop", lambda m: m.pop_module_by_key(key)), ("get", lambda m: m[key]),
                               ("set", lambda m: m.__setitem__(key, new))):
                yield what + "-by-key", kind, call, [("refused", T, refused(kind, KeyError))], None


def prove_edits(cls, confirm):
    """confirm(kind, n, index, edit): the same edit on the real class, raises if wrong"""
    def go(rep):
        rep.funcs.update(f"Model.{f}" for f in (
            "insert_module", "append_module", "prepend_module", "pop_module_by_index",
            "pop_module_by_key", "__getitem__", "__setitem__"))
        rep.assume("Python's own list, tuple and dict operations as modelled in vc/pyseq.py; the keys of a dict are "
                   "distinct and names given to new modules are not in use",
                   "reset() is called by contract here: it discards everything cached (checked by the stale.* runs)")
        Y.Run.timeout = 3000
        for name, kind, call, spec, op in contracts(cls):
            edit_case(rep, f"{cls.__name__}.{name}.{kind}", runner(cls, kind, call), spec,
                      op and (lambda n, i, kind=kind, op=op: confirm(kind, n, i, op[0])))
    return go


def edit_case(rep, name, run, spec, confirm):
    only = os.environ.get("VC_ONLY", "extra")
    if only != "extra" and only not in name:
        return
    hit = {}
    try:
        done = []

        def one():
            """the checks look at the object the run leaves behind, so they are made right after it"""
            try:
                out = ("return", run())
            except (Y.Unsupported, Y.Infeasible):
                raise
            except Exception as e:
                out = ("raise", e)
            r = Y.Run.cur
            if out[0] == "raise" and core.harness_mismatch(out[1]):
                raise Y.Unsupported(f"{type(out[1]).__name__}: {out[1]}")
            res = []
            for label, guard, check in spec:
                if r.sat(guard) == z3.unsat:
                    continue
                g = check(out, r.log)
                g = z3.BoolVal(g) if isinstance(g, bool) else g
                r.pc.append(guard)
                ok, m = Y.prove(r, g, 20000)
                if not ok:
                    ok = Y.prove(r, g, 20000, True)[0] or ok
                r.pc.pop()
                res.append((label, ok, m))
            done.append(res)
        Y.runs(one, PRE)
        for res in done:
            for label, ok, m in res:
                nm = f"{name}/{label}/path{hit.get(label, 0)}"
                hit[label] = hit.get(label, 0) + 1
                if ok:
                    rep.ok(nm, "z3:pyseq")
                    continue
                fail = None
                if m is not None and confirm:
                    n = m.eval(N, model_completion=True).as_long()
                    i = m.eval(IX, model_completion=True).as_long()
                    if n <= 2000:
                        fail = confirm(n, i)
                if fail:
                    rep.fail(name, nm, fail, dict(obligation=nm, modules=n, index=i, failure=fail))
                else:
                    rep.undecided.append((nm, f"not proved ({ok})"))
        for label, _, _ in spec:
            if label not in hit:
                rep.undecided.append((f"{name}/{label}", "no path reaches this clause"))
    except Y.Unsupported as e:
        rep.unsupported.append((name, str(e)))
    except Exception as e:
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
        rep.unsupported.append((name, f"{type(e).__name__}: {e}"))
