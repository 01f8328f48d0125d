"""Discharging obligations: normalisation, case split, z3."""
from __future__ import annotations

from . import smt
from . import terms as T
from .terms import B, Cx, P, Poly, TRUE, FALSE


class Result:
    def __init__(self, ok, how, info="", ctx=None, goal=None):
        self.ok, self.how, self.info = ok, how, info
        self.ctx, self.goal = ctx, goal   # failing case and negated goal

    def __bool__(self):
        return self.ok

    def __repr__(self):
        return f"{'proved' if self.ok else 'FAILED'}[{self.how}] {self.info[:600]}"


def rebuild(p, memo=None):
    """rebuild a polynomial under the current case-split context"""
    memo = {} if memo is None else memo
    if isinstance(p, Cx):
        return Cx(rebuild(p.re, memo), rebuild(p.im, memo))
    r = T.ZERO
    for m, c in p.t.items():
        t = P(c)
        for a, e in m:
            q = memo.get(a)
            if q is None:
                q = memo[a] = _rb(a, memo)
            t = t * (q ** e if e > 0 else T.inv(q) ** (-e))
        r = r + t
    return r


def _rbx(x, memo):
    if isinstance(x, (Poly, Cx)):
        return rebuild(x, memo)
    if isinstance(x, B):
        return rbb(x, memo)
    return x


def _rb(a, memo):
    k = a.kind
    if k in ("var", "bv"):
        return P(a)
    if k == "app":
        return T.app(a.args[0], *[rebuild(x, memo) for x in a.args[1:]],
                     sort=a.sort)
    if k == "inv":
        return T.inv(rebuild(a.args[0], memo))
    if k == "sqrt":
        return T.sqrt(rebuild(a.args[0], memo))
    if k == "pos":
        return T.pos(rebuild(a.args[0], memo))
    if k == "ind":
        return T.ite(rbb(a.args[0], memo), T.ONE, T.ZERO)
    if k == "div":
        return T.floordiv(rebuild(a.args[0], memo), rebuild(a.args[1], memo))
    if k == "sum":
        vs, body = T.open_sum(a)
        return T.msum(vs, rebuild(body, memo))
    if k == "clo":
        name, static, lams, idx = a.args
        nl = []
        for L in lams:
            vs, body = L.open()
            nb = tuple(_rbx(x, memo) for x in body)
            r = T.Lam.__new__(T.Lam)
            r._set(list(L.ranges), vs, nb)
            nl.append(r)
        return T.clo(name, nl, *[rebuild(i, memo) for i in idx], sort=a.sort,
                     static=static)
    raise AssertionError(k)


def rbb(b, memo):
    if b.op in ("lt0", "le0", "eq0"):
        p = rebuild(b.args[0], memo)
        r = {"lt0": T.lt, "le0": T.le, "eq0": T.eq}[b.op](p, T.ZERO)
        return T.bsimp(r)
    if b.op == "not":
        return T.bnot(rbb(b.args[0], memo))
    if b.op == "and":
        return T.band(*[rbb(x, memo) for x in b.args])
    if b.op == "or":
        return T.bor(*[rbb(x, memo) for x in b.args])
    return T.bsimp(b)


def find_inds(p, top_only=False):
    """indicator atoms whose condition has no bound variables"""
    out = {}
    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Cx):
            walk(x.re)
            walk(x.im)
        elif isinstance(x, T.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind in ("ind", "pos") and not any(
                    v.kind == "bv" for v in x.fv):
                out[x.id] = x
            for y in x.args:
                walk(y)
        elif isinstance(x, B):
            for y in x.args:
                walk(y)
        elif isinstance(x, T.Lam):
            for y in x.body:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return [out[k] for k in sorted(out)]


def first_order(bs):
    """no loop values, opaque functions or sums: a model of the negated goal is
    then a real counterexample of the obligation"""
    seen = set()
    ok = [True]

    def walk(x):
        if not ok[0]:
            return
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Cx):
            walk(x.re)
            walk(x.im)
        elif isinstance(x, T.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind in ("clo", "sum") or (x.kind == "app" and isinstance(x.args[0], str) and (
                    "!" in x.args[0] or x.args[0].startswith(("fun:", "op:")))):
                ok[0] = False
            for y in x.args:
                walk(y)
        elif isinstance(x, B):
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for b in bs:
        walk(b)
    return ok[0]


class Budget:
    def __init__(self, n=600):
        self.n = n


def clear_inv(p):
    """multiply out inverse atoms and negative powers (denominators nonzero)"""
    for _ in range(12):
        invs = {a for m in p.t for a, e in m if a.kind == "inv"}
        negs = {}
        for m in p.t:
            for a, e in m:
                if e < 0:
                    negs[a] = min(negs.get(a, 0), e)
        if not invs and not negs:
            return p
        for a, e in negs.items():
            p = p * Poly({((a, -e),): T.ONE.const()})
        for a in invs:
            k = max(e for m in p.t for x, e in m if x is a) if any(
                x is a for m in p.t for x, _ in m) else 0
            if k <= 0:
                continue
            r = T.ZERO
            q = a.args[0]
            for m, c in p.t.items():
                e = dict(m).get(a, 0)
                rest = tuple(x for x in m if x[0] is not a)
                r = r + Poly({rest: c}) * (q ** (k - e))
            p = r
    return p


def prove_zero(p, budget=None, depth=0):
    budget = budget or Budget()
    if not p.t:
        return Result(True, "normalisation")
    budget.n -= 1
    if budget.n < 0:
        return Result(False, "budget", repr(p)[:500], list(T.CTX), T.ne(p, 0))
    q = clear_inv(p)
    if not q.t:
        return Result(True, "normalisation+denominators")
    inds = find_inds(q)
    if inds:
        # prefer integer/index conditions and conditions free of other inds
        def cond(a):
            return a.args[0] if a.kind == "ind" else T.lt(a.args[0], 0)

        def rank(a):
            c = cond(a)
            return (len(find_inds(c)), 0 if T._indexy(c) else 1, a.id)
        a = min(inds, key=rank)
        c = cond(a)
        for lit in (c, T.bnot(c)):
            T.CTX.append(lit)
            try:
                if smt.query([], 2000) == "unsat":
                    continue
                p1 = p
                if lit.op == "eq0" and lit.args[0].is_int:
                    e = lit.args[0]
                    for v in sorted(e.fv):
                        co = e.t.get(((v, 1),))
                        if co is not None and abs(co) == 1 and v.kind == "var":
                            rhs = P(v) - e * (1 / co)
                            if v not in rhs.fv:
                                p1 = T.sub(p1, {v: rhs})
                                break
                r = prove_zero(rebuild(p1), budget, depth + 1)
                if not r:
                    if not r.info.startswith("case"):
                        r.info = f"case {[x for x in T.CTX]}: residual {r.info}"
                    return r
            finally:
                T.CTX.pop()
        return Result(True, "case-split+z3")
    r = smt.query([T.ne(q, 0)], 5000)
    if r == "unsat":
        return Result(True, "z3")
    pin = pinned(q)
    if pin:
        r2 = prove_zero(rebuild(T.sub(p, pin)), budget, depth + 1)
        if r2:
            return Result(True, "case-split+z3")
    elif r == "sat":
        v, vals = small_range(q)
        if v is not None:
            ok = True
            for c in vals:
                T.CTX.append(T.eq(P(v), c))
                try:
                    if smt.query([], 2000) == "unsat":
                        continue
                    if not prove_zero(rebuild(T.sub(p, {v: P(c)})), budget, depth + 1):
                        ok = False
                        break
                finally:
                    T.CTX.pop()
            if ok:
                return Result(True, "case-split+z3")
    return Result(False, "z3:" + r, repr(q)[:800], list(T.CTX), T.ne(q, 0))


def small_range(p):
    """an index variable of p with few values that occurs under an opaque
    function (where z3 cannot see equal arguments)"""
    if any(a.kind == "clo" for a in p.atoms()) or any(
            a.kind == "sum" for a in p.atoms()):
        for v in sorted(x for x in p.fv if x.kind == "var" and x.sort == "Z"):
            if v in T.RANGE:
                lo, hi = T.RANGE[v]
                if lo.is_const() and hi.is_const() and 1 < hi.const() - lo.const() <= 8:
                    return v, range(int(lo.const()), int(hi.const()))
    return None, ()


def pinned(p):
    """an index variable of p the case at hand fixes: {v: value}"""
    if not T.CTX:
        return None
    vs = {v for v in p.fv if v.kind == "var" and v.sort == "Z"}
    for lit in T.CTX:
        if lit.op not in ("le0", "lt0", "eq0") or not lit.args[0].is_int:
            continue
        e = lit.args[0]
        for v in sorted(e.fv & vs):
            co = e.t.get(((v, 1),))
            if co is None or abs(co) != 1:
                continue
            rhs = P(v) - e * (1 / co)
            if lit.op == "lt0":
                rhs = rhs - co
            if v in rhs.fv:
                continue
            if smt.query([T.ne(P(v), rhs)], 2000) == "unsat":
                return {v: rhs}
    for v in sorted(vs & {x for lit in T.CTX for x in lit.fv}):
        if v in T.RANGE:
            lo, hi = T.RANGE[v]
            for c in (lo, hi - 1):
                if v not in c.fv and smt.query([T.ne(P(v), c)], 2000) == "unsat":
                    return {v: c}
    return None


def prove_eq(a, b):
    if isinstance(a, B) or isinstance(b, B):
        return prove(T.eq(a, b) if isinstance(a, B) and isinstance(b, B)
                     else FALSE)
    if isinstance(a, Cx) or isinstance(b, Cx):
        a, b = Cx.of(a), Cx.of(b)
        r = prove_zero(a.re - b.re)
        if not r:
            return r
        r2 = prove_zero(a.im - b.im)
        return r2 if not r2 or r.how == "normalisation" else r
    return prove_zero(P(a) - P(b))


def _forall(b):
    """b says that a condition holds at every index of a range"""
    if b.op != "le0":
        return None
    t = dict(b.args[0].t)
    if t.pop((), 0) != 1 or len(t) != 1:
        return None
    (m, c), = t.items()
    if c != -1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != "clo" or \
            m[0][0].args[0] != "rmin" or m[0][0].args[3]:
        return None
    return m[0][0].args[2][0]


def prove(b, timeout=10000):
    """validity of a formula under the facts in force"""
    if b is TRUE:
        return Result(True, "normalisation")
    if b.op == "and":
        how = "normalisation"
        for x in b.args:
            r = prove(x, timeout)
            if not r:
                return r
            if r.how != "normalisation":
                how = r.how
        return Result(True, how)
    if b.op == "eq0":
        return prove_zero(b.args[0])
    r = smt.query([T.bnot(b)], timeout)
    if r == "unsat":
        return Result(True, "z3")
    lam = _forall(b)
    if lam is not None:
        _, body = lam.open()
        q = prove(T.gt(body[0], 0), timeout)
        if q:
            return Result(True, "forall-intro, " + q.how)
    return Result(False, "z3:" + r, repr(b)[:800], list(T.CTX), T.bnot(b))


def witness(ctx, goal, dims, maxdim=4):
    """a model of the failing case: dims and array elements"""
    import z3
    for small in (3, maxdim, 8, None):
        bs = list(ctx) + ([goal] if goal is not None else [])
        if small is not None:
            pool = [T.var(d) for d in dims]
            bs2 = bs + [T.le(P(v), small) for v in pool]
        else:
            bs2 = bs
        r, model, s = smt.query(bs2, 3000, want_model=True)
        if r == "sat":
            break
        if small is not None:
            # keep only the dims that can be small, one by one
            ok = list(bs)
            for d in dims:
                c = T.le(P(T.var(d)), small)
                if smt.query(ok + [c], 2000) == "sat":
                    ok.append(c)
            r, model, s = smt.query(ok, 3000, want_model=True)
            if r == "sat":
                break
    else:
        return None
    if model is None:
        return None

    def val(z):
        v = model.eval(z, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return v.numerator_as_long() / v.denominator_as_long()
        if z3.is_algebraic_value(v):
            return float(v.approx(12).as_fraction())
        raise ValueError
    out = {}
    for d in dims:
        out[d] = max(1, val(smt._const(T.var(d))))
    elems = {}
    side = smt.Side()
    seen = set()

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Cx):
            walk(x.re), walk(x.im)
        elif isinstance(x, T.Atom):
            if x in seen:
                return
            seen.add(x)
            if x.kind == "app" and not any(v.kind == "bv" for v in x.fv) \
                    and all(y.is_int for y in x.args[1:]):
                try:
                    ix = tuple(val(smt.zpoly(y, side, True)) for y in x.args[1:])
                    elems[(x.args[0], ix)] = val(smt.zatom(x, side))
                except Exception:
                    pass
            for y in x.args:
                walk(y)
        elif isinstance(x, B):
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    for b in bs:
        walk(b)
    return out, [(n, list(ix), v) for (n, ix), v in elems.items()]


def specials(goal):
    """(array, value) pairs at which some branch condition of goal flips"""
    out, seen = set(), set()

    def lit(b):
        if b.op in ("lt0", "le0", "eq0"):
            p = b.args[0]
            apps = [a for a in p.atoms() if a.kind == "app"]
            if len(apps) == 1 and set(p.t) <= {(), ((apps[0], 1),)}:
                v = -p.const() / p.t[((apps[0], 1),)]
                out.add((apps[0].args[0], float(v)))
                if b.op != "eq0":
                    out.add((apps[0].args[0], float(v) + 0.5))
                    out.add((apps[0].args[0], float(v) - 0.5))

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Cx):
            walk(x.re), walk(x.im)
        elif isinstance(x, T.Atom):
            if x not in seen:
                seen.add(x)
                for y in x.args:
                    walk(y)
        elif isinstance(x, B):
            lit(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, T.Lam):
            for y in x.body:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(goal)
    return sorted(out)[:12]
