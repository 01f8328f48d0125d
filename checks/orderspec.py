"""Contract of graph_util.resolve_connections for every graph, by loop invariants."""
import json
import subprocess
import sys
import time
from .pycase import *
from vc import pyloop as L
from vc.pyloop import (Val, I, B, SETSORT, ING, DEG, NB, CARD, Opq, SSet, SList, SMap, SBags, Loop,
                       Ghost, assume, fresh, freshfn, x_, y_, i_, j_)
from parametricmatrixmodels import graph_util as GU

n_, m_ = z3.Consts("n m", Val)
KS = z3.ArraySort(Val, z3.ArraySort(I, B))
ALL = z3.Const("ALL", KS)
CNT = z3.Function("cnt", KS, Val, I)
START, END = z3.Consts("start end", Val)
R = z3.Function("from_start", Val, B)
CR = z3.Function("to_end", Val, B)
PN, PI = z3.Function("pn", Val, Val), z3.Function("pi", Val, I)
SI = z3.Function("si", Val, I)
RANK = z3.Function("rank", Val, I)
EMPTY = z3.K(Val, z3.K(I, z3.BoolVal(False)))


def edge(n, i):
    return z3.And(0 <= i, i < DEG(n))


def fa(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=list(pats)) if pats else z3.ForAll(vs, f)


FACTS = [
    # lists have a length, keys outside of the graph have no successors
    fa([n_], z3.And(DEG(n_) >= 0, z3.Implies(DEG(n_) > 0, ING(n_))), DEG(n_)),
    fa([n_, i_], ALL[n_][i_] == edge(n_, i_), ALL[n_][i_], NB(n_, i_)),
    fa([m_], CNT(EMPTY, m_) == 0, CNT(EMPTY, m_)),
    # precondition: nothing feeds the start, the end feeds nothing
    START != END, DEG(END) == 0,
    fa([n_, i_], z3.Implies(edge(n_, i_), NB(n_, i_) != START), NB(n_, i_)),
    # R: reachable from the start (closed; every other node has a reachable predecessor)
    R(START), fa([n_, i_], z3.Implies(z3.And(R(n_), edge(n_, i_)), R(NB(n_, i_))), NB(n_, i_)),
    # CR: reaches the end
    CR(END), fa([n_, i_], z3.Implies(z3.And(CR(NB(n_, i_)), edge(n_, i_)), CR(n_)), NB(n_, i_)),
    # concatenation of paths
    fa([x_], z3.Implies(z3.And(R(x_), CR(x_)), z3.And(R(END), CR(START))), R(x_)),
]
TRUSTED = ("finite counting: adding one new edge to a set of edges raises the number of those into its target by one "
           "and no other; a set of edges has as many into m as the whole graph iff it has all of them",
           "finite cardinality: distinct entries are as many as their set; a subset of the same size is the whole",
           "reachability is the least set containing its start and closed under edges (induction for the sets visited); "
           "a finite nonempty set has an element of least rank")


def fed(x):
    """instance: what is reachable and not the start has an incoming edge"""
    return z3.Implies(z3.And(R(x), x != START), z3.And(
        edge(PN(x), PI(x)), NB(PN(x), PI(x)) == x))


def feeds(x):
    """instance: what reaches the end and is not the end feeds something that does"""
    return z3.Implies(z3.And(CR(x), x != END), z3.And(edge(x, SI(x)), CR(NB(x, SI(x)))))


def seen(K, done=None, node=None, pos=None):
    """K is exactly: every edge of the nodes of done, and the first pos of node"""
    e = []
    if done is not None:
        e.append(z3.And(done[n_], edge(n_, i_)))
    if node is not None:
        e.append(z3.And(n_ == node, 0 <= i_, i_ < pos))
    return fa([n_, i_], K[n_][i_] == z3.Or(*e), K[n_][i_], NB(n_, i_))


def counting(emit, K):
    """facts about the number of edges in K (a subset of ALL, proved)"""
    emit("edges-of-the-graph", fa([n_, i_], z3.Implies(K[n_][i_], edge(n_, i_))))
    wn, wi = freshfn("wn", Val, Val), freshfn("wi", Val, I)
    assume(fa([n_, i_, m_], z3.Implies(z3.And(CNT(K, m_) == CNT(ALL, m_), edge(n_, i_), NB(n_, i_) == m_),
                                       K[n_][i_]), z3.MultiPattern(CNT(K, m_), NB(n_, i_))))
    assume(fa([m_], z3.Implies(CNT(K, m_) != CNT(ALL, m_), z3.And(
        CNT(K, m_) < CNT(ALL, m_), edge(wn(m_), wi(m_)), NB(wn(m_), wi(m_)) == m_,
        z3.Not(K[wn(m_)][wi(m_)]))), CNT(K, m_)))


class Order:
    """the loops of resolve_connections with their invariants"""

    def __init__(self, emit):
        self.emit = emit
        self.g = dict(_E=Ghost(EMPTY), _W=Ghost(z3.K(Val, z3.K(Val, z3.IntVal(0)))),
                      _K=Ghost(EMPTY), _C=Ghost(EMPTY), _P=Ghost(z3.K(Val, z3.IntVal(0))))
        lp = self.loops = [None] * 10
        # 0, 1: the reverse graph; _E edges seen, _W which edge put the entry there
        def rev(env, extra):
            E, W, r = env["_E"].a, env["_W"].a, env["reverse_graph"].a
            return [("edges", extra),
                    ("complete", fa([n_, i_], z3.Implies(E[n_][i_], r[NB(n_, i_)][n_]), E[n_][i_])),
                    ("sound", fa([m_, n_], z3.Implies(r[m_][n_], z3.And(
                        E[n_][W[m_][n_]], NB(n_, W[m_][n_]) == m_)), r[m_][n_]))]

        def step1(env, it):
            E, W = env["_E"], env["_W"]
            m = NB(it.node, it.pos)
            W.a = z3.Store(W.a, m, z3.Store(W.a[m], it.node, it.pos))
            E.a = z3.Store(E.a, it.node, z3.Store(E.a[it.node], it.pos, True))
        mods = ["reverse_graph", "reverse_in_degree", "_E", "_W"]
        lp[0] = Loop(lambda env, it, op: rev(env, seen(env["_E"].a, it.done)), mods)
        lp[1] = Loop(lambda env, it, op: rev(env, seen(env["_E"].a, op[0][1].done, it.node, it.pos)),
                     mods, step1)
        # 2, 3: the number of incoming edges; _K edges counted
        def deg(env, extra):
            return [("edges", extra), ("counts", fa([m_], env["in_degree"].a[m_] == CNT(env["_K"].a, m_)))]

        lp[2] = Loop(lambda env, it, op: deg(env, seen(env["_K"].a, it.done)), ["in_degree", "_K"])
        lp[3] = Loop(lambda env, it, op: deg(env, seen(env["_K"].a, op[2][1].done, it.node, it.pos)),
                     ["in_degree", "_K"], lambda env, it: self.add(env["_K"], it))
        # 4-7: what is reachable
        def front(inside, nexts, out):
            def inv(env, it, op):
                v, s = env["visited"].a, env["stack"].a
                r = [("inside", fa([x_], z3.Implies(z3.Or(v[x_], s[x_]), inside(x_)), v[x_], s[x_])),
                     ("same", fa([x_], env[out].a[x_] == v[x_], v[x_], env[out].a[x_])),
                     ("first", z3.Or(v[inside.first], s[inside.first]))]
                cl = nexts(env, v, s, it if it is not None else None, op)
                return r + [("closed", cl)]
            return inv

        def nx5(env, v, s, it, op):
            f = z3.Implies(z3.And(v[n_], edge(n_, i_)), z3.Or(v[NB(n_, i_)], s[NB(n_, i_)]))
            if it is not None:
                f = z3.Implies(z3.Or(n_ != it.node, i_ < it.pos), f)
            return fa([n_, i_], f, NB(n_, i_))

        def nx7(env, v, s, it, op):
            r = env["reverse_graph"].a
            f = z3.Implies(z3.And(v[m_], r[m_][n_]), z3.Or(v[n_], s[n_]))
            if it is not None:
                f = z3.Implies(z3.Or(m_ != env["node"].e, it.done[n_]), f)
            return fa([m_, n_], f, r[m_][n_])
        fwd = lambda x: R(x)
        fwd.first = START
        bwd = lambda x: CR(x)
        bwd.first = END
        m4, m6 = ["visited", "stack", "reachable"], ["visited", "stack", "reverse_reachable"]

        def inner(f, first):
            """and the node at hand is visited and inside"""
            def g(env, it, op):
                return f(env, it, op) + [("at-hand", z3.And(env["visited"].a[env["node"].e],
                                                            first(env["node"].e)))]
            return g
        def before4(env):
            counting(self.emit, env["_K"].a)

        def before6(env):
            S = env["reachable"].a
            self.emit("induction/start", S[START])
            self.emit("induction/closed", fa([n_, i_], z3.Implies(z3.And(S[n_], edge(n_, i_)), S[NB(n_, i_)])))
            assume(fa([x_], z3.Implies(R(x_), S[x_]), R(x_)))

        def before8(env):
            self.t = env["topological_order"]
            self.A = env["all_nodes"].a
            S, A = env["reverse_reachable"].a, env["all_nodes"].a
            self.emit("induction/end", S[END])
            self.emit("induction/closed-back", fa([n_, i_], z3.Implies(z3.And(S[NB(n_, i_)], edge(n_, i_)), S[n_])))
            assume(fa([x_], z3.Implies(CR(x_), S[x_]), CR(x_)))
            f = fa([x_], A[x_] == z3.And(R(x_), CR(x_)), A[x_])
            self.emit("nodes-between", f)
            assume(f)
            m = fresh("m", Val)
            counting(self.emit, EMPTY)
            self.emit("fed", z3.Implies(z3.And(fed(m), A[m], m != START), CNT(ALL, m) > 0))
            d = env["in_degree"].a
            cnt = fa([m_], d[m_] == CNT(ALL, m_), d[m_])
            self.emit("all-counted", cnt)
            # from here on only these are used
            L.Run.cur.pc[:] = FACTS + [f, cnt, fa([m_], z3.Implies(z3.And(
                A[m_], m_ != START), CNT(ALL, m_) > 0), A[m_])]
        a, b = front(fwd, nx5, "reachable"), front(bwd, nx7, "reverse_reachable")
        lp[4], lp[5] = Loop(a, m4, before=before4), Loop(inner(a, fwd), ["stack"])
        lp[6], lp[7] = Loop(b, m6, before=before6), Loop(inner(b, bwd), ["stack"])
        # 8, 9: the order; _C edges consumed, _P position of each node
        def kahn(env, extra):
            q, t, d, A, C, P = (env["queue"], env["topological_order"], env["in_degree"].a,
                                env["all_nodes"].a, env["_C"].a, env["_P"].a)
            return [
                ("edges", extra),
                ("empty-or-starts", z3.And(t.lo == 0, z3.If(
                    t.n == 0, z3.And(q.n == q.lo + 1, q.at(q.lo) == START), t.at(0) == START))),
                ("distinct-queue", q.distinct()),
                ("disjoint", fa([x_], z3.Not(z3.And(q.a[x_], t.a[x_])))),
                ("positions", fa([x_], z3.Implies(t.a[x_], z3.And(
                    0 <= P[x_], P[x_] < t.n, t.at(P[x_]) == x_)), t.a[x_])),
                ("positions2", fa([i_], z3.Implies(z3.And(0 <= i_, i_ < t.n),
                                                   z3.And(t.a[t.at(i_)], P[t.at(i_)] == i_)), t.at(i_))),
                ("members", fa([x_], z3.Implies(z3.Or(t.a[x_], q.a[x_]),
                                                z3.Or(x_ == START, A[x_])), t.a[x_], q.a[x_])),
                ("counts", fa([m_], z3.Implies(A[m_], d[m_] == CNT(ALL, m_) - CNT(C, m_)), A[m_])),
                ("ready", fa([m_], z3.Implies(z3.And(A[m_], m_ != START, CNT(C, m_) == CNT(ALL, m_)),
                                              z3.Or(t.a[m_], q.a[m_])), A[m_])),
                ("only-ready", fa([m_], z3.Implies(z3.And(A[m_], m_ != START, z3.Or(t.a[m_], q.a[m_])),
                                                   CNT(C, m_) == CNT(ALL, m_)), A[m_])),
                ("start-queued", z3.Or(t.a[START], q.a[START])),
                ("after-what-feeds-it", fa([n_, i_], z3.Implies(
                    z3.And(edge(n_, i_), t.a[NB(n_, i_)]), z3.And(
                        t.a[n_], P[n_] < P[NB(n_, i_)])), NB(n_, i_)))]

        def step8(env, it):
            # the node about to be taken gets the next position
            q, t, P = env["queue"], env["topological_order"], env["_P"]
            P.a = z3.Store(P.a, q.at(q.lo), t.n)
            counting(self.emit, env["_C"].a)
        lp[8] = Loop(lambda env, it, op: kahn(env, seen(env["_C"].a, env["topological_order"].a)),
                     ["queue", "topological_order", "in_degree", "_C", "_P"], step8, before8)

        def inv9(env, it, op):
            t, C = env["topological_order"].a, env["_C"].a
            e = fa([n_, i_], C[n_][i_] == z3.Or(
                z3.And(t[n_], n_ != it.node, edge(n_, i_)),
                z3.And(n_ == it.node, 0 <= i_, i_ < it.pos)), C[n_][i_], NB(n_, i_))
            return kahn(env, e) + [("at-hand", z3.And(t[it.node], env["topological_order"].n > 0))]
        lp[9] = Loop(inv9, ["queue", "in_degree", "_C"],
                     lambda env, it: self.add(env["_C"], it, True))

    def add(self, K, it, full=False):
        """ghost: the edge at hand joins K"""
        old = K.a
        if full:
            counting(self.emit, old)
        self.emit("new-edge", z3.Not(old[it.node][it.pos]))
        K.a = fresh("K", KS)
        assume(K.a == z3.Store(old, it.node, z3.Store(old[it.node], it.pos, True)))
        m = NB(it.node, it.pos)
        assume(fa([m_], CNT(K.a, m_) == CNT(old, m_) + z3.If(m_ == m, 1, 0), CNT(K.a, m_)))
        if full:
            counting(self.emit, K.a)


def obligations():
    """[(label, proved)]; raises Unsupported if the code is outside of the subset"""
    done = {}
    start = time.time()

    def emit(label, f):
        r = L.Run.cur
        key = (label, tuple(r.taken), len(r.pc))
        if key in done:
            return
        done[key] = bool(Y.prove(r, f, 40000, True)[0])
        if not done[key] and os.environ.get("VC_DEBUG"):
            print("UNPROVED", label, r.taken, flush=True)
        if list(done.values()).count(False) >= 3 or time.time() - start > 200:
            raise Y.Unsupported("not proved: " + ", ".join(k[0] for k, v in done.items() if not v))

    make, loops = L.cut(GU.resolve_connections, dict(
        OrderedSet=SSet, defaultdict=default, deque=SList))
    if loops != 10:
        raise Y.Unsupported(f"{loops} loops, the contract has invariants for 10")
    if list(inspect.signature(GU.resolve_connections).parameters)[:3] != ["graph", "start_key", "end_key"]:
        raise Y.Unsupported("signature")
    L.Run.timeout = 300
    del Y.AXIOMS[:]          # about strings and trees, not used here
    ends = []

    def run():
        o = Order(emit)
        pr = L.Proof(o.loops, o.g, emit)
        with Y.Shims(GU):
            try:
                res = make(pr)(L.SGraph(), Opq(START), Opq(END))
            except L.EndPath:
                return None
            except RuntimeError as e:
                if isinstance(e, Y.Unsupported):
                    raise
                if Y.prove(L.Run.cur, False, 4000, True)[0]:
                    return None
                ends.append("raise")
                satisfiable(emit, o)
                return None
        if Y.prove(L.Run.cur, False, 4000, True)[0]:
            raise Y.Unsupported("no run returns: the assumptions contradict each other")
        ends.append("return")
        post(emit, o, res)
    for r, out in Y.runs(run, FACTS):
        if out[0] == "raise":
            raise Y.Unsupported(f"{type(out[1]).__name__}: {out[1]}")
    if set(ends) != {"return", "raise"}:
        raise Y.Unsupported(f"only {set(ends)} is reached")
    return [(k[0], v) for k, v in done.items()]


def prove_order(rep, name="resolve_connections"):
    """the obligations, in a process of their own"""
    only = os.environ.get("VC_ONLY", "extra")
    if only != "extra" and only not in name:
        return
    res = "not run"
    for _ in range(4):
        try:
            p = subprocess.run([sys.executable, "-W", "ignore", "-m", "checks.orderspec"], cwd=core.VERIF,
                               capture_output=True, text=True, timeout=300)
            res = json.loads(p.stdout.splitlines()[-1])
            break
        except subprocess.TimeoutExpired:
            res = "timeout"
            break
        except Exception:        # the solver library ends the process now and then
            res = f"solver process ended with {p.returncode} {p.stderr[-200:]}"
            rep.notes.append(res)
    if isinstance(res, str):
        rep.unsupported.append((name, res))
        return
    obl, stats = res
    rep.funcs.update(("graph_util.resolve_connections", "graph_util.validate_resolution"))
    rep.assume(*TRUSTED, "nothing feeds the start and the end feeds nothing (the caller's wiring is checked for this); "
               "partial correctness: termination of the searches is not proved",
               "loops are cut mechanically from the source of the function on each run (vc/pyloop.py); the order of "
               "the entries of a list in a defaultdict(list) is abstracted")
    core.T.Stats.queries += stats[0]
    core.T.Stats.solver_s += stats[1]
    n = {}
    for label, ok in obl:
        n[label] = n.get(label, 0) + 1
        nm = f"{name}/{label}/{n[label] - 1}"
        if ok:
            rep.ok(nm, "z3:pyloop")
        else:
            rep.undecided.append((nm, "z3: not proved"))


def default(kind):
    if kind is list:
        return SBags()
    if kind in (int, Y.IntShim):
        return SMap()
    raise Y.Unsupported("defaultdict")


def sizes(emit, t, A):
    """distinct entries are as many as their set"""
    emit("exactly-once", t.distinct())
    assume(CARD(t.a) == t.n - t.lo)


def between(x):
    return z3.And(R(x), CR(x))


def post(emit, o, res):
    t, _ = res
    A = o.A
    sizes(emit, t, A)
    emit("starts-at-input", z3.And(t.lo == 0, t.n > 0, t.at(0) == START))
    emit("ends-at-output", t.at(t.n - 1) == END)
    sub = fa([x_], z3.Implies(t.a[x_], A[x_]), t.a[x_])
    emit("only-nodes-between", sub)
    assume(sub)
    assume(z3.Implies(CARD(t.a) == CARD(A), fa([x_], z3.Implies(A[x_], t.a[x_]), A[x_], CR(x_))))
    emit("every-node-between", fa([x_], t.a[x_] == between(x_)))
    P = o.g["_P"].a
    emit("after-everything-that-feeds-it", fa([n_, i_], z3.Implies(
        z3.And(edge(n_, i_), t.a[NB(n_, i_)]), z3.And(
            t.a[n_], t.at(P[n_]) == n_, t.at(P[NB(n_, i_)]) == NB(n_, i_), P[n_] < P[NB(n_, i_)],
            0 <= P[n_], P[NB(n_, i_)] < t.n))))


def satisfiable(emit, o):
    """an error although ranks exist: contradiction"""
    t, A = o.t, o.A
    sizes(emit, t, A)
    assume(R(END))
    assume(fa([n_, i_], z3.Implies(z3.And(edge(n_, i_), between(NB(n_, i_))), z3.And(
        between(n_), RANK(n_) < RANK(NB(n_, i_)), 0 <= RANK(n_))), NB(n_, i_)))
    m0 = fresh("least", Val)
    assume(fa([x_], z3.Implies(z3.And(A[x_], z3.Not(t.a[x_])), z3.And(
        A[m0], z3.Not(t.a[m0]), RANK(m0) <= RANK(x_))), A[x_]))
    counting(emit, o.g["_C"].a)
    emit("complete/least", z3.Not(z3.And(A[m0], z3.Not(t.a[m0]))))
    assume(z3.Not(z3.And(A[m0], z3.Not(t.a[m0]))))
    emit("complete/all", fa([x_], z3.Implies(A[x_], t.a[x_])))
    emit("complete/only", fa([x_], z3.Implies(t.a[x_], A[x_])))
    assume(fa([x_], t.a[x_] == A[x_], t.a[x_], A[x_]))
    assume(CARD(t.a) == CARD(A))
    last = t.at(t.n - 1)
    emit("complete/last", z3.Implies(feeds(last), last == END))
    assume(last == END)
    emit("satisfiable-is-accepted", z3.BoolVal(False))


if __name__ == "__main__":
    try:
        out = [obligations(), [core.T.Stats.queries, core.T.Stats.solver_s]]
    except Y.Unsupported as e:
        out = str(e)
    print(json.dumps(out))
