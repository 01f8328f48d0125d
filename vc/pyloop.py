"""Python functions with unbounded loops, by loop invariants.

The source of the real function is taken on every run and transformed
mechanically: every loop is cut at its head (the invariant is proved there on
entry, the variables the loop changes are forgotten, the invariant assumed; one
arbitrary iteration is executed and has to establish the invariant again; the
code behind the loop runs from "invariant and not condition").  Nothing else of
the function changes, its statements run natively on symbolic containers.
Loops are matched with their invariants by position; a function whose loops do
not match, or that uses other operations, is Unsupported.
"""
from __future__ import annotations

import ast
import inspect
import itertools
import textwrap

from . import pysym as Y
from .pysym import Run, SBool, SInt, Opq, Unsupported, Val, toint, z3

B, I = z3.BoolSort(), z3.IntSort()
_n = itertools.count()


def fresh(name, sort):
    return z3.Const(f"{name}!{next(_n)}", sort)


def freshfn(name, *sorts):
    return z3.Function(f"{name}!{next(_n)}", *sorts)


class EndPath(BaseException):
    """the end of the arbitrary iteration of a loop"""


def el(x):
    if isinstance(x, Opq):
        return x.e
    raise Unsupported(f"element {type(x).__name__}")


def assume(f):
    Run.cur.pc.append(f)


x_, y_ = z3.Consts("x y", Val)
i_, j_ = z3.Ints("i j")
SETSORT = z3.ArraySort(Val, B)
CARD = z3.Function("card", SETSORT, I)


class Poison:
    def _no(self, *a, **k):
        raise Unsupported("a variable of a loop body is used outside of its iteration")
    __eq__ = __ne__ = __bool__ = __getattr__ = __iter__ = __len__ = __call__ = _no
    __hash__ = None


class SSet:
    def __init__(self, items=()):
        self.a = z3.K(Val, z3.BoolVal(False))
        for x in items:
            self.add(x)

    def __contains__(self, x):
        return bool(SBool(z3.Select(self.a, el(x))))

    def add(self, x):
        self.a = z3.Store(self.a, el(x), True)

    def clear(self):
        self.a = z3.K(Val, z3.BoolVal(False))

    def __and__(self, o):
        r = SSet()
        r.a = fresh("and", SETSORT)
        assume(z3.ForAll([x_], r.a[x_] == z3.And(self.a[x_], o.a[x_])))
        return r

    def slen(self):
        return SInt(CARD(self.a))

    def state(self):
        return [self.a]

    def havoc(self, nm):
        self.a = fresh(nm, SETSORT)


class SList:
    """a list or deque: length, entries from index lo on, and its elements as a set"""

    def __init__(self, items=()):
        if isinstance(items, SList):
            self.lo, self.n, self.arr, self.a = items.lo, items.n, items.arr, items.a
            return
        self.lo, self.n = z3.IntVal(0), z3.IntVal(0)
        self.arr = fresh("list", z3.ArraySort(I, Val))
        self.a = z3.K(Val, z3.BoolVal(False))
        for x in items:
            self.append(x)

    def at(self, i):
        return z3.Select(self.arr, i)

    def append(self, x):
        self.arr = z3.Store(self.arr, self.n, el(x))
        self.a = z3.Store(self.a, el(x), True)
        self.n = z3.simplify(self.n + 1)

    def _link(self):
        """the elements are exactly the entries"""
        pos = freshfn("pos", Val, I)
        assume(z3.ForAll([i_], z3.Implies(z3.And(self.lo <= i_, i_ < self.n), self.a[self.arr[i_]]),
                         patterns=[self.arr[i_]]))
        assume(z3.ForAll([x_], z3.Implies(self.a[x_], z3.And(
            self.lo <= pos(x_), pos(x_) < self.n, self.arr[pos(x_)] == x_)), patterns=[self.a[x_]]))

    def _take(self, x, lo, n):
        old = self.a
        self.lo, self.n = z3.simplify(lo), z3.simplify(n)
        self.a = fresh("elems", SETSORT)
        assume(z3.ForAll([x_], z3.Implies(self.a[x_], old[x_]), patterns=[self.a[x_]]))
        assume(z3.ForAll([x_], z3.Implies(z3.And(old[x_], x_ != x), self.a[x_]), patterns=[old[x_]]))
        self._link()
        return Opq(x)

    def _some(self):
        if not bool(self):
            raise IndexError("empty")

    def pop(self, *a):
        if a:
            raise Unsupported("pop at an index")
        self._some()
        return self._take(self.at(self.n - 1), self.lo, self.n - 1)

    def popleft(self):
        self._some()
        return self._take(self.at(self.lo), self.lo + 1, self.n)

    def __getitem__(self, i):
        i = toint(i)
        ln = self.n - self.lo
        if not SBool(z3.And(i >= -ln, i < ln)):
            raise IndexError("out of range")
        return Opq(self.at(z3.simplify(z3.If(i < 0, self.n + i, self.lo + i))))

    def __contains__(self, x):
        return bool(SBool(z3.Select(self.a, el(x))))

    def __bool__(self):
        return Run.cur.decide(self.lo < self.n)

    def slen(self):
        return SInt(self.n - self.lo)

    def state(self):
        return [self.a, self.arr, self.lo, self.n]

    def havoc(self, nm):
        self.a, self.arr = fresh(nm, SETSORT), fresh(nm, z3.ArraySort(I, Val))
        self.lo, self.n = fresh(nm + ".lo", I), fresh(nm + ".n", I)
        assume(z3.And(0 <= self.lo, self.lo <= self.n))
        self._link()

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def distinct(self):
        return z3.ForAll([i_, j_], z3.Implies(z3.And(self.lo <= i_, i_ < j_, j_ < self.n),
                                              self.arr[i_] != self.arr[j_]))


class SMap:
    """defaultdict(int)"""

    def __init__(self):
        self.a = z3.K(Val, z3.IntVal(0))

    def __getitem__(self, k):
        return SInt(z3.Select(self.a, el(k)))

    def __setitem__(self, k, v):
        self.a = z3.Store(self.a, el(k), toint(v))

    def state(self):
        return [self.a]

    def havoc(self, nm):
        self.a = fresh(nm, z3.ArraySort(Val, I))


class SBags:
    """defaultdict(list), which elements each list holds (not in which order)"""

    def __init__(self):
        self.a = z3.K(Val, z3.K(Val, z3.BoolVal(False)))

    def __getitem__(self, k):
        return Bag(self, el(k))

    def get(self, k, default=None):
        if not (isinstance(default, SList) and z3.is_int_value(default.n) and default.n.as_long() == 0):
            raise Unsupported("default of get")
        return Bag(self, el(k))

    def state(self):
        return [self.a]

    def havoc(self, nm):
        self.a = fresh(nm, z3.ArraySort(Val, SETSORT))


class Bag:
    def __init__(self, of, k):
        self.of, self.k = of, k

    def append(self, x):
        self.of.a = z3.Store(self.of.a, self.k, z3.Store(self.of.a[self.k], el(x), True))

    def it(self):
        return BagIt(self.of.a[self.k])


class BagIt:
    """every element comes at least once, nothing else comes"""

    def __init__(self, elems):
        self.elems, self.done, self.cur = elems, z3.K(Val, z3.BoolVal(False)), None

    def havoc(self):
        self.done = fresh("done", SETSORT)

    def more(self):
        self.cur = fresh("item", Val)
        go = fresh("more", B)
        if SBool(go):
            assume(self.elems[self.cur])
            return True
        assume(z3.ForAll([x_], z3.Implies(self.elems[x_], self.done[x_])))
        return False

    def next(self):
        return Opq(self.cur)

    def advance(self):
        self.done = z3.Store(self.done, self.cur, True)


ING = z3.Function("in_graph", Val, B)
DEG = z3.Function("n_next", Val, I)
NB = z3.Function("next", Val, I, Val)


class SGraph:
    """some dict from nodes to lists of nodes"""

    def items(self):
        return _Items()

    def get(self, k, default=None):
        if not (isinstance(default, SList) and z3.is_int_value(default.n) and default.n.as_long() == 0):
            raise Unsupported("default of get")
        return Nbrs(el(k))          # DEG is 0 outside of the graph

    def __getitem__(self, k):
        if not SBool(ING(el(k))):
            raise KeyError("?")
        return Nbrs(el(k))

    def __contains__(self, k):
        return bool(SBool(ING(el(k))))

    def state(self):
        return []


class _Items:
    def it(self):
        return ItemsIt()


class ItemsIt:
    """every key exactly once, in some order"""

    def __init__(self):
        self.done, self.cur = z3.K(Val, z3.BoolVal(False)), None

    def havoc(self):
        self.done = fresh("done", SETSORT)
        assume(z3.ForAll([x_], z3.Implies(self.done[x_], ING(x_)), patterns=[self.done[x_]]))

    def more(self):
        self.cur = fresh("key", Val)
        if SBool(fresh("more", B)):
            assume(z3.And(ING(self.cur), z3.Not(self.done[self.cur])))
            return True
        assume(z3.ForAll([x_], ING(x_) == self.done[x_]))
        return False

    def next(self):
        return Opq(self.cur), Nbrs(self.cur)

    def advance(self):
        self.done = z3.Store(self.done, self.cur, True)


class Nbrs:
    def __init__(self, node):
        self.node = node

    def it(self):
        return NbrIt(self.node)


class NbrIt:
    def __init__(self, node):
        self.node, self.pos = node, z3.IntVal(0)

    def havoc(self):
        self.pos = fresh("pos", I)
        assume(z3.And(0 <= self.pos, self.pos <= DEG(self.node)))

    def more(self):
        return bool(SBool(self.pos < DEG(self.node)))

    def next(self):
        return Opq(NB(self.node, self.pos))

    def advance(self):
        self.pos = self.pos + 1


# ---------------------------------------------------------------- loops
class Loop:
    def __init__(self, inv, mods, step=None, before=None):
        self.inv, self.mods, self.step, self.before = inv, mods, step, before


class Ghost:
    def __init__(self, a):
        self.a = a

    def state(self):
        return [self.a]

    def havoc(self, nm):
        self.a = fresh(nm, self.a.sort())


class Proof:
    """state of one run: ghosts, open loops, obligations met on the way"""

    def __init__(self, loops, ghosts, emit):
        self.loops, self.g, self.emit = loops, ghosts, emit
        self.open = {}

    def env(self, loc):
        return {**{k: v for k, v in loc.items() if not isinstance(v, Poison)}, **self.g}

    def check(self, k, loc, it, when):
        for label, f in self.loops[k].inv(self.env(loc), it, self.open):
            self.emit(f"loop{k}/{when}/{label}", f)

    def frame(self, loc):
        return {n: [s.get_id() for s in v.state()] for n, v in self.env(loc).items()
                if hasattr(v, "state")}

    def enter(self, k, loc, it=None):
        if self.loops[k].before:
            self.loops[k].before(self.env(loc))
        self.check(k, loc, it, "entry")
        lp, env = self.loops[k], self.env(loc)
        for m in lp.mods:
            if not hasattr(env.get(m), "havoc"):
                raise Unsupported(f"loop {k} has no container {m}")
            env[m].havoc(m)
        if it is not None:
            it.havoc()
        for _, f in lp.inv(self.env(loc), it, self.open):
            assume(f)
        self.open[k] = (self.frame(loc), it)

    def body(self, k, loc):
        if self.loops[k].step:
            self.loops[k].step(self.env(loc), self.open[k][1])

    def end(self, k, loc):
        fr, it = self.open[k]
        for n, s in self.frame(loc).items():
            if n not in self.loops[k].mods and fr.get(n) not in (None, s):
                raise Unsupported(f"loop {k} changes {n}, which its contract does not name")
        if it is not None:
            it.advance()
        self.check(k, loc, it, "kept")
        raise EndPath()


class Cut(ast.NodeTransformer):
    def __init__(self):
        self.k = 0

    def visit_List(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name("__list", ast.Load()), [node], [])
        return node

    def _comp(self, node):
        raise Unsupported("comprehension")
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
    visit_Lambda = visit_Yield = visit_YieldFrom = visit_Nonlocal = visit_Global = _comp

    def visit_AnnAssign(self, node):
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.Assign([node.target], node.value))

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and isinstance(f.value, ast.Constant):
            return ast.Call(ast.Name("__join", ast.Load()), [f.value] + node.args, [])
        return node

    def _parts(self, node, loop_vars):
        if node.orelse:
            raise Unsupported("loop with else")
        k = self.k
        self.k += 1
        names = {n.id for b in node.body for n in ast.walk(b)
                 if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))} | loop_vars
        body = []
        for b in node.body:
            b = _Continue(k).visit(b)
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        return k, sorted(names), body

    def visit_While(self, node):
        k, names, body = self._parts(node, set())
        src = f"__p.enter({k}, locals())\n" + "".join(f"{n} = __poison\n" for n in names)
        pre = ast.parse(src).body
        new = ast.If(self.visit(node.test),
                     ast.parse(f"__p.body({k}, locals())").body + body +
                     ast.parse(f"__p.end({k}, locals())").body, [])
        return pre + [new]

    def visit_For(self, node):
        lv = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        k, names, body = self._parts(node, lv)
        pre = [ast.Assign([ast.Name(f"__it{k}", ast.Store())],
                          ast.Call(ast.Attribute(self.visit(node.iter), "it", ast.Load()), [], []))]
        pre += ast.parse("".join(f"{n} = __poison\n" for n in names) +
                         f"__p.enter({k}, locals(), __it{k})\n").body
        new = ast.If(ast.parse(f"__it{k}.more()", mode="eval").body,
                     [ast.Assign([node.target], ast.parse(f"__it{k}.next()", mode="eval").body)] +
                     ast.parse(f"__p.body({k}, locals())").body + body +
                     ast.parse(f"__p.end({k}, locals())").body, [])
        return pre + [new]


class _Continue(ast.NodeTransformer):
    """continue of this loop (not of loops inside of it)"""

    def __init__(self, k):
        self.k = k

    def visit_Continue(self, node):
        return ast.parse(f"__p.end({self.k}, locals())").body[0]

    def visit_Break(self, node):
        raise Unsupported("break")

    def visit_While(self, node):
        return node
    visit_For = visit_FunctionDef = visit_While


def cut(fn, extra):
    """the function with its loops cut; returns make(proof) -> callable"""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    fd = tree.body[0]
    fd.decorator_list = []
    fd.returns = None
    for a in fd.args.args + fd.args.kwonlyargs + fd.args.posonlyargs:
        a.annotation = None
    tr = Cut()
    fd.body = [y for b in fd.body for y in _aslist(tr.visit(b))]
    ast.fix_missing_locations(tree)
    code = compile(tree, f"<{fn.__name__} with cut loops>", "exec")

    def make(proof):
        g = dict(fn.__globals__)
        g.update(Y.SHIMS)
        g.update(extra)
        g.update(__list=SList, __poison=Poison(), __p=proof,
                 __join=lambda s, x: "?" if hasattr(x, "state") else s.join(x))
        exec(code, g)
        return g[fn.__name__]
    return make, tr.k


def _aslist(x):
    return x if isinstance(x, list) else [x]
