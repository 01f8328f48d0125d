"""N03: the execution order of a graph of connections."""
from .pycase import *
from .orderspec import prove_order
from parametricmatrixmodels import graph_util as GU

FN = ["graph_util.resolve_connections", "graph_util.validate_resolution",
      "NonSequentialModel.get_execution_order"]


def closure(succ, start):
    seen, todo = {start}, [start]
    while todo:
        for m in succ.get(todo.pop(), ()):
            if m not in seen:
                seen.add(m)
                todo.append(m)
    return seen


def expected(graph, s, e):
    """nodes on a path from s to e, or None if the wiring cannot be satisfied"""
    pred = {}
    for n, ms in graph.items():
        for m in ms:
            pred.setdefault(m, set()).add(n)
    on = closure(graph, s) & closure(pred, e)
    if s not in on or e not in on:
        return None
    if any(not pred.get(n, set()) <= on for n in on):
        return None                      # fed by something that never runs
    left, done = set(on), set()
    while left:
        ready = {n for n in left if pred.get(n, set()) <= done}
        if not ready:
            return None                  # cycle
        done |= ready
        left -= ready
    return on, pred


def judge(graph, s="input", e="output"):
    want = expected(graph, s, e)
    inp = dict(graph=graph, start=s, end=e)
    try:
        order = GU.resolve_connections({k: list(v) for k, v in graph.items()}, s, e)[0]
    except (RuntimeError, ValueError):
        need(want is None, "a satisfiable wiring is refused", **inp)
        return
    need(want is not None, "a wiring that is cyclic or cannot be satisfied is accepted",
         order=order, **inp)
    on, pred = want
    order = list(order)
    need(order[0] == s and order[-1] == e, "the order does not go from input to output",
         order=order, **inp)
    need(len(order) == len(set(order)) and set(order) == on,
         "not every module on a path from input to output exactly once", order=order, **inp)
    at = {n: k for k, n in enumerate(order)}
    for n in on:
        for m in pred.get(n, ()):
            need(at[m] < at[n], f"{n} runs before {m}, which feeds it", order=order, **inp)


INNER = ("a", "b", "c")


def exhaustive(part, parts=4):
    """every graph over input, three inner nodes and output; two insertion orders"""
    src, dst = ("input",) + INNER, INNER + ("output",)
    edges = [(x, y) for x in src for y in dst]

    def run(rep):
        def go():
            for bits in range(part, 1 << len(edges), parts):
                es = [e for k, e in enumerate(edges) if bits >> k & 1]
                for flip in (False, True):
                    g = {}
                    for x, y in (reversed(es) if flip else es):
                        g.setdefault(x, []).append(y)
                    judge(g)
        native(rep, f"graphs.{part}", "exhaustive", go,
               "every graph over input, output and three modules, two insertion orders")
    return run


def sampled(rep):
    def go(seed, count):
        rng = random.Random(seed)
        for _ in range(count):
            n = rng.randint(1, 8)
            names = [f"m{k}" for k in range(n)]
            rng.shuffle(names)
            acyclic = rng.random() < 0.8
            s, e = rng.choice((("input", "output"), ("src", "dst")))
            es = []
            for _ in range(rng.randint(1, 3 * n)):
                i, j = rng.randrange(-1, n), rng.randrange(0, n + 1)
                if acyclic and i >= j:
                    continue
                es.append((s if i < 0 else names[i], e if j == n else names[j]))
            es += [x for x in es if rng.random() < 0.15]      # repeated connections
            if rng.random() < 0.7:                              # make it likely to be satisfiable
                es += [(s, m) for m in names if not any(y == m for _, y in es)]
            es.append((rng.choice(names), e))
            rng.shuffle(es)
            g = {}
            for x, y in es:
                g.setdefault(x, []).append(y)
            judge(g, s, e)
    for k in range(4):
        native(rep, f"random-graphs.{k}", "order", lambda: go(k, 6000), "6000 random graphs of up to 8 modules")

    def models():
        """the same through graph models with named modules in trees"""
        from parametricmatrixmodels import NonSequentialModel
        M = pmm.modules
        rng = random.Random(7)
        for _ in range(300):
            n = rng.randint(1, 5)
            names = ["x.a", "x.b", "input2", "outputs", "l.0"][:n]
            tree = {"x": {"a": M.LinearNN(1), "b": M.LinearNN(1)}, "input2": M.LinearNN(1),
                    "outputs": M.LinearNN(1), "l": [M.LinearNN(1)]}
            order = names[:]
            rng.shuffle(order)
            es = []
            for i in range(n + 1):
                for j in range(i, n + 1):
                    if rng.random() < 0.45:
                        x = "input" if i == 0 else order[i - 1]
                        y = "output" if j == n else order[j]
                        if x != y:
                            es.append((x, y))
            es += [("input", m) for m in names if not any(y == m for _, y in es) and rng.random() < .8]
            if rng.random() < 0.1:
                es.append((order[-1], order[0]))
            rng.shuffle(es)
            g = {}
            for x, y in es:
                g.setdefault(x, []).append(y)
            if "input" not in g:
                continue
            want = expected(g, "input", "output")
            m = NonSequentialModel(tree, {k: list(v) for k, v in g.items()})
            try:
                got = list(m.get_execution_order())
            except (RuntimeError, ValueError):
                need(want is None, "a satisfiable wiring is refused", connections=g)
                continue
            need(want is not None, "an unsatisfiable wiring is accepted", connections=g, order=got)
            need(set(got) == want[0] and len(got) == len(want[0]) and got[0] == "input" and
                 got[-1] == "output", "not the modules between input and output", connections=g, order=got)
            at = {q: k for k, q in enumerate(got)}
            need(all(at[p] < at[q] for q in got for p in want[1].get(q, ())),
                 "a module runs before one that feeds it", connections=g, order=got)
    native(rep, "graph-models", "order", models, "300 random wirings of up to five modules in a tree")


if __name__ == "__main__":
    main("N03", [], [prove_order] + [exhaustive(k) for k in range(4)] + [sampled])
