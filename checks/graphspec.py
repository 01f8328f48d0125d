"""Specification of the wiring language of graph models, written from the
documentation of NonSequentialModel and graph_util (independent of the code).

A connection `src -> dst`: the source path is a module path (or `input`)
followed by a path inside that module's output; the destination is a module
path (or `output`) followed by a place inside its input structure.  Sources
that name the same place share it: they are numbered (first free indices, in
listing order) below that place; next to string keys they get a fresh key.
"""


def module_paths(tree, pre=()):
    if isinstance(tree, dict):
        for k, v in tree.items():
            yield from module_paths(v, pre + (str(k),))
    elif isinstance(tree, (list, tuple)):
        for i, v in enumerate(tree):
            yield from module_paths(v, pre + (str(i),))
    else:
        yield pre


def split_path(p, paths, reserved, sep):
    parts = tuple(p.split(sep))
    if parts[0] == reserved:
        return (reserved,), parts[1:]
    for m in paths:
        if parts[:len(m)] == m:
            return m, parts[len(m):]
    raise KeyError(p)


def edges(connections, modules, sep="."):
    """list of ((src module, src inner), (dst module, dst inner))"""
    paths = list(module_paths(modules))
    out = []
    for k, vs in connections.items():
        for v in (vs if isinstance(vs, (list, tuple)) else [vs]):
            out.append((split_path(k, paths, "input", sep),
                        split_path(v, paths, "output", sep)))
    return out


class Fresh:
    """a key chosen by the library; only its freshness is specified"""
    _n = 0

    def __init__(self):
        Fresh._n += 1
        self.n = Fresh._n

    def __repr__(self):
        return f"<fresh{self.n}>"


def slots(inner):
    """concrete distinct place for each of the listed inner paths"""
    inner = [tuple(p) for p in inner]
    depth = min(map(len, inner))
    top = max(map(len, inner))
    while depth <= top:
        groups = {}
        for i, p in enumerate(inner):
            if len(p) >= depth:
                groups.setdefault(p[:depth], []).append(i)
        for pre, ids in groups.items():
            ends = [i for i in ids if len(inner[i]) == depth]
            if len(ids) < 2 or not ends:
                continue
            used = [inner[i][depth] for i in ids if len(inner[i]) > depth]
            if any(not str(u).isdigit() for u in used):
                for i in ends:
                    inner[i] = inner[i] + (Fresh(),)
            else:
                free = iter(k for k in range(10 ** 6) if str(k) not in
                            {str(int(u)) for u in used})
                for i in ends:
                    inner[i] = inner[i] + (str(next(free)),)
            top = max(map(len, inner))
        depth += 1
    return inner


def build(paths, values):
    """nested structure holding value v at path p (lists where all keys of a
    level are 0..k-1, dicts otherwise)"""
    if len(paths) == 1 and paths[0] == ():
        return values[0]
    assert all(p for p in paths), "a place is both a leaf and a branch"
    heads = {}
    for p, v in zip(paths, values):
        heads.setdefault(p[0], ([], []))
        heads[p[0]][0].append(p[1:])
        heads[p[0]][1].append(v)
    sub = {k: build(*hv) for k, hv in heads.items()}
    if all(str(k).isdigit() for k in sub):
        ks = sorted(int(k) for k in sub)
        return [sub[str(i)] if str(i) in sub else None for i in range(ks[-1] + 1)]
    return sub


def follow(tree, parts):
    for k in parts:
        tree = tree[int(k)] if isinstance(tree, (list, tuple)) else tree[k]
    return tree


def needed(es):
    """modules on a path from input to output, in a dependency order; raises
    ValueError if cyclic or unsatisfiable"""
    succ, pred = {}, {}
    for (s, _), (d, _) in es:
        succ.setdefault(s, []).append(d)
        pred.setdefault(d, []).append(s)

    def reach(start, nxt):
        seen, st = set(), [start]
        while st:
            n = st.pop()
            if n not in seen:
                seen.add(n)
                st += nxt.get(n, [])
        return seen
    on = reach(("input",), succ) & reach(("output",), pred)
    if ("input",) not in on or ("output",) not in on:
        raise ValueError("output not connected to input")
    order, left = [], set(on)
    while left:
        rdy = [n for n in sorted(left) if all(
            p in on and p not in left for p in pred.get(n, []))]
        if not rdy:
            raise ValueError("cyclic or unsatisfiable")
        order.append(rdy[0])
        left.discard(rdy[0])
    return order


def dataflow(es, data, apply):
    """evaluate; apply(module path, input tree) -> output tree"""
    order = needed(es)
    val = {("input",): data}

    def gather(dst):
        into = [(s, d[1]) for s, d in es if d[0] == dst]
        places = slots([p for _, p in into])
        return build(places, [follow(val[s[0]], s[1]) for s, _ in into])
    for n in order:
        if n in (("input",), ("output",)):
            continue
        val[n] = apply(n, gather(n))
    return gather(("output",))
