"""N04: every connection has its own slot."""
from .pycase import *
from .N05 import follow, places
from parametricmatrixmodels import graph_util as GU

FN = ["graph_util." + x for x in ("concretize_paths", "concretize_connections",
                                  "partition_connections_by_tree", "place_connections_in_tree",
                                  "get_outer_connections_by_tree")]


def parts(p, sep="."):
    return tuple(p.split(sep)) if p else ()


def pre(a, b):
    return a == b[:len(a)]


def slots_ok(given, got, sep, **inp):
    """the documented outcome of making a list of slots explicit"""
    g, r = [parts(p, sep) for p in given], [parts(p, sep) for p in got]
    inp = dict(given=given, got=got, separator=sep, **inp)
    need(len(g) == len(r), "a slot was lost or added", **inp)
    for k, (a, b) in enumerate(zip(g, r)):
        need(pre(a, b), "a slot is not at or below the place it was given for", slot=given[k], **inp)
        if not any(pre(a, o) for j, o in enumerate(g) if j != k):
            need(a == b, "an explicitly named slot was moved", slot=given[k], **inp)
    for (i, a), (j, b) in itertools.permutations(enumerate(r), 2):
        need(not pre(a, b), "two sources share a place", slots=(got[i], got[j]), **inp)
    # added names next to indices only are indices, as small as possible
    for k, (a, b) in enumerate(zip(g, r)):
        if a == b:
            continue
        at = a
        for added in b[len(a):]:
            sib = {o[len(at)] for o in g if len(o) > len(at) and pre(at, o)}
            if all(s.isdigit() for s in sib):
                need(added.isdigit(), "a name was added where all other slots are indices", **inp)
                used = {o[len(at)] for o in r if len(o) > len(at) and pre(at, o)}
                need(all(str(n) in used for n in range(int(added))), "an index was left out", **inp)
            else:
                need(added not in sib, "an added name is taken", **inp)
            at = at + (added,)


KEYS = ("a", "0", "1")


def paths_(rep):
    allp = [""] + [".".join(p) for n in (1, 2) for p in itertools.product(KEYS, repeat=n)]

    def pairs(n):
        def go():
            for ps in itertools.product(allp, repeat=n):
                slots_ok(list(ps), GU.concretize_paths(list(ps)), ".")
        return go
    for n in (1, 2, 3):
        native(rep, f"slots.{n}", "exhaustive", pairs(n),
               f"every list of {n} slots of up to two parts over three keys")

    def random_(seed):
        def go():
            rng = random.Random(seed)
            for _ in range(4000):
                sep = rng.choice((".", "/"))
                keys = rng.choice((("a", "b", "0", "1", "2", "10"), ("0", "1", "2"), ("x", "y")))
                ps = [sep.join(rng.choice(keys) for _ in range(rng.randint(0, 4)))
                      for _ in range(rng.randint(1, 7))]
                slots_ok(ps, GU.concretize_paths(list(ps), separator=sep), sep)
        return go
    for k in range(3):
        native(rep, f"slots.random.{k}", "random", random_(k), "4000 lists of up to 7 slots of up to 4 parts")


NAMES = ("input2", "inputs", "output_a", "outputs", "M1", "x.a", "x.input", "l.0", "l.1", "t.0.output")


def tree():
    return {"input2": "*", "inputs": "*", "output_a": "*", "outputs": "*", "M1": "*",
            "x": {"a": "*", "input": "*"}, "l": ["*", "*"], "t": ({"output": "*"},)}


def sub(p, sep):
    return p.replace(".", sep)


def wirings(seed, count):
    rng = random.Random(seed)
    for _ in range(count):
        sep = rng.choice((".", "/"))
        names = rng.sample(NAMES, rng.randint(1, 4))
        inner = rng.choice((("",), ("", "0"), ("", "0", "1"), ("", "k", "k.0", "z"), ("0", "1"),
                            ("", "M1", "a", "0.0")))
        srcs = ["input"] + names
        conn = {}
        for _ in range(rng.randint(1, 8)):
            s, t = rng.choice(srcs), rng.choice(names + ["output"])
            si = rng.choice(("", "", "0", "1.k", "input"))
            a = ".".join(x for x in (s, si) if x)
            ti = rng.choice(inner)
            b = ".".join(x for x in (t, ti) if x)
            conn.setdefault(sub(a, sep), []).append(sub(b, sep))
        # the same source into the same explicitly named place twice is one place twice
        seen, ok = set(), True
        for a, bs in conn.items():
            for b in bs:
                ok = ok and (a, b) not in seen
                seen.add((a, b))
        if not ok:
            continue
        if rng.random() < 0.3:
            conn = {k: v[0] if len(v) == 1 else tuple(v) for k, v in conn.items()}
        yield conn, names, sep


def vals(v):
    return [v] if isinstance(v, str) else list(v)


def outer_of(p, sep):
    """(module or reserved name, rest) of a connection end"""
    q = p.replace(sep, ".")
    for n in sorted(NAMES + ("input", "output"), key=len, reverse=True):
        if q == n or q.startswith(n + "."):
            return n.replace(".", sep), q[len(n) + 1:].replace(".", sep)
    raise AssertionError(p)


# ------------------------------------- splitting a connection, for all strings
def zs(s):
    return z3.StringVal(s)


def wellformed(x, sep):
    """a path: its parts joined by the separator, none of them empty"""
    return z3.And(z3.Length(x) > 0, z3.Not(z3.PrefixOf(zs(sep), x)), z3.Not(z3.SuffixOf(zs(sep), x)),
                  z3.Not(z3.Contains(x, zs(sep + sep))))


class End:
    """one end of a connection, built from its parts: a reserved name (allowed or not at
    this end) or a module's path, alone or followed by a path within it"""

    def __init__(self, nm, form, sep, allowed, other):
        self.nm, self.form, self.sep = nm, form, sep
        o, r = z3.String(f"outer{nm}"), z3.String(f"rest{nm}")
        self.facts = [wellformed(o, sep), wellformed(r, sep)]
        self.outer, self.rest = o, r
        what, _, tail = form.partition("+")
        if what == "allowed":
            self.outer = zs(allowed)
        elif what == "other":
            self.outer = zs(other)
        else:          # a path of the tree, or of nothing in the tree
            for w in (allowed, other):
                self.facts += [o != zs(w), z3.Not(z3.PrefixOf(zs(w + sep), o))]
        if not tail:
            self.rest = zs("")
        self.parts = [self.outer, zs(sep), r] if tail else [self.outer]
        self.e = z3.Concat(*self.parts) if tail else self.outer
        self.image = z3.Concat(self.outer, zs(sep + sep), self.rest)
        self.valid = what in ("allowed", "module")

    def text(self):
        return SStr(self.e, parts=self.parts)

    def look(self, want):
        """getitem_by_strpath by its contract (N05): the rest below the tree's part"""
        if self.form.startswith("nowhere"):
            raise KeyError("no such place")
        if not self.form.startswith("module"):
            raise Y.Unsupported("getitem_by_strpath of a reserved name")
        node = Opq(z3.Const(f"node{self.nm}", Val))
        return (node, SStr(self.rest, self.text())) if want else node


FORMS = [w + t for w in ("allowed", "other", "module", "nowhere") for t in ("", "+path")]
GOOD = ["allowed+path", "module", "module+path"]
SHAPES = {"one": {0: [0]}, "text": {0: 0}, "two-values": {0: [0, 1]}, "two-sources": {0: [0], 1: (1,)}}


def split_case(rep, shape, forms, sep):
    shp = SHAPES[shape]
    vs = {k: ([v] if isinstance(v, int) else list(v)) for k, v in shp.items()}
    it = iter(forms)
    K = {k: End(f"K{k}", next(it), sep, "input", "output") for k in shp}
    V = {v: End(f"V{v}", next(it), sep, "output", "input") for k in shp for v in vs[k]}
    ends = [*K.values(), *V.values()]
    facts = [f for x in ends for f in x.facts]
    if len(K) == 2:
        facts.append(K[0].e != K[1].e)

    def look(pytree, strpath, separator, allow_early_return, return_remainder, is_leaf):
        if not (allow_early_return is True and is_leaf is None) or separator != sep:
            raise Y.Unsupported("other use of getitem_by_strpath")
        for x in ends:
            if Y.tostr(strpath).eq(x.e):
                return x.look(return_remainder)
        raise Y.Unsupported("getitem_by_strpath of another path")

    def run():
        conn = {K[k].text(): V[v].text() if isinstance(v, int) else type(v)(V[i].text() for i in v)
                for k, v in shp.items()}
        with Y.Shims(GU, getitem_by_strpath=stub(GU.getitem_by_strpath, look)):
            return GU.partition_connections_by_tree(conn, Opq(NODE_), separator=sep)

    def lossless(out, log):
        """the documented form: the module's path, two separators, the path within"""
        if out[0] != "return" or not isinstance(out[1], dict):
            return False
        d = list(out[1].items())
        if len(d) != len(K):
            return False
        c = []
        for k, (a, bs) in zip(K, d):
            if not isinstance(bs, list) or len(bs) != len(vs[k]):
                return False
            c.append(Y.tostr(a) == K[k].image)
            c += [Y.tostr(b) == V[v].image for v, b in zip(vs[k], bs)]
        return z3.And(*c)

    def spec():
        t = z3.BoolVal(True)
        if all(x.valid for x in ends):
            return [("lossless", t, lossless)]
        return [("refused", t, raises(ValueError, KeyError))]
    Y.HASH[0] = True
    try:
        pycase(rep, f"split.{shape}.{'.'.join(forms)}", run, spec, facts,
               split_confirm(K, V, vs, shp, sep))
    finally:
        Y.HASH[0] = False


NODE_ = z3.Const("tree", Val)


def split_confirm(K, V, vs, shp, sep):
    """the strings of the model as connections of a tree that has their modules"""
    def confirm(m):
        def val(t):
            return m.eval(t, model_completion=True).as_string()
        tr = {}
        for x in (*K.values(), *V.values()):
            if x.form.startswith("module"):
                t = tr
                *way, last = val(x.outer).split(sep)
                for w in way:
                    t = t.setdefault(w, {}) if isinstance(t, dict) else None
                if not isinstance(t, dict) or isinstance(t.setdefault(last, "*"), dict):
                    return None               # no tree has both
        conn = {val(K[k].e): val(V[v].e) if isinstance(v, int) else type(v)(val(V[i].e) for i in v)
                for k, v in shp.items()}
        want = {val(K[k].image): [val(V[v].image) for v in vs[k]] for k in K}
        bad = not all(x.valid for x in (*K.values(), *V.values()))
        inp = dict(connections=conn, tree=tr, separator=sep)
        try:
            try:
                got = GU.partition_connections_by_tree(copy.deepcopy(conn), tr, separator=sep)
            except (ValueError, KeyError, TypeError, IndexError):
                need(bad, "a valid connection is refused", **inp)
                return None
            need(not bad, "an invalid connection is accepted", got=got, **inp)
            need(got == want, "splitting is not lossless", got=got, expected=want, **inp)
        except Exception as e:
            if core.harness_mismatch(e):
                raise
            return e
        return None
    return confirm


def split_part(part, of):
    def splits(rep):
        rep.assume("getitem_by_strpath satisfies its contract (N05); a path has no empty part")
        rep.funcs.update(FN)
        if part == 0:
            rep.partly = ("splitting a connection is discharged for all strings, up to two connections at "
                          "a time; giving out the slots and delivering to them is checked on the real "
                          "functions for the inputs listed under bounded_obligations only")
        todo = [("one", forms) for forms in itertools.product(FORMS, repeat=2)] + [
            ("text", ("module+path", "module")), ("two-values", ("module", "module", "allowed+path")),
            ("two-sources", ("module", "allowed+path", "module", "module")),
            ("two-sources", ("allowed", "allowed+path", "module", "allowed"))]
        for shape, forms in todo[part::of]:
            split_case(rep, shape, forms, ".")
    return splits


def partition(rep):
    def go(seed):
        def run():
            for conn, names, sep in wirings(seed, 1500):
                inp = dict(connections=conn, tree=tree(), separator=sep)
                d = sep + sep
                got = GU.partition_connections_by_tree(copy.deepcopy(conn), tree(), separator=sep)
                want = {}
                for a, bs in conn.items():
                    want[d.join(outer_of(a, sep))] = [d.join(outer_of(b, sep)) for b in vals(bs)]
                need(got == want and list(got) == list(want), "splitting is not lossless", got=got,
                     expected=want, **inp)
                o = GU.get_outer_connections_by_tree(copy.deepcopy(conn), tree(), separator=sep)
                w2 = {}
                for a, bs in conn.items():
                    l = w2.setdefault(outer_of(a, sep)[0], [])
                    for b in vals(bs):
                        m = outer_of(b, sep)[0]
                        if m not in l:
                            l.append(m)
                need({k: sorted(v) for k, v in o.items()} == {k: sorted(v) for k, v in w2.items()},
                     "connections between modules", got=o, expected=w2, **inp)
        return run
    for k in range(2):
        native(rep, f"partition.{k}", "lossless", go(k), "1500 random wirings over ten module names")

    def refused():
        for conn in ({"output": "M1"}, {"output.0": "M1"}, {"M1": "input"}, {"M1": ["output", "input.0"]},
                     {"M1..0": "output"}, {"M1": "output..0"}, {"nope": "output"}, {"M1": "x.nope"}):
            for f in (GU.partition_connections_by_tree, GU.concretize_connections,
                      GU.place_connections_in_tree):
                try:
                    f(conn, tree())
                    need(False, "an invalid connection is accepted", connections=conn)
                except (ValueError, KeyError, TypeError, IndexError):
                    pass
    native(rep, "partition", "refused", refused, "eight invalid wirings")


def delivered(rep):
    def go(seed):
        def run():
            for conn, names, sep in wirings(100 + seed, 1500):
                inp = dict(connections=conn, tree=tree(), separator=sep)
                edges = [(a, b) for a, bs in conn.items() for b in vals(bs)]
                conc = GU.concretize_connections(copy.deepcopy(conn), tree(), separator=sep)
                # every source keeps its number of destinations, each below the one it named;
                # destinations of one module are made explicit together
                need(set(conc) == set(conn), "a source was lost or added", got=conc, **inp)
                flat = {}
                for a, b in edges:
                    flat.setdefault(outer_of(b, sep)[0], []).append((a, b))
                got = {}
                for a, bs in conc.items():
                    need(len(bs) == len(vals(conn[a])), "a connection was lost or added",
                         source=a, got=conc, **inp)
                    for b in bs:
                        got.setdefault(outer_of(b, sep)[0], []).append((a, b))
                for m, es in flat.items():
                    ge = got.get(m, [])
                    used = set()
                    given, have = [], []
                    for a, b in es:
                        c = [k for k, (a2, b2) in enumerate(ge) if a2 == a and k not in used and
                             pre(parts(b, sep), parts(b2, sep))]
                        need(c, "a source is not delivered below the place it named", source=a,
                             place=b, got=conc, **inp)
                        exact = [k for k in c if ge[k][1] == b]
                        k = (exact or c)[0]
                        used.add(k)
                        given.append(b)
                        have.append(ge[k][1])
                    for (i, x), (j, y) in itertools.permutations(enumerate(have), 2):
                        need(not pre(parts(x, sep), parts(y, sep)), "two sources share a place",
                             places=(x, y), got=conc, **inp)
                    for k, b in enumerate(given):
                        if not any(pre(parts(b, sep), parts(o, sep)) for j, o in enumerate(given) if j != k):
                            need(have[k] == b, "an explicitly named place was moved", place=b,
                                 got=conc, **inp)
                placed, out = GU.place_connections_in_tree(copy.deepcopy(conn), tree(), separator=sep)
                want = {}
                for m, ge in got.items():
                    for a, b in ge:
                        want[b] = a
                for b, a in want.items():
                    m, rest = outer_of(b, sep)
                    if "uuid" in b or any(len(x) == 32 for x in parts(b, sep)):
                        continue                  # generated names differ from call to call
                    t = out if m == "output" else follow(placed, parts(m, sep))
                    need(follow(t, parts(rest, sep)) == a, "not delivered to its place", place=b,
                         source=a, placed=placed, output=out, **inp)
                n = sum(isinstance(x, str) for _, x in places(placed)) if not isinstance(
                    out, str) or "output" not in placed else 0
                tot = 0
                for m in got:
                    t = out if m == "output" else follow(placed, parts(m, sep))
                    have = sorted(x for _, x in places(t) if isinstance(x, str))
                    need(have == sorted(a for a, _ in got[m]), "sources of a module", module=m,
                         got=have, placed=placed, output=out, **inp)
        return run
    for k in range(3):
        native(rep, f"delivered.{k}", "each-to-its-slot", go(k), "1500 random wirings over ten module names")


if __name__ == "__main__":
    main("N04", [], [*(split_part(k, 5) for k in range(5)), paths_, partition, delivered])
