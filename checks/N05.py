"""N05: addressing into trees by path."""
from .pycase import *
from parametricmatrixmodels import tree_util as TU

FN = ["tree_util." + x for x in ("getitem_by_strpath", "setitem_by_strpath",
                                 "extend_structure_from_strpaths")]
S_, SEP = z3.String("path"), z3.String("separator")
NODE, VALUE = z3.Const("node", Val), z3.Const("value", Val)
LEAF = z3.Function("is_leaf", Val, z3.BoolSort())
# the recursive call's result, a function of everything it is given
GET = z3.Function("get", Val, z3.StringSort(), z3.StringSort(), z3.BoolSort(), z3.BoolSort(), Val)
EMPTY = z3.StringVal("")
has_sep = z3.Contains(S_, SEP)
idx = z3.IndexOf(S_, SEP, 0)
KEY = z3.If(has_sep, z3.SubString(S_, 0, idx), S_)
REST = z3.If(has_sep, z3.SubString(S_, idx + z3.Length(SEP), z3.Length(S_)), EMPTY)
PRE = [z3.Length(SEP) > 0]


def child(kind):
    """(is the next part a place of the node?, the value there)"""
    if kind == "dict":
        return Y.HAS(NODE, KEY), Y.CHILD(NODE, KEY)
    if kind in ("list", "tuple"):
        i = Y.PARSE(KEY)
        return z3.And(Y.DIGIT(KEY), i < Y.LEN(NODE)), Y.ITEM(NODE, i)
    return z3.BoolVal(False), NODE


def leaf_fn(rec):
    def is_leaf(x):
        return SBool(LEAF(x.e))
    return is_leaf


def get_case(rep, kind, early, rem, leaf):
    fn = TU.getitem_by_strpath
    isleaf = leaf_fn(None) if leaf else None

    def record(pytree, strpath, separator, allow_early_return, return_remainder, is_leaf):
        if not hasattr(pytree, "e") or is_leaf is not isleaf:
            raise Y.Unsupported("other use of the recursive call")
        Y.Run.cur.log.append(("call", pytree.e, Y.tostr(strpath)))
        return Opq(GET(pytree.e, Y.tostr(strpath), Y.tostr(separator),
                       z3.BoolVal(bool(allow_early_return)), z3.BoolVal(bool(return_remainder))))

    def run():
        with Y.Shims(TU, getitem_by_strpath=stub(fn, record)):
            return fn(Y.KINDS[kind](NODE), SStr(S_), SStr(SEP), allow_early_return=early,
                      return_remainder=rem, is_leaf=isleaf)

    def here(remainder):
        """returned: this node (and what is left of the path)"""
        def check(out, log):
            if out[0] != "return" or log:
                return False
            v = out[1]
            if rem:
                if not isinstance(v, tuple) or builtins_len(v) != 2:
                    return False
                left = v[1]
                return z3.And(term(v[0]) == NODE, Y.tostr(left) == remainder)
            return term(v) == NODE if hasattr(v, "e") else False
        return check

    def below(out, log):
        if out[0] != "return" or len(log) != 1 or not isinstance(out[1], Opq):
            return False
        return z3.And(out[1].e == GET(child(kind)[1], REST, SEP, z3.BoolVal(early), z3.BoolVal(rem)),
                      log[0][1] == child(kind)[1], log[0][2] == REST,
                      z3.Length(REST) < z3.Length(S_))

    def spec():
        isl = LEAF(NODE) if leaf else z3.BoolVal(False)
        ok, _ = child(kind)
        go = z3.And(S_ != EMPTY, z3.Not(isl))
        r = [("end-of-path", S_ == EMPTY, here(EMPTY))]
        stop = raises(TypeError, LookupError) if not early else here(S_)
        if leaf:
            r.append(("leaf", z3.And(S_ != EMPTY, isl), stop))
        if kind == "other":
            r.append(("no-container", go, stop))
        else:
            r += [("place", z3.And(go, ok), below),
                  ("no-such-place", z3.And(go, z3.Not(ok)), raises(LookupError, TypeError))]
        return r
    pycase(rep, f"get.{kind}" + ".early" * early + ".remainder" * rem + ".leaf" * leaf, run, spec, PRE,
           confirm_with(lambda *a: read_check(*a, flags=[(early, rem)]), kind, leaf))


builtins_len = len


def set_case(rep, kind, leaf):
    fn = TU.setitem_by_strpath
    isleaf = leaf_fn(None) if leaf else None

    def record(pytree, strpath, value, separator, is_leaf):
        if not hasattr(pytree, "e") or is_leaf is not isleaf:
            raise Y.Unsupported("other use of the recursive call")
        Y.Run.cur.log.append(("rec", pytree.e, Y.tostr(strpath), value, Y.tostr(separator)))

    def run():
        with Y.Shims(TU, setitem_by_strpath=stub(fn, record)):
            return fn(Y.KINDS[kind](NODE), SStr(S_), Opq(VALUE), SStr(SEP), is_leaf=isleaf)

    def write(out, log):
        """exactly one place written: this one, with the value"""
        if out != ("return", None) or len(log) != 1 or log[0][0] != "set":
            return False
        key = KEY if kind == "dict" else Y.PARSE(KEY)
        return z3.And(log[0][1] == NODE, log[0][2] == key, term(log[0][3]) == VALUE)

    def below(out, log):
        if out != ("return", None) or len(log) != 1 or log[0][0] != "rec":
            return False
        return z3.And(log[0][1] == child(kind)[1], log[0][2] == REST, term(log[0][3]) == VALUE,
                      log[0][4] == SEP, z3.Length(REST) < z3.Length(S_))

    def spec():
        isl = LEAF(NODE) if leaf else z3.BoolVal(False)
        ok, _ = child(kind)
        go = z3.And(S_ != EMPTY, z3.Not(isl))
        r = [("empty-path", S_ == EMPTY, raises(ValueError, LookupError, TypeError))]
        if leaf:
            r.append(("leaf", z3.And(S_ != EMPTY, isl), raises(TypeError, LookupError)))
        bad = raises(TypeError, LookupError)
        last = z3.Not(has_sep)
        if kind == "other":
            return r + [("no-container", go, bad)]
        r += [("deeper", z3.And(go, has_sep, ok), below),
              ("no-such-place-on-the-way", z3.And(go, has_sep, z3.Not(ok)), bad)]
        if kind == "tuple":
            r.append(("immutable", z3.And(go, last), bad))
        else:
            r.append(("write", z3.And(go, last, ok), write))
            if kind == "list":
                r.append(("no-such-place", z3.And(go, last, z3.Not(ok)), bad))
            else:
                r.append(("new-key", z3.And(go, last, z3.Not(ok)), write))
        return r
    pycase(rep, f"set.{kind}" + ".leaf" * leaf, run, spec, PRE,
           confirm_with(write_check, kind, leaf))


def proofs(kind):
    def go(rep):
        rep.funcs.update(FN[:2])
        rep.assume("trees are finite and without sharing; dict keys of trees are strings",
                   "str.isdigit and int() of such strings are functions, int() is not negative",
                   "induction over the length of the path: the recursive call satisfies the contract")
        for early, rem, leaf in itertools.product((False, True), repeat=3):
            get_case(rep, kind, early, rem, leaf)
        for leaf in (False, True):
            set_case(rep, kind, leaf)
    return go


def lemmas(rep):
    """reading what was written, and everything else as before: by induction over
    the path, from the contracts (a tree is the map of its places)"""
    K = z3.DeclareSort("Key")
    Pth = z3.Datatype("Path")
    Pth.declare("nil")
    Pth.declare("cons", ("hd", K), ("tl", Pth))
    Pth = Pth.create()
    t, v = z3.Consts("t v", Val)
    k, k2 = z3.Consts("k k2", K)
    p, q = z3.Consts("p q", Pth)
    at = z3.Function("at", Val, K, Val)
    upd = z3.Function("upd", Val, K, Val, Val)
    get = z3.Function("getp", Val, Pth, Val)
    put = z3.Function("put", Val, Pth, Val, Val)
    ax = [
        z3.ForAll([t, k, v], at(upd(t, k, v), k) == v),
        z3.ForAll([t, k, k2, v], z3.Implies(k != k2, at(upd(t, k, v), k2) == at(t, k2))),
        z3.ForAll([t], get(t, Pth.nil) == t),
        z3.ForAll([t, k, p], get(t, Pth.cons(k, p)) == get(at(t, k), p)),
        z3.ForAll([t, v], put(t, Pth.nil, v) == v),
        z3.ForAll([t, k, p, v], put(t, Pth.cons(k, p), v) == upd(t, k, put(at(t, k), p, v))),
    ]
    k0, p0 = z3.Const("k0", K), z3.Const("p0", Pth)
    t0, v0 = z3.Consts("t0 v0", Val)
    lemma(rep, "lemma.read-after-write/base", get(put(t0, Pth.nil, v0), Pth.nil) == v0, *ax)
    lemma(rep, "lemma.read-after-write/step",
          get(put(t0, Pth.cons(k0, p0), v0), Pth.cons(k0, p0)) == v0, *ax,
          z3.ForAll([t, v], get(put(t, p0, v), p0) == v))
    # q and p part at some place: apart(nil, _) and apart(_, nil) are false
    apart = z3.Function("apart", Pth, Pth, z3.BoolSort())
    ax += [z3.ForAll([p], z3.Not(apart(Pth.nil, p))), z3.ForAll([p], z3.Not(apart(p, Pth.nil))),
           z3.ForAll([k, k2, p, q], apart(Pth.cons(k, p), Pth.cons(k2, q)) ==
                     z3.Or(k != k2, apart(p, q)))]
    q0, j0 = z3.Const("q0", Pth), z3.Const("j0", K)
    lemma(rep, "lemma.other-places/step", z3.Implies(
        apart(Pth.cons(k0, p0), Pth.cons(j0, q0)),
        get(put(t0, Pth.cons(k0, p0), v0), Pth.cons(j0, q0)) == get(t0, Pth.cons(j0, q0))), *ax,
        z3.ForAll([t, v, q], z3.Implies(apart(p0, q), get(put(t, p0, v), q) == get(t, q))))


# ---------------------------------------------------------- bounded, natively
def follow(t, parts):
    for k in parts:
        if isinstance(t, dict):
            t = t[k]
        elif isinstance(t, (list, tuple)):
            if not k.isdigit():
                raise KeyError(k)
            t = t[int(k)]
        else:
            raise TypeError(k)
    return t


def places(t, pre=()):
    """every path of the tree, with the value there"""
    yield pre, t
    if isinstance(t, dict):
        for k, v in t.items():
            yield from places(v, pre + (k,))
    elif isinstance(t, (list, tuple)):
        for k, v in enumerate(t):
            yield from places(v, pre + (str(k),))


class Tok:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"<{self.n}>"


def trees(depth, cnt=[0]):
    def leaf():
        cnt[0] += 1
        return Tok(cnt[0])
    yield leaf()
    if depth == 0:
        return
    for c in trees(depth - 1):
        yield {"a": c}
        yield {"a": leaf(), "b1": c}
        yield {"0": c, "input": leaf()}
        yield [c]
        yield [leaf(), c]
        yield (c, leaf())
        yield []
        yield {}


def snap(t):
    """structure and identity of every place"""
    if isinstance(t, dict):
        return ("d", tuple((k, snap(v)) for k, v in t.items()))
    if isinstance(t, (list, tuple)):
        return (type(t).__name__, tuple(snap(v) for v in t))
    return id(t) if isinstance(t, Tok) else ("v", t)


def read_check(t, p, sep, leaf=None, flags=tuple(itertools.product((False, True), repeat=2))):
    """the real function against following the path, for one tree and path"""
    s = sep.join(p)
    node, i, want = t, 0, None
    try:
        while sep.join(p[i:]):
            # where following the path is stopped by a leaf
            if (leaf is not None and leaf(node)) or not isinstance(node, (dict, list, tuple)):
                want = ("stop", node, sep.join(p[i:]))
                break
            node = follow(node, p[i:i + 1])
            i += 1
        if want is None:
            want = ("ok", node, "")
    except LookupError:
        want = ("bad", None, None)
    for early, rem in flags:
        try:
            got = TU.getitem_by_strpath(t, s, sep, early, rem, leaf)
            raised = False
        except (LookupError, TypeError):
            raised = True
        inp = dict(tree=t, path=s, separator=sep, allow_early_return=early,
                   return_remainder=rem, is_leaf=leaf is not None)
        if want[0] == "bad" or (want[0] == "stop" and not early):
            need(raised, "an invalid path does not raise", **inp)
            continue
        need(not raised, "a valid path raises", **inp)
        v, left = got if rem else (got, want[2])
        need(v is want[1] and left == want[2], "reading is not following the path",
             got=got, expected=want[1:], **inp)


def write_check(t, p2, sep, leaf=None):
    u = _clone(t)
    before = dict((q, snap(x)) for q, x in places(u))
    v, s = Tok(-1), sep.join(p2)
    inp = dict(tree=t, path=s, separator=sep, is_leaf=leaf is not None)
    try:
        par = follow(u, p2[:-1])
        ok = isinstance(par, dict) or (isinstance(par, list) and p2[-1].isdigit()
                                       and int(p2[-1]) < len(par))
        if leaf is not None:
            ok = ok and not any(leaf(follow(u, p2[:n])) for n in range(len(p2)))
    except (LookupError, TypeError):
        ok = False
    ok = ok and p2[-1] != ""
    try:
        r = TU.setitem_by_strpath(u, s, v, sep, *([leaf] if leaf else []))
    except (LookupError, TypeError, ValueError):
        need(not ok, "writing a valid path raises", **inp)
        need(dict((q, snap(x)) for q, x in places(u)) == before,
             "a refused write changed the tree", **inp)
        return
    need(ok, "writing an invalid path does not raise", got=u, **inp)
    need(r is None and TU.getitem_by_strpath(u, s, sep) is v,
         "reading back what was written", got=u, **inp)
    after = dict((q, snap(x)) for q, x in places(u))
    pre = lambda a, b: a == b[:len(a)]
    for q in set(before) | set(after):
        if not (pre(q, p2) or pre(p2, q)):
            need(before.get(q) == after.get(q), "another place changed", place=q, got=u, **inp)
        elif pre(q, p2) and q != p2:
            need(q in before and before[q][0] == after[q][0] and
                 _keys(before[q], p2[len(q)]) <= _keys(after[q], None),
                 "a container on the way changed", place=q, got=u, **inp)


def witnesses(m, kind):
    """trees and paths that look like the model: the node of the kind, the next
    part of the path present or not, below it a value, a matching or another container"""
    path, sep = (m.eval(x, model_completion=True).as_string() for x in (S_, SEP))
    parts = path.split(sep) if path else [""]
    alts = [parts, ["a"] + parts[1:], ["0"] + parts[1:], ["0", "a", "1"], ["a", "0", "b"], ["a"], ["0"],
            ["1"], ["2", "a"], ["7"], ["zz", "a"], [str(k) for k in (1, 0)]]

    def node(key, c):
        if kind == "dict":
            return {"other": Tok(1), key: c, "more": Tok(2)}
        if kind in ("list", "tuple"):
            r = [Tok(k) for k in range(3)]
            if key.isdigit() and int(key) < 3:
                r[int(key)] = c
            return r if kind == "list" else tuple(r)
        return Tok(3)

    def deep(ps, box):
        if not ps:
            return Tok(5)
        if box is list and ps[0].isdigit() and int(ps[0]) < 9:
            return [deep(ps[1:], box) if k == int(ps[0]) else Tok(k) for k in range(int(ps[0]) + 2)]
        return {ps[0]: deep(ps[1:], box), "x": Tok(6)}
    for ps in alts:
        for sp in dict.fromkeys((sep, ".", "::")):
            if any(sp in k for k in ps):
                continue
            for c in (deep(ps[1:], dict), deep(ps[1:], list), Tok(7), {}, [Tok(8)], (Tok(9),)):
                yield node(ps[0], c), ps, sp
            yield node("q", Tok(4)), ps, sp


def confirm_with(check, kind, leaf):
    """the model's tree and path on the real function; the exception of a failing one"""
    def confirm(m):
        for t, ps, sep in witnesses(m, kind):
            for at in ((0, 1, None) if leaf else (None,)):
                def isleaf(x):
                    if at is None:
                        return False
                    try:
                        return snap(x) == snap(follow(t, ps[:at]))
                    except (LookupError, TypeError):
                        return False
                try:
                    check(t, tuple(ps), sep, isleaf if leaf else None)
                except AssertionError as e:
                    return e
                except Exception as e:
                    if core.harness_mismatch(e):
                        raise
                    return e
        return None
    return confirm


def natives(rep):
    SEPS = (".", "/", "::")

    def reading():
        for t in trees(3):
            allp = dict(places(t))
            cand = set(allp) | {p + (k,) for p in allp for k in ("a", "0", "2", "zz", "-1")} | {
                p + ("a", "0") for p in allp}
            for p in cand:
                for sep in SEPS:
                    for leaf in (None, lambda x: isinstance(x, tuple)):
                        read_check(t, p, sep, leaf)
    native(rep, "reading", "exhaustive", reading, "trees up to depth 3 of eight forms, three separators")

    def writing():
        for t in trees(3):
            for p, _ in list(places(t)):
                for extra in ((), ("new",), ("7",), ("a",)):
                    for sep in SEPS:
                        if p + extra:
                            write_check(t, p + extra, sep)
    native(rep, "writing", "exhaustive", writing, "trees up to depth 3 of eight forms, three separators")

    def empty():
        for t in ({"a": 1}, [1], (1,)):
            need(TU.getitem_by_strpath(t, "") is t, "the empty path is the tree", tree=t)
            try:
                TU.setitem_by_strpath(t, "", 2)
                need(False, "writing at the empty path does not raise", tree=t)
            except ValueError:
                pass
    native(rep, "empty-path", "exhaustive", empty, "three trees")

    KEYS = ("a", "b", "0", "1", "2")

    def prefix_free(ps):
        return all(a[:len(b)] != b for a in ps for b in ps if a != b)

    def mixed(ps, base):
        """would some node need names where a list is?"""
        for q in {p[:n] for p in ps for n in range(len(p))}:
            try:
                node = follow(base, q) if base is not None else None
            except (LookupError, TypeError):
                node = None
            if isinstance(node, (list, tuple)) and any(
                    not p[len(q)].isdigit() for p in ps if p[:len(q)] == q):
                return True
            if node is not None and not isinstance(node, (dict, list, tuple)):
                return True
        return False

    def bases():
        yield lambda: None
        yield lambda: {}
        yield lambda: {"a": Tok(1)}
        yield lambda: {"a": {"b": Tok(1)}}
        yield lambda: {"a": (Tok(1), (Tok(2),)), "z": (Tok(3),)}
        yield lambda: ((Tok(1), (Tok(2),)), {"a": (Tok(3),)})
        yield lambda: [Tok(1), [Tok(2)]]
        yield lambda: ({"b": (Tok(1),)},)

    def extend(count, seed):
        rng = random.Random(seed)
        paths = [p for n in (1, 2, 3) for p in itertools.product(KEYS, repeat=n)]
        bs = list(bases())
        done = 0
        while done < count:
            ps = rng.sample(paths, rng.randint(1, 4))
            mk = rng.choice(bs)
            base = mk()
            if not prefix_free(ps):
                continue
            if base is not None and (mixed(ps, base) or any(
                    _there(base, p) for p in ps)):
                continue
            done += 1
            sep = rng.choice(SEPS)
            vals = [Tok(100 + k) for k in range(len(ps))]
            orig = [(q, x) for q, x in places(base) if isinstance(x, Tok)] if base is not None else []
            kinds = {q: type(x) for q, x in places(base)} if base is not None else {}
            inp = dict(base=repr(base), paths=ps, separator=sep)
            r = TU.extend_structure_from_strpaths(base, [sep.join(p) for p in ps], sep, list(vals))
            for p, v in zip(ps, vals):
                need(follow(r, p) is v, "a path does not hold its own value", path=p, got=r, **inp)
            for q, x in orig:
                need(follow(r, q) is x, "a place of the base changed", place=q, got=r, **inp)
            for q, ty in kinds.items():
                if ty is not Tok:
                    need(type(follow(r, q)) is ty, "the type of a node of the base changed",
                         place=q, got=r, **inp)
            for q, x in places(r):
                if isinstance(x, Tok):
                    need(q in ps or q in dict(orig), "an extra value", place=q, got=r, **inp)
                elif not isinstance(x, (dict, list, tuple)):
                    need(x is None and q[-1].isdigit() and any(
                        w[:len(q) - 1] == q[:-1] and int(w[len(q) - 1]) > int(q[-1]) for w in ps
                        if len(w) >= len(q) and w[len(q) - 1].isdigit()),
                        "an extra place", place=q, got=r, **inp)
    for k in range(4):
        native(rep, f"extend.{k}", "random", lambda: extend(2500, k),
               "2500 sets of up to 4 prefix-free paths of up to 3 parts over 5 keys, eight bases")

    def fills():
        for ps in (["a", "b.c"], ["0", "1.0"], ["0.a"]):
            r = TU.extend_structure_from_strpaths(None, ps)
            need(all(follow(r, p.split(".")) is None for p in ps), "without values", paths=ps, got=r)
            r = TU.extend_structure_from_strpaths(None, ps, fill_values=7)
            need(all(follow(r, p.split(".")) == 7 for p in ps), "one value for all", paths=ps, got=r)
            vs = tuple(range(len(ps)))
            r = TU.extend_structure_from_strpaths(None, ps, fill_values=vs)
            need(all(follow(r, p.split(".")) == v for p, v in zip(ps, vs)), "values as tuple",
                 paths=ps, got=r)
            try:
                TU.extend_structure_from_strpaths(None, ps, fill_values=[1] * (len(ps) + 1))
                need(False, "wrong number of values accepted", paths=ps)
            except ValueError:
                pass
        for base, ps in (({"a": 1}, ["a.b"]), ({"a": 1}, ["a"]), ([1], ["a"]), ({"a": [1]}, ["a.b"])):
            try:
                r = TU.extend_structure_from_strpaths(copy.deepcopy(base), ps, fill_values=[5])
                need(False, "an existing value is overwritten", base=base, paths=ps, got=r)
            except (ValueError, TypeError, KeyError):
                pass
        base = {"a": [1, {"b": 2}]}
        r = TU.extend_structure_from_strpaths(base, ["a.1.b", "a.0"])
        need(r == {"a": [1, {"b": 2}]}, "an existing place without a new value", got=r)
    native(rep, "extend", "values", fills, "hand-picked")


def _clone(t):
    if isinstance(t, dict):
        return {k: _clone(v) for k, v in t.items()}
    if isinstance(t, (list, tuple)):
        return type(t)(_clone(v) for v in t)
    return t


def _keys(sn, add):
    if not isinstance(sn, tuple) or sn[0] == "v":
        return set()
    if sn[0] == "d":
        return {k for k, _ in sn[1]}
    return set(range(len(sn[1])))


def _there(base, p):
    """does the path end at or above, or lead through, an existing value?"""
    t = base
    for k in p:
        if isinstance(t, Tok):
            return True
        try:
            t = follow(t, (k,))
        except (LookupError, TypeError):
            return False
    return True


if __name__ == "__main__":
    main("N05", [], [*map(proofs, ("dict", "list", "tuple", "other")), lemmas, natives])
