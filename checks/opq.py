"""A module about which nothing is known but its interface: an opaque function
of (parameters, data, training, state, rng)."""
from .common import *
from vc import opaque
from parametricmatrixmodels.modules import BaseModule


def is_shape(x):
    return isinstance(x, tuple) and len(x) > 0 and all(
        isinstance(i, int) or type(i).__name__ == "_DimExpr" for i in x)


def opq_call(tag, params, data, training, state, rng, out, row=True,
             cplx=False, stateful=True):
    """output tree of `out` shapes (batch axis added) and the new state"""
    pl, dl, sl = jax.tree.leaves(params), jax.tree.leaves(data), jax.tree.leaves(state)
    b = dl[0].shape[0]
    ks = [jax.random.key_data(rng)] if rng is not None else []
    ol, ot = jax.tree.flatten(out, is_leaf=is_shape)
    ins = dl + pl + sl + ks
    tg = f"{tag}:{jax.tree.structure(data)}:{bool(training)}"
    mask = tuple([True] * len(dl) + [False] * (len(ins) - len(dl)))
    dt = onp.complex128 if cplx else onp.float64
    ys = opaque.bind(tg, ins, [((b,) + tuple(s), dt) for s in ol],
                     row=mask if row else None)
    y = jax.tree.unflatten(ot, ys)
    if not sl or not stateful:
        return y, state
    ns = opaque.bind(tg + ":state", ins, [(s.shape, s.dtype) for s in sl])
    return y, jax.tree.unflatten(jax.tree.structure(state), ns)


class Opaque(BaseModule):
    __version__: str = "0.0.0"

    def __init__(self, tag=None, out=None, pshape=None, sshape=None, row=True,
                 cplx=False):
        self.tag, self.out, self.row, self.cplx = tag, out, row, cplx
        self.pshape, self.sshape = pshape, sshape
        self.params, self.state, self.ready = None, None, False
        self.seen_shape = None
        self.seen_rng = None

    @property
    def name(self):
        return f"Opaque({self.tag})"

    def is_ready(self):
        return self.ready

    def compile(self, rng, input_shape):
        self.seen_rng = rng
        self.seen_shape = input_shape
        mk = lambda nm, sh: jax.tree.map(lambda s: jnp.zeros(s), sh, is_leaf=is_shape)
        self.params = () if self.pshape is None else mk("p", self.pshape)
        self.state = () if self.sshape is None else mk("s", self.sshape)
        self.ready = True

    def get_output_shape(self, input_shape):
        return self.out(input_shape) if callable(self.out) else self.out

    def _get_callable(self):
        def f(params, data, training, state, rng):
            sh = jax.tree.map(lambda x: tuple(x.shape[1:]), data)
            return opq_call(self.tag, params, data, training, state, rng,
                            self.get_output_shape(sh), self.row, self.cplx)
        return f

    def get_hyperparameters(self):
        return dict(tag=self.tag, out=self.out, row=self.row, cplx=self.cplx,
                    pshape=self.pshape, sshape=self.sshape)

    def get_params(self):
        return self.params

    def set_params(self, p):
        self.params = p
        self.ready = True

    def get_state(self):
        return self.state if self.state is not None else ()

    def set_state(self, s):
        self.state = s


from contextlib import contextmanager
from vc.sym import Unsupported


class Tok:
    """an unknown host value handed to a callback: it may be passed on, computed
    with and printed, but not decided upon"""

    def __init__(self, k=None):
        self.k = k

    def _op(self, *a):
        return Tok()

    def _no(self, *a):
        raise Unsupported("a callback looks at its arguments")

    def __format__(self, f):
        return "?"

    def __str__(self):
        return "?"


for _n in "add radd sub rsub mul rmul truediv rtruediv neg floordiv rfloordiv".split():
    setattr(Tok, f"__{_n}__", Tok._op)
for _n in "bool lt le gt ge eq ne int float index iter len getitem hash array".split():
    setattr(Tok, f"__{_n}__", Tok._no)


def host(callback, result, *args, **kw):
    """jax.pure_callback by contract: the real host function is run on unknown
    values; what it returns must be arguments of its own or constants"""
    try:
        return _host(callback, result, *args, **kw)
    except Exception:
        return PURE_CALLBACK(callback, result, *args, **kw)


PURE_CALLBACK = jax.pure_callback


def _host(callback, result, *args, **kw):
    kw.pop("vmap_method", None)
    kw.pop("sharding", None)
    lv, td = jax.tree.flatten((args, kw))
    toks = [Tok(k) for k in range(len(lv))]
    a, k = jax.tree.unflatten(td, toks)
    out = callback(*a, **k)
    spec, st = jax.tree.flatten(result)
    res = []
    for o, r in zip(st.flatten_up_to(out), spec):
        if isinstance(o, Tok):
            if o.k is None:
                raise Unsupported("a callback computes its result")
            res.append(lv[o.k])
        elif isinstance(o, (bool, int, float, onp.bool_, onp.number)):
            res.append(jnp.full(jnp.shape(r), o, jnp.result_type(r)))
        else:
            raise Unsupported(f"a callback returns {type(o).__name__}")
    return jax.tree.unflatten(st, res)


@contextmanager
def silent():
    """progress bars and signal handlers by contract (they return nothing, no
    signal arrives), host callbacks as in `host`"""
    import sys
    old = []

    def put(o, k, v):
        if o is not None and hasattr(o, k):
            old.append((o, k, getattr(o, k)))
            setattr(o, k, v)
    PB = sys.modules.get("parametricmatrixmodels.progressbar")
    TR_ = sys.modules.get("parametricmatrixmodels.training")
    C = getattr(PB, "ProgressBarSingleton", None)
    for k in ("reset", "start", "update", "end"):
        put(C, k, lambda *a, **kw: None)

    def blank(self, *a, **kw):       # in full, should the real methods meet it later
        self.__dict__.update(total=1, length=1, last=0, first=True, starttime=None, longest_str=0, extra_info="")
    if C is not None:
        put(C, "__init__", blank)
        put(getattr(PB, "ProgressBar", None), "Instance", None)
    sg = getattr(TR_, "signal", None)

    class NoSignal:
        SIGINT, SIGTERM = getattr(sg, "SIGINT", None), getattr(sg, "SIGTERM", None)
        signal = staticmethod(lambda *a: None)
    put(TR_, "signal", NoSignal)
    put(jax, "pure_callback", host)
    put(jax.debug, "print", lambda *a, **kw: None)
    try:
        yield
    finally:
        for o, k, v in reversed(old):
            setattr(o, k, v)
