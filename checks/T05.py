"""T05: one optimiser step is clipped, bias-corrected Adam."""
from .common import *
from parametricmatrixmodels import training as TR

cases = []
B1, B2, EPS = 0.75, 0.875, 0.015625      # exactly representable


def ref_step(x, m, v, g, i, lr, clip, cplx):
    if cplx:
        re = jnp.minimum(jnp.maximum(jnp.real(g), -clip), clip)
        im = jnp.minimum(jnp.maximum(jnp.imag(g), -clip), clip)
        g = jax.lax.complex(re, -im)               # conjugate gradient
        g2 = jax.lax.complex(re * re + im * im, jnp.zeros_like(re))
    else:
        g = jnp.minimum(jnp.maximum(g, -clip), clip)
        g2 = g * g
    m = B1 * m + (1 - B1) * g
    v = B2 * v + (1 - B2) * g2
    mh, vh = m / (1 - B1 ** (i + 1)), v / (1 - B2 ** (i + 1))
    return x - lr * mh / (jnp.sqrt(vh) + EPS), m, v


def step_case(opt, cplx, i, lr, clip, shape):
    dt = c128 if cplx else f64

    def build(d):
        sh = tuple(getattr(d, s) for s in shape)
        # the second moment is non-negative and real
        if cplx:
            ins = (In("x", sh, dt), In("m", sh, dt), In("v", sh, f64, gen="pos",
                   fact=lambda a, *ix: T.ge(a, 0)), In("g", sh, dt))
        else:
            ins = (In("x", sh), In("m", sh), In("v", sh, f64, gen="pos",
                   fact=lambda a, *ix: T.ge(a, 0)), In("g", sh))

        def fn(x, m, v, g):
            if cplx:
                v = jax.lax.complex(v, jnp.zeros_like(v))
            init, upd, getp, direct, inc = getattr(TR, opt)(lr, b1=B1, b2=B2, eps=EPS, clip=clip)
            st = TR.OptimizerState(x, m, v, i)
            s = upd(g, st)
            d_ = direct(g, st)
            n = inc(1, st)
            return (s.params, s.m, s.v, getp(s), d_.params, d_.m, d_.v,
                    n.params, n.m, n.v, init(x).params, init(x).m, init(x).v)

        def ref(x, m, v, g):
            if cplx:
                v = jax.lax.complex(v, jnp.zeros_like(v))
            l_ = lr(i) if callable(lr) else lr
            a, b, c = ref_step(x, m, v, g, i, l_, clip, cplx)
            z = jnp.zeros_like(x)
            return a, b, c, a, g, m, v, x, m, v, x, z, z
        return Inst(fn, ins, None, ref=ref)
    nm = f"{opt}.{'complex' if cplx else 'real'}.step{i}.clip{clip}.{'sched' if callable(lr) else lr}.{len(shape)}d"
    cases.append(Case(nm, "n m" if shape else "n", build,
                      [dict(n=3, m=2), dict(n=1, m=1)] if shape else [dict(n=1)],
                      funcs=[f"training.{opt}", "training.make_schedule"], rtol=1e-6, seeds=2))


def sched(i):
    return 0.5 / (i + 1.0)


for opt, cp in (("adam", False), ("complex_adam", False), ("complex_adam", True)):
    step_case(opt, cp, 0, 0.125, 1.0, "nm")
    step_case(opt, cp, 0, 0.125, 1000.0, "n")
    step_case(opt, cp, 3, 0.5, 0.25, "nm")
    step_case(opt, cp, 1, sched, 2.0, "n")
    step_case(opt, cp, 7, sched, 0.5, "")


def extra(rep):
    """native steps with default constants; equality with a float64 Adam"""
    rng = onp.random.default_rng(11)

    def run():
        for trial in range(60):
            b1, b2 = rng.uniform(0.1, 0.99), rng.uniform(0.1, 0.999)
            eps, lr = 10.0 ** rng.integers(-9, -2), 10.0 ** rng.integers(-4, 1)
            clip = [1e3, 0.3, float("inf"), 1e-2][trial % 4]
            cp = trial % 3 == 2
            opt = ["adam", "complex_adam", "complex_adam"][trial % 3]
            sh = [(), (3,), (2, 2)][trial % 3]
            z = lambda: rng.normal(size=sh) + (1j * rng.normal(size=sh) if cp else 0)
            x, g = z(), z() * 3
            init, upd, getp, direct, inc = getattr(TR, opt)(lr, b1=b1, b2=b2, eps=eps, clip=clip)
            st = init(jnp.asarray(x))
            m, v = onp.zeros_like(x), onp.zeros(sh)
            cur = onp.asarray(x)
            for n in range(4):
                i = int(st.epoch)
                g = z() * 3
                st = upd(jnp.asarray(g), st)
                if cp:
                    gg = onp.clip(g.real, -clip, clip) - 1j * onp.clip(g.imag, -clip, clip)
                else:
                    gg = onp.clip(g, -clip, clip)
                m = b1 * m + (1 - b1) * gg
                v = b2 * v + (1 - b2) * onp.abs(gg) ** 2
                cur = cur - lr * (m / (1 - b1 ** (i + 1))) / (
                    onp.sqrt(v / (1 - b2 ** (i + 1))) + eps)
                need(onp.allclose(onp.asarray(getp(st)), cur, rtol=2e-4, atol=2e-5 * lr),
                     "step differs from Adam", opt=opt, b1=b1, b2=b2, eps=eps, lr=lr, clip=clip,
                     step=n, got=onp.asarray(getp(st)), want=cur)
                need(onp.isrealobj(x) == onp.isrealobj(onp.asarray(getp(st))), "kind changed")
    native(rep, "native-steps", "adam", run, "60 random settings x 4 steps")


if __name__ == "__main__":
    main("T05", cases, extra)
