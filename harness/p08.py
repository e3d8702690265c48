"""P08: random-walk and Langevin steps are exact Metropolis-Hastings steps.  The proposals, acceptance
variates and acceptance ratios of the real kernels, measured from outside, against Kernels.tla."""
import core


def run(ctx):
    for v in ("nocorrection", "inverted"):
        ctx.model_check("MH", f"MH_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("MH", "MH_ok.cfg" if ctx.quick else "MH_thorough.cfg")
    with core.silence():
        traces = drive(ctx)
    ctx.validate("KernelsTrace", traces, canary)
    ctx.assumptions += ["fixed-point comparison: ratios to 0.015, proposals to 0.003",
                        "distribution of noise and acceptance variates: octile and quadrant counts within 6 sigma"]


def canary(t):
    a = dict(t, ev=[dict(e) for e in t["ev"]])
    k = next(i for i, e in enumerate(a["ev"]) if e["op"] == "step")
    a["ev"][k]["r"] += 300
    b = dict(t, ev=[dict(e) for e in t["ev"]])
    s = b["ev"][-1]
    s["u"] = [u // 2 for u in s["u"]]
    return [a, b]


TARGETS = [dict(prec=(0.75, 1.5, 1.0, 2.0), mu=(0.5, -0.25, 0.0, 1.0), quart=0.125, mix=0.375, c=0.5),
           dict(prec=(2.5, 0.5, 1.25, 0.25), mu=(-0.5, 0.75, 0.25, 0.0), quart=0.03125, mix=-0.75, c=-1.0)]


def target(k, nd):
    import kern
    t = TARGETS[k]
    return kern.make_target(dict(t, prec=t["prec"][:nd], mu=t["mu"][:nd]))


def drive(ctx):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    import kern
    traces = []
    rng = np.random.default_rng(ctx.seed)
    many, few = (1200, 12) if ctx.quick else (4000, 60)
    dims = (1, 2, 3) if ctx.quick else (1, 2, 3, 4)
    key = jax.random.PRNGKey(700 + ctx.seed)
    r = lambda a: np.round(np.asarray(a, float) * 4096) / 4096
    for nd in dims:
        probe = kern.Probe(nd)
        cases = []
        steps = (0.25, 1.0) if ctx.quick else (0.0625, 0.25, 0.5, 1.0, 2.0)
        for s in steps:
            cases.append(("GRW", GaussianRandomWalk(step_size=jnp.asarray(s, jnp.float32)), [s] * nd))
            if s <= 1.0:        # a larger one goes where the quartic target is beyond the range of the measurement
                cases.append(("MALA", MALA(step_size=jnp.asarray(s, jnp.float32)), [s] * nd))
        if nd == 2 or not ctx.quick:    # settings as the user gives them
            cases.append(("GRW", GaussianRandomWalk(step_size=0.5), [0.5] * nd))
            cases.append(("MALA", MALA(step_size=0.5), [0.5] * nd))
        steep = []
        for prec, far, s in ((8.0, 4.0, 0.25), (256.0, 3.0, 1 / 32), (1024.0, 1.5, 1 / 32)) if ctx.quick else \
                ((8.0, 4.0, 0.25), (32.0, -4.0, 0.125), (256.0, 3.0, 1 / 32), (512.0, -2.0, 1 / 32), (1024.0, 1.5, 1 / 32)):
            # far in the tails of a steep target: large gradients, large ratios
            t = kern.make_target(dict(prec=[prec] * nd, mu=[0.0] * nd, quart=0.0, mix=0.0, c=0.0))
            steep.append(("GRW", GaussianRandomWalk(step_size=s), [s] * nd, t, [far] * nd))
            steep.append(("MALA", MALA(step_size=s), [s] * nd, t, [far] * nd))
        # wide steps on a broad target, and a target far from the origin
        for prec, mu, x, s in ((1 / 64, 0.0, 4.0, 8.0), (1.0, 1500.0, 1500.5, 0.5)):
            if nd == 2 or not ctx.quick:
                t = kern.make_target(dict(prec=[prec] * nd, mu=[mu] * nd, quart=0.0, mix=0.0, c=0.0))
                steep.append(("GRW", GaussianRandomWalk(step_size=s), [s] * nd, t, [x] * nd))
                steep.append(("MALA", MALA(step_size=s), [s] * nd, t, [x] * nd))
        for ci, (kind, kernel, dt, *at) in enumerate(cases + steep):
            t = at[0] if at else target(ci % 2, nd)
            for rep in range(1 if ctx.quick or at else 3):
                x0 = np.asarray(at[1]) if at else r(rng.normal(size=nd) * 0.8)
                key, sub = jax.random.split(key)
                name = f"{kind}-{nd}d-{ci}-{rep}"
                ev = ctx.attempt(name, kern.measure, probe, kernel, sub, many, few, x0, t, rare=nd == 2 and ci < 2)
                if ev:
                    traces.append(dict(id=name, ev=[dict(op="setup")] + ev,
                                       cfg=dict(kind=kind, dt=qa(dt, 4096), t={k: qa(v, 4096) for k, v in t.items()})))
    return traces
