"""P09: Hamiltonian steps are exact for every metric, step size and length.  Momenta, trajectories,
acceptance variates and ratios of the real kernel, measured from outside, against Kernels.tla."""
import core
from p08 import canary, target


def run(ctx):
    for v in ("euler", "lasthalf"):
        ctx.model_check("MH", f"MH_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("MH", "MH_ok.cfg" if ctx.quick else "MH_thorough.cfg")
    with core.silence():
        traces = drive(ctx)
    ctx.validate("KernelsTrace", traces, canary_hmc)
    ctx.assumptions += ["fixed-point comparison: end points to 0.02, ratios to 0.03",
                        "the number of leapfrog drifts is the configured one or one more, the same in every step",
                        "distribution of momenta and acceptance variates: octile and quadrant counts within 6 sigma"]


def canary_hmc(t):
    a = dict(t, ev=[dict(e) for e in t["ev"]])
    k = next(i for i, e in enumerate(a["ev"]) if e["op"] == "hmc")
    a["ev"][k]["r"] += 400
    b = dict(t, ev=[dict(e) for e in t["ev"]])
    s = b["ev"][-1]
    s["z"] = [[v + v // 2 for v in z] for z in s["z"]]
    return [a, b]


def drive(ctx):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa, q
    from flowMC.resource.kernel.HMC import HMC
    import kern
    traces = []
    rng = np.random.default_rng(ctx.seed)
    many, few = (1200, 12) if ctx.quick else (4000, 50)
    key = jax.random.PRNGKey(900 + ctx.seed)
    r = lambda a: np.round(np.asarray(a, float) * 4096) / 4096
    full2 = [[2.0, 1.0], [1.0, 1.0]]
    full2b = [[1.0, -0.5], [-0.5, 0.75]]
    full3 = [[2.0, 1.0, 0.0], [1.0, 2.0, 0.5], [0.0, 0.5, 1.0]]
    cases = [(1, 0.5, 0.25, 3), (2, 2.0, 0.25, 2), (2, [[0.5, 0.0], [0.0, 2.0]], 0.25, 3), (2, full2, 0.125, 4),
             (2, full2b, 0.5, 1), (3, full3, 0.25, 3), (2, 1, 0.25, 3), (1, [[0.25]], 0.25, 2),
             (2, [[1 / 64, 0.0], [0.0, 4.0]], 0.25, 2),
             (1, 1.0, 0.0625, 40)]      # long trajectories
    if not ctx.quick:
        cases += [(1, [[4.0]], 0.125, 7), (3, 0.75, 0.5, 2), (2, full2, 0.25, 1), (2, full2b, 0.125, 8),
                  (3, full3, 0.125, 5), (4, np.diag([0.5, 1.0, 2.0, 1.5]).tolist(), 0.25, 3), (2, full2, 0.375, 2)]
    # far in the tails of a steep target: large gradients and energy errors
    tail = [(1, 1.0, 0.25, 2, 8.0, 3.0), (2, 0.5, 0.25, 1, 16.0, -2.0), (2, full2, 0.25, 2, 1.0, 1500.5, 1500.0),
            (1, 1.0, 0.0625, 2, 64.0, 20.0)]
    if not ctx.quick:
        tail += [(2, full2, 0.125, 2, 16.0, 2.0), (3, 1.0, 0.125, 4, 32.0, 1.5)]
    probes = {}
    for ci, (nd, cm, eps, n, *steep) in enumerate(cases + tail):
        if nd not in probes:
            probes[nd] = kern.Probe(nd)
        m = np.asarray(cm, float)
        full = m * np.eye(nd) if m.ndim == 0 else m
        cmj = cm if ci == 6 else jnp.asarray(m, jnp.float32)
        t = target(ci % 2, nd)
        x0 = r(rng.normal(size=nd) * 0.8)
        if steep:
            t = kern.make_target(dict(prec=[steep[0]] * nd, mu=[steep[2] if len(steep) > 2 else 0.0] * nd, quart=0.0, mix=0.0, c=0.0))
            x0 = np.asarray([steep[1]] * nd)
        key, sub = jax.random.split(key)
        name = f"HMC-{nd}d-{ci}"
        kernel = HMC(condition_matrix=cmj, step_size=eps, n_leapfrog=n)
        ev = ctx.attempt(name, kern.measure, probes[nd], kernel, sub, many, few, x0, t, rare=ci == 1)
        if not ev:
            continue
        for e in ev:
            if e["op"] == "step":
                e["op"] = "hmc"
        w = np.linalg.inv(np.linalg.cholesky(full))
        traces.append(dict(id=name, ev=[dict(op="setup")] + ev,
                           cfg=dict(kind="HMC", n=n, eps=q(eps, 4096), m=qa(full, 4096), minv=qa(np.linalg.inv(full), 4096),
                                    w=qa(w, 4096), ytol=80, rtol=120, t={k: qa(v, 4096) for k, v in t.items()})))
    return traces
