"""P03: each record is one real state: its log-probability and acceptance flag belong to it.  Generated
histories of stepping calls with the real local and global kernels, recorded row by row."""
import json, os
import core


def run(ctx):
    for v in ("lpproposed", "lpstale"):
        ctx.model_check("StepsMC", f"StepsMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("StepsMC", "StepsMC_ok.cfg" if ctx.quick else "StepsMC_thorough.cfg")
    import records
    with core.silence():
        traces = drive(ctx)
    ctx.validate("RecordsTrace", traces, records.canary)
    ctx.assumptions.append("log-probabilities are compared to 0.003 (the target is evaluated again by the harness)")


def target(x, data):
    """Depends on everything in the data; nothing beyond the wall."""
    import jax, jax.numpy as jnp
    import realset
    w = sum(jnp.sum(jnp.asarray(v)) for v in jax.tree_util.tree_leaves(data["extra"]))
    base = realset.target(x, data)
    n = data.get("n_steps", 0.0)
    value = base + 0.5 * jnp.sin(w + x[0]) + 0.25 * n * x[-1] + 0.125 * len(data)
    return jnp.where(x[0] > data["wall"], -jnp.inf, value)


def drive(ctx):
    import jax, jax.numpy as jnp, numpy as np
    import realset, records
    traces = []
    setups = [(2, [("GRW", 4, 1, 0), ("MALA", 3, 1, 2), ("HMC", 3, 1, 0), ("NF", 5, 1, 0), ("MALA", 6, 4, 0), ("NF", 6, 2, 3)], [5, 3])]
    if not ctx.quick:
        setups += [(1, [("GRW", 6, 1, 0), ("MALA", 5, 1, 0), ("HMC", 4, 1, 3), ("GRW", 5, 2, 0)], [1, 4]),
                   (3, [("GRW", 4, 1, 3), ("MALA", 3, 1, 0), ("HMC", 3, 1, 2), ("NF", 7, 1, 2), ("NF", 3, 1, 0), ("HMC", 5, 3, 0)], [7, 2])]
    for nd, pool, ncs in setups:
        path = os.path.join(ctx.tmp, "pool.json")
        json.dump([len(pool)], open(path, "w"))
        hists = ctx.generate("CallsGen", "CallsGen.cfg", num=8 if ctx.quick else 40, depth=8, env={"POOL_FILE": path})
        hists = [[k] for k in range(1, len(pool) + 1)] + hists
        kernels = realset.real_kernels(nd, ctx.seed, [k for k in ("GRW", "MALA", "HMC", "NF") if nd > 1 or k != "NF"])
        rig = records.Rig(nd, target, kernels, pool)
        rng = np.random.default_rng(ctx.seed)
        for hi, h in enumerate(hists):
            nc = ncs[hi % len(ncs)] if hi >= len(pool) else ncs[0]
            data = dict(realset.data(nd, c=0.25 * (hi % 3)), extra={"a": jnp.asarray(0.1 * hi), "b": [jnp.arange(3.0)]},
                        wall=jnp.asarray(0.2 if hi % 3 == 1 else 1e6))     # some chains start where the target is zero
            if hi % 2:
                data["n_steps"] = jnp.asarray(0.5)      # the caller's own entry
            rig.start(nc)
            key = jax.random.PRNGKey(31 * ctx.seed + hi)
            pos = rng.normal(size=(nc, nd)).astype(np.float32)
            ev = []
            for k in h:
                r = ctx.attempt(f"history{nd}-{hi}", rig.call, k - 1, key, pos, data)
                if r is None:
                    break
                key, pos, e = r
                ev.append(e)
            if ev:
                traces.append(dict(id=f"history{nd}-{hi}", ev=ev))
    return traces
