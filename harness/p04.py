"""P04: continuity and independence of chains, batching.  The generated schedules of P02 (clauses on the
states handed on and carried between steps), and runs of the real kernels under different batchings and
with other chains changed."""
import core, recorder


def run(ctx):
    for v in ("noadvance",):
        ctx.model_check("RecorderMC", f"RecorderMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("RecorderMC", "RecorderMC_ok.cfg" if ctx.quick else "RecorderMC_thorough.cfg")
    with core.silence():
        traces = recorder.drive(ctx, 40 if ctx.quick else 600)
    traces += ctx.parallel("p04", [("real", k) for k in ("GRW", "MALA", "HMC", "NF")])
    ctx.validate("RecorderTrace", traces, recorder.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith("rec-")]
    ctx.assumptions.append("runs with different batch sizes are compared up to floating-point rounding "
                           "(2/4096), runs with other chains changed bit by bit")


def real(ctx, which):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa, bits, shaped
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    import realset
    traces = []
    nc, nd, ns = 5, 2, 4
    data = realset.data(nd)
    seeds = [ctx.seed] if ctx.quick else [ctx.seed + k for k in range(6)]
    for name, kern in realset.real_kernels(nd, ctx.seed, (which,)).items():
        for seed in seeds:
            ev = []
            cls = TakeGroupSteps if name == "NF" else TakeSerialSteps
            key = jax.random.PRNGKey(100 + seed)
            pos0 = np.random.default_rng(seed).normal(size=(nc, nd)).astype(np.float32)

            def go(batch, pos, thin=1):
                res = {"k": kern, "logpdf": LogPDF(realset.target, n_dims=nd), "p": Buffer("p", (nc, ns, nd), 1),
                       "l": Buffer("l", (nc, ns), 1), "a": Buffer("a", (nc, ns), 1),
                       "state": State(dict(p="p", l="l", a="a"), name="state")}
                st = cls("logpdf", "k", "state", ["p", "l", "a"], ns, thinning=thin, chain_batch_size=batch)
                k2, res, out = st(key, res, jnp.asarray(pos), data)
                return (shaped(res["p"].data, (nc, ns, nd)), shaped(res["l"].data, (nc, ns)),
                        shaped(res["a"].data, (nc, ns)), shaped(out, (nc, nd)))

            def flat(r):
                return [qa(x.reshape(-1), 4096) for x in r]
            base = ctx.attempt(f"real-{name}", go, 0, pos0)
            if base is None:
                continue
            for b in ((2, 3) if ctx.quick else (1, 2, 3, 4, 5, 6, 7)):
                r = ctx.attempt(f"real-{name}", go, b, pos0)
                if r is not None:
                    ev.append(dict(op="batch", what=name, tol=2, a=flat(base), b=flat(r)))
            for j, val in ((1, 3.5), (0, -2.0), (2, np.inf), (4, np.nan)):
                p2 = pos0.copy()
                p2[j] = val
                for b in ((0, 2) if j in (1, 4) else (0,)):
                    a1 = base if b == 0 else ctx.attempt(f"real-{name}", go, b, pos0)
                    r = ctx.attempt(f"real-{name}", go, b, p2)
                    if r is None or a1 is None:
                        continue
                    if b:       # batching does not matter for starts without a density either
                        r0 = ctx.attempt(f"real-{name}", go, 0, p2)
                        if r0 is not None:
                            ev.append(dict(op="batch", what=name, tol=2, a=flat(r0), b=flat(r)))
                    keep = [c for c in range(nc) if c != j]
                    ev.append(dict(op="indep", what=name, a=[bits(x[keep]) for x in a1], b=[bits(x[keep]) for x in r]))
                    if name != "NF":    # a flow step may forget where it started
                        ev.append(dict(op="dep", what=name, a=bits(a1[1][j]), b=bits(r[1][j])))
            if ev:
                traces.append(dict(id=f"real-{name}-{seed - ctx.seed}", cfg=dict(nc=1, cols=1, start=[1000], st=[]), ev=ev))
    return traces
