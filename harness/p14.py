"""P14: tempered targets scale the likelihood only; temperature one is the posterior; the ready-made
configuration samples one distribution."""
import core
S = 4096


def run(ctx):
    ctx.model_check("TemperingMC", "TemperingMC_sign.cfg", expect="Inv", workers=1)
    ctx.model_check("TemperingMC", "TemperingMC_ok.cfg" if ctx.quick else "TemperingMC_thorough.cfg")
    import tempering
    with core.silence():
        traces = tempering.drive(ctx, 6 if ctx.quick else 60)      # exchanges compare untempered likelihoods without the prior
        traces += values(ctx) + bundles(ctx)
    ctx.validate("TemperingTrace", traces, tempering.canary)
    ctx.fails = [f for f in ctx.fails if f["clause"] == "swap-rule" or not f["clause"].startswith(("swap-", "ladder-"))]
    ctx.assumptions.append("in the ready-made configuration the kernels are stand-ins that note the target they are given; "
                           "targets are compared up to a constant")


def trace(name, ev):
    return dict(id=name, ev=ev, cfg=dict(r=2, nc=1, n=1, ids=[[1, 2]], t=[S, 2 * S], tmax=2 * S))


def values(ctx):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa
    from flowMC.resource.logPDF import TemperedPDF, LogPDF, Variable
    import realset
    rng = np.random.default_rng(ctx.seed)
    ev = []
    like = realset.target
    prior = lambda x, d: -jnp.sum(jnp.abs(x)) + d["c"] * x[0]
    for nd in (1, 2, 3):
        pdfs = [TemperedPDF(like, prior, n_dims=nd), TemperedPDF(like, prior, variables=[Variable("v%d" % i, True) for i in range(nd)])]
        leaves, tree = jax.tree_util.tree_flatten(pdfs[0])
        pdfs.append(jax.tree_util.tree_unflatten(tree, leaves))
        pdfs.append(TemperedPDF(LogPDF(like, n_dims=nd), prior, n_dims=nd))     # as the bundle does
        for k, pdf in enumerate(pdfs):
            data = realset.data(nd, c=0.5 + 0.25 * k)
            xs = jnp.asarray(rng.normal(size=(8, nd)), jnp.float32)
            ts = jnp.asarray([1, 1.25, 2, 3, 8, 50, 1, 1000.0], jnp.float32)

            def go():
                one = jax.vmap(pdf.tempered_log_pdf, in_axes=(0, 0, None))(ts, xs, data)
                arr = jax.jit(lambda p, x: p.tempered_log_pdf(ts, x, data))(pdf, xs[0])     # an array of temperatures
                u = jax.vmap(pdf, in_axes=(0, None))(xs, data)
                return map(np.asarray, (one, arr, u))
            r = ctx.attempt("values", go)
            if r is None:
                continue
            one, arr, u = r
            l = np.asarray(jax.vmap(like, in_axes=(0, None))(xs, data))
            p = np.asarray(jax.vmap(prior, in_axes=(0, None))(xs, data))
            ev.append(dict(op="pdf", l=qa(l, S), p=qa(p, S), t=qa(ts, S), v=qa(one, S), u=qa(u, S), tol=4))
            ev.append(dict(op="pdf", l=qa(np.repeat(l[:1], 8), S), p=qa(np.repeat(p[:1], 8), S), t=qa(ts, S), v=qa(arr, S), u=qa(np.repeat(u[:1], 8), S), tol=4))
    # likelihoods of any size, in units of their size, and outside the support of either part
    far = lambda x, d: d["k"] * (x[0] - 0.3 * jnp.sum(x ** 2)) + jnp.where(x[0] > 5, -jnp.inf, 0.0)
    prior2 = lambda x, d: jnp.where(x[0] < -5, -jnp.inf, -d["k"] * jnp.abs(x[-1]))
    for unit in (1e3, 1e6, 1e9, 1e-4):
        pdf = TemperedPDF(far, prior2, n_dims=2)
        data = {"k": jnp.asarray(unit, jnp.float32)}
        xs = jnp.asarray(np.concatenate([rng.normal(size=(6, 2)) * 2, [[6.0, 0.1], [-6.0, 0.2]]]), jnp.float32)
        ts = jnp.asarray([1, 2, 3, 1, 40, 7, 2, 1], jnp.float32)

        def go():
            one = jax.vmap(pdf.tempered_log_pdf, in_axes=(0, 0, None))(ts, xs, data)
            return np.asarray(one), np.asarray(jax.vmap(pdf, in_axes=(0, None))(xs, data))
        r = ctx.attempt("values", go)
        if r is not None:
            l, p = (np.asarray(jax.vmap(f, in_axes=(0, None))(xs, data)) / unit for f in (far, prior2))
            ev.append(dict(op="pdf", l=qa(l, S), p=qa(p, S), t=qa(ts, S), v=qa(r[0] / unit, S), u=qa(r[1] / unit, S), tol=4))
    return [trace("values", ev)] if ev else []


def bundles(ctx):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    import tempering, stubs

    class Group(stubs.CountKernel):
        def kernel(self, rng_key, position, log_prob, logpdf, data):
            new = position.at[2].set(logpdf(position, data))
            new = jnp.tile(new[None], (data["n_steps"], 1))
            return new, jnp.zeros(len(new)), jnp.ones(len(new), bool)

    def targets(prior):
        """What the coldest replica, the local and the global steps see at the same positions.  The
        likelihoods of the hot replicas forbid exchanges."""
        nc = 6
        rng = np.random.default_rng(ctx.seed + 5)
        kw = {} if prior is None else dict(logprior=prior)
        b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), nc, 4, tempering.loglik, 1, 1, 1, 1, 1,
                                    rq_spline_hidden_units=[2], rq_spline_n_layers=1, rq_spline_n_bins=2,
                                    n_temperatures=2, max_temperature=4.0, n_tempered_steps=1, **kw)
        res = b.resources
        res["local_sampler"], res["global_sampler"] = tempering.kernel(), Group()
        data = {"ll": jnp.asarray(np.concatenate([rng.normal(size=nc) * 2, np.full(nc, -500.0)]), jnp.float32),
                "pr": jnp.asarray(np.concatenate([rng.normal(size=nc), np.zeros(nc)]), jnp.float32)}
        pos = np.zeros((nc, 4), np.float32)
        pos[:, 0] = np.arange(nc)
        hot = pos.copy()
        hot[:, 0] += nc
        key = jax.random.PRNGKey(1)
        _, res, _ = b.strategies["initialize_tempered_positions"](key, res, jnp.asarray(hot), data)
        _, res, cold = b.strategies["parallel_tempering"](key, res, jnp.asarray(pos), data)
        _, res, loc = b.strategies["local_stepper"](key, res, jnp.asarray(pos), data)
        _, res, glo = b.strategies["global_stepper"](key, res, jnp.asarray(pos), data)
        cold, loc, glo = (np.asarray(v) for v in (cold, loc, glo))
        keep = cold[:, 0] == pos[:, 0]      # exchanges are the subject of P12
        return [v[keep, 2] for v in (cold, loc, glo)] if keep.sum() > 2 else None

    out = []
    priors = {"bundle-no-prior": None, "bundle-constant-prior": lambda x, d: 2.5, "bundle-prior": tempering.logprior}
    for name, prior in priors.items():
        r = ctx.attempt(name, targets, prior)
        if r is None:
            continue
        cold, loc, glo = (qa(v - v[0], S) for v in r)
        out.append(trace(name, [dict(op="equal", what="temper-coldest-against-local", tol=8, a=cold, b=loc),
                                dict(op="equal", what="temper-local-against-global", tol=8, a=loc, b=glo)]))
    return out
