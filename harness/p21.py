"""P21: saved resources load back as they were: generated histories of saving, loading and further use of
buffers and states; flows of every kind, fresh, randomized and trained."""
import os
import core
from core import qa, q, bits


def run(ctx):
    for v in ("saveref", "cursor", "cdim"):
        ctx.model_check("ResourcesMC", f"ResourcesMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("ResourcesMC", "ResourcesMC_ok.cfg" if ctx.quick else "ResourcesMC_thorough.cfg")
    import resources
    with core.silence():
        traces = resources.histories(ctx, 30 if ctx.quick else 300)
    fl = ctx.parallel("p21", [("flows", n) for n in ("realnvp", "realnvp_base", "rqspline", "matching")])
    ctx.validate("ResourcesTrace", traces, resources.canary)
    ctx.validate("ResourcesTrace", fl)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith("use-")]
    ctx.assumptions.append("a flow is loaded into a flow of the same architecture")


def leaves(m):
    import jax, numpy as np
    out = []
    for path, leaf in jax.tree_util.tree_flatten_with_path(m)[0]:
        if hasattr(leaf, "dtype"):
            out.append([jax.tree_util.keystr(path), bits(leaf)])
        elif isinstance(leaf, (bool, int, float)):
            out.append([jax.tree_util.keystr(path), repr(leaf)])
    return out


def flows(ctx, which):
    import jax, jax.numpy as jnp, numpy as np
    import realset
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    from flowMC.resource.model.common import MLP, Gaussian
    from flowMC.resource.optimizer import Optimizer
    K = jax.random.PRNGKey

    def matching(nd, k):
        return FlowMatchingModel(Solver(MLP([nd + 1, 6, nd], K(k), scale=1.0, activation=jax.nn.tanh)), Path(CondOTScheduler()))
    makers = dict(
        realnvp=lambda nd, k: RealNVP(nd, 2, 4, K(k)),
        realnvp_base=lambda nd, k: RealNVP(nd, 2, 4, K(k), base_dist=Gaussian(jnp.full(nd, 0.1 * k), (1.0 + k) * jnp.eye(nd), learnable=True)),
        rqspline=lambda nd, k: MaskedCouplingRQSpline(nd, 2, [4], 3, K(k)),
        matching=matching)
    traces = []
    x = lambda nd, n, s: jnp.asarray(np.random.default_rng(s).normal(size=(n, nd)) * 2 + 1, jnp.float32)
    for name, mk in makers.items():
        if name != which:
            continue
        ev = []
        for nd in ((2, 1) if ctx.quick else (2, 1, 4)):
            for how in ("random", "trained"):
                if nd == 1 and name == "rqspline":
                    continue
                m = realset.randomize(mk(nd, 1), 7 + nd, 0.2)
                if how == "trained":
                    opt = Optimizer(m, learning_rate=0.02)
                    xs = x(nd, 20, 3)
                    data = (x(nd, 20, 4), xs, jnp.linspace(0, 1, 20)[:, None]) if name == "matching" else xs
                    r = ctx.attempt(f"{name}-train", m.train, K(5), data, opt.optim, opt.optim_state, 3, 20, verbose=False)
                    if r is None:
                        continue
                    m = r[1]
                path = os.path.join(ctx.tmp, f"flow-{name}-{nd}-{how}" + ("" if how == "random" else ".v1.eqx"))
                before = leaves(m)
                other = mk(nd, 2)
                ob = leaves(other)
                if ctx.attempt(f"{name}-{nd}-{how}", lambda: (m.save_model if how == "random" else m.save_resource)(path) or 1) is None:
                    continue
                ev.append(dict(op="same", a=leaves(m), b=before, what=f"saving-changed-the-flow:{name}"))
                m2 = ctx.attempt(f"{name}-{nd}-{how}", (other.load_model if how == "random" else other.load_resource), path)
                if m2 is None:
                    continue
                ev.append(dict(op="same", a=leaves(other), b=ob, what=f"loading-changed-the-other-flow:{name}"))
                ev.append(dict(op="same", a=leaves(m2), b=before, what=f"parameters:{name}"))
                ev.append(dict(op="same", a=[bits(m2.data_mean), bits(m2.data_cov)], b=[bits(m.data_mean), bits(m.data_cov)], what=f"data-statistics:{name}"))
                pts = x(nd, 5, 9)
                lp = lambda mm: bits(jax.vmap(mm.log_prob)(pts))
                sm = lambda mm: bits(mm.sample(K(11), 4))
                ev.append(dict(op="same", a=[lp(m2), sm(m2)], b=[lp(m), sm(m)], what=f"densities-and-samples:{name}"))
                ev.append(dict(op="different", a=lp(other), b=lp(m), what=f"machinery-flows-alike:{name}"))
                # and after one more training step both are the same again
                if how == "trained" and nd == 2:
                    opt2 = Optimizer(m, learning_rate=0.01)
                    ra = ctx.attempt(name, m.train, K(6), data, opt2.optim, opt2.optim_state, 1, 20, verbose=False)
                    rb = ctx.attempt(name, m2.train, K(6), data, opt2.optim, opt2.optim_state, 1, 20, verbose=False)
                    if ra is not None and rb is not None:
                        ev.append(dict(op="same", a=leaves(rb[1]), b=leaves(ra[1]), what=f"further-training:{name}"))
                if os.path.exists(path + ".eqx"):
                    os.unlink(path + ".eqx")
        traces.append(dict(id=f"flow-{name}", ev=ev))
    return traces
