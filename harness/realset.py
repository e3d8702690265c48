"""Real kernels, flows and targets used by several checks."""
import jax, jax.numpy as jnp, numpy as np


def target(x, data):
    """A smooth target that depends on the data in several ways."""
    d = x - data["mu"]
    return -0.5 * jnp.sum(d * d * data["prec"]) - 0.1 * jnp.sum(x ** 4) + 0.3 * x[0] * x[-1] + data["c"]


def data(nd, c=0.25):
    return {"mu": jnp.linspace(-0.5, 0.5, nd), "prec": jnp.linspace(0.7, 1.6, nd), "c": jnp.asarray(c)}


def real_kernels(nd, seed=0, which=("GRW", "MALA", "HMC", "NF")):
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.Gaussian_random_walk import GaussianRandomWalk
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    out = {}
    if "GRW" in which:
        out["GRW"] = GaussianRandomWalk(step_size=0.6)
    if "MALA" in which:
        out["MALA"] = MALA(step_size=0.7)
    if "HMC" in which:
        a = np.eye(nd) + 0.3 * np.ones((nd, nd))
        out["HMC"] = HMC(condition_matrix=jnp.asarray(a, dtype=jnp.float32), step_size=0.35, n_leapfrog=3)
    if "NF" in which:
        m = RealNVP(nd, 2, 4, jax.random.PRNGKey(seed + 5))
        out["NF"] = NFProposal(randomize(m, seed + 6, 0.3), n_NFproposal_batch_size=2)
    return out


def nf_fields(flow, n, mean=None, cov=None):
    """Give a stand-in flow the fields that the base class declares, whatever their names: those of a real flow."""
    import dataclasses
    from flowMC.resource.model.nf_model.base import NFModel
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    real = RealNVP(n, 1, 1, jax.random.PRNGKey(0), data_mean=mean, data_cov=cov)
    for f in dataclasses.fields(NFModel):
        setattr(flow, f.name, getattr(real, f.name))


def fixed(model):
    """Paths of the leaves that are no trainable parameters: arrays that belong to the flow itself (data
    statistics), to a base distribution, to a coupling layer (mask) or to a spline (its range)."""
    from flowMC.resource.model.common import MaskedCouplingLayer
    from flowMC.resource.model.nf_model.realNVP import AffineCoupling
    from flowMC.resource.model.nf_model.rqSpline import RQSpline
    kinds = (MaskedCouplingLayer, RQSpline, AffineCoupling)
    str_ = jax.tree_util.keystr

    def owners(node, prefix=()):
        out = {str_(prefix)} if isinstance(node, kinds) else set()
        for path, sub in jax.tree_util.tree_flatten_with_path(node, is_leaf=lambda v: v is not node and isinstance(v, kinds))[0]:
            if isinstance(sub, kinds):
                out |= owners(sub, prefix + path)
        return out
    own = owners(model)
    return {str_(path) for path, _ in jax.tree_util.tree_flatten_with_path(model)[0]
            if len(path) == 1 and hasattr(model, "data_mean") or "base_dist" in str_(path) or str_(path[:-1]) in own}


def randomize(model, seed, scale):
    """Random values for all trainable parameters, leaving masks, base distribution and data statistics alone."""
    import equinox as eqx
    leaves, tree = jax.tree_util.tree_flatten_with_path(model)
    rng = np.random.default_rng(seed)
    out = []
    keep = fixed(model)
    for path, leaf in leaves:
        if eqx.is_inexact_array(leaf) and jax.tree_util.keystr(path) not in keep:
            leaf = leaf + jnp.asarray(rng.normal(size=leaf.shape) * scale, dtype=leaf.dtype)
        out.append(leaf)
    return jax.tree_util.tree_unflatten(tree, out)

