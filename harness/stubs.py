"""Stand-ins for kernels, flows and targets with exactly predictable behaviour (small integers in
float32), used to observe what the real strategies do with them."""
import jax, jax.numpy as jnp, numpy as np
import equinox as eqx
from flowMC.resource.kernel.base import ProposalBase
from flowMC.resource.logPDF import LogPDF

# position vector of the counting kernels: [tag, ctr, carry-errors]
def code(x):
    return x[..., 0] * 1000 + x[..., 1]


def tag_logpdf(x, data):
    """The code of the state; a shift in the data is part of it."""
    return code(x) + data["shift"] if "shift" in data else code(x)


def start(tags, ctrs=None, extra=0):
    tags = np.asarray(tags, float)
    ctrs = np.zeros_like(tags) if ctrs is None else np.asarray(ctrs, float)
    return jnp.asarray(np.stack([tags, ctrs] + [np.zeros_like(tags)] * (1 + extra), -1), dtype=jnp.float32)


class CountKernel(ProposalBase):
    """One step: the counter goes up by one; accepts when the new code is 1 modulo 3.  Notes in the
    third component when the log-probability handed in is not that of the position handed in."""
    def __init__(self):
        pass

    def kernel(self, rng_key, position, log_prob, logpdf, data):
        wrong = jnp.where(log_prob == logpdf(position, data), 0.0, 1.0)
        new = position.at[1].add(1.0).at[2].add(wrong)
        acc = (code(new) % 3 == 1)
        return new, logpdf(new, data), acc

    def print_parameters(self):
        pass

    def save_resource(self, path):
        pass

    def load_resource(self, path):
        pass


class CountGroupKernel(CountKernel):
    def kernel(self, rng_key, position, log_prob, logpdf, data):
        n = data["n_steps"]
        wrong = jnp.where(log_prob == logpdf(position, data), 0.0, 1.0)
        k = jnp.arange(1, n + 1, dtype=jnp.float32)
        new = jnp.tile(position[None, :], (n, 1))
        new = new.at[:, 1].add(k).at[:, 2].add(wrong)
        acc = (code(new) % 3 == 1)
        return new, jax.vmap(logpdf, in_axes=(0, None))(new, data), acc
