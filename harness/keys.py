"""Recording every use of a random key: the public functions of jax.random are wrapped, before the library
is imported, so that each call also reports the key it was given (from inside compiled code too)."""
import functools, inspect
LOG = []
SPLITS = ("split", "fold_in", "clone")
NOT_DRAWS = ("PRNGKey", "key", "key_data", "wrap_key_data", "key_impl", "default_prng_impl")


def name(k):
    import numpy as np
    return "".join("%08x" % int(v) for v in np.asarray(k, np.uint32).reshape(-1))


def data(k):
    import jax, jax.numpy as jnp
    k = jnp.asarray(k)
    return jax.random.key_data(k) if jnp.issubdtype(k.dtype, jax.dtypes.prng_key) else k


def install():
    import jax, numpy as np
    for n in dir(jax.random):
        f = getattr(jax.random, n)
        if n.startswith("_") or n in NOT_DRAWS or not callable(f) or inspect.isclass(f):
            continue
        try:
            first = next(iter(inspect.signature(f).parameters))
        except (ValueError, TypeError, StopIteration):
            continue
        if first not in ("key", "rng_key"):
            continue
        setattr(jax.random, n, wrap(n, f))


def wrap(op, f):
    import jax, numpy as np

    @functools.wraps(f)
    def g(key, *a, **k):
        out = f(key, *a, **k)
        try:
            if op in SPLITS:
                ch = data(out)
                jax.debug.callback(lambda x, y: LOG.append(("split", name(x), [name(v) for v in np.asarray(y).reshape(-1, np.asarray(x).size)])), data(key), ch)
            else:
                n = int(np.prod(np.shape(out)))
                jax.debug.callback(lambda x: LOG.append((op, name(x), n)), data(key))
        except Exception as e:      # pragma: no cover
            raise RuntimeError(f"recording {op}: {e}")
        return out
    return g


def collect():
    """What was recorded since the last time."""
    import jax
    jax.effects_barrier()
    log = list(LOG)
    LOG.clear()
    return dict(draws=[dict(k=k, op=op, n=n) for op, k, n in log if op != "split"], splits=[dict(k=k, ch=ch) for op, k, ch in log if op == "split"])
