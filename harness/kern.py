"""Measuring one step of a local kernel from outside: its proposal, its log-uniform variate and its
log-acceptance-ratio, per random key.

A target that is 0 at the starting point and c elsewhere has no gradient, so the step is accepted
exactly when log u < c for every correct kernel: bisecting c gives log u (and c = large gives the noise).
Adding such a bump to a real target shifts the ratio by c without changing the proposal: the threshold
in c is log u - ratio."""
import jax, jax.numpy as jnp, numpy as np
import equinox as eqx
from flowMC.resource.logPDF import LogPDF


def poly(x, t):
    d = x - t["mu"]
    return (-0.5 * jnp.sum(d * d * t["prec"]) - t["quart"] * jnp.sum(x ** 4) + t["mix"] * x[0] * x[-1] + t["c"])


def bumped(x, data):
    real = jnp.where(data["real"] > 0, poly(x, data["t"]), 0.0)
    return real + jnp.where(jnp.all(x == data["x0"]), 0.0, data["bump"])


def make_target(t, scale=4096):
    """Target parameters that are exact multiples of 1/scale."""
    r = lambda a: np.round(np.asarray(a, float) * scale) / scale
    return dict(mu=r(t["mu"]), prec=r(t["prec"]), quart=r(t["quart"]), mix=r(t["mix"]), c=r(t["c"]))


class Probe:
    """One compiled step, vectorized over keys and bumps."""
    def __init__(self, nd):
        self.logpdf = LogPDF(bumped, n_dims=nd)

        def f(kernel, keys, x0, bumps, real, t):
            def one(key, bump):
                data = dict(t=t, x0=x0, bump=bump, real=real)
                return kernel.kernel(key, x0, self.logpdf(x0, data), self.logpdf, data)
            return jax.vmap(one)(keys, bumps)
        self.f = eqx.filter_jit(f)

    def __call__(self, kernel, keys, x0, bumps, real, t):
        p, l, a = self.f(kernel, keys, jnp.asarray(x0, jnp.float32), jnp.asarray(bumps, jnp.float32),
                         jnp.asarray(1.0 if real else 0.0),
                         {k: jnp.asarray(v, jnp.float32) for k, v in t.items()})
        return np.asarray(p), np.asarray(l), np.asarray(a).astype(bool)

    def threshold(self, kernel, keys, x0, real, t, iters=32, span=2048.0):
        """The smallest bump that is accepted, per key (NaN if none or all are)."""
        n = len(keys)
        lo, hi = np.full(n, -span), np.full(n, span)
        acc_hi = self(kernel, keys, x0, hi, real, t)
        rej_lo = self(kernel, keys, x0, lo, real, t)
        for _ in range(iters):
            mid = (lo + hi) / 2
            a = self(kernel, keys, x0, mid, real, t)[2]
            hi = np.where(a, mid, hi)
            lo = np.where(a, lo, mid)
        thr = np.where(acc_hi[2] & ~rej_lo[2], (lo + hi) / 2, np.nan)
        return thr, acc_hi, rej_lo, span


RARE, BLOCK, BLOCKS = (2.0, 6.0, 8.0, 10.0), 100_000, 12


def measure(probe, kernel, key, n_many, n_few, x0, t, rare=False):
    """Events of one configuration: n_few steps in detail, the statistics of n_many; with rare, how often
    steps down by several units are accepted, in a million."""
    from core import qa, q
    keys = jax.random.split(key, n_many)
    zero = {k: np.zeros_like(v) for k, v in t.items()}
    logu, flat, _, _ = probe.threshold(kernel, keys, x0, False, zero)
    few = keys[:n_few]
    thr, acc, rej, span = probe.threshold(kernel, few, x0, True, t)
    S = 4096
    ev = []
    for i in range(n_few):
        ev.append(dict(op="step", x=qa(x0, S), y=qa(acc[0][i], S), y0=qa(flat[0][i], S), r=q(logu[i] - thr[i], S),
                       lp=q(acc[1][i] - span, S), rej=qa(rej[0][i], S), rejlp=q(rej[1][i], S)))
    more = jax.random.split(jax.random.fold_in(key, 1), 4 * n_many)
    wide = probe(kernel, more, x0, np.full(len(more), span), False, zero)[0] - np.asarray(x0)[None]
    wide = wide[: len(wide) // 80 * 80].reshape(-1, 80, wide.shape[-1])        # in blocks
    ev += [dict(op="noise", z=qa(b, S)) for b in wide] + [dict(op="tails")]
    if rare:
        count = np.zeros(len(RARE), int)
        for b in range(BLOCKS):
            ks = jax.random.split(jax.random.fold_in(key, 2 + b), BLOCK)
            count += [int(probe(kernel, ks, x0, np.full(BLOCK, -d), False, zero)[2].sum()) for d in RARE]
        ev.append(dict(op="rare", n=BLOCK * BLOCKS, count=count.tolist()))
    z = flat[0] - np.asarray(x0)[None]
    ev.append(dict(op="stats", z=qa(z, S), u=qa(np.exp(logu), S)))
    return ev
