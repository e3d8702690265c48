"""Shared by P03 and P11: stepping calls with the real kernels, recorded row by row."""
import jax, jax.numpy as jnp, numpy as np
from core import q, bits


class Rig:
    """Steppers of the real kernels over one target, reused between scenarios (compiled once)."""
    def __init__(self, nd, target, kernels, pool, cols=64):
        from flowMC.resource.logPDF import LogPDF
        from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
        self.nd, self.pool, self.cols = nd, pool, cols
        self.kernels = kernels
        self.logpdf = LogPDF(target, n_dims=nd)
        self.target = jax.jit(jax.vmap(target, in_axes=(0, None)))
        self.steppers = []
        for name, n, thin, batch in pool:
            cls = TakeGroupSteps if name.startswith("NF") else TakeSerialSteps
            self.steppers.append(cls("logpdf", name, "state", ["p", "l", "a"], n, thinning=thin, chain_batch_size=batch))

    def start(self, nc):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        self.nc = nc
        self.res = dict(self.kernels)
        self.res.update({"logpdf": self.logpdf, "p": Buffer("p", (nc, self.cols, self.nd), 1), "l": Buffer("l", (nc, self.cols), 1),
                         "a": Buffer("a", (nc, self.cols), 1), "state": State(dict(p="p", l="l", a="a"), name="state")})
        self.at = 0

    def call(self, i, key, pos, data, finite=True, tol=12):
        """Call stepper i; returns key, new positions and the event."""
        name, n, thin, batch = self.pool[i]
        st = self.steppers[i]
        st.set_current_position(self.at)
        pos = np.asarray(pos, np.float32)
        key, self.res, out = st(key, self.res, jnp.asarray(pos), data)
        cols = slice(self.at, self.at + n // thin)
        self.at += n // thin
        p, l, a = (np.asarray(self.res[k].data)[:, cols] for k in "pla")
        t = np.asarray(self.target(jnp.asarray(p.reshape(-1, self.nd)), data)).reshape(p.shape[:2])
        t0 = np.asarray(self.target(jnp.asarray(pos), data))
        out = np.asarray(out)
        chains = []
        for c in range(p.shape[0]):
            rows = [dict(b=bits(p[c, k]), lp=q(l[c, k], 4096), t=q(t[c, k], 4096), a=q(a[c, k])) for k in range(p.shape[1])]
            chains.append(dict(b0=bits(pos[c]), t0=q(t0[c], 4096), rows=rows, ret=bits(out[c].astype(np.float32))))
        moved = any(r["a"] == 1 for c in chains for r in c["rows"])
        return key, out, dict(op="call", what=name, full=thin == 1, finite=finite, tol=tol, moved=moved, chains=chains)


def canary(t):
    for k, e in enumerate(t["ev"]):
        if e["op"] != "call" or not e["full"]:
            continue
        import copy
        for ci, c in enumerate(e["chains"]):
            for ri, r in enumerate(c["rows"]):
                if r["a"] == 1:
                    a, b = copy.deepcopy(t), copy.deepcopy(t)
                    a["ev"][k]["chains"][ci]["rows"][ri]["lp"] += 400
                    b["ev"][k]["chains"][ci]["rows"][ri]["a"] = 0
                    return [a, b]
    return None
