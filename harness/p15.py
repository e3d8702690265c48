"""P15: training data are recent, valid samples of every chain, and nothing else: the examples the real
TrainModel strategy hands to a flow, for generated fillings of the sample buffer."""
import core
from core import qa, q, bits


def run(ctx):
    for v in ("window", "common"):
        ctx.model_check("TrainingMC", f"TrainingMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("TrainingMC", "TrainingMC_ok.cfg" if ctx.quick else "TrainingMC_thorough.cfg")
    fills = fixed() + ctx.generate("TrainingGen", "TrainingGen.cfg", num=60 if ctx.quick else 600, depth=3, env={"WHAT": "fill"})
    with core.silence():
        traces = drive(ctx, fills)
    ctx.validate("TrainingTrace", traces, canary)


def fixed():
    full = lambda nc, n: [[1] * n for _ in range(nc)]
    return [dict(nc=3, cols=6, hist=3, n=30, cells=[[1, 1, 1, 0, 0, 0], [1, 1, 1, 1, 1, 0], [1, 2, 1, 3, 0, 0]]),
            dict(nc=2, cols=5, hist=100, n=2000, cells=full(2, 5)),
            dict(nc=3, cols=7, hist=2, n=2000, cells=[[1, 1, 1, 1, 1, 0, 0]] * 3),
            dict(nc=1, cols=60, hist=50, n=40, cells=full(1, 60)),
            dict(nc=4, cols=12, hist=5, n=3000, cells=[[1] * 12, [1] * 3 + [2] * 5 + [1] * 4, [0] * 12, [1] * 2 + [0] * 10]),
            dict(nc=20, cols=9, hist=3, n=1500, cells=[[1] * (3 + c % 5) + [2] * (c % 2) + [0] * (6 - c % 5 - c % 2) for c in range(20)]),
            dict(nc=33, cols=3, hist=1, n=800, cells=full(33, 3)),
            dict(nc=2, cols=4, hist=2, n=10, cells=[[2, 2, 2, 1], [0, 0, 0, 0]])]


def drive(ctx, fills):
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer
    import realset
    from flowMC.resource.model.nf_model.base import NFModel
    from flowMC.strategy.train_model import TrainModel
    got = []

    class Tag(NFModel):
        w: jax.Array

        def __init__(self, nd):
            realset.nf_fields(self, nd)
            self.w = jnp.zeros(2)

        def log_prob(self, x):
            return 0.0 * x[0]

        def sample(self, rng_key, n_samples):
            return jnp.zeros((n_samples, self.n_features))

        def forward(self, x, key=None):
            return x, 0.0

        def inverse(self, x):
            return x, 0.0

        def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
            got.append(dict(rows=np.array(data), epochs=num_epochs, batch=batch_size, key=bits(rng)))
            return rng, self, state, jnp.arange(num_epochs) + 1.0

        def print_parameters(self):
            pass

    key = jax.random.PRNGKey(1500 + ctx.seed)
    by = {}
    for i, f in enumerate(fills):
        if not any(v == 1 for c in f["cells"] for v in c):
            continue
        nd = (1, 3, 2)[i % 3]
        nc, n = f["nc"], f["cols"]
        d = np.full((nc, n, nd), -np.inf, np.float32)
        for c in range(nc):
            for k in range(n):
                v = f["cells"][c][k]
                if v:
                    # values of all sizes, in some fillings repeated from step to step as after a rejection
                    m = k // 3 if i % 3 == 2 else k
                    d[c, k] = [(c + 1) * 100 + m, (m - 3) * (c + 2), 7 - c][:nd]
                    if (c + m) % 4 == 1:
                        d[c, k] *= 1e6
                    if (2 * c + m) % 5 == 2:
                        d[c, k] = 0.0
                if v == 2:
                    d[c, k, (c + k) % nd] = np.nan
                if v == 3:
                    d[c, k, (c + k) % nd] = np.inf if k % 2 else -np.inf
        buf = Buffer("samples", (nc, n, nd), 1)
        buf.update_buffer(jnp.asarray(d), 0)
        loss = Buffer("loss", (20,), 0)
        m = Tag(nd)
        res = {"model": m, "samples": buf, "opt": Optimizer(m), "loss": loss}
        ep, batch = 1 + i % 3, 3 + i % 4
        name = f"fill{i}" if i < len(fixed()) else "generated"
        s = TrainModel("model", "samples", "opt", "loss", n_epochs=ep, batch_size=batch, n_max_examples=f["n"], history_window=f["hist"])
        got.clear()
        key, sub = jax.random.split(key)
        r = ctx.attempt(name, s, sub, res, jnp.zeros((nc, nd)), {})
        if r is None or not got:
            if r is not None:
                ctx.fails.append(dict(scenario=name, clause="not-trained", line=0, module="", event=None, trace=None))
            continue
        g = got[0]
        rows = np.asarray(g["rows"]).reshape(len(g["rows"]), -1)
        elig = sum(min(f["hist"], sum(v == 1 for v in c)) for c in f["cells"])
        # probability that so many draws with replacement are all different
        p = np.exp(np.sum(np.log1p(-np.minimum(np.arange(f["n"]) / elig, 0.999999)))) if f["n"] <= elig else 0.0
        by.setdefault(name, []).append(dict(
            op="select", cells=[qa(d[c]) for c in range(nc)], hist=f["hist"], n=f["n"], rows=qa(rows), repeats=bool(p < 1e-9),
            data="same" if bits(buf.data) == bits(d) else "different", passed=[int(g["epochs"]), int(g["batch"]), len(got)], configured=[ep, batch, 1]))
    # far more samples than examples: over many calls all of them are used
    nc, cols, nd, few = 10, 12, 2, 5
    d = np.asarray([[[(c + 1) * 100 + k, c - k] for k in range(cols)] for c in range(nc)], np.float32)
    buf = Buffer("samples", (nc, cols, nd), 1)
    buf.update_buffer(jnp.asarray(d), 0)
    m = Tag(nd)
    res = {"model": m, "samples": buf, "opt": Optimizer(m), "loss": Buffer("loss", (4000,), 0)}
    s = TrainModel("model", "samples", "opt", "loss", n_epochs=2, batch_size=2, n_max_examples=few, history_window=8)
    got.clear()
    for _ in range(40 * nc * 8 // few):
        key, sub = jax.random.split(key)
        if ctx.attempt("few-examples", s, sub, res, jnp.zeros((nc, nd)), {}) is None:
            break
    rows = [r for g in got for r in np.asarray(g["rows"]).reshape(-1, nd)]
    if len({len(g["rows"]) for g in got}) == 1:
        by["few-examples"] = [dict(op="select", cells=[qa(d[c]) for c in range(nc)], hist=8, n=len(got) * few, rows=qa(rows), repeats=True,
                                   data="same", passed=[2, 2, 1], configured=[int(got[0]["epochs"]), int(got[0]["batch"]), 1])]
    # one strategy over a buffer that keeps growing
    nc, cols, nd = 3, 16, 2
    for hist, steps in ((1, (2, 2, 3, 2, 3)), (3, (4, 5, 6)), (5, (1, 1, 2, 4, 8))):
        buf = Buffer("samples", (nc, cols, nd), 1)
        m = Tag(nd)
        res = {"model": m, "samples": buf, "opt": Optimizer(m), "loss": Buffer("loss", (50,), 0)}
        s = TrainModel("model", "samples", "opt", "loss", n_epochs=2, batch_size=4, n_max_examples=400, history_window=hist)
        at = 0
        for k in steps:
            d = np.asarray([[[(c + 1) * 100 + at + j, c - at - j] for j in range(k)] for c in range(nc)], np.float32)
            buf.update_buffer(jnp.asarray(d), at)
            at += k
            got.clear()
            key, sub = jax.random.split(key)
            r = ctx.attempt("growing", s, sub, res, jnp.zeros((nc, nd)), {})
            if r is None or not got:
                continue
            now = np.asarray(buf.data)
            rows = np.asarray(got[0]["rows"]).reshape(-1, nd)
            by.setdefault("growing", []).append(dict(
                op="select", cells=[qa(now[c]) for c in range(nc)], hist=hist, n=400, rows=qa(rows), repeats=True,
                data="same", passed=[int(got[0]["epochs"]), int(got[0]["batch"]), len(got)], configured=[2, 4, 1]))
    return [dict(id=k, ev=v) for k, v in by.items()]


def canary(t):
    import copy
    a = copy.deepcopy(t)
    e = a["ev"][0]
    e["rows"][0] = [9999] * len(e["rows"][0])
    bad = [c for ch in e["cells"] for c in ch if any(v >= 2000000000 for v in c)]
    out = [a]
    if bad:
        b = copy.deepcopy(t)
        b["ev"][0]["rows"][-1] = bad[0]
        out.append(b)
    return out
