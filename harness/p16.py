"""P16: training passes over the data in disjoint batches and keeps the best epoch: the real training loops
of the flows, with a model whose parameters are a version counter and whose loss is a table over it."""
import core
from core import qa, q, bits


def run(ctx):
    for v in ("overlap", "later", "before", "restart"):
        ctx.model_check("TrainingMC", f"TrainingMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("TrainingMC", "TrainingMC_ok.cfg" if ctx.quick else "TrainingMC_thorough.cfg")
    runs = ctx.generate("TrainingGen", "TrainingGen.cfg", num=40 if ctx.quick else 500, depth=3, env={"WHAT": "train"})
    runs = fixed() + runs
    with core.silence():
        traces = drive(ctx, runs, "flow") + drive(ctx, runs, "matching")
    ctx.validate("TrainingTrace", traces, canary)


def fixed():
    t = lambda f: [f(i) for i in range(800)]
    return [dict(n=6, b=2, ep=120, v0=0, table=t(lambda i: 5 + (i * 7) % 11)),
            dict(n=7, b=2, ep=120, v0=0, table=t(lambda i: 1000 - i)),
            dict(n=59, b=30, ep=3, v0=0, table=t(lambda i: 50 - i)),        # nearly two batches; exactly two; nearly one
            dict(n=7, b=5, ep=120, v0=0, table=t(lambda i: 5 + (i * 7) % 11)),      # a single batch, not of all
            dict(n=40, b=20, ep=3, v0=0, table=t(lambda i: 3 + (i * 5) % 7)),
            dict(n=29, b=30, ep=3, v0=0, table=t(lambda i: 50 - i)),
            dict(n=5, b=10, ep=4, v0=0, table=t(lambda i: 3)),
            dict(n=4, b=2, ep=3, v0=2, table=t(lambda i: core.NAN)),
            dict(n=4, b=2, ep=3, v0=0, unit=16384, table=t(lambda i: 90_000 - i)),     # losses above 1e9
            dict(n=4, b=4, ep=0, v0=3, table=t(lambda i: 1)),
            dict(n=4, b=2, ep=1, v0=2, table=t(lambda i: core.NAN)),       # a single epoch: of no loss, and of one
            dict(n=45, b=2, ep=3, v0=0, table=t(lambda i: 3 + (i * 5) % 7)),       # many batches
            dict(n=6, b=4, ep=1, v0=0, table=t(lambda i: core.PINF)),
            dict(n=4, b=2, ep=1, v0=1, table=t(lambda i: 9 - i % 4)),
            dict(n=23, b=1, ep=2, v0=0, table=t(lambda i: 200 - i))]


def value(v, unit=1):
    import numpy as np
    return np.nan if v == core.NAN else np.inf if v == core.PINF else float(v) * unit


def drive(ctx, runs, kind):
    import jax, jax.numpy as jnp, numpy as np, optax
    import equinox as eqx
    import realset
    from flowMC.resource.model.nf_model.base import NFModel
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer
    from flowMC.strategy.train_model import TrainModel
    SIZE = 900
    log = []

    def note(theta, row):
        log.append((float(theta), np.array(row)))

    def record(theta, rows):
        jax.debug.callback(note, jax.lax.stop_gradient(theta), jax.lax.stop_gradient(rows))

    class Net(eqx.Module):
        theta: jax.Array
        table: jax.Array
        n_input: int = 4
        n_output: int = 3

        def loss(self):
            i = jnp.clip(jnp.round(jax.lax.stop_gradient(self.theta)).astype(int), 0, SIZE - 1)
            return jax.lax.stop_gradient(self.table)[i] + 0.0 * self.theta

        def __call__(self, x):
            record(self.theta, x)
            return jnp.sqrt(self.loss()) * jnp.ones(3)

    class Script(NFModel):
        net: Net

        def __init__(self, theta, table):
            realset.nf_fields(self, 3, jnp.full(3, 0.5), 2.0 * jnp.eye(3))
            self.net = Net(theta, table)

        def log_prob(self, x):
            record(self.net.theta, x)
            return -self.net.loss()

        def sample(self, rng_key, n_samples):
            return jnp.zeros((n_samples, 3))

        def forward(self, x, key=None):
            return x, 0.0

        def inverse(self, x):
            return x, 0.0

        def print_parameters(self):
            pass

    class Pairs:
        """Path whose points name the examples they were made of; no derivative."""
        def sample(self, x0, x1, t):
            return jnp.stack([x0[:, 0], x1[:, 0], t[:, 0]], -1), jnp.zeros_like(x0)

    class Holder(eqx.Module):
        model: Net

    def init(params):
        return {"n": jnp.asarray(0.0)}

    def update(grads, state, params=None):
        net = params.net if kind == "flow" else params.solver.model
        ok = net.theta == state["n"]
        up = jax.tree.map(lambda g: None if g is None else jnp.zeros_like(g), grads, is_leaf=lambda g: g is None)
        get = (lambda m: m.net.theta) if kind == "flow" else (lambda m: m.solver.model.theta)
        up = eqx.tree_at(get, up, jnp.where(ok, 1.0, 1000.0))
        return up, {"n": state["n"] + 1}
    optim = optax.GradientTransformation(init, update)

    by = {}
    key = jax.random.PRNGKey(1600 + ctx.seed)
    for i, c in enumerate(runs):
        name = f"{kind}-fixed{i}" if i < len(fixed()) else f"{kind}-generated"
        n, b, ep, v0 = c["n"], c["b"], c["ep"], c["v0"]
        table = c["table"] if kind == "flow" else [abs(v) for v in c["table"]]
        table = table[:SIZE] + [0] * (SIZE - len(table))
        unit = c.get("unit", 1)
        tab = jnp.asarray([value(v, unit) for v in table], jnp.float32)
        x = np.zeros((n, 3), np.float32)
        x[:, 0] = np.arange(1, n + 1)
        x[:, 1] = np.arange(n) ** 2
        x[:, 2] = (-1.0) ** np.arange(n)
        theta = jnp.asarray(float(v0))
        state = {"n": jnp.asarray(float(v0))}
        key, sub = jax.random.split(key)
        if kind == "flow":
            model = Script(theta, tab)
            data = jnp.asarray(x)
        else:
            model = FlowMatchingModel(Holder(Net(theta, tab)), Pairs(), data_mean=jnp.full(3, 0.5), data_cov=2.0 * jnp.eye(3))
            x0 = np.zeros((n, 3), np.float32)
            x0[:, 0] = np.arange(1, n + 1) * 10
            data = (jnp.asarray(x0), jnp.asarray(x), jnp.asarray(np.arange(1, n + 1, dtype=np.float32)[:, None] / 64))
        before = bits(*jax.tree.leaves(data), *jax.tree.leaves(model)[:2])
        log.clear()
        use = kind == "flow" and i % 3 == 2 and ep > 0           # through the strategy
        if use:
            got = ctx.attempt(name, strategy, c, model, optim, state, x, ep, b, sub, TrainModel, Buffer, Optimizer)
        else:
            got = ctx.attempt(name, model.train, sub, data, optim, state, ep, b, verbose=(i % 4 == 1))
        jax.effects_barrier()
        if got is None:
            continue
        extra = None
        if use:
            got, extra = got
        rng, m2, s2, losses = got
        net = m2.net if kind == "flow" else m2.solver.model
        rows = {}
        for th, r in log:
            r = np.atleast_2d(r)
            for row in r:
                rows.setdefault(int(round(th)), []).append(identify(row, x, kind, use))
        mean, cov = np.asarray(m2.data_mean), np.asarray(m2.data_cov)
        if use:
            used = extra["used"]
        orig = np.allclose(mean, 0.5) and np.allclose(cov, 2.0 * np.eye(3))
        if use:
            isdata = True if not orig else False
        else:
            isdata = np.allclose(mean, x.mean(0), atol=1e-4) and np.allclose(cov, np.cov(x.T), atol=1e-3)
        e = dict(op="train", n=n, b=b, ep=ep, v0=v0, table=[q(value(v)) for v in table[:v0 + 1 + ep * max(1, n // b)]],
                 batches=[dict(ver=v, rows=rows[v]) for v in sorted(rows)], losses=qa(np.asarray(losses) / unit), tol=0,
                 ver=q(net.theta), opt=q(s2["n"]), stat="unchanged" if orig else "data" if isdata else "different",
                 inputs="same" if bits(*jax.tree.leaves(data), *jax.tree.leaves(model)[:2]) == before else "different")
        ev = by.setdefault(name, [])
        if use:
            # the strategy draws its examples with replacement: batches are judged by the plain runs
            ev.append(extra["event"](e))
        else:
            ev.append(e)
    return [dict(id=k, ev=v) for k, v in by.items()]


def identify(row, x, kind, use):
    import numpy as np
    if kind == "flow":
        k = int(round(float(row[0])))
        ok = 1 <= k <= len(x) and np.array_equal(row, x[k - 1])
        return k if ok else -1
    # the three coordinates name the same example: 10 k, whitened k, k/64, and the time again
    k = int(round(float(row[0]) / 10))
    n = len(x)
    w = (k - x[:, 0].mean()) / np.std(x[:, 0], ddof=1)
    ok = 1 <= k <= n and abs(row[1] - w) < 1e-3 and abs(row[2] * 64 - k) < 1e-3 and row[3] == row[2]
    return k if ok else -1


def strategy(c, model, optim, state, x, ep, b, key, TrainModel, Buffer, Optimizer):
    import jax, jax.numpy as jnp, numpy as np
    import equinox as eqx
    opt = Optimizer(model)
    opt.optim, opt.optim_state = optim, state
    buf = Buffer("samples", (1, len(x), 3), 1)
    buf.update_buffer(jnp.asarray(x)[None], 0)
    other = Buffer("other", (2, 2), 0)
    loss = Buffer("loss", (3 * ep + 2,), 0)
    first = [-5.0, -6.0][:1 + ep % 2]
    loss.update_buffer(jnp.asarray(first), 0)
    loss.cursor = len(first)
    res = {"model": model, "samples": buf, "opt": opt, "loss": loss, "other": other}
    s = TrainModel("model", "samples", "opt", "loss", n_epochs=ep, batch_size=b, n_max_examples=len(x), verbose=False)
    two = []
    v = c["v0"]
    S = max(1, len(x) // b)
    want = list(first)
    pos = jnp.zeros((1, 3))
    names = set(res)
    for _ in range(2):
        key, res, pos2 = s(key, res, pos, {})
        w = [c["table"][v + (e + 1) * S - 1] for e in range(ep)] if v + ep * S <= len(c["table"]) else None
        if w is None:
            break
        want += w
        good = [(l, e) for e, l in enumerate(w) if l < 2_000_000_000]
        v = v + (min(good)[1] + 1) * S if good else v
    want = [q(value(z)) for z in want]
    h = np.asarray(res["loss"].data)
    n = len(want)
    rest = "same" if np.all(np.isneginf(h[n:])) and bits(other.data) == bits(Buffer("o", (2, 2), 0).data) and set(res) == names \
        and bits(buf.data[0]) == bits(jnp.asarray(x)) and np.array_equal(pos2, pos) else "different"
    m = res["model"]
    unit = c.get("unit", 1)

    def event(e):
        return dict(op="strategy", ver=q(m.net.theta), opt=q(res["opt"].optim_state["n"]), wantver=v, wantopt=v, history=qa(np.concatenate([h[:len(first)], h[len(first):n] / unit])), want=want,
                    tol=0, cursor=q(res["loss"].cursor), wantcursor=n, other=rest)
    return (key, m, res["opt"].optim_state, h[:ep]), dict(used=x, event=event)


def canary(t):
    import copy
    e = next((e for e in t["ev"] if e["op"] == "train" and e["ep"] > 1), None)
    if e is None:
        return None
    k = t["ev"].index(e)
    a, b = copy.deepcopy(t), copy.deepcopy(t)
    a["ev"][k]["ver"] += 1
    b["ev"][k]["batches"][0]["rows"][0] = b["ev"][k]["batches"][0]["rows"][-1] if len(b["ev"][k]["batches"][0]["rows"]) > 1 else 99
    return [a, b]
