"""P07: randomness is never reused, and runs are reproducible: every key split or drawn from in real runs of
every component, recorded; and every component run again with the same key and with another one."""
import core
from core import bits


def run(ctx):
    for v in ("shared", "stale", "both", "same", "returnold", "returnused"):
        ctx.model_check("KeysMC", f"KeysMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("KeysMC", "KeysMC_ok.cfg" if ctx.quick else "KeysMC_thorough.cfg")
    reps = range(1) if ctx.quick else range(6)
    jobs = [(f, r) for r in reps for f in ("local", "groups", "tempering", "training", "matching", "sampling", "adam", "bundle", "bundle_pt")]
    traces = ctx.parallel("p07", jobs)
    ctx.validate("KeysTrace", traces, canary)
    ctx.assumptions.append("every random value is drawn with the functions of jax.random")


def setup(ctx, rep):
    import keys
    keys.install()
    import jax, numpy as np
    return keys, jax.random.PRNGKey(700 + 1000 * ctx.seed + rep), np.random.default_rng(70 + rep + ctx.seed)


def flat(tree):
    import jax, numpy as np
    return bits(*[np.asarray(v) for v in jax.tree_util.tree_leaves(tree) if hasattr(v, "dtype")])


class Case:
    """A component as a function make() -> (call, inputs): call(key) -> (key or None, result)."""
    def __init__(self, ctx, keys, name):
        self.ctx, self.keys, self.name, self.ev = ctx, keys, name, []

    def chain(self, key, call, least, inputs, times=2, what=None):
        """Successive calls, each with the key the last one handed on; returns the results' bits."""
        what = what or self.name
        out = []
        k = key
        for t in range(times):
            before = flat([k, inputs])
            self.keys.collect()
            r = self.ctx.attempt(self.name, call, k)
            rec = self.keys.collect()
            if r is None:
                return None
            nk, res = r
            self.ev.append(dict(op="call", what=what, key=self.keys.name(self.keys.data(k)), out="none" if nk is None else self.keys.name(self.keys.data(nk)), least=least, **rec))
            self.ev.append(dict(op="same", what="inputs-changed:" + what, got=flat([k, inputs]), want=before))
            out.append(flat([res, nk]))
            if nk is None:
                break
            k = nk
        return out

    def repeat(self, key, mk, what=None):
        """The same from scratch, twice; and with another key."""
        import jax
        what = what or self.name
        r = []
        for kk in (key, key, jax.random.fold_in(key, 1)):
            call = self.ctx.attempt(self.name, mk)
            v = None if call is None else self.ctx.attempt(self.name, call, kk)
            if v is None:
                return
            r.append((flat(v[1]), flat(v)))
        self.keys.collect()
        self.ev.append(dict(op="same", what="not-reproducible:" + what, got=r[0][1], want=r[1][1]))
        self.ev.append(dict(op="same", what="same-result-for-another-key:" + what, got=r[0][0] == r[2][0], want=False))

    def trace(self):
        return dict(id=self.name, ev=self.ev)


def stepping(kern, group, nc, nd, ns, batch, data, x):
    """A stepping strategy on fresh buffers: key -> (key, recorded values)."""
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    import realset
    res = {"k": kern, "logpdf": LogPDF(realset.target, n_dims=nd), "p": Buffer("p", (nc, 2 * ns, nd), 1), "l": Buffer("l", (nc, 2 * ns), 1),
           "a": Buffer("a", (nc, 2 * ns), 1), "state": State(dict(p="p", l="l", a="a"), name="state")}
    st = (TakeGroupSteps if group else TakeSerialSteps)("logpdf", "k", "state", ["p", "l", "a"], ns, chain_batch_size=batch)

    def call(key):
        k2, _, out = st(key, res, x, data)
        return k2, [res["p"].data, res["l"].data, out]
    return call


def local(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax.numpy as jnp
    import realset
    nc, nd, ns = 3, 2, 3 + rep
    long = 20
    from flowMC.resource.kernel.HMC import HMC
    from flowMC.resource.kernel.MALA import MALA
    kern = realset.real_kernels(nd, 0, ("GRW", "MALA", "HMC"))
    kern.update({"HMC-one": HMC(condition_matrix=2.0, step_size=0.3, n_leapfrog=1), "MALA-fine": MALA(step_size=1e-3)})
    data = realset.data(nd)
    x = jnp.asarray(rng.normal(size=(nc, nd)), jnp.float32)
    out = []
    for n, k in kern.items():
        c = Case(ctx, keys, "steps-" + n)
        for i, (steps, batch) in enumerate(((ns, 0), (ns, 2), (long, 0))):
            mk = lambda: stepping(k, False, nc, nd, steps, batch, data, x)
            call = ctx.attempt(c.name, mk)
            if call:
                # other keys for the other settings: the record spans the scenario
                c.chain(key + 17 * i, call, nc * steps * (nd + 1), [x, data], times=1 if steps == long else 2)
        c.repeat(key, lambda: stepping(k, False, nc, nd, ns, 0, data, x))
        out.append(c.trace())
    return out


def groups(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax.numpy as jnp
    import realset
    nc, nd = 3, 2
    data = realset.data(nd)
    x = jnp.asarray(rng.normal(size=(nc, nd)), jnp.float32)
    k = realset.real_kernels(nd, 0, ("NF",))["NF"]
    c = Case(ctx, keys, "steps-NF")
    for n, (ns, batch) in enumerate(((2, 0), (5, 2), (7, 0), (20, 3), (24, 4))):
        call = ctx.attempt(c.name, lambda: stepping(k, True, nc, nd, ns, batch, data, x))
        if call:
            c.chain(key + 17 * n, call, nc * ns * (nd + 1), [x, data])
    c.repeat(key, lambda: stepping(k, True, nc, nd, 5, 2, data, x))
    return [c.trace()]


def tempering(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax.numpy as jnp, numpy as np
    import realset
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.resource.logPDF import TemperedPDF
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    nc, nd, nt, ns = 3, 2, 3, 3 + 8 * rep
    data = realset.data(nd)
    x = jnp.asarray(rng.normal(size=(nc, nd)), jnp.float32)
    xt = jnp.asarray(rng.normal(size=(nc, nt - 1, nd)), jnp.float32)
    out = []
    for kn, kern in realset.real_kernels(nd, 0, ("GRW", "MALA")).items():
        for training in (True, False):
            c = Case(ctx, keys, f"tempering-{kn}-{'training' if training else 'production'}")

            def mk():
                res = {"k": kern, "tp": TemperedPDF(realset.target, lambda p, d: -0.1 * jnp.sum(p ** 2), n_dims=nd), "tpos": Buffer("tpos", (nc, nt - 1, nd), 2),
                       "temps": Buffer("temps", (nt,), 0), "st": State({"training": training}, name="st")}
                res["tpos"].update_buffer(xt, 0)
                res["temps"].update_buffer(jnp.asarray([1.0, 2.0, 4.0]), 0)
                st = ParallelTempering(n_steps=ns, tempered_logpdf_name="tp", kernel_name="k", tempered_buffer_names=["tpos", "temps"], state_name="st")

                def call(k):
                    k2, _, o = st(k, res, x, data)
                    return k2, [o, res["tpos"].data, res["temps"].data]
                return call
            call = ctx.attempt(c.name, mk)
            if call:
                c.chain(key, call, nc * nt * ns * (nd + 1) + nc * (nt - 1), [x, data])
            if training:
                c.repeat(key, mk)
            out.append(c.trace())
    return out


def nf(kind, key, nd=2):
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    return RealNVP(nd, 2, 4, key) if kind == "realnvp" else MaskedCouplingRQSpline(nd, 2, [4], 3, key)


def training(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax, jax.numpy as jnp, numpy as np, equinox as eqx, optax
    from flowMC.strategy.train_model import TrainModel
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.optimizer import Optimizer
    nc, nd, n, epochs, nmax, bs = 3, 2, 8, 3, 12, 5
    samples = jnp.asarray(rng.normal(size=(nc, n, nd)), jnp.float32)
    out = []
    for kind in ("realnvp", "rqs"):
        c = Case(ctx, keys, "train-" + kind)
        m0 = ctx.attempt(c.name, nf, kind, jax.random.PRNGKey(3))
        if m0 is None:
            continue

        def mk():
            buf = Buffer("d", (nc, n, nd), 1)
            buf.update_buffer(samples, 0)
            res = {"m": m0, "d": buf, "o": Optimizer(m0, learning_rate=0.01), "loss": Buffer("loss", (2 * epochs,), 0)}
            st = TrainModel("m", "d", "o", loss_buffer_name="loss", n_epochs=epochs, batch_size=bs, n_max_examples=nmax, history_window=6)

            def call(k):
                k2, _, o = st(k, res, samples[:, 0], {})
                return k2, [eqx.filter(res["m"], eqx.is_array), res["loss"].data]
            return call
        call = ctx.attempt(c.name, mk)
        if call:
            c.chain(key, call, nmax + epochs * nmax, [samples])
        c.repeat(key, mk)
        data = samples.reshape(-1, nd)
        opt = optax.adam(0.01)

        def direct(k):
            k2, m, _, loss = m0.train(k, data, opt, opt.init(eqx.filter(m0, eqx.is_array)), 20, bs, verbose=False)
            return k2, [eqx.filter(m, eqx.is_array), loss]
        c.chain(key + 5, direct, 20 * len(data), [data, eqx.filter(m0, eqx.is_array)], what="train-itself")
        out.append(c.trace())
    return out


def matching(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax, jax.numpy as jnp, equinox as eqx, optax
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    from flowMC.resource.model.common import MLP
    c = Case(ctx, keys, "matching")
    nd, n, epochs, bs = 2, 12, 3, 5
    m0 = FlowMatchingModel(Solver(MLP([nd + 1, 4, nd], jax.random.PRNGKey(3), scale=1.0, activation=jax.nn.tanh)), Path(CondOTScheduler()))
    data = tuple(jnp.asarray(v, jnp.float32) for v in (rng.normal(size=(n, nd)), rng.normal(size=(n, nd)), rng.uniform(size=(n, 1))))
    opt = optax.adam(0.01)

    def direct(k):
        k2, m, _, loss = m0.train(k, data, opt, opt.init(eqx.filter(m0, eqx.is_array)), 20, bs, verbose=False)
        return k2, [eqx.filter(m, eqx.is_array), loss]
    c.chain(key, direct, 20 * n, [data, eqx.filter(m0, eqx.is_array)], what="train-itself")
    c.repeat(key, lambda: direct, what="train-itself")
    c.chain(key + 9, lambda k: (None, m0.sample(k, 5)), 5 * nd, [eqx.filter(m0, eqx.is_array)], what="sample")
    c.repeat(key, lambda: (lambda k: (None, m0.sample(k, 5))), what="sample")
    return [c.trace()]


def sampling(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax, jax.numpy as jnp, equinox as eqx
    from flowMC.resource.model.common import Gaussian, Composable
    c = Case(ctx, keys, "sample")
    for i, kind in enumerate(("realnvp", "rqs")):
        m = ctx.attempt(c.name, nf, kind, jax.random.PRNGKey(3), 3)
        if m is not None:
            c.chain(key + 3 * i, lambda k: (None, m.sample(k, 4)), 12, [eqx.filter(m, eqx.is_array)], what=kind)
            c.repeat(key, lambda: (lambda k: (None, m.sample(k, 4))), what=kind)
    g = [Gaussian(jnp.zeros(2), jnp.eye(2)), Gaussian(jnp.ones(2), jnp.eye(2))]
    comp = Composable(g, {"a": (0, 2), "b": (2, 4)})
    c.chain(key + 20, lambda k: (None, comp.sample(k, 4)), 16, [], what="composed")
    c.repeat(key, lambda: (lambda k: (None, comp.sample(k, 4))), what="composed")
    s = ctx.attempt(c.name, comp.sample, key, 4)
    if isinstance(s, dict):
        c.ev.append(dict(op="same", what="parts-share-draws", got=bits(s["a"]) == bits(s["b"] - 1), want=False))
    return [c.trace()]


def adam(ctx, rep):
    keys, key, rng = setup(ctx, rep)
    import jax.numpy as jnp
    from flowMC.strategy.optimization import AdamOptimization
    import realset
    nc, nd, ns = 3, 2, 40
    data = realset.data(nd)
    x = jnp.asarray(rng.normal(size=(nc, nd)), jnp.float32)
    c = Case(ctx, keys, "adam")
    s = ctx.attempt(c.name, lambda: AdamOptimization(realset.target, n_steps=ns, learning_rate=0.01, noise_level=20.0, bounds=jnp.asarray([[-5.0, 5.0]])))

    def call(k):
        k2, _, o = s(k, {}, x, data)
        return k2, [o]
    c.chain(key, call, nc * ns, [x, data])
    c.repeat(key, lambda: call)

    def opt(k):
        r = s.optimize(k, lambda p, d: -realset.target(p, d), x, data)
        return r[0], list(r[1:])
    c.chain(key + 1, opt, nc * ns, [x, data], what="optimize")
    for i, (noise, lr) in enumerate(((1e-4, 0.5), (1.0, 1e-3))):
        s = ctx.attempt(c.name, lambda: AdamOptimization(realset.target, n_steps=9, learning_rate=lr, noise_level=noise))
        c.chain(key + 30 + i, call, nc * 9, [x, data], what="settings")
    return [c.trace()]


def bundled(ctx, rep, pt):
    keys, key, rng = setup(ctx, rep)
    import jax, jax.numpy as jnp, numpy as np
    import realset
    from flowMC.Sampler import Sampler
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    nc, nd, nl, ng, loops, epochs, nmax = 3, 2, 3, 2, 2, 2, 10
    data = realset.data(nd)
    x = jnp.asarray(rng.normal(size=(nc, nd)), jnp.float32)
    c = Case(ctx, keys, "bundle-pt" if pt else "bundle")
    kw = dict(n_temperatures=3, n_tempered_steps=2) if pt else {}

    def mk():
        b = (RQSpline_MALA_PT_Bundle if pt else RQSpline_MALA_Bundle)(jax.random.PRNGKey(8), nc, nd, realset.target, nl, ng, loops, 1, epochs, mala_step_size=0.5, batch_size=6, n_max_examples=nmax,
                                                                      rq_spline_hidden_units=[4], rq_spline_n_bins=3, rq_spline_n_layers=2, **kw)
        # the key each bundle ends with is seen by a strategy added at its end
        last = {}

        class Tail:
            def __call__(self, rng_key, resources, initial_position, data):
                last["key"] = rng_key
                return rng_key, resources, initial_position
        strategies, order = b.strategies, list(b.strategy_order) + ["tail"]
        strategies = dict(strategies, tail=Tail())

        def call(k):
            s = Sampler(nd, nc, k, resources=b.resources, strategies=strategies, strategy_order=order)
            s.sample(x, data)
            return last["key"], [s.resources[n].data for n in ("positions_training", "positions_production", "log_prob_production", "loss_buffer")]
        return call
    call = ctx.attempt(c.name, mk)
    steps = (loops + 1) * (nl + ng)
    temper = (loops + 1) * (nc * 3 * 2 * (nd + 1) + nc * 2) if pt else 0
    if call:
        c.chain(key, call, nc * steps * (nd + 1) + loops * nmax * (1 + epochs) + temper, [x, data], times=1)
    c.repeat(key, mk)
    return [c.trace()]


def bundle(ctx, rep):
    return bundled(ctx, rep, False)


def bundle_pt(ctx, rep):
    return bundled(ctx, rep, True)


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        if e["op"] == "call" and len(e["draws"]) > 1:
            a, b = copy.deepcopy(t), copy.deepcopy(t)
            a["ev"][k]["draws"][0]["k"] = next(d["k"] for d in e["draws"] if d["k"] != e["draws"][0]["k"])
            b["ev"][k]["draws"] = b["ev"][k]["draws"][1:]
            return [a, b]
    return None
