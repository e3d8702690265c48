"""P17: training changes trainable parameters only, sets the whitening to the statistics of the training
data, and follows the clipped negative gradient of the mean negative log-density."""
import core
from core import qa, q, bits


def run(ctx):
    for v in ("descend", "shared"):
        ctx.model_check("AdamMC", f"AdamMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("AdamMC", "AdamMC_ok.cfg" if ctx.quick else "AdamMC_thorough.cfg")
    with core.silence():
        traces = models(ctx) + whitening(ctx) + steps(ctx)
    ctx.validate("TrainingTrace", traces, canary)


def fixed_parts(m):
    """What training must not touch: through the public accessors, and every leaf that is no trainable parameter
    (the data statistics apart, which training does set)."""
    import jax, numpy as np
    import equinox as eqx
    import realset
    from flowMC.resource.model.common import Gaussian
    out = {}
    b = getattr(m, "base_dist", None)
    keep = {n for n in realset.fixed(m) if not (n.startswith(".base_dist") and getattr(b, "learnable", False))}
    for path, leaf in jax.tree_util.tree_flatten_with_path(m)[0]:
        name = jax.tree_util.keystr(path)
        if name in keep:
            if not callable(leaf) and not (len(path) == 1 and eqx.is_array(leaf)):
                out[name] = bits(np.asarray(leaf))
        elif isinstance(leaf, (bool, int, float)) and not eqx.is_array(leaf):
            out[name] = repr(leaf)
    if isinstance(b, Gaussian) and not b.learnable:
        out["base mean"], out["base cov"] = bits(b.mean), bits(b.cov)
    if hasattr(m, "affine_coupling"):
        out["masks"] = bits(m.affine_coupling.mask)
    return out


def free_parts(m):
    import jax
    import equinox as eqx
    import realset
    keep = realset.fixed(m)
    out = {}
    for path, leaf in jax.tree_util.tree_flatten_with_path(m)[0]:
        name = jax.tree_util.keystr(path)
        if eqx.is_inexact_array(leaf) and name not in keep:
            out[name] = bits(leaf)
    b = getattr(m, "base_dist", None)
    if getattr(b, "learnable", False):
        out["base mean"] = bits(b.mean)
    return out


def models(ctx):
    import jax, jax.numpy as jnp, numpy as np
    import equinox as eqx
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    from flowMC.resource.model.common import MLP, Gaussian, Composable
    from flowMC.resource.optimizer import Optimizer
    K = jax.random.PRNGKey(1700 + ctx.seed)
    rng = np.random.default_rng(ctx.seed)

    def dataset(n, nd, shift):
        a = rng.normal(size=(n, nd)) @ (np.eye(nd) + 0.4 * rng.normal(size=(nd, nd)))
        return jnp.asarray(a * (1 + np.arange(nd)) + shift, jnp.float32)

    makers = dict(
        realnvp=lambda nd: RealNVP(nd, 3, 6, K),
        rqspline=lambda nd: MaskedCouplingRQSpline(nd, 2, [5], 3, K, spline_range=(-6.0, 6.0)),
        rqspline_base=lambda nd: MaskedCouplingRQSpline(nd, 1, [4], 2, K, base_dist=Gaussian(0.5 * jnp.ones(nd), 1.7 * jnp.eye(nd))),
        realnvp_learnable=lambda nd: RealNVP(nd, 2, 4, K, base_dist=Gaussian(0.5 * jnp.ones(nd), 1.7 * jnp.eye(nd), learnable=True)),
        realnvp_partial=lambda nd: RealNVP(nd, 2, 4, K, base_dist=Composable(
            [Gaussian(jnp.ones(1), jnp.eye(1)), Gaussian(jnp.zeros(nd - 1), 2.0 * jnp.eye(nd - 1))], {"a": (0, 1), "b": (1, nd)})),
        matching=lambda nd: FlowMatchingModel(Solver(MLP([nd + 1, 8, nd], K, scale=1.0, activation=jax.nn.tanh)), Path(CondOTScheduler())))
    todo = ["realnvp", "rqspline_base", "realnvp_learnable", "matching"] + ([] if ctx.quick else ["rqspline", "realnvp_partial"])
    traces = []
    for name in todo:
        for nd in ((3,) if ctx.quick else (2, 3, 5)):
            m0 = makers[name](nd)
            opt = Optimizer(m0, learning_rate=0.03)
            ev = []
            n_ep = 12 if ctx.quick else 150
            m, state = m0, opt.optim_state
            for r, (shift, n, b) in enumerate(((5.0, 40, 10), (-2.0, 30, 10))):
                x = dataset(n, nd, shift)
                k = jax.random.fold_in(K, r)
                data = (jax.random.normal(k, (n, nd)), x, jax.random.uniform(k, (n, 1))) if name == "matching" else x
                before = bits(*jax.tree.leaves(data))
                free0, fixed0 = free_parts(m), fixed_parts(m)
                orig = bits(*[l for l in jax.tree.leaves(m) if eqx.is_array(l)])
                got = ctx.attempt(f"train-{name}", m.train, k, data, opt.optim, state, n_ep, b, verbose=False)
                if got is None:
                    break
                ev.append(dict(op="kept", what="the model trained from", before=orig, after=bits(*[l for l in jax.tree.leaves(m) if eqx.is_array(l)])))
                ev.append(dict(op="kept", what="data", before=before, after=bits(*jax.tree.leaves(data))))
                _, m, state, losses = got
                fixed1, free1 = fixed_parts(m), free_parts(m)
                for f in fixed0:
                    ev.append(dict(op="kept", what=f, before=fixed0[f], after=fixed1.get(f, "gone")))
                for f in free0:
                    ev.append(dict(op="moved", what=f, before=free0[f], after=free1.get(f, "gone")))
                xs = np.asarray(x, np.float64)
                U = 20000
                ev.append(dict(op="stats", what="mean", got=qa(m.data_mean, U), want=qa(xs.mean(0), U), tol=1))
                ev.append(dict(op="stats", what="covariance", got=qa(np.asarray(m.data_cov).ravel(), 2000), want=qa(np.cov(xs.T).ravel(), 2000), tol=1))
            # one full batch, a small learning rate: the loss falls from each epoch to the next
            x = dataset(32, nd, 1.0)
            data = (jax.random.normal(K, (32, nd)), x, jax.random.uniform(K, (32, 1))) if name == "matching" else x
            o2 = Optimizer(m0, learning_rate=2e-3)
            got = ctx.attempt(f"train-{name}", m0.train, K, data, o2.optim, o2.optim_state, 6, 32, verbose=False)
            if got is not None:
                l = np.asarray(got[3], np.float64)
                for i in range(5):
                    ev.append(dict(op="better", what="epoch", before=q(-l[i], 1 << 18), after=q(-l[i + 1], 1 << 18)))
            traces.append(dict(id=f"train-{name}", ev=ev))
    return traces


def whitening(ctx):
    """The statistics kept by real models, for examples on a grid of units of very different sizes."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    from flowMC.resource.model.common import MLP
    from flowMC.resource.optimizer import Optimizer
    K = jax.random.PRNGKey(17 + ctx.seed)
    rng = np.random.default_rng(170 + ctx.seed)
    make = dict(realnvp=lambda nd: RealNVP(nd, 2, 3, K), rqspline=lambda nd: MaskedCouplingRQSpline(nd, 2, [3], 2, K),
                matching=lambda nd: FlowMatchingModel(Solver(MLP([nd + 1, 3, nd], K, activation=jax.nn.tanh)), Path(CondOTScheduler())))
    todo = [("realnvp", 2, 7), ("matching", 2, 7), ("rqspline", 1, 5)] + ([] if ctx.quick else [("realnvp", 1, 4), ("rqspline", 3, 9), ("matching", 1, 6), ("matching", 3, 12), ("realnvp", 4, 12)])
    traces = []
    for name, nd, n in todo:
        m0 = make[name](nd)
        opt = Optimizer(m0, learning_rate=1e-3)
        ev = []
        m = m0
        for unit in (2.0 ** -12, 1.0, 2.0 ** 9):
            rows = rng.integers(-9, 10, size=(n, nd))
            rows[0] += 1 + np.arange(nd)
            x = jnp.asarray(rows * unit, jnp.float32)
            data = (jax.random.normal(K, (n, nd)), x, jax.random.uniform(K, (n, 1))) if name == "matching" else x
            # of a single epoch, or of several passes in batches
            r = ctx.attempt(f"whitening-{name}", m.train, K, data, opt.optim, opt.optim_state, 1 if unit == 1.0 else 2,
                            n if unit <= 1.0 else max(1, n // 3), verbose=False)
            if r is None:
                break
            m = r[1]        # the next training starts from this one: only the latest examples count
            U = 5000
            ev.append(dict(op="whiten", rows=rows.tolist(), unit=U, mean=qa(np.asarray(m.data_mean, float) / unit, U),
                           cov=qa(np.asarray(m.data_cov, float) / unit ** 2, U)))
        if ev:
            traces.append(dict(id=f"whitening-{name}{nd}", ev=ev))
    return traces


def steps(ctx):
    """Stub densities with known gradients; the optimizer resource; successive train_steps."""
    import jax, jax.numpy as jnp, numpy as np
    import equinox as eqx
    import realset
    from flowMC.resource.model.nf_model.base import NFModel
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel
    from flowMC.resource.optimizer import Optimizer
    nd = 2

    class Linear(NFModel):
        w: jax.Array

        def __init__(self):
            realset.nf_fields(self, nd)
            self.w = jnp.zeros(nd)

        def log_prob(self, x):
            return jnp.sum(self.w * x)

        def sample(self, rng_key, n_samples):
            return jnp.zeros((n_samples, nd))

        def forward(self, x, key=None):
            return x, 0.0

        def inverse(self, x):
            return x, 0.0

        def print_parameters(self):
            pass

    class Const(eqx.Module):
        w: jax.Array
        n_input: int = nd + 1
        n_output: int = nd

        def __call__(self, x):
            return self.w

    class Holder(eqx.Module):
        model: Const
    rng = np.random.default_rng(17 + ctx.seed)
    traces = []
    for i in range(6 if ctx.quick else 40):
        b1 = (0.9, 0.5, 0.9)[i % 3]
        lr = (1e-3, 1e-2, 1e-4)[i % 3]
        nsteps = 5
        # batches whose mean is long, then short, then long: only clipping makes them comparable
        scale = [1.5, 0.3, 0.2, 1.2, 0.6] if i % 2 == 0 else [0.2, 1.7, 0.5, 0.3, 1.0]
        batches = []
        for k in range(nsteps):
            n = (4, 1, 3)[(i + k) % 3]
            t = rng.uniform(0.35, 1.2)
            v = np.array([np.cos(t), np.sin(t)]) * rng.choice([-1, 1], 2) * scale[k]
            e = rng.normal(size=(n, nd))
            batches.append(np.asarray(v + e - e.mean(0), np.float32))
        for kind in ("flow", "matching"):
            m = Linear() if kind == "flow" else FlowMatchingModel(Holder(Const(jnp.zeros(nd))), None, data_mean=jnp.zeros(nd), data_cov=jnp.eye(nd))
            opt = Optimizer(m, learning_rate=lr, momentum=b1)
            state = opt.optim_state
            g, d = [], []
            failed = False
            for x in batches:
                w0 = np.asarray(m.w if kind == "flow" else m.solver.model.w, np.float64)
                if kind == "flow":
                    g.append(qa(-x.mean(0), 1024))
                    r = ctx.attempt(f"steps-{kind}", lambda: m.train_step(jnp.asarray(x), opt.optim, state))
                else:
                    g.append(qa(2 / nd * (w0 - x.mean(0)), 1024))
                    r = ctx.attempt(f"steps-{kind}", lambda: m.train_step(jnp.zeros_like(x), jnp.zeros((len(x), 1)), jnp.asarray(x), opt.optim, state))
                if r is None:
                    failed = True
                    break
                _, m, state = r
                w1 = np.asarray(m.w if kind == "flow" else m.solver.model.w, np.float64)
                d.append(qa((w1 - w0) / lr, 10000))
            if not failed:
                traces.append(dict(id=f"steps-{kind}", ev=[dict(op="follow", what=kind, g=g, d=d, clip=True, b1=int(round(b1 * 1024)), b2=1023, tol=300)]))
    return traces


def canary(t):
    import copy
    e = t["ev"][0]
    a = copy.deepcopy(t)
    if e["op"] == "follow":
        a["ev"][0]["d"][2] = [v + 900 for v in e["d"][2]]
        return [a]
    if e["op"] == "kept":
        a["ev"][0]["after"] = "x"
        return [a]
    return None
