"""P25: a ready-made sampler does what each of its options says.  Complete runs of the real bundles with
stand-in parts, and their real parts one by one, against Bundle.tla."""
import core
from core import bits, q, qa
S = 4096


def run(ctx):
    for v in ("noinit", "coldprod", "locals"):
        ctx.model_check("BundleMC", f"BundleMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("BundleMC", "BundleMC_ok.cfg" if ctx.quick else "BundleMC_thorough.cfg")
    jobs = [("runs", i) for i in range(len(CONFIGS))] + [("parts", k) for k in [-1, -2, *range(3 if ctx.quick else 8)]]
    gen = ctx.generate("BundleGen", "BundleGen.cfg", num=4 if ctx.quick else 60, depth=3)
    n = 2 if ctx.quick else 10
    jobs += [("generated", gen[i:i + n]) for i in range(0, len(gen), n)]
    import bundle
    traces = ctx.parallel("p25", jobs)
    ctx.validate("BundleTrace", traces, canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("fill-", "phase-"))]
    ctx.assumptions += ["the size of a group of chains or of flow draws is observed when the library compiles a step",
                        "whole runs use a stand-in local kernel and flow; step size, learning rate, batch size and the "
                        "shape of the flow are observed on the real ones"]


base = dict(nl=4, ng=3, lt=1, gt=1, tr=2, pr=2, ep=2, pt=0, nts=-1, nc=3, batch=0, nmax=20, hist=100, seed=0, nfb=100)
CONFIGS = [dict(base, pt=3, nts=2, hist=3, nmax=250, batch=2, nfb=2, nc=5),
           dict(base, pt=2, nts=-1, hist=9, nmax=700, ng=5, nfb=3, lt=2, tr=3, pr=1, seed=1),
           dict(base, pt=4, nts=7, hist=1, nmax=70, nl=2, nc=4, batch=3, tr=3, pr=2, ep=1, seed=2),
           dict(base, pt=0, nc=7, batch=3, nfb=2, ng=6, seed=3),
           dict(base, pt=0, nc=3, batch=2, ng=5, lt=2, gt=2, tr=3, ep=2, nmax=400, hist=5, nfb=3, seed=4),
           dict(base, pt=2, nts=1, nc=2, ep=3, nmax=5, bs=11, seed=5), dict(base, pt=0, nc=2, ep=4, nmax=6, bs=300, seed=6),
           # a window of more than fifty columns, in use
           dict(base, nl=20, ng=6, tr=3, pr=1, pt=2, nts=1, nc=1, hist=60, nmax=1500, ep=1, seed=7),
           # few chains, many global steps, one draw at a time
           dict(base, nl=1, ng=9, tr=1, pr=1, nc=1, nfb=1, ep=1, seed=8)]
# values of the options out of the ordinary
WIDE = [dict(step=3.0, lr=0.5, hidden=[3], bins=2, layers=1, nd=2, ep=1, nmax=1500, batch=400, nt=4, tmax=1.5),
        dict(step=0.004, lr=2e-5, hidden=[40], bins=20, layers=6, nd=4, ep=5, nmax=9, batch=1, nt=9, tmax=2000.0)]


def one(ctx, name, c):
    import bundle
    if c["nl"] // c["lt"] + c["ng"] // c["gt"] == 0 or c["tr"] + c["pr"] == 0:
        return []
    ev = ctx.attempt(name, bundle.run_bundle, c, c["seed"])
    return [dict(id=name, cfg=c, ev=ev)] if ev else []


def runs(ctx, i):
    return one(ctx, f"config{i}", CONFIGS[i])


def generated(ctx, cs):
    return [t for k, c in enumerate(cs) for t in one(ctx, f"generated-{c['pt']}-{c['nl']}-{c['ng']}-{c['tr']}-{c['pr']}-{k}", c)]


def flat(x, data):
    import jax.numpy as jnp
    return 0.0 * jnp.sum(x)


def parts(ctx, k):
    """The real parts of both bundles for one choice of options."""
    import jax, jax.numpy as jnp, numpy as np, equinox as eqx
    import realset
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    rng = np.random.default_rng(100 + abs(k))
    ev = []
    for pt in (False, True):
        o = dict(step=[0.05, 0.3, 1.7][k % 3], lr=[1e-3, 3e-2, 5e-3][(k + pt) % 3], hidden=[[5], [6, 4], [4, 4, 3]][k % 3],
                 bins=[3, 5, 4][(k + 2 * pt) % 3], layers=[2, 1, 3][(k + pt) % 3], nd=[3, 2, 5][k % 3], ep=[1, 2, 3][k % 3],
                 nmax=[40, 33, 24][k % 3], batch=[7, 33, 50][(k + pt) % 3], nt=[3, 6, 2][k % 3], tmax=[4.0, 25.5, 2.25][k % 3])
        if k < 0:
            o = WIDE[-k - 1]

        def build(key=1, **over):
            a = dict(o, **over)
            kw = dict(mala_step_size=a["step"], learning_rate=a["lr"], rq_spline_hidden_units=list(a["hidden"]), rq_spline_n_bins=a["bins"],
                      rq_spline_n_layers=a["layers"], batch_size=a["batch"], n_max_examples=a["nmax"])
            if pt:
                kw.update(n_temperatures=a["nt"], max_temperature=a["tmax"], n_tempered_steps=2)
            cls = RQSpline_MALA_PT_Bundle if pt else RQSpline_MALA_Bundle
            return cls(jax.random.PRNGKey(key), 64, a["nd"], flat, 6, 2, 2, 1, a["ep"], **kw)
        tag = "pt" if pt else "plain"
        real = lambda what, **e: ev.append(dict(op="real", what=what, of=tag, **e))
        b = ctx.attempt("parts", build)
        if b is None:
            continue
        res = b.resources

        # step size: on a flat target every step is the noise
        def moves():
            p0 = jnp.zeros((64, o["nd"]))
            b.strategies["local_stepper"](jax.random.PRNGKey(3), res, p0, {})
            x = np.asarray(res["positions_training"].data)[:, :6]
            x = np.concatenate([np.zeros_like(x[:, :1]), x], 1)
            return np.sqrt(np.mean(np.diff(x, axis=1) ** 2))
        r = ctx.attempt("parts", moves)
        if r is not None:
            real("step-size", got=q(r, 100000), want=q(o["step"], 100000))
        arrays = lambda m: [np.asarray(v) for v in jax.tree_util.tree_leaves(eqx.filter(m, eqx.is_array))]
        shape = lambda m: sorted(str(v.shape) for v in arrays(m))
        want = MaskedCouplingRQSpline(o["nd"], o["layers"], list(o["hidden"]), o["bins"], jax.random.PRNGKey(0))
        real("flow-shape", got=shape(res["model"]), want=shape(want))
        real("flow-shape", got=shape(res["global_sampler"].model), want=shape(want))
        others = [build(key=1), build(key=2)]
        real("weights", got=bits(*arrays(res["model"])), again=bits(*arrays(others[0].resources["model"])), other=bits(*arrays(others[1].resources["model"])))
        if pt:
            t = np.asarray(res["temperatures"].data)
            real("ladder", got=qa(t, S), n=o["nt"], max=q(o["tmax"], S))

        # training: Adam moves a parameter by the learning rate in its first step, and counts its steps
        def train(epochs, batch, loops):
            c = build(ep=epochs, batch=batch, nmax=o["nmax"])
            rs = c.resources
            xs = jnp.asarray(rng.normal(size=(64, 6, o["nd"])).astype(np.float32) * 2 + 1)
            rs["positions_training"].update_buffer(xs, 0)
            before = arrays(rs["model"])
            key = jax.random.PRNGKey(9)
            for _ in range(loops):
                key, rs, _ = c.strategies["model_trainer"](key, rs, jnp.zeros((64, o["nd"])), {})
            after = arrays(rs["model"])
            params = [i for i, (u, v) in enumerate(zip(before, after)) if u.dtype.kind == "f"]
            st = rs["optimizer"].optim_state
            counts = [int(v) for v in jax.tree_util.tree_leaves(st) if hasattr(v, "dtype") and v.dtype.kind == "i" and v.ndim == 0]
            names = [jax.tree_util.keystr(p) for p, v in jax.tree_util.tree_flatten_with_path(eqx.filter(rs["model"], eqx.is_array))[0]]
            keep = realset.fixed(rs["model"])
            d = [float(np.max(np.abs(after[i] - before[i]))) for i in params
                 if after[i].size and names[i] not in keep]
            return max(d), max(counts)
        r = ctx.attempt("parts", train, 1, 10000, 1)
        if r is not None:
            real("learning-rate", got=q(r[0], 10 ** 7), want=q(o["lr"], 10 ** 7))

        def late():     # ... and by the learning rate in its last
            g = jnp.asarray([0.01, -0.02])
            opt = res["optimizer"].optim

            def step(c, _):
                up, st = opt.update(g, c[1], c[0])
                return (c[0] + up, st), up
            return float(jnp.max(jnp.abs(jax.lax.scan(step, (jnp.ones(2), opt.init(jnp.ones(2))), length=1500)[1][-1])))
        r = ctx.attempt("parts", late)
        if r is not None:
            real("learning-rate", got=q(r, 10 ** 7), want=q(o["lr"], 10 ** 7))
        r = ctx.attempt("parts", train, 1, o["batch"], 2)
        if r is not None:
            real("batches", got=r[1], tr=2, ep=1, nmax=o["nmax"], batch=o["batch"])
    return [dict(id=f"parts{k}", cfg=base, ev=ev)] if ev else []


def canary(t):
    import copy
    k = next((i for i, e in enumerate(t["ev"]) if e.get("op") == "strategy" and e["hotin"][0] and e["hotin"] != e["hotout"]
              and e["pin"] != e["pout"]), None)
    if k is not None:
        a, b = copy.deepcopy(t), copy.deepcopy(t)
        a["ev"][k]["hotout"][0][0][1] += 1
        b["ev"].pop(k)
        return [a, b]
    k = next((i for i, e in enumerate(t["ev"]) if e.get("what") == "batches"), None)
    if k is not None:
        t["ev"][k]["got"] += 1
        return t
    return None
