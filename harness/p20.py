"""P20: flow matching integrates its velocity field and regresses the path velocity: the real solver,
model, path and training on velocity fields with known solutions."""
import core
from core import qa, q
S = 4096


def run(ctx):
    for v in ("unwhitened", "fwdtime", "sign", "nodiv", "backbase", "swap", "deriv"):
        ctx.model_check("MatchingMC", f"MatchingMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("MatchingMC", "MatchingMC_ok.cfg" if ctx.quick else "MatchingMC_thorough.cfg")
    confs = ctx.generate("MatchingGen", "MatchingGen.cfg", num=4 if ctx.quick else 120, depth=3)
    todo = list(enumerate(FIXED + confs))
    more = list(enumerate(FIXED[:3] + FIXED[5:6] + confs))
    traces = ctx.parallel("p20", [("fields", todo[k::4]) for k in range(4)] + [("draws",), ("paths",)] + [("training", more[k::2]) for k in range(2)])
    ctx.validate("MatchingTrace", traces, canary)
    ctx.assumptions.append("velocity fields smooth enough for ten Runge-Kutta steps")


FIXED = [dict(kind="linear", nd=2, a=[10, -12], b=[8, -4], d=[24, 16], om=0, mean=[32, -16], std=[8, 40], n=4, dt=10, rows=7, batch=3, alpha="ot"),
         dict(kind="rotation", nd=2, a=[0, 0], b=[0, 0], d=[0, 0], om=20, mean=[0, 0], std=[16, 16], n=3, dt=4, rows=6, batch=6, alpha="square"),
         dict(kind="shear", nd=3, a=[0] * 3, b=[0] * 3, d=[0] * 3, om=12, mean=[8, 8, 8], std=[24, 8, 16], n=3, dt=30, rows=5, batch=9, alpha="ot"),
         dict(kind="cubic", nd=2, a=[3, 6], b=[0] * 2, d=[0] * 2, om=0, mean=[8, 8], std=[24, 8], n=5, dt=10, rows=5, batch=2, alpha="ot"),
         dict(kind="linear", nd=4, a=[-48, -56, -44, -50], b=[8, -4, 0, 12], d=[-8, 0, 4, 0], om=0, mean=[0] * 4, std=[16, 24, 8, 16], n=6, dt=10, rows=5, batch=3, alpha="ot"),
         dict(kind="linear", nd=1, a=[9], b=[-6], d=[10], om=0, mean=[24], std=[44], n=4, dt=5, rows=6, batch=4, alpha="ot"),
         # so fast that only the small step asked for follows it
         dict(kind="rotation", nd=2, a=[0, 0], b=[0, 0], d=[0, 0], om=320, mean=[16, -8], std=[24, 8], n=3, dt=1, rows=4, batch=2, alpha="ot", fast=True)]


def field(c):
    """A velocity field as the network of a solver: [x, t] -> v."""
    import equinox as eqx, jax.numpy as jnp

    class Field(eqx.Module):
        a: object
        b: object
        d: object
        om: object
        kind: str
        n_input: int
        n_output: int

        def __call__(self, xt):
            x, t = xt[:-1], xt[-1]
            if self.kind == "linear":
                return self.a * x + self.b + 2 * t * self.d
            if self.kind == "rotation":
                if self.n_output < 2:
                    return 0 * x
                return jnp.concatenate([self.om * jnp.stack([-x[1], x[0]]), 0 * x[2:]])
            if self.kind == "shear":
                return jnp.concatenate([self.om * x[1:2] ** 2, 0 * x[1:]]) if self.n_output > 1 else 0 * x
            return -self.a * x ** 3
    f = lambda v: jnp.asarray(v, jnp.float32) / 16
    a = f(c["a"])
    if c["kind"] == "cubic":
        a = jnp.abs(a)
    return Field(a, f(c["b"]), f(c["d"]), f(c["om"]), c["kind"], c["nd"] + 1, c["nd"])


def known(c):
    """The evolution over the unit of time: matrix, shift; or parameters."""
    import numpy as np
    nd = c["nd"]
    a, b, d, om = (np.asarray(c[k], float) / 16 for k in ("a", "b", "d", "om"))
    k1 = np.where(a == 0, 1, np.expm1(a) / np.where(a == 0, 1, a))                                   # integral of e^{a(1-s)}
    k2 = np.where(a == 0, 1, 2 * (np.expm1(a) - a) / np.where(a == 0, 1, a) ** 2)                     # integral of 2 s e^{a(1-s)}
    if c["kind"] == "linear":
        m, s, ld = np.diag(np.exp(a)), b * k1 + d * k2, lambda x: a.sum()
    elif c["kind"] == "rotation":
        m = np.eye(nd)
        if nd > 1:
            m[:2, :2] = [[np.cos(om), -np.sin(om)], [np.sin(om), np.cos(om)]]
        s, ld = np.zeros(nd), lambda x: 0.0
    elif c["kind"] == "shear":
        m, s, ld = np.eye(nd), np.zeros(nd), lambda x: 0.0
    else:
        m, s, ld = np.eye(nd), np.zeros(nd), lambda x: -1.5 * np.log(1 + 2 * np.abs(a) * x * x).sum()
    kind = "linear" if c["kind"] == "rotation" else c["kind"]
    return dict(kind=kind, m=qa(m, S), b=qa(s, S), om=q(om, S), a=qa(np.abs(a), S)), ld


def parts(c):
    import jax.numpy as jnp
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    mean, std = jnp.asarray(c["mean"], jnp.float32) / 16, jnp.asarray(c["std"], jnp.float32) / 16
    nd = c["nd"]
    cov = jnp.diag(std ** 2) + 0.3 * (jnp.ones((nd, nd)) - jnp.eye(nd)) * std.min() ** 2
    still = field(dict(c, kind="linear", a=[0] * nd, b=[0] * nd, d=[0] * nd))
    mk = lambda f: (Solver(f), FlowMatchingModel(Solver(f), Path(CondOTScheduler()), data_mean=mean, data_cov=cov))
    return mk(field(c)), mk(still), mean, std


def fields(ctx, confs):
    import jax, jax.numpy as jnp, numpy as np
    by = {}
    for i, c in confs:
        name = f"{c['kind']}-{'fixed' if i < len(FIXED) else 'generated'}"
        ev = by.setdefault(name, [])
        r = ctx.attempt(name, parts, c)
        if r is None:
            continue
        (sol, mod), (sol0, mod0), mean, std = r
        k, ld = known(c)
        nd, n, key = c["nd"], c["n"], jax.random.PRNGKey(200 + i + 1000 * ctx.seed)
        zero, one = [0] * nd, [S] * nd
        fine = dict(tol=24)
        dts = [c["dt"] / 100] if ctx.quick and i >= len(FIXED) else [0.1, c["dt"] / 100]
        runs = [("solver", lambda: (sol0.sample(key, n), sol.sample(key, n)), zero, one)]
        runs += [(f"solver-dt", lambda dt=dt: (sol0.sample(key, n), sol.sample(key, n, dt=dt)), zero, one) for dt in dts[1:]]
        runs += [("model", lambda: (mod0.sample(key, n, dt=0.5), mod.sample(key, n)), qa(mean, S), qa(std, S)),
                 ("model-dt", lambda: (mod0.sample(key, n), mod.sample(key, n, dt=dts[-1])), qa(mean, S), qa(std, S))]
        if ctx.quick and i >= len(FIXED):
            runs = runs[:1] + runs[-1:]
        if c.get("fast"):
            runs = [v for v in runs if v[0].endswith("-dt")]
        pts = {}
        for what, fn, mu, sd in runs:
            r = ctx.attempt(name, fn)
            if r is None:
                continue
            x0, s = (np.asarray(v, float) for v in r)
            x0 = (x0 - np.asarray(mu) / S) / (np.asarray(sd) / S)
            pts[what] = (x0, s)
            ev.append(dict(op="carry", what=what, n=n, nd=nd, x0=qa(x0, S), smp=qa(s, S), mean=mu, std=sd, **k, **fine))
        for what, f, mu, sd in (("solver", sol.log_prob, zero, one), ("solver-dt", lambda x: sol.log_prob(x, dt=dts[-1]), zero, one), ("model", mod.log_prob, qa(mean, S), qa(std, S))):
            src = [w for w in pts if w.split("-")[0] == what.split("-")[0]]
            if not src or (what == "solver-dt" and len(dts) < 2) or (c.get("fast") and what != "solver-dt"):
                continue
            x0, s = pts[src[0]]
            if x0.shape != s.shape or x0.ndim != 2:
                continue
            for j in range(min(len(s), 6 if i == 4 else 2)):
                lp = ctx.attempt(name, f, jnp.asarray(s[j], jnp.float32))
                if lp is not None:
                    ev.append(dict(op="density", what=what, lp=q(np.asarray(lp).reshape(-1)[0], S), x0=qa(x0[j], S), ld=q(ld(x0[j]), S), lnstd=qa(np.log(np.asarray(sd) / S), S), tol=70 if c["kind"] == "cubic" else 10, rel=300 if c["kind"] == "cubic" else 3000))
    return [dict(id=k, ev=v) for k, v in by.items()]


def draws(ctx):
    import jax, numpy as np
    (sol, mod), (sol0, mod0), mean, std = parts(FIXED[0])
    ev = []
    for what, f in (("solver", lambda k: sol0.sample(k, 4000)), ("model", lambda k: (mod0.sample(k, 4000) - mean) / std)):
        x = ctx.attempt("draws", f, jax.random.PRNGKey(77 + ctx.seed))
        if x is None:
            continue
        x = np.asarray(x, float)
        if x.shape != (4000, 2):
            continue
        cnt = [int(v) for d in (0, 1) for v in np.histogram(x[:, d], [-np.inf, -0.6744898, 0, 0.6744898, np.inf])[0]]
        cnt += [int((((x[:, 0] > 0) == s0) & ((x[:, 1] > 0) == s1)).sum()) for s0 in (True, False) for s1 in (True, False)]
        ev.append(dict(op="draws", what=what, n=4000, count=cnt))
        ev.append(dict(op="same", what="not-independent-draws", got=len(np.unique(x[:, 0])) > 3900, want=True))
    a, b = (ctx.attempt("draws", sol0.sample, jax.random.PRNGKey(v), 3) for v in (1, 2))
    if a is not None and b is not None:
        ev.append(dict(op="same", what="same-draws-for-other-keys", got=bool((np.asarray(a) == np.asarray(b)).any()), want=False))
    return [dict(id="draws", ev=ev)]


def schedulers():
    import jax.numpy as jnp
    from flowMC.resource.model.flowmatching.base import Scheduler, CondOTScheduler

    class Square(Scheduler):
        def __call__(self, t):
            return t ** 2, 2 * t, jnp.cos(t), -jnp.sin(t)
    return dict(ot=CondOTScheduler(), square=Square())


def paths(ctx):
    import jax.numpy as jnp, numpy as np
    from flowMC.resource.model.flowmatching.base import Path
    rng = np.random.default_rng(2001 + ctx.seed)
    ev = []
    for what, sch in schedulers().items():
        p = Path(sch)
        x0, x1, t = (jnp.asarray(v, jnp.float32) for v in (rng.normal(size=(5, 3)), 2 * rng.normal(size=(5, 3)), rng.uniform(size=(5, 1))))
        r = ctx.attempt("paths", p.sample, x0, x1, t)
        if r is None:
            continue
        tt = np.asarray(t, float)[:, 0]
        al, dal, si, dsi = (tt, tt * 0 + 1, 1 - tt, tt * 0 - 1) if what == "ot" else (tt ** 2, 2 * tt, np.cos(tt), -np.sin(tt))
        ev.append(dict(op="path", what=what, x0=qa(x0, S), x1=qa(x1, S), xt=qa(r[0], S), dx=qa(r[1], S), al=qa(al, S), dal=qa(dal, S), si=qa(si, S), dsi=qa(dsi, S), tol=6))
        if what == "ot":
            ts = jnp.asarray([[0.0], [0.25], [0.5], [0.875], [1.0]])
            r = ctx.attempt("paths", p.sample, jnp.tile(x0[:1], (5, 1)), jnp.tile(x1[:1], (5, 1)), ts)
            if r is not None:
                ev.append(dict(op="ends", x0=qa(x0[0], S), x1=qa(x1[0], S), xt=qa(r[0], S), dx=qa(r[1], S), t=qa(ts[:, 0], S), tol=4))
            # single points and a scalar time
            r = ctx.attempt("paths", p.sample, x0[0], x1[0], 0.25)
            if r is not None:
                ev.append(dict(op="path", what="scalar-time", x0=qa(x0[:1], S), x1=qa(x1[:1], S), xt=qa([r[0]], S), dx=qa([r[1]], S), al=[S // 4], dal=[S], si=[3 * S // 4], dsi=[-S], tol=6))
    return [dict(id="paths", ev=ev)]


def training(ctx, confs):
    import jax, jax.numpy as jnp, numpy as np, optax, equinox as eqx
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path
    by = {}
    sched = schedulers()

    class Recording(Path):
        """Hands out what the real path does and records what it was asked."""
        def __init__(self, s, log):
            super().__init__(s)
            self.log = log

        def sample(self, x0, x1, t):
            r = Path.sample(self, x0, x1, t)
            jax.debug.callback(lambda *a: self.log.append([np.asarray(v, float) for v in a]), x0, x1, t, r[0], r[1])
            return r
    for i, c in confs:
        name = "training"
        ev = by.setdefault(name, [])
        nd, rows, batch = c["nd"], c["rows"], c["batch"]
        rng = np.random.default_rng(2050 + i + ctx.seed)
        x0, x1 = rng.normal(size=(rows, nd)), 2 * rng.normal(size=(rows, nd)) + 1
        t = (np.arange(rows)[:, None] * 5 + 2 + rng.integers(0, 3, (rows, 1))) / 64
        data = tuple(jnp.asarray(v, jnp.float32) for v in (x0, x1, t))
        (_, mod), _, mean, std = parts(dict(c, kind="linear"))
        log = []
        m = FlowMatchingModel(mod.solver, Recording(sched[c["alpha"]], log), data_mean=mod.data_mean, data_cov=mod.data_cov)
        field_ = m.solver.model

        def record(what, mu, sd, losses, model, nb=None):
            size = min(batch, rows)
            ev.append(dict(op="epoch", what=what, batch=batch, x0=qa(data[0], S), x1=qa(data[1], S), t=qa(data[2][:, 0], S), mean=qa(mu, S), std=qa(sd, S), tol=16,
                           batches=[[dict(x0=qa(b[0][j], S), x1=qa(b[1][j], S), t=q(b[2][j][0], S)) for j in range(len(b[0]))] for b in log]))
            if losses is not None and log:
                b = log[-1]
                v = jax.vmap(model)(jnp.concatenate([jnp.asarray(b[3], jnp.float32), jnp.asarray(b[2], jnp.float32)], -1))
                ev.append(dict(op="loss", what=what, v=qa(v, S), d=qa(b[4], S), loss=q(losses, S), tol=16))
        opt = optax.sgd(0.0)
        r = ctx.attempt(name, lambda: m.train_epoch(jax.random.PRNGKey(i), opt, opt.init(eqx.filter(m, eqx.is_array)), data, batch))
        jax.effects_barrier()
        if r is None:
            continue
        record("epoch", mean, std, float(r[0]), field_)
        # whole training: one epoch with the statistics of the data
        log.clear()
        r = ctx.attempt(name, lambda: m.train(jax.random.PRNGKey(i), data, opt, opt.init(eqx.filter(m, eqx.is_array)), 1, batch, verbose=False))
        jax.effects_barrier()
        if r is not None:
            record("train", x1.mean(0), x1.std(0, ddof=1), float(r[3][0]), field_)
        # the loss by itself
        k = min(rows, 4)
        xt, dx, tt = (jnp.asarray(v, jnp.float32) for v in (rng.normal(size=(k, nd)), rng.normal(size=(k, nd)), rng.uniform(size=(k, 1))))
        r = ctx.attempt(name, lambda: m.loss_fn(xt, tt, dx)[0])
        if r is not None:
            v = jax.vmap(field_)(jnp.concatenate([xt, tt], -1))
            ev.append(dict(op="loss", what="loss", v=qa(v, S), d=qa(dx, S), loss=q(r, S), tol=16))
    return [dict(id=k, ev=v) for k, v in by.items()]


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        a = copy.deepcopy(t)
        if e["op"] == "carry":
            a["ev"][k]["smp"][0][0] += 4 * e["tol"] + abs(e["smp"][0][0]) // 20 + e["std"][0] // 10
            return [a]
        if e["op"] == "epoch" and len(e["batches"][0]) > 1:
            b = a["ev"][k]["batches"][0]
            b[0]["x0"], b[1]["x0"] = b[1]["x0"], b[0]["x0"]
            return [a]
        if e["op"] == "ends":
            a["ev"][k]["dx"][0][0] += 40
            return [a]
    return None
