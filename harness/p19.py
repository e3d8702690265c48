"""P19: a flow samples from exactly the density it reports: sample and density formulas with recorded
base draws, and masses of the reported density on a grid against the flow's own samples."""
import core
from core import qa, q
U = 65536


def run(ctx):
    for v in ("order", "stdbase", "nowhiten"):
        ctx.model_check("FlowMC", f"FlowMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("FlowMC", "FlowMC_ok.cfg" if ctx.quick else "FlowMC_thorough.cfg")
    confs = ctx.generate("FlowGen", "FlowGen.cfg", num=3 if ctx.quick else 60, depth=3)
    todo = list(enumerate(FIXED + confs))
    traces = ctx.parallel("p19", [("formulas", todo[k::3]) for k in range(3)] + [("masses", k) for k in range(5)] + [("distributions",)])
    ctx.validate("FlowTrace", traces, canary)
    ctx.assumptions.append("two-dimensional flows for the masses; double and single precision")


FIXED = [dict(kind="realnvp", nd=2, nl=2, hid=3, bins=2, range=[-3, 3], w=8, dt=16, mask=[0, 1], pts=[]),
         dict(kind="rqs", nd=3, nl=2, hid=3, bins=4, range=[-3, 3], w=8, dt=16, mask=[0, 1, 1], pts=[])]


def classes():
    """A base distribution with given draws, and a non-Gaussian density."""
    import jax.numpy as jnp
    from flowMC.resource.model.common import Distribution

    class Known(Distribution):
        pts: object
        asked = -1

        def __init__(self, pts):
            self.pts = pts

        def log_prob(self, x):
            return -jnp.sum(jnp.abs(x) * (1.5 - 0.5 * jnp.sign(x)))

        def sample(self, rng_key, n_samples):
            Known.asked = int(n_samples)
            return self.pts[:n_samples]
    return Known


def model(c, seed, base=None, mean=None, cov=None):
    import jax
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from realset import randomize
    kw = dict(base_dist=base, data_mean=mean, data_cov=cov)
    key = jax.random.PRNGKey(seed)
    r = tuple(float(v) for v in c["range"])
    m = MaskedCouplingRQSpline(c["nd"], c["nl"], [c["hid"]], c["bins"], key, spline_range=r, **kw) if c["kind"] != "realnvp" \
        else RealNVP(c["nd"], c["nl"], c["hid"], key, **kw)
    return randomize(m, seed + 1, c["w"] / 16) if c["w"] else m


def stats(nd, rng):
    import jax.numpy as jnp, numpy as np
    a = rng.normal(size=(nd, nd)) * 0.4 + np.diag(rng.uniform(0.6, 2.5, nd))
    return jnp.asarray(rng.normal(size=nd) * 3, jnp.float32), jnp.asarray(a @ a.T + 0.1 * np.eye(nd), jnp.float32)


def formulas(ctx, confs):
    import jax, jax.numpy as jnp, numpy as np, optax, equinox as eqx
    from flowMC.resource.model.common import Gaussian
    Known = classes()
    by = {}
    for i, c in confs:
        c = dict(c, kind="realnvp" if c["kind"] in ("realnvp", "affine", "maffine", "mscalar") else "rqs", w=min(c["w"], 12))
        rng = np.random.default_rng(1900 + i + 100 * ctx.seed)
        nd = c["nd"]
        pts = jnp.asarray(rng.normal(size=(9, nd)) * 1.5, jnp.float32)
        mean, cov = stats(nd, rng)
        g = stats(nd, rng)
        tiny = jnp.asarray(np.diag([1e-8, 4e6, 1e-4][:nd]), jnp.float32)       # units of all sizes
        cases = [("known-base", Known(pts), mean, cov), ("gaussian-base", Gaussian(g[0] / 3, g[1]), mean, cov), ("default-base", None, None, None), ("default-base-whitened", None, mean, cov), ("default-base-units", None, jnp.zeros(nd), tiny)]
        for what, base, mu, sig in (cases if i < len(FIXED) else cases[:2]):
            name = f"{c['kind']}-{what}"
            ev = by.setdefault(name, [])
            m = ctx.attempt(name, model, c, 19 + i, base, mu, sig)
            if m is None:
                continue
            ev += density(ctx, name, m, c, rng, "units" if what.endswith("units") else "fresh", mu, sig, base)
            if what == "known-base":
                ev += sampling(ctx, name, m, c, pts, mu, sig, Known, (1, 2, 7) if i < len(FIXED) else (3,))
            else:
                for n in (1, 5):
                    s = ctx.attempt(name, m.sample, jax.random.PRNGKey(n), n)
                    if s is not None:
                        ev.append(dict(op="same", what="not-n-points", got=list(np.shape(s)), want=[n, nd]))
            if i < len(FIXED) and what in ("known-base", "gaussian-base"):
                data = jnp.asarray(rng.normal(size=(30, nd)) * 0.7 + 2, jnp.float32)
                opt = optax.adam(0.02)
                r = ctx.attempt(name, lambda: m.train(jax.random.PRNGKey(3), data, opt, opt.init(eqx.filter(m, eqx.is_array)), 3, 15, verbose=False))
                if r is None:
                    continue
                t = r[1]
                # the statistics training stored are the model's own
                ev += density(ctx, name, t, c, rng, "trained", t.data_mean, t.data_cov, base)
                if what == "known-base":
                    ev += sampling(ctx, name, t, c, pts, t.data_mean, t.data_cov, Known, (4,))
    return [dict(id=k, ev=v) for k, v in by.items()]


def ms(mu, cov, nd):
    import numpy as np
    mu = np.zeros(nd) if mu is None else np.asarray(mu, float)
    std = np.ones(nd) if cov is None else np.sqrt(np.diag(np.asarray(cov, float)))
    return mu, std


def normal_logpdf(y, mean, cov):
    import numpy as np
    d = np.asarray(y, float) - mean
    s, l = np.linalg.slogdet(cov)
    return -0.5 * (d @ np.linalg.solve(cov, d) + l + len(d) * np.log(2 * np.pi))


def density(ctx, name, m, c, rng, what, mu, cov, base):
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.model.common import Gaussian
    nd = c["nd"]
    mean, std = ms(mu, cov, nd)
    ev = []
    w = rng.normal(size=(6, nd)) * 1.5
    x = jnp.asarray(w * std + mean, jnp.float32)
    wj = jnp.asarray((np.asarray(x, float) - mean) / std, jnp.float32)
    r = ctx.attempt(name, lambda: (jax.vmap(m.log_prob)(x), jax.vmap(m.forward)(wj)))
    if r is None:
        return ev
    lp, (y, ld) = r
    for j in range(len(w)):
        if isinstance(base, Gaussian):
            b = normal_logpdf(y[j], np.asarray(base.mean, float), np.asarray(base.cov, float))
        elif base is None:
            b = normal_logpdf(y[j], np.zeros(nd), np.eye(nd))
        else:
            v = np.asarray(y[j], float)
            b = -np.sum(np.abs(v) * (1.5 - 0.5 * np.sign(v)))
        # points and statistics in units of their own
        un = std if what == "units" else np.ones(nd)
        ev.append(dict(op="density", what=what, x=qa(np.asarray(x[j], float) / un, U), w=qa(wj[j], U), mean=qa(mean / un, U), std=qa(std / un, 4096), lnstd=qa(np.log(std), U),
                       lp=q(lp[j], U), ld=q(ld[j], U), b=q(b, U), tol=150 + q(abs(b), U) // 4000))
    return ev


def sampling(ctx, name, m, c, pts, mu, cov, Known, ns):
    import jax, jax.numpy as jnp, numpy as np
    mean, std = ms(mu, cov, c["nd"])
    ev = []
    for n in ns:
        Known.asked = -1
        s = ctx.attempt(name, m.sample, jax.random.PRNGKey(n), n)
        img = ctx.attempt(name, lambda: jax.vmap(m.inverse)(pts[:n])[0])
        if s is None or img is None:
            continue
        s2 = np.asarray(s)
        ev.append(dict(op="sample", n=n, nd=c["nd"], asked=int(Known.asked), smp=qa(s2 if s2.ndim == 2 else s2.reshape(1, -1), U), img=qa(img, U),
                       mean=qa(mean, U), std=qa(std, 4096), tol=150))
        # a sample's density is the base density of the draw times the volume change
        lp = ctx.attempt(name, lambda: jax.vmap(m.log_prob)(jnp.asarray(s)))
        f = ctx.attempt(name, lambda: jax.vmap(m.inverse)(pts[:n])[1])
        if lp is not None and f is not None and s2.shape == (n, c["nd"]):
            p = np.asarray(pts[:n], float)
            b = -np.sum(np.abs(p) * (1.5 - 0.5 * np.sign(p)), -1)
            ev.append(dict(op="close", what="density-of-a-sample", got=qa(lp, U), want=qa(b - np.asarray(f, float) - np.log(std).sum(), U), tol=400))
    return ev


def masses(ctx, which):
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.model.common import Gaussian, MLP
    from flowMC.resource.model.flowmatching.base import FlowMatchingModel, Solver, Path, CondOTScheduler
    from realset import randomize
    rng = np.random.default_rng(1950 + ctx.seed)
    key = jax.random.PRNGKey(195 + ctx.seed)
    c = dict(nd=2, nl=3, hid=4, bins=4, range=[-4, 4], w=6, kind="realnvp")
    g = Gaussian(jnp.asarray([0.5, -0.5]), jnp.asarray([[0.7, 0.3], [0.3, 0.9]]))
    mean, cov = jnp.asarray([4.0, -2.0]), jnp.asarray([[4.0, 0.8], [0.8, 0.36]])

    def fm():
        mlp = MLP([3, 8, 2], key, scale=0.5, activation=jax.nn.tanh)
        return FlowMatchingModel(Solver(randomize(mlp, 5, 0.4)), Path(CondOTScheduler()), data_mean=mean, data_cov=cov)
    cases = [("realnvp", lambda: model(c, 31, None, mean, cov)), ("realnvp-base", lambda: model(c, 32, g, mean, cov)),
             ("rqs", lambda: model(dict(c, kind="rqs", nl=2), 33, None, mean, cov)), ("rqs-base", lambda: model(dict(c, kind="rqs", nl=2), 34, g, None, None)),
             ("flowmatching", fm)]
    out = []
    for name, mk in cases[which:which + 1]:
        m = ctx.attempt("mass-" + name, mk)
        if m is None:
            continue
        n = 20000 if name != "flowmatching" else 8000
        s = ctx.attempt("mass-" + name, jax.jit(lambda k: m.sample(k, n)), key)
        if s is None:
            continue
        s = np.asarray(s, float)
        if s.shape != (n, 2) or not np.isfinite(s).all():
            out.append(dict(id="mass-" + name, ev=[dict(op="same", what="not-n-points", got=list(s.shape) + [0], want=[n, 2])]))
            continue
        # a grid over a box around the samples, much finer than the counting cells
        sd, mu = s.std(0), np.median(s, 0)
        k, f = 8, (40 if name != "flowmatching" else 14)
        lo, hi = np.minimum(mu - 6 * sd, s.min(0) - 0.5 * sd), np.maximum(mu + 6 * sd, s.max(0) + 0.5 * sd)
        ax = [lo[d] + (np.arange(k * f) + 0.5) * (hi[d] - lo[d]) / (k * f) for d in (0, 1)]
        gx = jnp.asarray(np.stack(np.meshgrid(*ax, indexing="ij"), -1).reshape(-1, 2), jnp.float32)
        lp = ctx.attempt("mass-" + name, jax.jit(jax.vmap(m.log_prob)), gx)
        if lp is None:
            continue
        p = np.exp(np.asarray(lp, float)).reshape(k, f, k, f).sum((1, 3)) * np.prod((hi - lo) / (k * f))
        cnt = np.histogram2d(s[:, 0], s[:, 1], bins=[np.linspace(lo[d], hi[d], k + 1) for d in (0, 1)])[0]
        out.append(dict(id="mass-" + name, ev=[dict(op="mass", what=name, mass=qa(p.reshape(-1), 1000000), rest=0, n=n, count=[int(v) for v in cnt.reshape(-1)],
                                                    out=int(n - cnt.sum()), rtol=15000, res=20)]))
    if which < 4:       # far draws: of the flow on which nothing is moved, the base distribution itself
        for name, kind in (("tails-realnvp", "realnvp"), ("tails-rqs", "rqs"))[which // 2:which // 2 + 1]:
            m = ctx.attempt(name, model, dict(c, kind=kind, nl=1, w=0), 35, Gaussian(jnp.zeros(2), jnp.eye(2)) if which % 2 else None, None, None)
            if m is None:
                continue
            n = 400_000
            r = ctx.attempt(name, jax.jit(lambda k: (lambda s: (s, jax.vmap(m.forward)(s)[0]))(m.sample(k, n))), key)
            if r is None:
                continue
            z = np.abs(np.asarray(r[1], float)).reshape(-1, 2)
            # standard normals beyond 2, 3, 3.5, 4, in a million
            ev = [dict(op="tail", n=n, dim=d + 1, beyond=[int((z[:, d] > b).sum()) for b in (2.0, 3.0, 3.5, 4.0)]) for d in (0, 1)]
            ev.append(dict(op="tail", n=n, dim=0, beyond=[int(((z[:, 0] > a) & (z[:, 1] > b)).sum()) for a, b in ((1.0, 1.0), (2.0, 1.0), (1.0, 2.0), (2.0, 2.0))]))
            out.append(dict(id=name, ev=ev))
    return out


def distributions(ctx):
    """Base distributions themselves."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.model.common import Gaussian, Composable
    rng = np.random.default_rng(1990 + ctx.seed)
    ev = []
    a, b = stats(2, rng), stats(1, rng)
    ga, gb = Gaussian(*a), Gaussian(*b, learnable=True)
    comp = Composable([ga, gb], {"one": (0, 2), "two": (2, 3)})
    for j in range(4):
        x = rng.normal(size=3) * 2
        r = ctx.attempt("distributions", comp.log_prob, jnp.asarray(x, jnp.float32))
        la = normal_logpdf(x[:2], np.asarray(a[0], float), np.asarray(a[1], float))
        lb = normal_logpdf(x[2:], np.asarray(b[0], float), np.asarray(b[1], float))
        if r is not None:
            ev.append(dict(op="close", what="composed-density", got=[q(r, 4096)], want=[q(la + lb, 4096)], tol=30 + q(abs(la + lb), 4096) // 2000))
    # several parts, in any order, not all of the coordinates, parts which are flows or compositions themselves
    def part(k, w):
        if w == 3:
            inner = Composable([part(k + 7, 1), part(k + 8, 2)], {"b": (2, 3), "a": (0, 2)})
            return inner
        mu, cov = stats(w, rng)
        if k % 3 == 2 and w == 2:
            return model(dict(nd=2, nl=2, hid=3, bins=2, range=[-3, 3], w=6, kind="realnvp"), 60 + k, None, mu, cov)
        return Gaussian(mu, cov, learnable=bool(k % 2))
    for j in range(5):
        widths = [int(v) for v in rng.integers(1, 4, size=2 + j % 3)]
        los = np.concatenate([[0], np.cumsum(widths)]) + (j == 3)
        order = np.arange(len(widths))[::-1] if j == 0 else rng.permutation(len(widths))
        ds = {int(i): part(int(i) + j, widths[i]) for i in order}
        comp = Composable([ds[int(i)] for i in order], {f"p{i}": (int(los[i]), int(los[i + 1])) for i in order})
        for x in rng.normal(size=(3, int(los[-1]) + (j == 4))) * 2:
            x32 = jnp.asarray(x, jnp.float32)
            r = ctx.attempt("distributions", comp.log_prob, x32)
            ev.append(dict(op="composed", x=qa(x32, U), lp=q(r if r is not None else float("nan"), 4096), parts=[
                dict(lo=int(los[i]), hi=int(los[i + 1]), x=qa(x32[los[i]:los[i + 1]], U), lp=q(ds[int(i)].log_prob(x32[los[i]:los[i + 1]]), 4096)) for i in order]))
    # draws of the parts of a composition: each its own, and independent of the others
    parts = [Gaussian(jnp.zeros(2), jnp.eye(2)), Gaussian(jnp.zeros(2), jnp.eye(2)), Gaussian(jnp.zeros(1), jnp.eye(1))]
    comp2 = Composable(parts, {"u": (0, 2), "v": (2, 4), "w": (4, 5)})
    s = ctx.attempt("distributions", comp2.sample, jax.random.PRNGKey(6 + ctx.seed), 4000)
    if s is not None:
        names = list(s) if isinstance(s, dict) else None
        cols = np.concatenate([np.asarray(s[k], float) for k in ("u", "v", "w")], 1) if names is not None and set(names) == {"u", "v", "w"} else None if names is not None else np.asarray(s, float)
        ev.append(dict(op="same", what="composed-draws", got=str(None if cols is None else list(cols.shape)), want=str([4000, 5])))
        if cols is not None and cols.shape == (4000, 5):
            ev.append(dict(op="close", what="composed-draws-dependent", got=qa(np.corrcoef(cols.T).reshape(-1), 1000), want=qa(np.eye(5).reshape(-1), 1000), tol=100))
    s = ctx.attempt("distributions", ga.sample, jax.random.PRNGKey(5), 4000)
    if s is not None:
        s = np.asarray(s, float)
        z = np.linalg.solve(np.linalg.cholesky(np.asarray(a[1], float)), (s - np.asarray(a[0], float)).T)
        ev.append(dict(op="close", what="gaussian-draws", got=qa(np.concatenate([z.mean(1), np.cov(z).reshape(-1)]), 1000), want=[0, 0, 1000, 0, 0, 1000], tol=140))
    out = [dict(id="distributions", ev=ev)]
    # a flow with a composed base distribution
    cases = []
    for kind in ("realnvp", "rqs"):
        c = dict(nd=3, nl=1, hid=3, bins=2, range=[-3, 3], w=4, kind=kind)
        m = model(c, 40, comp, None, None)
        got = "points"
        try:
            got = list(np.shape(m.sample(jax.random.PRNGKey(1), 4)))
        except Exception as e:
            got = "error"
        cases.append(dict(op="same", what="composed-base-cannot-be-sampled", got=str(got), want=str([4, 3])))
    out.append(dict(id="composed-base", ev=cases))
    return out


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        a = copy.deepcopy(t)
        if e["op"] == "density":
            a["ev"][k]["lp"] += 600
            return [a]
        if e["op"] == "mass":
            m = a["ev"][k]["mass"]
            i = max(range(len(m)), key=lambda j: m[j])
            m[i] -= 100000
            return [a]
    return None
