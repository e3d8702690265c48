"""P23: optimization respects its bounds, climbs the target and treats chains separately: the real
AdamOptimization strategy on targets whose gradients are known, for generated configurations."""
import core
from core import qa, q, bits
U = 65536


def run(ctx):
    for v in ("descend", "shared", "late", "lowonly"):
        ctx.model_check("AdamMC", f"AdamMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("AdamMC", "AdamMC_ok.cfg" if ctx.quick else "AdamMC_thorough.cfg")
    confs = ctx.generate("AdamGen", "AdamGen.cfg", num=14 if ctx.quick else 150, depth=3)
    with core.silence():
        traces = drive(ctx, FIXED + confs) + refused(ctx) + noise(ctx) + far(ctx)
    ctx.validate("AdamTrace", traces, canary)
    ctx.assumptions.append("targets with finite gradients; a start outside the bounds is only followed from the first step on")


FIXED = [dict(nd=2, nc=3, a=[5, -3], c=[0, 0], x=[[0, 0], [4, 4], [-12, 12]], shared=0, b=["none", "none"], n=6, lr=1, noise=0),
         dict(nd=3, nc=2, a=[8, -8, 6], c=[0, 0, 8], x=[[0, 0, 0], [2, -2, 12]], shared=0, b=["above", "below", "none"], n=6, lr=5, noise=0),
         dict(nd=2, nc=2, a=[8, 8], c=[0, 8], x=[[0, 0], [-3, 3]], shared=1, b=["above", "above"], n=4, lr=5, noise=1),
         dict(nd=1, nc=2, a=[8], c=[8], x=[[14], [2]], shared=1, b=["none"], n=7, lr=5, noise=0)]


def logpdf(x, data):
    import jax.numpy as jnp
    return jnp.sum(data["a"] * x - 0.5 * data["c"] * x ** 2) + data["k"]


def make(c, n, noise):
    import jax.numpy as jnp, numpy as np
    from flowMC.strategy.optimization import AdamOptimization
    kinds = [c["b"][0]] if c["shared"] else c["b"]
    lim = dict(none=(-np.inf, np.inf), wide=(-5.0, 5.0), above=(-2.0, 0.03125), below=(-0.03125, 2.0), pinned=(0.125, 0.125), left=(-np.inf, 0.25))
    b = np.array([lim[k] for k in kinds])
    full = np.tile(b, (c["nd"], 1)) if c["shared"] else b
    return AdamOptimization(logpdf, n_steps=n, learning_rate=0.01 * c["lr"], noise_level=noise, bounds=jnp.asarray(b)), full


def drive(ctx, confs):
    import jax, jax.numpy as jnp, numpy as np
    key = jax.random.PRNGKey(2300 + ctx.seed)
    by = {}
    for i, c in enumerate(confs):
        name = f"config{i}" if i < len(FIXED) else "generated"
        data = {"a": jnp.asarray(c["a"], jnp.float32) / 16, "c": jnp.asarray(c["c"], jnp.float32) / 16, "k": jnp.asarray(0.5)}
        x = np.asarray(c["x"], np.float32) / 16
        base = dict(a=[v * U // 16 for v in c["a"]], c16=c["c"], start=qa(x, U), lr=q(0.01 * c["lr"], U))
        if not c["noise"]:
            path = []
            for n in range(c["n"] + 1):
                s, full = make(c, n, 0.0)
                r = ctx.attempt(name, s, key, {}, jnp.asarray(x), data)
                if r is None:
                    break
                path.append(qa(np.asarray(r[2]), U))
            else:
                by.setdefault(name, []).append(dict(op="path", path=path, lo=qa(full[:, 0], U), hi=qa(full[:, 1], U), tol=6 + base["lr"] // 50, **base))
        key, sub = jax.random.split(key)
        s, full = make(c, c["n"], 4.0 if c["noise"] else 0.0)
        arr = jnp.asarray(x)
        res = {"a": object(), "b": jnp.ones(2)}
        before = dict(res)
        dbits = bits(*jax.tree.leaves(data))
        got = ctx.attempt(name, s.optimize, sub, lambda p, d: -logpdf(p, d), arr, data)
        called = ctx.attempt(name, s, sub, res, arr, data)
        if got is None or called is None:
            continue
        _, pos, lp = got
        pos64 = np.asarray(pos, np.float64)
        want = (pos64 * np.asarray(data["a"]) - 0.5 * np.asarray(data["c"]) * pos64 ** 2).sum(-1) + 0.5
        same = called[1] is res and set(res) == set(before) and all(res[k] is before[k] for k in before) and bits(arr) == bits(x) and bits(*jax.tree.leaves(data)) == dbits
        by.setdefault(name, []).append(dict(op="run", n=c["n"], out=qa(pos, U), lp=qa(lp, U), want=qa(want, U), ltol=8, called=qa(called[2], U),
                                            resources="same" if same else "different", lo=qa(full[:, 0], U), hi=qa(full[:, 1], U), **base))
        if not c["noise"] and c["nc"] > 1:
            one = []
            for j in range(c["nc"]):
                r = ctx.attempt(name, s, sub, {}, arr[j:j + 1], data)
                one.append(qa(np.asarray(r[2])[0], U) if r is not None else [0])
            by[name].append(dict(op="alone", out=qa(pos, U), one=one))
    return [dict(id=k, ev=v) for k, v in by.items()]


def refused(ctx):
    """Bounds of every shape."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.strategy.optimization import AdamOptimization
    ev = []
    data = {"a": jnp.ones(3), "c": jnp.zeros(3), "k": jnp.asarray(0.0)}
    for shape in ((2,), (3,), (1, 2), (2, 2), (3, 2), (3, 3), (2, 3), (1, 1), (1, 3, 2), (4, 2), (1, 3)):
        b = jnp.broadcast_to(jnp.asarray([-1.0, 1.0, 2.0])[:shape[-1]] if shape[-1] <= 3 else 0.0, shape)
        got = "accepted"
        try:
            s = AdamOptimization(logpdf, n_steps=2, noise_level=0.0, bounds=b)
            s(jax.random.PRNGKey(0), {}, jnp.zeros((2, 3)), data)
        except ValueError:
            got = "refused"
        except Exception as e:
            got = type(e).__name__
        ev.append(dict(op="refused", what="x".join(map(str, shape)), got=got, want="accepted" if shape in ((1, 2), (3, 2)) else "refused"))
    return [dict(id="bounds", ev=ev)]


def noise(ctx):
    """Many chains from the same start."""
    import jax, jax.numpy as jnp, numpy as np
    from math import erf, sqrt
    ev = []
    n = 1500
    data = {"a": jnp.asarray([0.5, -0.25]), "c": jnp.asarray([0.5, 0.5]), "k": jnp.asarray(0.0)}
    x = jnp.zeros((n, 2))
    for level in (0.05, 1.0, 10.0):
        c = dict(nd=2, shared=1, b=["none"], lr=1)
        s, _ = make(c, 1, level)
        r = ctx.attempt("noise", s, jax.random.PRNGKey(23 + ctx.seed), {}, x, data)
        s2, _ = make(c, 2, level)
        r2 = ctx.attempt("noise", s2, jax.random.PRNGKey(23 + ctx.seed), {}, x, data)
        if r is None or r2 is None:
            continue
        down = int((np.asarray(r[2])[:, 0] < 0).sum())
        d2 = len(np.unique(np.asarray(r2[2])[:, 0]))
        ev.append(dict(op="flips", what=str(level), down=down, want=int(round(n * 0.5 * (1 - erf(1 / level / sqrt(2))))), distinct=d2, least=n // 4))
    return [dict(id="noise", ev=ev)]


def far(ctx):
    """Long runs and distant points: constant slopes, where every step is the learning rate."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.strategy.optimization import AdamOptimization
    ev = []
    for n, lr, nd in ((150, 0.01, 2), (700, 0.005, 3), (65, 0.5, 1)):
        a = np.asarray([0.5, -2.0, 30.0][:nd])
        data = {"a": jnp.asarray(a, jnp.float32), "c": jnp.zeros(nd), "k": jnp.asarray(0.0)}
        x = np.asarray([[0.0] * nd, [100.0, -50.0, 7.0][:nd], [-3.0] * nd])
        for kind, (lo, hi) in dict(free=(-np.inf, np.inf), walled=(-1000.0, 100.25)).items():
            s = AdamOptimization(logpdf, n_steps=n, learning_rate=lr, noise_level=0.0, bounds=jnp.asarray([[lo, hi]]))
            r = ctx.attempt("far", s, jax.random.PRNGKey(2), {}, jnp.asarray(x, jnp.float32), data)
            if r is not None:
                ev.append(dict(op="straight", what=f"{kind}-{n}", n=n, lr=q(lr, U), start=qa(x, U), out=qa(r[2], U), up=[int(np.sign(v)) for v in a], lo=[q(lo, U)], hi=[q(hi, U)],
                               tol=2 * n // 3 + q(n * lr, U) // 200))
    # no bounds means none: points in the millions stay there (units of a thousand)
    x = np.asarray([[5e6, -3e7], [-2e9, 4e5]])
    data = {"a": jnp.asarray([1.0, -1.0]), "c": jnp.zeros(2), "k": jnp.asarray(0.0)}
    for n, lr in ((1, 0.1), (8, 1e5)):
        s = AdamOptimization(logpdf, n_steps=n, learning_rate=lr, noise_level=0.0)
        r = ctx.attempt("far", s, jax.random.PRNGKey(2), {}, jnp.asarray(x, jnp.float32), data)
        if r is not None:
            ev.append(dict(op="straight", what=f"distant-{n}", n=n, lr=q(lr, 1e-3), start=qa(x, 1e-3), out=qa(r[2], 1e-3), up=[1, -1], lo=[q(-np.inf, 1)], hi=[q(np.inf, 1)], tol=3))
    return [dict(id="far", ev=ev)]


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        a = copy.deepcopy(t)
        if e["op"] == "path" and len(e["path"]) > 2:
            a["ev"][k]["path"][2][0][0] += e["lr"] // 2
            return [a]
        if e["op"] == "run":
            a["ev"][k]["lp"][0] += 40
            return [a]
    return None
