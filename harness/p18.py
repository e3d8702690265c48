"""P18: flow transformations are bijections with exact log-determinants: real flows and layers with
generated shapes and parameters, in double precision, at points inside, outside and on the boundaries
of the spline range; also trained flows."""
import core
from core import qa, q
U = 65536


def run(ctx):
    for v in ("order", "fulldet", "stdbase", "nowhiten"):
        ctx.model_check("FlowMC", f"FlowMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("FlowMC", "FlowMC_ok.cfg" if ctx.quick else "FlowMC_thorough.cfg")
    confs = ctx.generate("FlowGen", "FlowGen.cfg", num=9 if ctx.quick else 120, depth=3)
    todo = list(enumerate(FIXED + confs))
    traces = ctx.parallel("p18", [("drive", todo[k::4]) for k in range(4)] + [("trained",), ("lines",)], x64=True)
    ctx.validate("FlowTrace", traces, canary)
    ctx.assumptions.append("double precision; parameters of moderate size (standard deviation up to 3 of every weight)")


B = ["in", "lo", "hi", "below", "above", "far"]
FIXED = [dict(kind="rqs", nd=3, nl=3, hid=3, bins=4, range=[-2, 3], w=24, dt=16, mask=[0, 1, 0], pts=[["in"] * 3, ["lo", "in", "above"], ["below", "hi", "in"], ["far"] * 3, ["zero", "in", "far"]]),
         dict(kind="rqs", nd=2, nl=2, hid=3, bins=8, range=[-10, 10], w=0, dt=16, mask=[0, 1], pts=[[a, b] for a in B for b in B]),
         dict(kind="realnvp", nd=3, nl=3, hid=3, bins=4, range=[-2, 2], w=24, dt=16, mask=[0, 1, 0], pts=[["in"] * 3, ["far"] * 3, ["zero"] * 3, ["hi", "in", "below"]]),
         dict(kind="spline", nd=2, nl=1, hid=3, bins=4, range=[-2, 3], w=24, dt=16, mask=[0, 1], pts=[[a, b] for a in B + ["knot"] for b in ("in", "knot", "far")]),
         dict(kind="mspline", nd=3, nl=1, hid=3, bins=2, range=[0, 1], w=12, dt=16, mask=[1, 0, 0], pts=[["in", "knot", "lo"], ["in", "hi", "knot"], ["far", "below", "above"]]),
         dict(kind="affine", nd=3, nl=1, hid=3, bins=2, range=[-2, 2], w=24, dt=8, mask=[1, 0, 1], pts=[["in"] * 3, ["far"] * 3, ["zero"] * 3]),
         dict(kind="maffine", nd=3, nl=1, hid=3, bins=2, range=[-2, 2], w=24, dt=24, mask=[1, 0, 1], pts=[["in"] * 3, ["far"] * 3]),
         dict(kind="mscalar", nd=2, nl=1, hid=3, bins=2, range=[-2, 2], w=24, dt=24, mask=[0, 1], pts=[["in"] * 2, ["far"] * 2])]


def build(c, seed):
    """(forward, inverse, call, knots or None) of a real flow or layer, as functions of a point."""
    import jax, jax.numpy as jnp
    from flowMC.resource.model import common
    from flowMC.resource.model.nf_model import rqSpline, realNVP
    from realset import randomize
    key = jax.random.PRNGKey(seed)
    nd, w = c["nd"], c["w"] / 16
    r = tuple(float(v) for v in c["range"])
    mask = jnp.asarray(c["mask"], float)
    if c["kind"] in ("rqs", "realnvp"):
        m = rqSpline.MaskedCouplingRQSpline(nd, c["nl"], [c["hid"], c["hid"]], c["bins"], key, spline_range=r) if c["kind"] == "rqs" \
            else realNVP.RealNVP(nd, c["nl"], c["hid"], key)
        m = randomize(m, seed + 1, w) if w else m
        return (lambda x: m.forward(x)), (lambda x: m.inverse(x)), (lambda x: m(x)), None
    if c["kind"] == "affine":
        m = randomize(realNVP.AffineCoupling(nd, c["hid"], mask, key, dt=c["dt"] / 16), seed + 1, w)
        return m.forward, m.inverse, m, None
    mlp = lambda k, out: common.MLP([nd, c["hid"], out], k, scale=0.5, activation=jax.nn.tanh)
    k1, k2 = jax.random.split(key)
    if c["kind"] == "maffine":
        m = common.MaskedCouplingLayer(common.MLPAffine(mlp(k1, nd), mlp(k2, nd), dt=c["dt"] / 16), mask)
    elif c["kind"] == "mscalar":
        m = common.MaskedCouplingLayer(common.ScalarAffine(0.0, 0.0), mask)
        m = randomize(m, seed + 1, 0.5)
        return (lambda x: m.forward(x, None)), (lambda x: m.inverse(x, None)), (lambda x: m(x, None)), None
    else:
        s = rqSpline.RQSpline(mlp(k1, nd * (3 * c["bins"] + 1)), r[0], r[1])
        if c["kind"] == "spline":
            s = randomize(s, seed + 1, w)
            cond = jnp.linspace(-1, 1, nd)

            def summed(f):
                def g(x):
                    y, ld = f(x, cond)
                    return y, jnp.sum(ld)
                return g
            kn = s.get_params(cond)
            return summed(s.forward), summed(s.inverse), summed(s), (kn[0], kn[1])
        m = common.MaskedCouplingLayer(s, mask)
    m = randomize(m, seed + 1, w)
    kn = None
    return (lambda x: m.forward(x, None)), (lambda x: m.inverse(x, None)), (lambda x: m(x, None)), kn


def points(c, rng, knots):
    import numpy as np
    lo, hi = c["range"]
    half = (hi - lo) / 2
    out = []
    for n, p in enumerate(c["pts"]):
        row = []
        for i, k in enumerate(p):
            mid = (lo + hi) / 2
            if k == "knot" and knots is not None:
                kn = np.asarray(knots[i % len(knots)])
                row.append(float(kn[rng.integers(len(kn))]))
            else:
                row.append(dict(zero=0.0, lo=float(lo), hi=float(hi), below=lo - half * rng.uniform(0.01, 1), above=hi + half * rng.uniform(0.01, 1),
                                far=mid + rng.choice([-1, 1]) * half * rng.uniform(3, 8)).get(k, mid + half * rng.uniform(-1, 1)))
        out.append(row)
    return np.asarray(out, float)


def trips(ctx, name, fwd, inv, call, xs, ys):
    """Round trips both ways. log |det| of the Jacobian of each way, measured by differentiation and by differences of
    several widths: at a knot differentiation averages two branches, next to a short bin wide differences fail."""
    import jax, numpy as np
    ev = []

    def both(f, g):
        def h(x):
            y, ld = f(x)
            back, ld2 = g(y)
            return y, back, ld, ld2, jax.jacfwd(lambda v: f(v)[0])(x)
        return jax.jit(jax.vmap(h)), jax.jit(jax.vmap(lambda v: f(v)[0]))
    for way, f, g, cl, pts in (("forward-inverse", fwd, inv, call, xs), ("inverse-forward", inv, fwd, inv, ys)):
        h, plain = both(f, g)
        r = ctx.attempt(name, h, pts)
        cy = ctx.attempt(name, lambda: [cl(jax.numpy.asarray(v))[0] for v in pts[:1]])
        if r is None or cy is None:
            continue
        y, back, l1, l2, jac = (np.asarray(v, float) for v in r)
        with np.errstate(all="ignore"):
            cand = [np.linalg.slogdet(jac)[1]]
            n, d = pts.shape
            for e in (1e-5, 1e-6, 1e-7, 1e-8):
                pert = pts[:, None, :] + e * np.concatenate([np.eye(d), -np.eye(d)])
                v = np.asarray(plain(pert.reshape(-1, d)), float).reshape(n, 2 * d, d)
                cand.append(np.linalg.slogdet((v[:, :d] - v[:, d:]) / (2 * e))[1])
        for j in range(len(pts)):
            ev.append(dict(op="trip", way=way, **{"from": qa(pts[j], U)}, to=qa(y[j], U), back=qa(back[j], U), ld1=q(l1[j], U), ld2=q(l2[j], U),
                           ldj=[q(v[j], U) for v in cand], tol=8, call=qa(cy[j] if j < len(cy) else y[j], U)))
    return ev


def drive(ctx, confs):
    import numpy as np
    by = {}
    for i, c in confs:
        name = f"{c['kind']}-{'fixed' if i < len(FIXED) else 'generated'}"
        rng = np.random.default_rng(1800 + 17 * i + ctx.seed)
        b = ctx.attempt(name, build, c, 180 + i)
        if b is None:
            continue
        fwd, inv, call, knots = b
        xs = points(c, rng, knots[0] if knots else None)
        ys = points(c, rng, knots[1] if knots else None)
        by.setdefault(name, []).extend(trips(ctx, name, fwd, inv, call, xs, ys))
    return [dict(id=k, ev=v) for k, v in by.items()]


def trained(ctx):
    """Flows after a short training."""
    import jax, jax.numpy as jnp, numpy as np, optax, equinox as eqx
    from flowMC.resource.model.nf_model import rqSpline, realNVP
    out = []
    key = jax.random.PRNGKey(1888 + ctx.seed)
    data = jax.random.normal(key, (40, 2)) @ jnp.asarray([[2.0, 0.5], [0.0, 0.3]]) + jnp.asarray([5.0, -1.0])
    models = [("realnvp-trained", lambda: realNVP.RealNVP(2, 3, 4, key)), ("rqs-trained", lambda: rqSpline.MaskedCouplingRQSpline(2, 2, [4], 4, key, spline_range=(-2.0, 2.0)))]
    for name, mk in models:
        m = ctx.attempt(name, mk)
        opt = optax.adam(0.05)
        r = ctx.attempt(name, lambda: m.train(key, data, opt, opt.init(eqx.filter(m, eqx.is_array)), 6, 20, verbose=False))
        if r is None:
            continue
        t = r[1]
        rng = np.random.default_rng(ctx.seed)
        pts = rng.normal(size=(12, 2)) * 2
        out.append(dict(id=name, ev=trips(ctx, name, t.forward, t.inverse, t, pts, pts[::-1])))
    return out


def lines(ctx):
    """One-dimensional splines over a grid spanning the whole range and its knots: strictly increasing."""
    import jax, numpy as np
    out = []
    for n, (r, bins, w) in enumerate((((-2, 3), 4, 16), ((0, 1), 8, 32), ((-10, 10), 1, 48))):
        c = dict(kind="spline", nd=1, nl=1, hid=3, bins=bins, range=r, w=w, dt=16, mask=[0])
        b = ctx.attempt("line", build, c, 7 + n + ctx.seed)
        if b is None:
            continue
        fwd, inv, _, knots = b
        half = (r[1] - r[0]) / 2
        xs = np.linspace(r[0] - half, r[1] + half, 101)
        ev = []
        for f, k in ((fwd, knots[0]), (inv, knots[1])):
            g = np.unique(np.concatenate([xs, np.asarray(k[0])]))[:, None]
            y = ctx.attempt("line", jax.vmap(lambda v: f(v)[0]), g)
            if y is not None:
                # the order of the images, so that nearly flat stretches are resolved
                y = np.asarray(y)[:, 0]
                o = np.searchsorted(np.unique(y), y) if np.isfinite(y).all() else np.zeros(len(y), int)
                ev.append(dict(op="line", y=[int(v) for v in o]))
        out.append(dict(id="line", ev=ev))
    return out


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        if e["op"] == "trip":
            a = copy.deepcopy(t)
            a["ev"][k]["back"][0] += 60
            b = copy.deepcopy(t)
            b["ev"][k]["ldj"] = [v + 60 for v in b["ev"][k]["ldj"]]
            return [a, b]
    return None
