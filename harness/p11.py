"""P11: invalid or impossible proposals are always rejected, and harmlessly: single steps whose proposal is
invalid, histories against targets with boundaries, global steps and replica exchange with invalid values."""
import json, os
import core
S = 4096


def run(ctx):
    for v in ("unless", "nan2zero"):
        ctx.model_check("StepsMC", f"StepsMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("StepsMC", "StepsMC_ok.cfg" if ctx.quick else "StepsMC_thorough.cfg")
    import records, tempering
    with core.silence():
        traces = singles(ctx) + histories(ctx) + paths(ctx)
        ex = exchange(ctx)
    ctx.validate("RecordsTrace", traces, canary)
    ctx.validate("TemperingTrace", ex, tempering.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("ladder-", "temper-"))]
    ctx.assumptions.append("invalid values: not-a-number and minus infinity (values, gradients, flow densities); not plus infinity")


def canary(t):
    import copy
    for k, e in enumerate(t["ev"]):
        if e["op"] == "one":
            a = copy.deepcopy(t)
            a["ev"][k]["a"] = 1
            return [a]
        if e["op"] == "call" and e["finite"]:
            a = copy.deepcopy(t)
            a["ev"][k]["chains"][0]["rows"][0].update(lp=core.NAN, t=core.NAN)
            return [a]
    return None


def singles(ctx):
    """The target is valid (or has a usable gradient) at the starting point only."""
    import jax, jax.numpy as jnp, numpy as np
    import equinox as eqx
    from core import q, bits
    from flowMC.resource.logPDF import LogPDF
    import realset
    traces = []
    n = 40 if ctx.quick else 300

    @jax.custom_jvp
    def cliff(x, x0):
        return jnp.where(jnp.all(x == x0), 0.0, 5.0)

    @cliff.defjvp
    def _(primals, tangents):
        x, x0 = primals
        at = jnp.all(x == x0)
        return cliff(x, x0), jnp.where(at, 0.0, jnp.nan) * jnp.sum(tangents[0])

    def value(x, data):
        return jnp.where(jnp.all(x == data["x0"]), data["at"], data["away"])

    def gradient(x, data):
        return cliff(x, data["x0"])

    for nd in ((2,) if ctx.quick else (1, 2, 3)):
        for kname, kern in realset.real_kernels(nd, ctx.seed, ("GRW", "MALA", "HMC")).items():
            for what, f in (("value", value), ("gradient", gradient)):
                if what == "gradient" and kname == "GRW":
                    continue
                lp = LogPDF(f, n_dims=nd)
                x0 = jnp.asarray(np.round(np.random.default_rng(nd).normal(size=nd), 2), jnp.float32)

                @eqx.filter_jit
                def go(keys, at, away):
                    data = dict(x0=x0, at=at, away=away)
                    return jax.vmap(lambda k: kern.kernel(k, x0, lp(x0, data), lp, data))(keys)
                keys = jax.random.split(jax.random.PRNGKey(1100 + ctx.seed), n)
                ev = []
                cases = [("nan", 1.0, jnp.nan), ("minus-infinity", 1.0, -jnp.inf), ("nan-from-low", -500.0, jnp.nan)] if what == "value" else [("nan-gradient", 0.0, 0.0)]
                for w, at, away in cases:
                    r = ctx.attempt(f"single-{kname}-{w}", go, keys, jnp.asarray(at), jnp.asarray(away))
                    if r is None:
                        continue
                    p, l, a = map(np.asarray, r)
                    for i in range(n):
                        ev.append(dict(op="one", what=f"{kname}-{w}", a=q(a[i]), b=bits(p[i]), b0=bits(np.asarray(x0)), lp=q(l[i], S), lp0=q(at if what == "value" else 0.0, S)))
                if what == "value" and kname == "GRW":
                    r = ctx.attempt(f"single-{kname}-leave", go, keys, jnp.asarray(-jnp.inf), jnp.asarray(-700.0))
                    if r is not None:
                        p, l, a = map(np.asarray, r)
                        for i in range(n):
                            ev.append(dict(op="rev", a=q(a[i]), b=bits(p[i]), b0=bits(np.asarray(x0)), lp=q(l[i], 128), t=q(-700.0, 128)))
                if ev:
                    traces.append(dict(id=f"single-{nd}-{kname}-{what}", ev=ev))
    return traces


def boundary(x, data):
    """Smooth inside; invalid on one side of a plane, and where a logarithm or a root says so."""
    import jax.numpy as jnp
    import realset
    v = realset.target(x, data)
    v = jnp.where(x[0] > data["wall"], data["bad"], v)
    return v + data["usual"] * (jnp.log(1.5 - jnp.sum(x * x)) + jnp.sqrt(1.2 - x[-1] ** 2))


def histories(ctx):
    import jax, jax.numpy as jnp, numpy as np
    import realset, records
    traces = []
    for nd in ((2,) if ctx.quick else (2, 3)):
        pool = [("GRW", 6, 1, 0), ("MALA", 6, 1, 2), ("HMC", 5, 1, 0), ("NF", 6, 1, 0)]
        if not ctx.quick:
            pool += [("NF", 7, 2, 3), ("MALA", 6, 3, 0), ("HMC", 4, 2, 4)]
        path = os.path.join(ctx.tmp, "pool.json")
        json.dump([len(pool)], open(path, "w"))
        hists = [[k] for k in range(1, len(pool) + 1)] + ctx.generate("CallsGen", "CallsGen.cfg", num=6 if ctx.quick else 40, depth=8, env={"POOL_FILE": path})
        rig = records.Rig(nd, boundary, realset.real_kernels(nd, ctx.seed), pool)
        rng = np.random.default_rng(ctx.seed)
        for hi, h in enumerate(hists):
            data = dict(realset.data(nd), wall=jnp.asarray(0.3), bad=jnp.asarray([np.nan, -np.inf][hi % 2]), usual=jnp.asarray([0.0, 1.0, 1.0][hi % 3]))
            rig.start(4)
            key = jax.random.PRNGKey(41 * ctx.seed + hi)
            pos = rng.uniform(-0.4, 0.25, size=(4, nd)).astype(np.float32)
            ev = []
            for k in h:
                r = ctx.attempt(f"boundary{nd}-{hi}", rig.call, k - 1, key, pos, data)
                if r is None:
                    break
                key, pos, e = r
                ev.append(e)
            if ev:
                traces.append(dict(id=f"boundary{nd}-{hi}", ev=ev))
    return traces


def paths(ctx):
    """Global steps with invalid targets and invalid flow densities."""
    import jax, numpy as np
    import p10
    from core import q
    traces = []
    rng = np.random.default_rng(ctx.seed + 3)
    for n, b in ((6, 4), (5, 100)):
        name = f"global-{n}-{b}"
        r = ctx.attempt(name, p10.Runner, n, b)
        if r is None:
            continue
        many = 30
        keys = jax.random.split(jax.random.PRNGKey(1150 + ctx.seed + n), many)
        z, st, no, zero = np.zeros(64), np.full(many, 5.0), np.full(many, -1), np.zeros(many)
        out = ctx.attempt(name, r, keys, st, z, z, no, zero)
        if out is None:
            continue
        ids = out[0][..., 0].astype(int)
        lu = p10.uniforms(r, keys, ids, 5)
        ev = []
        for rep in range(12):
            lpt, qt = np.round(rng.normal(size=64), 2), np.round(rng.normal(size=64), 2)
            mode = rep % 4
            if mode == 0:
                lpt[:] = np.nan
            elif mode == 1:
                lpt[:] = -np.inf
            elif mode == 2:
                qt = np.where(rng.random(64) < 0.5, np.nan, qt)
            else:
                lpt = np.where(rng.random(64) < 0.4, np.nan, np.where(rng.random(64) < 0.4, -np.inf, lpt))
            s0 = rep
            lpt[s0], qt[s0] = 0.25, 0.5
            if mode < 2:
                lpt[s0] = -80.0
            out = r(keys, np.full(many, float(s0)), lpt, qt, no, zero)
            p, l, a = out
            for i in range(0, many, 3):
                ev.append(p10.path_event(ids[i], lpt[ids[i] % 64], qt[ids[i] % 64], lu[i], p[i, :, 0], l[i], a[i], lpt[s0], qt[s0], s0))
        traces.append(dict(id=name, ev=ev))
    return traces


def exchange(ctx):
    """Replica exchange with invalid likelihoods."""
    import jax, numpy as np
    import tempering
    from core import q, qa
    traces = []
    for ci, ladder in enumerate(([1, 2, 64], [1, 1.5, 3, 4, 96])):
        nc = 64
        rig = tempering.Rig(nc, ladder, 1)
        rng = np.random.default_rng(ctx.seed + ci)
        for mode in ("nan", "minus-infinity", "mixed", "all-nan"):
            res, pos = rig.fresh()
            key = jax.random.PRNGKey(1180 + ctx.seed + ci)
            ev = []
            N = nc * rig.r
            for call in range(2):
                ll, pr = np.round(rng.normal(size=N) * 5, 2), np.zeros(N)
                bad = rng.random(N) < 0.35
                if mode == "all-nan":
                    ll[:] = np.nan
                else:
                    val = np.where(rng.random(N) < 0.5, np.nan, -np.inf) if mode == "mixed" else (np.nan if mode == "nan" else -np.inf)
                    ll = np.where(bad, val, ll)
                r = ctx.attempt(f"exchange-{ci}-{mode}", rig.call, key, res, pos, ll, pr, True, False)
                if r is None:
                    break
                key, res, pos, e, _ = r
                ev.append(e)
            if ev:
                traces.append(dict(id=f"exchange-{ci}-{mode}", ev=ev, cfg=dict(r=rig.r, nc=nc, n=1, ids=rig.ids0.tolist(), t=qa(np.asarray(ladder, np.float32), S), tmax=q(ladder[-1], S))))
    return traces
