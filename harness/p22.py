"""P22: buffers, states and targets do exactly what is asked of them, in place."""
import core
from core import qa, q, bits


def run(ctx):
    for v in ("dim0", "copy"):
        ctx.model_check("ResourcesMC", f"ResourcesMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("ResourcesMC", "ResourcesMC_ok.cfg" if ctx.quick else "ResourcesMC_thorough.cfg")
    import resources
    with core.silence():
        traces = resources.histories(ctx, 30 if ctx.quick else 300)
        more = targets(ctx) + lambdas(ctx) + big(ctx)
    ctx.validate("ResourcesTrace", traces, resources.canary)
    ctx.validate("ResourcesTrace", more)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith("store-")]
    ctx.assumptions.append("updates that fit into the buffer, of the buffer's type, covering its other dimensions")


def same(a, b, what):
    return dict(op="same", a=a, b=b, what=what)


def targets(ctx):
    """LogPDF and TemperedPDF evaluate the function they were given, everywhere they are carried."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.logPDF import LogPDF, TemperedPDF, Variable
    ev = []
    U = 4096
    for nd in (1, 2, 5):
        def f(x, data):
            return jnp.sum(x * data["w"]) + data["c"][0] * x[0] ** 2

        def prior(x, data):
            return -jnp.sum(jnp.abs(x)) * data["w"][0]
        rng = np.random.default_rng(nd)
        names = [Variable(f"v{i}", bool(i % 2)) for i in range(nd)]
        seen = []

        def g(x, data):
            seen.append((np.shape(x), sorted(data), type(data).__name__))
            return f(x, data)
        ts = dict(plain=LogPDF(f, n_dims=nd), named=LogPDF(f, variables=list(names)), both=LogPDF(f, variables=list(names), n_dims=nd + 3),
                  tempered=TemperedPDF(f, prior, n_dims=nd, n_temps=3, max_temp=7), tempnamed=TemperedPDF(f, prior, variables=list(names)))
        for name, t in ts.items():
            ev.append(same(int(t.n_dims), nd, f"dimensions:{name}"))
            leaves, tree = jax.tree_util.tree_flatten(t)
            t2 = jax.tree_util.tree_unflatten(tree, leaves)
            ev.append(same(int(t2.n_dims), nd, f"dimensions-carried:{name}"))
            want = [[v.name, v.continuous] for v in names] if name in ("named", "both", "tempnamed") else [[f"x_{i}", True] for i in range(nd)]
            ev.append(same([[v.name, v.continuous] for v in t.variables], want, f"variables:{name}"))
            for k in range(4):
                x = jnp.asarray(rng.normal(size=nd), jnp.float32)
                data = {"w": jnp.asarray(rng.normal(size=nd), jnp.float32), "c": jnp.asarray([k - 1.5])}
                want = q(f(x, data), U)
                runs = dict(call=lambda: t(x, data), jit=lambda: jax.jit(lambda p, y, d: p(y, d))(t, x, data), carried=lambda: t2(x, data),
                            vmap=lambda: jax.vmap(t, in_axes=(0, None))(x[None], data)[0])
                for r, fn in runs.items():
                    v = ctx.attempt(f"target-{name}", fn)
                    ev.append(same(q(v, U) if v is not None else -1, want, f"value-{r}:{name}"))
                gr = ctx.attempt(f"target-{name}", lambda: jax.grad(t)(x, data))
                ev.append(same(qa(gr, 512) if gr is not None else [], qa(jax.grad(f)(x, data), 512), f"gradient:{name}"))
        LogPDF(g, n_dims=nd)(jnp.zeros(nd), {"w": jnp.ones(nd), "c": jnp.ones(1)})
        ev.append(same([list(seen[-1][0]), seen[-1][1], seen[-1][2], len(seen)], [[nd], ["c", "w"], "dict", 1], "arguments"))
    refused = "accepted"
    try:
        LogPDF(lambda x, d: 0.0)
    except ValueError:
        refused = "refused"
    ev.append(same(refused, "refused", "target-without-dimensions"))
    # the data are passed through untouched, whatever they are
    for d in ({}, {"a": 1}, None, [1, 2], "text"):
        got = []
        LogPDF(lambda x, dd: got.append(dd) or 0.0, n_dims=1)(jnp.zeros(1), d)
        ev.append(same("same" if got and got[0] is d else "different", "same", "data-identity"))
    return [dict(id="targets", ev=ev)]


def lambdas(ctx):
    """Lambda calls its function once with everything it was given and hands all of it on."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    ev, seen = [], []
    key, pos, data = jax.random.PRNGKey(3), jnp.arange(6.0).reshape(2, 3), {"k": jnp.ones(2)}
    b, s = Buffer("b", (2, 2), 0), State({"n": 1})
    res = {"b": b, "s": s}

    def fn(k, r, p, d):
        seen.append([k is key, r is res or (r["b"] is b and r["s"] is s), p is pos, d is data])
        r["b"].update_buffer(jnp.ones((1, 2)), 1)
        r["s"].update(["n"], [2])
    out = Lambda(fn)(key, res, pos, data)
    ev.append(same([["yes" if v else "no" for v in c] for c in seen], [["yes"] * 4], "function-called-once-with-the-arguments"))
    ev.append(same([bits(out[0]), bits(out[2])], [bits(key), bits(pos)], "handed-on"))
    ev.append(same(["yes" if out[1]["b"] is b and out[1]["s"] is s else "no", qa(b.data), s.data["n"]], ["yes", [[core.NINF] * 2, [1, 1]], 2], "effects-visible-to-all-holders"))
    ev.append(same(sorted(out[1]), ["b", "s"], "resources-handed-on"))
    return [dict(id="lambda", ev=ev)]


def big(ctx):
    """Long runs of appends through the cursor, in every dimension, against the concatenation."""
    import jax.numpy as jnp, numpy as np
    from flowMC.resource.buffers import Buffer
    ev = []
    rng = np.random.default_rng(ctx.seed)
    for shape, d in (((4, 200, 3), 1), ((4, 200), 1), ((300,), 0), ((3, 2, 50), 2)):
        b = Buffer("big", shape, d)
        ref = np.full(shape, -np.inf, np.float32)
        at = 0
        while at < shape[d] - 1:
            n = int(rng.integers(1, min(20, shape[d] - at) + 1))
            s = list(shape)
            s[d] = n
            v = rng.normal(size=s).astype(np.float32)
            b.update_buffer(jnp.asarray(v), at)
            idx = [slice(None)] * len(shape)
            idx[d] = slice(at, at + n)
            ref[tuple(idx)] = v
            at += n
            ev.append(same(bits(b.data), bits(ref), "append"))
    return [dict(id="appends", ev=ev)]
