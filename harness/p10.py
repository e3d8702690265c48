"""P10: global flow steps are exact independence Metropolis-Hastings steps.  A stub flow whose draws are
recognizable numbers, densities and targets from tables; proposals and acceptance variates measured from
outside, the paths followed by the specification."""
import core


def run(ctx):
    for v in ("stale", "batchmix"):
        ctx.model_check("Global", f"Global_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("MH", "MH_inverted.cfg", expect="Inv", workers=1)
    ctx.model_check("Global", "Global_ok.cfg" if ctx.quick else "Global_thorough.cfg")
    with core.silence():
        traces = drive(ctx) + real(ctx)
    ctx.validate("RecordsTrace", traces, canary)
    ctx.assumptions += ["decisions closer than 0.002 to the threshold are not judged",
                        "distribution of draws and acceptance variates: counts within 6 sigma"]


def canary(t):
    k = next((i for i, e in enumerate(t["ev"]) if e["op"] == "path" and 0 in e["acc"]), None)
    if k is None:
        return None
    a = dict(t, ev=[dict(e) for e in t["ev"]])
    e = a["ev"][k]
    i = e["acc"].index(0)
    e["acc"] = e["acc"][:i] + [1] + e["acc"][i + 1:]
    return [a]


M, LO = 1 << 22, 64


def flow(lo=LO):
    import jax, jax.numpy as jnp, numpy as np
    import realset
    from flowMC.resource.model.nf_model.base import NFModel

    class TableFlow(NFModel):
        """Draws are [id, -id] with uniform id; the density is looked up by id."""
        base: jax.Array
        qtab: jax.Array

        def __init__(self, base, qtab):
            realset.nf_fields(self, 2)
            self.base, self.qtab = base, qtab

        def log_prob(self, x):
            return self.qtab[x[0].astype(int) % 64]

        def sample(self, rng_key, n_samples):
            i = self.base + jax.random.randint(rng_key, (n_samples,), 0, M).astype(jnp.float32)
            return jnp.stack([i, -i], -1)

        def forward(self, x, key=None):
            return x, 0.0

        def inverse(self, x):
            return x, 0.0

        def print_parameters(self):
            pass

        def save_resource(self, path):
            pass

        def load_resource(self, path):
            pass
    return TableFlow(jnp.asarray(float(lo)), jnp.zeros(64))


def table_target(x, data):
    import jax.numpy as jnp
    i = x[0].astype(int)
    return data["tab"][i % 64] + jnp.where(i == data["kid"], data["bump"], 0.0)


class Runner:
    def __init__(self, n, batch):
        import jax, jax.numpy as jnp
        import equinox as eqx
        from flowMC.resource.kernel.NF_proposal import NFProposal
        from flowMC.resource.logPDF import LogPDF
        self.n = n
        self.logpdf = LogPDF(table_target, n_dims=2)
        self.kernel = NFProposal(flow(), n_NFproposal_batch_size=batch)
        logpdf = self.logpdf

        def f(base, qtab, keys, starts, tab, kids, bumps):
            k = eqx.tree_at(lambda z: z.model, self.kernel, eqx.tree_at(lambda m: (m.base, m.qtab), self.kernel.model, (base, qtab)))

            def one(key, start, kid, bump):
                data = dict(tab=tab, kid=kid, bump=bump)
                x = jnp.stack([start, -start])
                return k.kernel(key, x, logpdf(x, data), lambda x, d: logpdf(x, data), {**data, "n_steps": n})
            return jax.vmap(one)(keys, starts, kids, bumps)
        self.f = jax.jit(f)

    def __call__(self, keys, starts, lptab, qtab, kids, bumps, base=LO):
        import jax.numpy as jnp, numpy as np
        f32 = lambda a: jnp.asarray(a, jnp.float32)
        p, l, a = self.f(f32(base), f32(qtab), keys, f32(starts), f32(lptab), jnp.asarray(kids), f32(bumps))
        return np.asarray(p), np.asarray(l), np.asarray(a).astype(int)


def uniforms(run, keys, ids, start, iters=24):
    """log u of every step of every run: with equal weights everything is accepted; lowering the target
    of the k-th proposal alone by c, step k is accepted exactly when log u < c."""
    import numpy as np
    n_runs, n = ids.shape
    out = np.zeros((n_runs, n))
    z = np.zeros(64)
    st = np.full(n_runs, float(start))
    for k in range(n):
        lo, hi = np.full(n_runs, -30.0), np.zeros(n_runs)
        for _ in range(iters):
            mid = (lo + hi) / 2
            a = run(keys, st, z, z, ids[:, k], mid)[2][:, k] == 1
            hi = np.where(a, mid, hi)
            lo = np.where(a, lo, mid)
        out[:, k] = (lo + hi) / 2
    return out


def drive(ctx):
    import jax, jax.numpy as jnp, numpy as np
    from core import qa, q
    S = 4096
    traces = []
    rng = np.random.default_rng(ctx.seed)
    combos = [(1, 1), (1, 5), (5, 2), (6, 3), (7, 3), (4, 4), (5, 4), (3, 10), (9, 4), (10, 3)]
    if not ctx.quick:
        combos += [(n, b) for n in range(1, 13) for b in (1, 2, 3, 5, 7, 12) if (n, b) not in combos]
    key = jax.random.PRNGKey(1000 + ctx.seed)
    few = 8 if ctx.quick else 30
    for n, b in combos:
        many = (1500 // n + 40) if ctx.quick else (4000 // n + 40)
        name = f"steps{n}-batch{b}"
        key, sub = jax.random.split(key)
        keys = jax.random.split(sub, many)
        r = ctx.attempt(name, Runner, n, b)
        if r is None:
            continue
        z, st, no = np.zeros(64), np.full(many, 5.0), np.full(many, -1)
        out = ctx.attempt(name, r, keys, st, z, z, no, np.zeros(many))
        if out is None:
            continue
        ids = out[0][..., 0].astype(int)
        if ids.shape != (many, n) or not (out[2] == 1).all():
            ctx.fails.append(dict(scenario=name, clause="equal-weights-not-all-accepted", line=0, module="", event=str(ids.shape), trace=None))
            continue
        lu = uniforms(r, keys, ids, 5)
        ev = [dict(op="draws", n=n, lo=LO, hi=LO + M, ids=ids.tolist(), u=qa(np.exp(lu), S))]
        # paths with random tables
        for rep in range(few):
            lpt = np.round(rng.normal(size=64) * 2, 2)
            qt = np.round(rng.normal(size=64) * 1.5, 2)
            if rep % 4 == 2:    # target and flow together over many orders of magnitude
                wide = np.round(rng.normal(size=64) * 60, 2)
                lpt, qt = lpt + wide, qt + wide
            if rep % 4 == 3:    # some invalid targets
                lpt = np.where(rng.random(64) < 0.3, -np.inf, lpt)
                lpt = np.where(rng.random(64) < 0.2, np.nan, lpt)
            s0 = rep % 64
            if not np.isfinite(lpt[s0]):
                lpt[s0] = 0.5
            p, l, a = r(keys, np.full(many, float(s0)), lpt, qt, no, np.zeros(many))
            for i in range(rep, rep + 6):
                ev.append(path_event(ids[i], lpt[ids[i] % 64], qt[ids[i] % 64], lu[i], p[i, :, 0], l[i], a[i], lpt[s0], qt[s0], s0))
        # another flow in the same kernel
        p, l, a = r(keys, st, z, z, no, np.zeros(many), base=LO + 2 * M)
        ev.append(dict(op="draws", n=n, lo=LO + 2 * M, hi=LO + 3 * M, ids=p[..., 0].astype(int).tolist(), u=qa(np.exp(lu), S)))
        if (n, b) in ((3, 10), (5, 2)):
            ev += rare(r, sub, n)
        traces.append(dict(id=name, ev=ev))
    return traces


def rare(run, key, n, block=50_000, blocks=8):
    """How often steps down by 2, 6, 8 and 10 are accepted: one event each, of the steps from the start."""
    import jax, numpy as np
    import kern
    start, z, out = 5, np.zeros(64), []
    for k, d in enumerate(kern.RARE):
        tab = np.zeros(64)
        tab[start] = d / 2      # half by the target, half by the flow
        trials = count = 0
        for b in range(blocks):
            keys = jax.random.split(jax.random.fold_in(key, 10 * b + k + 1), block)
            p, _, a = run(keys, np.full(block, float(start)), tab, -tab, np.full(block, -1), np.zeros(block))
            # still at the start before the step, and (as far as one can tell) not proposed a state as good
            here = np.concatenate([np.ones((block, 1), bool), p[:, :-1, 0] == start], 1)
            good = (a == 1) & (p[..., 0].astype(int) % 64 == start)
            trials += int((here & ~good).sum())
            count += int((here & ~good & (a == 1)).sum())
        out.append(dict(op="rare", k=k + 1, n=trials, count=count))
    return out


def path_event(ids, lps, qs, lu, pos, l, a, lp0, q0, s0, tol=8):
    """pos: identity of the recorded states; lps of the states by their own record when rejected."""
    import numpy as np
    from core import qa, q
    S = 4096
    cur, lpcur = lp0, []
    for k in range(len(ids)):       # what a rejected step should keep, by the observed flags
        lpcur.append(q(cur, S))
        if a[k]:
            cur = np.float32(lps[k])
    return dict(op="path", id0=int(s0), lp0=q(lp0, S), q0=q(q0, S), lu=qa(lu, S), tol=tol,
                props=[dict(id=int(i), lp=q(np.float32(x), S), q=q(np.float32(y), S)) for i, x, y in zip(ids, lps, qs)],
                pos=[int(v) for v in pos], lps=[q(v, S) for v in l], acc=[int(v) for v in a], lpcur=lpcur)


def real(ctx):
    """A real flow as the proposal."""
    import jax, jax.numpy as jnp, numpy as np
    import equinox as eqx
    from core import bits
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.logPDF import LogPDF
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.model.nf_model.rqSpline import MaskedCouplingRQSpline
    import realset
    traces = []
    nd = 2
    d = realset.data(nd)
    models = dict(realnvp=realset.randomize(RealNVP(nd, 2, 4, jax.random.PRNGKey(1)), 3, 0.2))
    if not ctx.quick:
        models["rqspline"] = realset.randomize(MaskedCouplingRQSpline(nd, 2, [4], 4, jax.random.PRNGKey(1)), 3, 0.2)
    for name, m in models.items():
        for n, b in ((6, 4),) if ctx.quick else ((6, 4), (5, 100), (7, 2)):
            kern = NFProposal(m, n_NFproposal_batch_size=b)

            def tgt(x, data):       # the flow's own density (+ bump at one point), or a real target
                own = m.log_prob(x) + jnp.where(jnp.all(x == data["pt"]), data["bump"], 0.0)
                return jnp.where(data["real"] > 0, realset.target(x, d), own)
            lp = LogPDF(tgt, n_dims=nd)

            @jax.jit
            def f(keys, x0, pts, bumps, real_):
                def one(key, pt, bump):
                    data = dict(pt=pt, bump=bump, real=real_)
                    return kern.kernel(key, x0, lp(x0, data), lambda x, _: lp(x, data), {"n_steps": n})
                return jax.vmap(one)(keys, pts, bumps)
            N = 40 if ctx.quick else 120
            keys = jax.random.split(jax.random.PRNGKey(77 + ctx.seed), N)
            x0 = jnp.asarray([0.3, -0.4])
            out = ctx.attempt(f"real-{name}", f, keys, x0, jnp.full((N, nd), 99.0), jnp.zeros(N), 0.0)
            if out is None:
                continue
            # own density: nothing but rounding decides, so lower the start far below
            props = None

            @jax.jit
            def g(keys):            # reveal the proposals: a target that grows with every step is not
                def one(key):       # available, so accept everything by a huge bump of the flow target
                    return kern.kernel(key, x0, -1e6, lambda x, _: m.log_prob(x), {"n_steps": n})
                return jax.vmap(one)(keys)
            P, L, A = map(np.asarray, g(keys))
            P = P.astype(np.float32)
            if not (A == 1).all():  # a variate within rounding of one
                keep = (A == 1).all(1)
                keys, P = keys[keep], P[keep]
            N = len(keys)
            lu = np.zeros((N, n))
            for k in range(n):
                lo, hi = np.full(N, -30.0), np.zeros(N)
                for _ in range(22):
                    mid = (lo + hi) / 2
                    a = np.asarray(f(keys, x0, jnp.asarray(P[:, k]), jnp.asarray(mid, jnp.float32), 0.0)[2])[:, k] == 1
                    hi, lo = np.where(a, mid, hi), np.where(a, lo, mid)
                lu[:, k] = (lo + hi) / 2
            p, l, a = map(np.asarray, f(keys, x0, jnp.full((N, nd), 99.0), jnp.zeros(N), 1.0))
            lpx = np.asarray(jax.vmap(jax.vmap(lambda x: realset.target(x, d)))(jnp.asarray(P)))
            qx = np.asarray(jax.vmap(jax.vmap(m.log_prob))(jnp.asarray(P)))
            ev = []
            for i in range(N):
                ids = [int(bits(P[i, k])[:7], 16) for k in range(n)]
                pos = [int(bits(p[i, k].astype(np.float32))[:7], 16) for k in range(n)]
                s0 = int(bits(np.asarray(x0, np.float32))[:7], 16)
                e = path_event(ids, lpx[i], qx[i], lu[i], pos, l[i], a[i],
                               float(realset.target(x0, d)), float(m.log_prob(x0)), s0, tol=30)
                # values of the library and of this harness differ by rounding
                e["lps"] = [min([pr["lp"] for pr in e["props"]] + [e["lp0"]], key=lambda v: abs(v - w)) if abs(w) < 10**8 else w for w in e["lps"]]
                ev.append(e)
            traces.append(dict(id=f"real-{name}-{n}-{b}", ev=ev))
    return traces
