"""Driver shared by P11, P12, P13, P14: histories of real ParallelTempering calls with a counting kernel."""
import jax, jax.numpy as jnp, numpy as np
from core import q, qa, bits
S = 4096


def kernel():
    from flowMC.resource.kernel.base import ProposalBase

    class TagKernel(ProposalBase):
        """One step: the counter goes up by one and the value of the target is noted."""
        def __init__(self):
            pass

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            here = logpdf(position, data)
            wrong = jnp.where((log_prob == here) | (jnp.isnan(log_prob) & jnp.isnan(here)), 0.0, 1.0)
            new = position.at[1].add(1.0).at[2].set(here).at[3].add(wrong)
            return new, logpdf(new, data), jnp.asarray(True)

        def print_parameters(self):
            pass

        def save_resource(self, path):
            pass

        def load_resource(self, path):
            pass
    return TagKernel()


def loglik(x, data):
    return data["ll"][x[0].astype(int)]


def logprior(x, data):
    return data["pr"][x[0].astype(int)]


class Rig:
    def __init__(self, nc, ladder, n_steps):
        from flowMC.strategy.parallel_tempering import ParallelTempering
        from flowMC.resource.logPDF import TemperedPDF
        self.nc, self.ladder, self.r, self.n = nc, ladder, len(ladder), n_steps
        self.k = kernel()
        self.pdf = TemperedPDF(loglik, logprior, n_dims=4)
        self.strat = ParallelTempering(n_steps=n_steps, tempered_logpdf_name="tp", kernel_name="k",
                                       tempered_buffer_names=["tpos", "temps"], state_name="st")
        self.ids0 = np.arange(1, nc * self.r + 1).reshape(nc, self.r)

    def fresh(self, ladder=None):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        res = {"k": self.k, "tp": self.pdf, "tpos": Buffer("tpos", (self.nc, self.r - 1, 4), 2),
               "temps": Buffer("temps", (self.r,), 0), "st": State({"training": True}, name="st")}
        x = np.zeros((self.nc, self.r, 4), np.float32)
        x[..., 0] = self.ids0
        res["tpos"].update_buffer(jnp.asarray(x[:, 1:]), 0)
        res["temps"].update_buffer(jnp.asarray(self.ladder if ladder is None else ladder, jnp.float32), 0)
        return res, jnp.asarray(x[:, 0])

    def copy(self, res):
        from flowMC.resource.buffers import Buffer
        from flowMC.resource.states import State
        out = dict(res)
        for b in ("tpos", "temps"):
            out[b] = Buffer(b, res[b].data.shape, res[b].cursor_dim)
            out[b].data = res[b].data
        out["st"] = State(dict(res["st"].data), name="st")
        return out

    def tables(self, ll, pr):
        return {"ll": jnp.asarray(np.concatenate([[0.0], ll]), jnp.float32), "pr": jnp.asarray(np.concatenate([[0.0], pr]), jnp.float32)}

    def uniforms(self, key, res, pos, iters=17):
        """log u of every chain and pair: all likelihoods equal, every pair below is exchanged; lowering
        the likelihood of the state above by c/gap, the pair is exchanged exactly when log u < c."""
        x = np.concatenate([np.asarray(pos)[:, None], np.asarray(res["tpos"].data)], 1)
        ids = x[..., 0].astype(int)
        t = np.asarray(res["temps"].data, float)
        out = np.zeros((self.nc, self.r - 1))
        for i in range(self.r - 1):
            lo, hi = np.full(self.nc, -24.0), np.zeros(self.nc)
            gap = 1 / t[i] - 1 / t[i + 1]
            for _ in range(iters):
                mid = (lo + hi) / 2
                ll = np.zeros(self.nc * self.r)
                ll[ids[:, i + 1] - 1] = mid / gap
                r2 = self.copy(res)
                _, r2, p2 = self.strat(key, r2, pos, self.tables(ll, np.zeros_like(ll)))
                y = np.concatenate([np.asarray(p2)[:, None], np.asarray(r2["tpos"].data)], 1)
                # exchanged: the state of the upper slot moved down
                a = y[:, i, 0].astype(int) == ids[:, i + 1]
                hi, lo = np.where(a, mid, hi), np.where(a, lo, mid)
            out[:, i] = (lo + hi) / 2
        return out

    def call(self, key, res, pos, ll, pr, rule=True, temper=True, tol=30):
        """One call; returns key, resources, position and the event."""
        lu = self.uniforms(key, res, pos) if rule else np.zeros((self.nc, self.r - 1))
        t = np.asarray(res["temps"].data)
        x = np.concatenate([np.asarray(pos)[:, None], np.asarray(res["tpos"].data)], 1)
        data = self.tables(ll, pr)
        given, gdata = np.array(pos), {k: np.array(v) for k, v in data.items()}
        key2, res, out = self.strat(key, res, pos, data)
        same = bits(given) == bits(np.asarray(pos)) and all(bits(gdata[k]) == bits(np.asarray(data[k])) for k in data) and len(data) == 2
        h, t2 = np.asarray(res["tpos"].data), np.asarray(res["temps"].data)
        o = np.asarray(out)
        st = lambda v: dict(id=q(v[0]), ctr=q(v[1]), tv=q(v[2], S), err=q(v[3]))
        ev = dict(op="call", t=qa(t, S), t2=qa(t2, S), tbits=bits(t), tbits2=bits(t2), input="same" if same else "modified",
                  cold=[st(v) for v in o], hot=[[st(v) for v in w] for w in h], ctr0=qa(x[..., 1]),
                  ll=qa(ll, S), pr=qa(pr, S), lu=qa(lu, S), rule=rule, temper=temper, tol=tol)
        return key2, res, out, ev, lu


def canary(t):
    import copy
    k = next((i for i, e in enumerate(t["ev"]) if e["op"] == "call"), None)
    if k is None:
        return None
    out = []
    a = copy.deepcopy(t)        # an illegal permutation / lost replica
    a["ev"][k]["cold"][0] = dict(a["ev"][k]["cold"][0], id=a["ev"][k]["hot"][0][0]["id"])
    out.append(a)
    c = copy.deepcopy(t)        # the hottest temperature moves
    c["ev"][k]["t2"][-1] += 7
    out.append(c)
    return out


def drive(ctx, num, rule=True):
    hists = ctx.generate("TemperingGen", "TemperingGen.cfg", num=num, depth=7)
    configs = [([1, 2, 64], 1, 64), ([1, 2], 150, 64), ([1, 1.25, 2, 64], 2, 64), ([1, 1.5, 3, 4, 96], 1, 64)]
    if not ctx.quick:
        configs += [([1, 4, 6, 8, 10, 128], 3, 64), ([1, 1.0625, 32], 4, 64)]
    configs.append(([1, 2000, 8000], 2, 64))
    configs.append(([1, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 5, 5.5, 6, 6.5, 256], 1, 64))      # many temperatures
    configs.append(([1, 3], 2, 1))      # one chain
    traces = []
    rng = np.random.default_rng(ctx.seed)
    unif = {(ci, i): [] for ci in range(len(configs)) for i in range(12)}
    for ci, (ladder, n, nc) in enumerate(configs):
        rig = Rig(nc, ladder, n)
        scale = 25.0 if ladder[-1] > 1000 else 1.0      # likelihoods that matter for the hottest
        mine = [h for i, h in enumerate(hists) if i % len(configs) == ci] + [["fresh", "switch", "fresh", "again"]]
        mine.append(["switch", "none", "rare", "often", "fresh"] if ci % 2 else ["rare", "switch", "often", "none", "rare"])
        if ci == 0:
            mine.append(["fresh", "again", "steep", "flat", "switch", "steep"])
        for hi, h in enumerate(mine):
            name = f"ladder{ci}-history{hi}"
            res, pos = rig.fresh()
            key = jax.random.PRNGKey(1200 + 17 * ctx.seed + 100 * ci + hi)
            ev = []
            N = nc * rig.r
            ll, pr = None, None
            broken = False
            for o in h:
                if o == "switch":
                    res["st"].data["training"] = not res["st"].data["training"]
                    ev.append(dict(op="switch"))
                    continue
                if o == "fresh" or (o == "again" and ll is None):
                    ll = np.round(rng.normal(size=N) * 6 * scale, 2)
                    pr = np.round(rng.normal(size=N) * 3, 2)
                elif o == "flat":
                    ll, pr = np.full(N, 1.5), np.round(rng.normal(size=N) * 3, 2)
                elif o == "steep":      # colder replicas fit less well in some chains
                    slot = np.tile(np.arange(rig.r), nc)
                    ll = np.round(slot * rng.uniform(-2, 3, N), 2)
                    pr = np.zeros(N)
                elif o in ("rare", "often", "none"):    # hardly any exchange, nearly all, none: by where the states are now
                    ids = np.concatenate([np.asarray(pos)[:, None], np.asarray(res["tpos"].data)], 1)[..., 0].astype(int)
                    ll, pr = np.zeros(N), np.zeros(N)
                    ll[ids - 1] = (200.0 if o == "often" else -200.0) * np.arange(rig.r)
                    if o != "none":
                        ll[ids[hi % 5:hi % 5 + 2, 0] - 1] += -210.0 if o == "rare" else 210.0     # a few chains the other way for the coldest pair
                r = ctx.attempt(name, rig.call, key, res, pos, ll, pr, rule)
                if r is None:
                    broken = True
                    break
                key, res, pos, e, lu = r
                ev.append(e)
                for i in range(rig.r - 1):
                    unif[ci, i].append(lu[:, i])
            if ev:
                traces.append(dict(id=name, ev=ev, cfg=dict(r=rig.r, nc=nc, n=n, ids=rig.ids0.tolist(), t=qa(np.asarray(ladder, np.float32), S), tmax=q(ladder[-1], S))))
    if not rule:
        return traces
    ev = []
    for u in unif.values():     # of every ladder and pair by itself
        if u:
            ev.append(dict(op="uniforms", a=qa(np.exp(np.concatenate(u)), S), b=[]))
    # how often an exchange with a ratio of -2, -6, -8 and -10 happens, in a million
    import kern
    big, gap = 120_000, 0.75
    rig = Rig(big, [1, 4], 1)
    res, pos = rig.fresh()
    for k, d in enumerate(kern.RARE):
        count = 0
        for b in range(10 if d > 8 else 4):
            ll = np.zeros(2 * big)
            ll[rig.ids0[:, 1] - 1] = -d / gap
            res2 = rig.copy(res)
            res2["st"].data["training"] = False
            r = ctx.attempt("variates", rig.strat, jax.random.PRNGKey(5000 + 40 * ctx.seed + 10 * k + b), res2, pos, rig.tables(ll, np.zeros(2 * big)))
            if r is None:
                return traces
            count += int((np.asarray(r[2])[:, 0].astype(int) == rig.ids0[:, 1]).sum())
        ev.append(dict(op="rare", k=k + 1, n=big * (b + 1), count=count))
    # pairs of the same sweep, and the same pair in successive calls
    both = [(u, v) for u, v in zip(unif[0, 0][:-1], unif[0, 0][1:])]
    if both:
        ev.append(dict(op="uniforms", a=qa(np.exp(np.concatenate([b[0] for b in both])), S), b=qa(np.exp(np.concatenate([b[1] for b in both])), S)))
    traces.append(dict(id="variates", ev=ev, cfg=dict(r=2, nc=1, n=1, ids=[[1, 2]], t=[S, 2 * S], tmax=2 * S)))
    return traces
