"""Driver shared by P05 and P06: complete runs of the real bundles through the real Sampler, with a
counting local kernel and a flow that says which version of it made a draw."""
import numpy as np
import jax, jax.numpy as jnp
import core, realset
from core import q, qa, bits
S = 4096
ND = 5      # [tag, ctr, kind, version, nonce]


def target(x, data):
    w = jnp.asarray([0.7, 1.3, 2.1, 0.9, 0.37])
    return 2.0 * jnp.sin(jnp.sum(x * w)) + data["shift"]


def parts(log, sizes):
    from flowMC.resource.kernel.base import ProposalBase
    from flowMC.resource.model.nf_model.base import NFModel

    @jax.custom_batching.custom_vmap
    def seen(x):
        return x

    @seen.def_vmap
    def _(axis_size, in_batched, x):
        sizes["group"] = max(sizes["group"], axis_size)
        return seen(x), in_batched[0]

    class Local(ProposalBase):
        def __init__(self):
            pass

        def kernel(self, rng_key, position, log_prob, logpdf, data):
            position = seen(position)
            new = position.at[1].add(1.0).at[2].set(1.0)
            return new, logpdf(new, data), new[1] % 3 == 1

        def print_parameters(self):
            pass

        def save_resource(self, path):
            pass

        def load_resource(self, path):
            pass

    class Flow(NFModel):
        ver: jax.Array

        def __init__(self, ver):
            realset.nf_fields(self, ND)
            self.ver = ver

        def log_prob(self, x):
            return jnp.sin(3.0 * x[4])

        def sample(self, rng_key, n_samples):
            sizes["draws"] = max(sizes["draws"], int(n_samples))
            nonce = jax.random.randint(rng_key, (n_samples,), 1, 1 << 20).astype(jnp.float32)
            z = jnp.zeros_like(nonce)
            return jnp.stack([z, z, z + 2.0, z + self.ver, nonce], -1)

        def forward(self, x, key=None):
            return x, 0.0

        def inverse(self, x):
            return x, 0.0

        def train(self, rng, data, optim, state, num_epochs, batch_size, verbose=True):
            log.append(dict(rows=np.array(data), state=int(np.asarray(state["n"])), ver=int(np.asarray(self.ver)), epochs=num_epochs, batch=batch_size))
            v = self.ver + 1
            return rng, Flow(v), {"n": state["n"] + 1}, 100.0 * v + jnp.arange(1, num_epochs + 1)

        def print_parameters(self):
            pass

        def save_resource(self, path):
            pass

        def load_resource(self, path):
            pass
    return Local(), Flow(jnp.asarray(0.0))


NAMES = dict(posT="positions_training", lpT="log_prob_training", laT="local_accs_training", gaT="global_accs_training",
             posP="positions_production", lpP="log_prob_production", laP="local_accs_production", gaP="global_accs_production",
             loss="loss_buffer")


def entry(p):
    return [q(v) for v in np.asarray(p)]


def hot(res, nc):
    if "tempered_positions" not in res:
        return [[] for _ in range(nc)]
    return [[entry(p) for p in c] for c in np.asarray(res["tempered_positions"].data)]


def snapshot(res):
    out = {k: np.array(res[v].data) for k, v in NAMES.items()}
    out["ver"] = int(np.asarray(res["model"].ver))
    out["opt"] = int(np.asarray(res["optimizer"].optim_state["n"]))
    out["temps"] = np.array(res["temperatures"].data) if "temperatures" in res else np.zeros(1)
    return out


def delta(a, b, lptgt):
    d = []
    for k in NAMES:
        x, y = a[k], b[k]
        if x.shape != y.shape:
            return None
        if k == "loss":
            for c in np.nonzero(x != y)[0]:
                d.append(dict(n=k, c=int(c) + 1, v=q(y[c])))
            continue
        ch = (x != y) if x.ndim == 2 else (x != y).any(-1)
        for c in np.nonzero(ch.any(0))[0]:
            if k.startswith("pos"):
                v = [entry(y[i, c]) for i in range(len(y))]
                t = np.asarray(lptgt(y[:, c]))
                d.append(dict(n="tlp" + k[-1], c=int(c) + 1, v=qa(t, S)))
            elif k.startswith("lp"):
                v = qa(y[:, c], S)
            else:
                v = qa(y[:, c])
            d.append(dict(n=k, c=int(c) + 1, v=v))
    return d


class Wrap:
    def __init__(self, inner, hook):
        self.inner, self.hook = inner, hook

    def __call__(self, *a):
        return self.hook(self.inner, a)


def run_bundle(c, seed, second=False):
    """One complete run; the events."""
    from flowMC.Sampler import Sampler
    from flowMC.resource_strategy_bundle.RQSpline_MALA import RQSpline_MALA_Bundle
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    kw = dict(n_local_steps=c["nl"], n_global_steps=c["ng"], n_training_loops=c["tr"], n_production_loops=c["pr"],
              n_epochs=c["ep"], chain_batch_size=c["batch"], rq_spline_hidden_units=[2], rq_spline_n_bins=2, rq_spline_n_layers=1,
              batch_size=c.get("bs", 7), n_max_examples=c["nmax"], local_thinning=c["lt"], global_thinning=c["gt"], n_NFproposal_batch_size=c["nfb"])
    if c["pt"]:
        b = RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(seed), c["nc"], ND, target, n_temperatures=c["pt"], max_temperature=4.0,
                                    n_tempered_steps=c["nts"], history_window=c["hist"], **kw)
    else:
        b = RQSpline_MALA_Bundle(jax.random.PRNGKey(seed), c["nc"], ND, target, **kw)
    log = []
    sizes = dict(group=0, draws=0)
    local, flow = parts(log, sizes)
    import equinox as eqx
    b.resources["local_sampler"] = local
    b.resources["model"] = flow
    b.resources["global_sampler"] = eqx.tree_at(lambda g: g.model, b.resources["global_sampler"], flow)
    b.resources["optimizer"].optim_state = {"n": jnp.asarray(0)}
    data = {"shift": jnp.asarray(0.5)}
    lptgt = jax.jit(jax.vmap(lambda x: target(x, data)))
    ev = []
    run = [1]
    prodwrite = []

    def hook(inner, args):
        key, res, pos, dat = args
        before = snapshot(res)
        tr0 = res["sampler_state"].data.get("training")
        n = len(log)
        pin = np.array(pos)
        hotin = hot(res, len(pin))
        sizes.update(group=0, draws=0)
        out = inner(*args)
        key2, res2, pos2 = out
        after = snapshot(res2)
        d = delta(before, after, lptgt)
        e = dict(op="strategy", pin=[entry(p) for p in pin], pout=[entry(p) for p in np.asarray(pos2)],
                 d=d if d is not None else [dict(n="shape", c=1, v=0)], train="yes" if len(log) > n else "no",
                 ver2=after["ver"], opt2=after["opt"], temps="same" if bits(before["temps"]) == bits(after["temps"]) else "changed",
                 switched="yes" if tr0 is True and res2["sampler_state"].data.get("training") is False else "no", rows=[], optin=0, tver=0, conf="same",
                 hotin=hotin, hotout=hot(res2, len(pin)), group=sizes["group"], draws=sizes["draws"])
        if len(log) > n:
            g = log[-1]
            e.update(rows=[entry(r) for r in np.unique(g["rows"], axis=0)], optin=g["state"], tver=g["ver"],
                     conf="same" if g["epochs"] == c["ep"] and g["batch"] == c.get("bs", 7) and len(g["rows"]) == c["nmax"] and len(log) == n + 1 else "different")
        if run[0] == 1:
            ev.append(e)
        prodwrite.append((run[0], any(x["n"] in ("posP", "lpP", "laP", "gaP") for x in e["d"])))
        return out
    for k in list(b.strategies):
        b.strategies[k] = Wrap(b.strategies[k], hook)
    s = Sampler(ND, c["nc"], jax.random.PRNGKey(seed + 1), resource_strategy_bundles=b)
    start = np.zeros((c["nc"], ND), np.float32)
    start[:, 0] = np.arange(1, c["nc"] + 1)
    s.sample(jnp.asarray(start), data)
    f = snapshot(s.resources)
    lc, gc = c["nl"] // c["lt"], c["ng"] // c["gt"]
    unf = 0
    for ph, loops in (("T", c["tr"]), ("P", c["pr"])):
        unf += int((~np.isfinite(f["pos" + ph])).sum() + (~np.isfinite(f["lp" + ph])).sum())
        la = np.tile(np.array([1] * lc + [0] * gc), loops)
        for i in range(c["nc"]):
            if f["la" + ph].shape[1] == len(la):
                unf += int((np.isfinite(f["la" + ph][i]) != (la == 1)).sum() + (np.isfinite(f["ga" + ph][i]) != (la == 0)).sum())
    unf += int((~np.isfinite(f["loss"])).sum())
    ev.append(dict(op="end", sizeT=f["posT"].shape[1], sizeP=f["posP"].shape[1], unfilled=unf, lossize=len(f["loss"])))
    if second:
        m = next(i for i, (_, w) in enumerate(prodwrite) if w)      # strategies before the first production sample
        n1 = len(prodwrite)
        run[0] = 2
        s.sample(jnp.asarray(start), data)
        bad = any(w for _, w in prodwrite[n1:n1 + m])
        ev.append(dict(op="second", overwritten="yes" if bad else "no"))
    return ev


FIXED = [dict(nl=4, ng=3, lt=1, gt=1, tr=2, pr=2, ep=2, pt=0, nts=-1, nc=3, batch=0, nmax=20, hist=100, seed=0, nfb=100),
         dict(nl=5, ng=3, lt=2, gt=2, tr=2, pr=1, ep=1, pt=3, nts=2, nc=3, batch=2, nmax=20, hist=100, seed=1, nfb=2),
         dict(nl=2, ng=5, lt=1, gt=3, tr=3, pr=2, ep=3, pt=2, nts=-1, nc=2, batch=0, nmax=6, hist=2, seed=2, nfb=2),
         dict(nl=3, ng=2, lt=3, gt=1, tr=0, pr=2, ep=1, pt=0, nts=-1, nc=2, batch=0, nmax=6, hist=2, seed=2, nfb=100),
         dict(nl=3, ng=2, lt=1, gt=1, tr=2, pr=0, ep=1, pt=0, nts=-1, nc=2, batch=0, nmax=6, hist=2, seed=3, nfb=100),
         dict(nl=5, ng=3, lt=2, gt=2, tr=3, pr=2, ep=1, pt=0, nts=-1, nc=2, batch=0, nmax=9, hist=100, seed=4, nfb=2),
         dict(nl=2, ng=7, lt=1, gt=4, tr=2, pr=3, ep=2, pt=0, nts=-1, nc=1, batch=2, nmax=9, hist=100, seed=5, nfb=3),
         dict(nl=5, ng=5, lt=3, gt=3, tr=2, pr=3, ep=1, pt=2, nts=1, nc=1, batch=0, nmax=9, hist=1, seed=6, nfb=3),
         dict(nl=1, ng=1, lt=1, gt=1, tr=3, pr=3, ep=1, pt=4, nts=1, nc=4, batch=3, nmax=9, hist=4, seed=7, nfb=1),
         dict(nl=3, ng=2, lt=1, gt=1, tr=0, pr=2, ep=1, pt=3, nts=1, nc=2, batch=0, nmax=6, hist=2, seed=8, nfb=100)]


def one(ctx, name, c, second=False):
    if c["nl"] // c["lt"] + c["ng"] // c["gt"] == 0 or c["tr"] + c["pr"] == 0:
        return []
    ev = ctx.attempt(name, run_bundle, c, c["seed"], second)
    return [dict(id=name, cfg=c, ev=ev)] if ev else []


def drive(ctx, num, more=()):
    jobs = [("one", f"config{i}", c) for i, c in enumerate(FIXED)] + list(more)
    jobs += [("one", f"generated{i}", c) for i, c in enumerate(ctx.generate("BundleGen", "BundleGen.cfg", num=num, depth=3))]
    return ctx.parallel("bundle", jobs)


def canary(t):
    import copy
    k = next((i for i, e in enumerate(t["ev"]) if e.get("train") == "yes"), None)
    if k is None:
        return None
    a, b = copy.deepcopy(t), copy.deepcopy(t)
    a["ev"].pop(k)                                   # a training pass lost
    j = next(i for i, e in enumerate(t["ev"]) if any(x["n"] == "posT" for x in e.get("d", [])))
    for x in b["ev"][j]["d"]:
        if x["n"] == "posT":
            x["c"] += 1                             # written one column further
    return [a, b]
