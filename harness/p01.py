"""P01: the pipeline of strategies.  Generated programs are run by the real Sampler with stub
strategies; every call is recorded and validated against Pipeline.tla."""
import core


def run(ctx):
    for v in ("skip", "stale", "upfront"):
        ctx.model_check("PipelineMC", f"PipelineMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("PipelineMC", "PipelineMC_ok.cfg")
    progs = ctx.generate("PipelineGen", "PipelineGen.cfg", num=100 if ctx.quick else 600, depth=14)
    with core.silence():
        traces = drive(ctx, progs)
    ctx.validate("PipelineTrace", traces, canary)
    ctx.assumptions.append("strategies are stubs that honour the strategy interface; values are tokens")


def canary(t):
    import random
    calls = [e for e in t["ev"] if e["op"] == "call"]
    if len(calls) < 2:
        return None
    a = dict(t, ev=[dict(e) for e in t["ev"]])
    a["ev"].remove(calls[-1])                       # one call lost
    b = dict(t, ev=[dict(e) for e in t["ev"]])
    k = t["ev"].index(calls[1])
    b["ev"][k]["pos"] = 7777                        # a position not handed on
    return [a, b]


def drive(ctx, progs):
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.Sampler import Sampler
    from flowMC.strategy.base import Strategy
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.resource.states import State

    def keytok(k):
        return int(np.asarray(k)[-1])

    class Stub(Strategy):
        def __init__(self, name, eff, log, count):
            self.name, self.eff, self.log, self.count = name, eff, log, count

        def __call__(self, rng_key, resources, initial_position, data):
            self.count[0] += 1
            tok = 1000 + self.count[0]
            pos = np.asarray(initial_position)
            e = dict(op="call", name=self.name, key=keytok(rng_key), res=restok(resources),
                     pos=postok(pos), data=datatok(data))
            if self.eff["key"]:
                rng_key = jnp.array([0, tok], dtype=jnp.uint32)
            if self.eff["res"]:
                if tok % 3:     # replace the dictionary (what else it held is gone), or change in place
                    resources = {"tok": State({"v": tok}, name="tok")}
                    if tok % 3 == 2:
                        resources[f"extra{tok}"] = State({"v": tok}, name="extra")
                else:
                    resources["tok"].data["v"] = tok
                held[tok] = set(resources)
            if self.eff["pos"]:     # another number of chains, or another type, now and then
                n = pos.shape[0] + (tok % 4 == 1)
                initial_position = jnp.full((n, pos.shape[1]), tok, jnp.int32 if tok % 4 == 3 else jnp.float32)
                form[tok] = (initial_position.shape, str(initial_position.dtype))
            e.update(okey=keytok(rng_key), ores=restok(resources), opos=postok(initial_position))
            self.log.append(e)
            return rng_key, resources, initial_position

    def postok(p):
        p = np.asarray(p)
        if not p.size or not (p == p.flat[0]).all():
            return -1
        tok = int(p.flat[0])
        return tok if (p.shape, str(p.dtype)) == form.get(tok, (shape, "float32")) else -1

    def restok(r):
        v = r["tok"].data["v"]
        return v if set(r) == held[v] else -1

    def datatok(d):
        return int(d["x"]) if isinstance(d, dict) and set(d) == {"x", "y"} and d["y"] is DATA["y"] else -1

    held = {}       # the names of the resources each version was returned with
    form = {}       # the shape and type each position was returned with
    DATA = {"x": 41, "y": np.arange(3.0)}
    traces = []
    shape = (3, 2)
    for i, p in enumerate(progs):
        if i % 5 == 4:
            shape = (1, 2)
        else:
            shape = (3, 2)
        log, count = [], [0]
        form.clear(), held.clear()
        held[2] = {"tok", "other"}
        strategies = {n: Stub(n, e, log, count) for n, e in p["eff"].items()}
        resources = {"tok": State({"v": 2}, name="tok"), "other": State({}, name="other")}
        prog = [x for x in p["prog"]]
        s = Sampler(2, shape[0], jnp.array([0, 1], dtype=jnp.uint32), resources=resources,
                    strategies=strategies, strategy_order=list(prog), verbose=i % 4 == 3)
        ev = log
        for r in range(p["runs"]):
            start = 3 + 10 * r
            init = np.full(shape, start, (np.float32, np.int32)[i % 3 == 1])
            form[start] = (shape, str(init.dtype))
            if shape[0] == 1:
                init = init[0]          # a single point is accepted as one chain
            ev.append(dict(op="run", pos=start))
            try:
                s.sample(jnp.asarray(init), DATA)
            except Exception as e:
                if not isinstance(e, ValueError) and not core.from_repo(e):
                    raise
                ok = isinstance(e, ValueError) and next(x for x in prog if x not in p["eff"]) in str(e)
                ev.append(dict(op="raise", names="yes" if ok else "no"))
            else:
                ev.append(dict(op="end", res=restok(s.resources)))
            if ev[-1]["op"] == "raise":
                break       # what the sampler holds after an error is not specified
        traces.append(dict(id=f"program{i}", cfg=dict(key=1, res=2, pos=3, data=41, prog=prog,
                                                      avail=sorted(p["eff"]), eff=p["eff"]), ev=ev))

    # construction: where strategies come from, and settings of one sampler only
    class Bundle:
        def __init__(self):
            self.resources = {"b": State({"v": 5}, name="b")}
            self.strategies = {"b": Lambda(lambda *a: None)}
            self.strategy_order = ["b"]
    ev = []
    for hr in (False, True):
        for hs in (False, True):
            for hb in (False, True):
                kw = {}
                if hr:
                    kw["resources"] = {"tok": State({"v": 2}, name="tok")}
                if hs:
                    kw["strategies"] = {"a": Lambda(lambda *a: None)}
                    kw["strategy_order"] = ["a"]
                if hb:
                    kw["resource_strategy_bundles"] = Bundle()
                try:
                    s = Sampler(2, 3, jnp.array([0, 1], dtype=jnp.uint32), **kw)
                except ValueError:
                    out = "refused"
                else:
                    if hr and s.resources is not None and "tok" in s.resources and "a" in (s.strategies or {}) \
                            and s.strategy_order == ["a"]:
                        out = "own"
                    elif s.resources is not None and "b" in s.resources and "b" in s.strategies and s.strategy_order == ["b"]:
                        out = "bundle"
                    else:
                        out = "mixed"
                ev.append(dict(op="ctor", hasres=hr, hasstrat=hs, hasbundle=hb, outcome=out))

    def mk(**kw):
        return Sampler(2, 3, jnp.array([0, 1], dtype=jnp.uint32), resources={}, strategies={}, strategy_order=[], **kw)
    for name, val in (("verbose", True), ("logging", False), ("outdir", "/elsewhere/")):
        before = str(getattr(mk(), name))
        m = mk(**{name: val, "no_such_setting": 1})
        o = mk()
        ev.append(dict(op="override", name=name, mine=str(getattr(m, name)), want=str(val), other=str(getattr(o, name)),
                       before=before, cls=str(getattr(Sampler, name, "?")),
                       unknown="yes" if hasattr(m, "no_such_setting") else "no"))
    traces.append(dict(id="construction", cfg=dict(key=1, res=2, pos=3, data=41, prog=["a"], avail=["a"], eff={}), ev=ev))
    return traces
