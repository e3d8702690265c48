"""P24: strategies touch only what they are configured with and depend on nothing else.  Pairs of runs of
programs of real strategies through the real Sampler, against System.tla."""
import core
from core import bits

NC, ND, COLS, NT = 4, 2, 48, 3
REN = dict(zip(["logpdf", "tpdf", "kerL", "kerG", "model", "opt", "state", "loss", "tpos", "temps", "other",
                "posA", "lpA", "laA", "gaA", "posB", "lpB", "laB", "gaB"],
               ["target_x", "tt_x", "loc_x", "glo_x", "mod_x", "optim_x", "phase_x", "ls_x", "tp_x", "tm_x", "oth_x",
                "pa_x", "pl_x", "pla_x", "pga_x", "ba_x", "bl_x", "bla_x", "bga_x"]))


def target(x, data):
    import jax.numpy as jnp
    return -0.5 * jnp.sum((x - data["shift"]) ** 2) - 0.1 * x[0] ** 4


def target2(x, data):
    import jax.numpy as jnp
    return -0.7 * jnp.sum(jnp.abs(x + data["shift"])) - 0.2 * x[1] ** 2


def prior(x, data):
    import jax.numpy as jnp
    return -0.05 * jnp.sum(x ** 2)


def world(seed, D=(), nm=lambda n: n, extra=False, order=False):
    """Fresh resources, key, positions and data, perturbed in the things D."""
    import jax, jax.numpy as jnp, numpy as np, equinox as eqx
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF, TemperedPDF
    from flowMC.resource.kernel.MALA import MALA
    from flowMC.resource.kernel.NF_proposal import NFProposal
    from flowMC.resource.model.nf_model.realNVP import RealNVP
    from flowMC.resource.optimizer import Optimizer
    rng = np.random.default_rng(seed)
    flow = lambda s: RealNVP(ND, 2, 4, jax.random.PRNGKey(s))
    r = {}
    r["logpdf"] = LogPDF(target2 if "logpdf" in D else target, n_dims=ND)
    r["tpdf"] = TemperedPDF(target2 if "tpdf" in D else target, prior, n_dims=ND, n_temps=NT)
    # (in one of the worlds nothing is accepted)
    r["kerL"] = MALA(step_size=(300.0 if seed == 3 else 0.35) if "kerL" in D else 0.3)
    r["kerG"] = NFProposal(flow(5 if "kerG" in D else 3), n_NFproposal_batch_size=4)
    m0 = flow(3)
    r["model"] = flow(6) if "model" in D else flow(3)
    r["opt"] = Optimizer(model=m0, learning_rate=3e-2 if "rate" in D else 1e-2)
    if "opt" in D:
        r["opt"].optim_state = jax.tree_util.tree_map(lambda v: v + 0.01 if jnp.issubdtype(v.dtype, jnp.floating) else v, r["opt"].optim_state)
    for ph in "AB":
        for b in ("pos", "lp", "la", "ga"):
            n = b + ph
            buf = Buffer(nm(n), (NC, COLS, ND) if b == "pos" else (NC, COLS), 1)
            init = rng.normal(size=(NC, 5, ND) if b == "pos" else (NC, 5)).astype(np.float32)
            if n in D:
                init = init + 0.1
            buf.update_buffer(jnp.asarray(init), COLS - 5)     # old entries at the end: beyond what the program records
            r[n] = buf
    r["loss"] = Buffer(nm("loss"), (30,), 0)
    r["loss"].update_buffer(jnp.asarray([1.0, 2.0 + ("loss" in D)]), 0)
    r["loss"].cursor = 2
    r["tpos"] = Buffer(nm("tpos"), (NC, NT - 1, ND), 2)
    r["tpos"].update_buffer(jnp.asarray(rng.normal(size=(NC, NT - 1, ND)).astype(np.float32) + (0.1 if "tpos" in D else 0)), 0)
    r["temps"] = Buffer(nm("temps"), (NT,), 0)
    r["temps"].update_buffer(jnp.asarray([1.0, 2.5, 5.0] if "temps" in D else [1.0, 2.0, 4.0]), 0)
    r["state"] = State({"tp": nm("posA"), "tl": nm("lpA"), "tla": nm("laA"), "tga": nm("gaA"), "training": True,
                        "note": "else" if "note" in D else "some"}, name=nm("state"))
    r["other"] = Buffer(nm("other"), (NC, 6), 1)
    r["other"].update_buffer(jnp.full((NC, 2), 3.0 + ("other" in D)), 0)
    names = list(r)
    res = {nm(k): r[k] for k in (reversed(names) if order else names)}
    if extra:
        for n, v in dict(positions_training=Buffer("positions_training", (NC, 7, ND), 1), temperatures=Buffer("temperatures", (5,), 0),
                         sampler_state=State({"training": False, "target_positions": "other"}, name="sampler_state"),
                         loss_buffer=Buffer("loss_buffer", (4,), 0), local_sampler=MALA(step_size=9.0), model=flow(9),
                         global_sampler=NFProposal(flow(11), n_NFproposal_batch_size=3), optimizer=Optimizer(model=flow(12), learning_rate=0.5),
                         **{n + p: Buffer(n + p, (NC, 9), 1) for n in ("log_prob_", "local_accs_", "global_accs_") for p in ("training", "production")},
                         positions_production=Buffer("positions_production", (NC, 9, ND), 1), tempered_positions=Buffer("tempered_positions", (NC, NT - 1, ND), 2),
                         logpdf=LogPDF(lambda x, d: 0.0 * x[0], n_dims=ND), tempered_logpdf=TemperedPDF(lambda x, d: 0.0 * x[0], prior, n_dims=ND)).items():
            res.setdefault(n, v)
    key = jax.random.PRNGKey(seed + (100 if "KEY" in D else 7))
    pos = jnp.asarray(rng.normal(size=(NC, ND)).astype(np.float32) + (0.1 if "POS" in D else 0))
    data = {"shift": jnp.asarray([0.3, 0.6 if "DATA" in D else -0.2]), "unused": jnp.asarray(1.0)}
    cursors = {"curL": 2 if "curL" in D else 0, "curG": 2 if "curG" in D else 0}
    return res, key, pos, data, cursors


def strategies(nm=lambda n: n, verbose=False):
    import jax.numpy as jnp, equinox as eqx
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.train_model import TrainModel
    from flowMC.strategy.parallel_tempering import ParallelTempering
    from flowMC.strategy.update_state import UpdateState
    from flowMC.strategy.lambda_function import Lambda
    from flowMC.strategy.optimization import AdamOptimization

    def refresh(rng_key, resources, initial_position, data):
        resources[nm("kerG")] = eqx.tree_at(lambda g: g.model, resources[nm("kerG")], resources[nm("model")])
        return rng_key, resources, initial_position
    return {"local": TakeSerialSteps(nm("logpdf"), nm("kerL"), nm("state"), ["tp", "tl", "tla"], 4, thinning=2, verbose=verbose),
            "global": TakeGroupSteps(nm("logpdf"), nm("kerG"), nm("state"), ["tp", "tl", "tga"], 5, verbose=verbose),
            "pt": ParallelTempering(3, nm("tpdf"), nm("kerL"), [nm("tpos"), nm("temps")], nm("state"), verbose=verbose),
            "train": TrainModel(nm("model"), nm("posA"), nm("opt"), nm("loss"), n_epochs=2, batch_size=8, n_max_examples=20, history_window=12, verbose=verbose),
            "switch": UpdateState(nm("state"), ["tp", "tl", "tla", "tga", "training"], [nm("posB"), nm("lpB"), nm("laB"), nm("gaB"), False]),
            "refresh": Lambda(lambda rng_key, resources, initial_position, data: refresh(rng_key, resources, initial_position, data)),
            "adam": AdamOptimization(target, n_steps=3, learning_rate=0.05, noise_level=0.3)}


def leaves(x):
    import jax, numpy as np
    return bits(*[np.asarray(v) for v in jax.tree_util.tree_leaves(x) if hasattr(v, "dtype") or isinstance(v, (int, float))])


def observe(res, nm, inv, key, pos, data, strats):
    import numpy as np
    out = {"POS": bits(pos), "KEY": bits(key), "DATA": leaves(data), "curL": str(int(strats["local"].current_position)),
           "curG": str(int(strats["global"].current_position))}
    for n in ("posA", "lpA", "laA", "gaA", "posB", "lpB", "laB", "gaB", "tpos", "temps", "other", "loss"):
        b = res[nm(n)]
        out[n] = bits(b.data) + str((inv(b.name), b.data.shape, int(b.cursor), b.cursor_dim))
    out["kerL"] = leaves(res[nm("kerL")]) + str(float(res[nm("kerL")].step_size))
    out["kerG"] = leaves(res[nm("kerG")].model)
    out["model"] = leaves(res[nm("model")])
    out["opt"] = leaves(res[nm("opt")].optim_state)
    d = dict(res[nm("state")].data)
    x0 = np.asarray([0.3, -1.2], np.float32)
    out["logpdf"] = bits(np.asarray(res[nm("logpdf")](x0, data0())))
    out["tpdf"] = bits(np.asarray(res[nm("tpdf")].tempered_log_pdf(np.float32(2.0), x0, data0())))
    out["rate"] = leaves(update_rule(res[nm("opt")].optim))
    out["note"] = str(d.pop("note", None))
    out["state"] = str(sorted((k, str(inv(v) if isinstance(v, str) else v)) for k, v in d.items()))
    # everything else there is
    used = {nm(k) for k in REN}
    out["extra"] = str(sorted((k, snap(v)) for k, v in res.items() if k not in used))
    return out


def data0():
    import jax.numpy as jnp
    return {"shift": jnp.asarray([0.3, -0.2]), "unused": jnp.asarray(1.0)}


def update_rule(optim):
    """What an optimizer makes of a gradient."""
    import jax.numpy as jnp
    p = jnp.asarray([0.5, -1.0])
    return optim.update(jnp.asarray([0.1, -0.4]), optim.init(p), p)[0]


def snap(v):
    if hasattr(v, "data"):
        return str(v.data) if isinstance(v.data, dict) else leaves(v.data)
    return leaves(getattr(v, "optim_state", v)) + "".join(f"{k}={v.__dict__[k]}" for k in ("step_size", "n_batch_size") if k in getattr(v, "__dict__", {}))


def run_world(w, strats, ops, nm, inv):
    """The observations before and after every strategy."""
    from flowMC.Sampler import Sampler
    res, key, pos, data, cur = w
    strats["local"].set_current_position(cur["curL"])
    strats["global"].set_current_position(cur["curG"])
    obs = [observe(res, nm, inv, key, pos, data, strats)]

    class Spy:
        def __init__(self, inner):
            self.inner = inner

        def __call__(self, *a):
            out = self.inner(*a)
            o = observe(out[1], nm, inv, out[0], out[2], a[3], strats)
            obs.append(o)
            return out
    s = Sampler(ND, NC, key, resources=res, strategies={k: Spy(v) for k, v in strats.items()}, strategy_order=list(ops))
    s.sample(pos, data)
    return obs


def events(ops, a, b):
    ev = []
    for i, op in enumerate(ops):
        ev.append(dict(op=op, chA=sorted(k for k in a[i] if a[i][k] != a[i + 1][k]), chB=sorted(k for k in b[i] if b[i][k] != b[i + 1][k]),
                       diff=sorted(k for k in a[i + 1] if k != "extra" and a[i + 1][k] != b[i + 1][k])))
    return ev


def family(ctx, tag, ops, seed, Ds, modes):
    same = lambda n: n
    strats = strategies()
    base = run_world(world(seed), strats, ops, same, same)
    out = []

    def add(id, mode, D, obs):
        out.append(dict(id=id, cfg=dict(mode=mode, d=list(D), prog=list(ops)), ev=events(ops, base, obs)))
    for D in Ds:
        if D:
            add(f"{tag}/{'+'.join(D)}", "plain", D, run_world(world(seed, D), strats, ops, same, same))
        else:
            # strategies used before, on something else altogether
            used = strategies()
            run_world(world(seed + 50, ("temps", "tpos", "DATA", "kerL", "kerG", "model", "logpdf", "tpdf", "rate")), used, ops, same, same)
            add(f"{tag}/again", "use-before", D, run_world(world(seed), used, ops, same, same))
    for m in modes:
        if m == "renamed":
            nm = lambda n: REN.get(n, n)
            back = {v: k for k, v in REN.items()}
            inv = lambda n: back.get(n, n)
            obs = run_world(world(seed, nm=nm), strategies(nm), ops, nm, inv)
        elif m == "verbose":
            obs = run_world(world(seed), strategies(verbose=True), ops, same, same)
        elif m == "fresh":
            obs = run_world(world(seed), strategies(), ops, same, same)
        elif m == "extra":
            nm = lambda n: REN.get(n, n)
            back = {v: k for k, v in REN.items()}
            inv = lambda n: back.get(n, n)
            obs = run_world(world(seed, nm=nm, extra=True), strategies(nm), ops, nm, inv)
        elif m == "order":
            obs = run_world(world(seed, order=True), strategies(), ops, same, same)
        add(f"{tag}/{m}", m, (), obs)
    return out


PROGS = [["local", "pt", "train", "refresh", "global", "adam", "switch", "local", "pt", "global"],
         ["global", "train", "local", "train", "switch", "train", "refresh", "global", "local"],
         ["adam", "pt", "pt", "local", "train", "pt", "switch", "pt", "adam"]]
SINGLE = [[x] for x in ("POS", "KEY", "DATA", "kerL", "kerG", "model", "opt", "loss", "tpos", "temps", "curL", "curG", "note", "other", "logpdf", "tpdf", "rate",
                        "posA", "lpA", "laA", "gaA", "posB", "lpB", "laB", "gaB")]


def canary(t):
    import copy
    a, b, c = copy.deepcopy(t), copy.deepcopy(t), copy.deepcopy(t)
    a["ev"][-1]["chA"].append("other")
    b["ev"][-1]["diff"].append("note")
    out = [a, b] if "note" not in t["cfg"]["d"] else [a]
    if "KEY" in t["cfg"]["d"]:
        c["ev"][0]["diff"].remove("KEY")
        out.append(c)
    return out


def run(ctx):
    for v in ("leak", "spill", "hidden", "latephase", "ignore"):
        ctx.model_check("SystemMC", f"SystemMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("SystemMC", "SystemMC_ok.cfg" if ctx.quick else "SystemMC_thorough.cfg")
    jobs = [("family", "P0", PROGS[0], 1, SINGLE[:11] + [[]], []), ("family", "P0b", PROGS[0], 1, SINGLE[11:], []),
            ("family", "P0", PROGS[0], 2, [], ["renamed"]), ("family", "P0", PROGS[0], 2, [], ["verbose", "order"]),
            ("family", "P0", PROGS[0], 2, [], ["extra", "fresh"]),
            ("family", "P1", PROGS[1], 3, [["KEY"], ["DATA"], ["posA"], ["model", "kerL"], ["kerL"], []], []),
            ("family", "P2", PROGS[2], 4, [["temps"], ["tpos"], ["DATA"], ["POS"], []], [])]
    gen = ctx.generate("SystemGen", "SystemGen.cfg", num=3 if ctx.quick else 60, depth=12)
    for i, g in enumerate(gen):
        d = sorted(set(g["d"]))
        jobs.append(("family", f"gen{i}", g["ops"], g["seed"], [d, d[:1], []], ["renamed"] if i % 2 else []))
    traces = ctx.parallel("p24", jobs)
    ctx.validate("SystemTrace", traces, canary)
    ctx.assumptions += ["things are compared by the exact bits of their arrays; both runs happen on the same machine and "
                        "compiler, where equal inputs give equal bits"]
