"""Driver shared by P02 and P04: generated schedules of stepping calls on real steppers and buffers."""
import json, os
import core


# groups of steppers that are used together; n steps, thinning, serial (L) or group (G), chain batch size
def pool(ctx):
    quick = [
        dict(nc=3, cols=14, st=[(4, 1, "L", 0), (3, 1, "G", 0), (5, 2, "L", 2), (4, 2, "G", 2)]),
        dict(nc=5, cols=16, st=[(3, 1, "L", 2), (4, 3, "G", 3), (7, 3, "L", 4), (2, 1, "G", 7), (2, 3, "L", 0)]),
        dict(nc=1, cols=12, st=[(1, 1, "L", 0), (2, 1, "G", 1), (6, 4, "L", 3), (5, 5, "G", 0)]),
        dict(nc=4, cols=15, st=[(9, 3, "L", 2), (8, 3, "G", 4), (6, 1, "L", 3), (5, 4, "G", 2)]),
    ]
    if not ctx.quick:
        for nc, cols in ((2, 20), (6, 24), (7, 24)):
            st = []
            for i, n in enumerate((1, 2, 3, 5, 8, 11)):
                for j, t in enumerate((1, 2, 3, 5)):
                    if (i + j + nc) % 3 == 0:
                        st.append((n, t, "LG"[(i + j) % 2], (i * 2 + j) % (nc + 2)))
            quick.append(dict(nc=nc, cols=cols, st=st))
    for g in quick:
        g["st"] = [dict(n=n, thin=t, kind=k, batch=b) for n, t, k, b in g["st"]]
    return quick


def drive(ctx, num):
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.resource.logPDF import LogPDF
    from flowMC.strategy.take_steps import TakeSerialSteps, TakeGroupSteps
    from flowMC.strategy.update_state import UpdateState
    import stubs

    P = pool(ctx)
    path = os.path.join(ctx.tmp, "pool.json")
    json.dump(P, open(path, "w"))
    scheds = ctx.generate("RecorderGen", "RecorderGen.cfg", num=num, depth=12, env={"POOL_FILE": path})
    # every group gets its share; each stepper appears once in a plain schedule
    for gi, g in enumerate(P, 1):
        for i, s in enumerate(g["st"], 1):
            k = max(1, g["cols"] // max(1, s["n"] // s["thin"]))
            scheds.append(dict(g=gi, ops=[dict(op="step", s=i, k=0)] * min(2, k)))
            # filling the buffers to the last column
            rec = s["n"] // s["thin"]
            two = max(0, g["cols"] - 2 * rec)
            scheds.append(dict(g=gi, ops=[dict(op="setpos", s=i, k=two)] + [dict(op="step", s=i, k=0)] * (2 if 2 * rec <= g["cols"] else 1)))
    kernels = {"L": stubs.CountKernel(), "G": stubs.CountGroupKernel()}
    steppers = {}
    traces = []
    sets = ["A", "B"]
    for si, sc in enumerate(scheds):
        g = P[sc["g"] - 1]
        nc, cols = g["nc"], g["cols"]
        res = {"k" + k: v for k, v in kernels.items()}
        res["logpdf"] = LogPDF(stubs.tag_logpdf, n_dims=3)
        for t in sets:
            res["pos" + t] = Buffer("pos" + t, (nc, cols, 3), 1)
            for b in ("lp", "accL", "accG"):
                res[b + t] = Buffer(b + t, (nc, cols), 1)
        if si % 3 == 1:     # a cursor left by an earlier use of a buffer says nothing about where steppers write
            for j, (name, b) in enumerate(sorted((n, b) for n, b in res.items() if isinstance(b, Buffer))):
                b.cursor = (5 * si + 3 * j) % cols
        data = {"shift": 0.0, "other": jnp.arange(2.0)}
        state = State(dict(p="posA", l="lpA", aL="accLA", aG="accGA", training=True), name="st")
        res["state"] = state
        sts = []
        for i, sp in enumerate(g["st"], 1):
            key = (sc["g"], i)
            if key not in steppers:
                cls = TakeSerialSteps if sp["kind"] == "L" else TakeGroupSteps
                steppers[key] = cls("logpdf", "k" + sp["kind"], "state", ["p", "l", "a" + sp["kind"]], sp["n"],
                                    thinning=sp["thin"], chain_batch_size=sp["batch"], verbose=i % 2 == 0)
            sts.append(steppers[key])
            steppers[key].set_current_position(0)
        tags = np.arange(1, nc + 1)
        pos = stubs.start(tags)
        key = jax.random.PRNGKey(ctx.seed + si)
        ev = []
        target = "A"
        fresh = 0
        for o in sc["ops"]:
            if o["op"] == "step":
                st = sts[o["s"] - 1]
                given = np.array(pos)
                r = ctx.attempt(f"schedule{si}", st, key, res, pos, data)
                if r is None:
                    break
                key, res, newpos = r
                bufs = {}
                carry = 0
                for t in sets:
                    p = np.asarray(res["pos" + t].data)
                    c = p[..., 0] * 1000 + p[..., 1]
                    set_ = np.isfinite(p).all(-1)
                    partial = np.isfinite(p).any(-1) & ~set_
                    carry += int(p[..., 2][set_].sum())
                    bufs["pos" + t] = np.where(partial, -7, np.where(set_, c, -1)).astype(int).tolist()
                    for b in ("lp", "accL", "accG"):
                        a = np.asarray(res[b + t].data)
                        bufs[b + t] = np.where(np.isneginf(a), -1, np.where(np.isfinite(a), a, -8)).astype(int).tolist()
                npz = np.asarray(newpos)
                ok = npz.shape == (nc, 3)
                ret = (npz[..., 0] * 1000 + npz[..., 1]).astype(int).tolist() if ok else [-9]
                ev.append(dict(op="step", s=o["s"], ret=ret, cur=int(st.current_position), bufs=bufs, carry=carry,
                               input="same" if (np.asarray(pos) == given).all() else "changed"))
                if not ok:
                    break
                pos = newpos
            elif o["op"] == "setpos":
                sts[o["s"] - 1].set_current_position(o["k"])
                ev.append(dict(op="setpos", s=o["s"], k=o["k"], cur=int(sts[o["s"] - 1].current_position)))
            elif o["op"] == "redirect":
                target = "B" if target == "A" else "A"
                UpdateState("state", ["p", "l", "aL", "aG"], ["pos" + target, "lp" + target, "accL" + target, "accG" + target])(
                    key, res, pos, data)
                ev.append(dict(op="redirect"))
            else:
                fresh += 1
                pos = stubs.start(tags + 10 * fresh)
                ev.append(dict(op="fresh", start=[int(x) * 1000 for x in tags + 10 * fresh]))
        traces.append(dict(id=f"schedule{si}", cfg=dict(nc=nc, cols=cols, start=[int(x) * 1000 for x in tags], st=g["st"]), ev=ev))
    return traces


def canary(t):
    import copy
    steps = [i for i, e in enumerate(t["ev"]) if e["op"] == "step"]
    if not steps:
        return None
    i = steps[-1]
    out = []
    a = copy.deepcopy(t)
    rows = a["ev"][i]["bufs"]["posA"]
    if any(x != -1 for x in rows[0]):
        k = next(k for k, x in enumerate(rows[0]) if x != -1)
        rows[0][k] += 1                                  # one entry is another state
        out.append(a)
    b = copy.deepcopy(t)
    b["ev"][i]["ret"][0] += 1                            # another state handed on
    out.append(b)
    return out
