"""Shared by P21 and P22: generated histories over real buffers and states, their files, and holders of the
same object."""
import contextlib, os
import core
from core import qa, q, bits


def tval(s):
    t, v = s.split(":", 1)
    return (v == "True") if t == "bool" else int(v) if t == "int" else v


def tstr(v):
    import numpy as np
    t = "bool" if isinstance(v, (bool, np.bool_)) else "int" if isinstance(v, (int, np.integer)) else "str" if isinstance(v, str) else type(v).__name__
    return f"{t}:{v}"


def exact(v):
    """Integer codes of numbers: the specification's own for what is not finite, else of the exact bits."""
    import numpy as np, zlib
    return [zlib.crc32(x.tobytes()) & 0x3fffffff if np.isfinite(x) else q(float(x)) for x in np.asarray(v).ravel()]


def read(bs, ss):
    import jax, jax.numpy as jnp, numpy as np
    out = []
    for b in bs:
        d = np.asarray(b.data)
        typ = ("jax-" if isinstance(b.data, jax.Array) else "numpy-") + ("default" if b.data.dtype == jnp.zeros(1).dtype else str(b.data.dtype))
        out.append(dict(name=str(b.name), shape=list(b.shape), data=exact(d), call=exact(np.asarray(b())), cursor=q(b.cursor), cdim=q(b.cursor_dim), type=typ))
    st = [dict(name=str(s.name), kv=[[k, tstr(v)] for k, v in s.data.items()]) for s in ss]
    return dict(bufs=out, stas=st)


def moved(path, k):
    """Every other file is loaded from a copy under another name."""
    import shutil
    return shutil.copy(path, path[:-4] + f"-copy{k}.npz") if k % 2 and os.path.exists(path) else path


def play(h, folder):
    """Perform a history on real objects; the events."""
    import jax, jax.numpy as jnp, numpy as np
    from flowMC.resource.buffers import Buffer
    from flowMC.resource.states import State
    from flowMC.strategy.update_state import UpdateState
    bs, ss, ev = [], [], []
    pre = os.path.join(folder, "")
    sre = os.path.join(folder, "state-")
    for o in h:
        e = dict(o)
        if o["op"] == "new":
            bs.append(Buffer(o["name"], tuple(o["shape"]), o["cdim"]))
        elif o["op"] == "update":
            b = bs[o["i"] - 1]
            shape = list(b.shape)
            shape[b.cursor_dim] = o["n"]
            k = np.arange(int(np.prod(shape)))
            v = (o["base"] + k + np.sin(o["base"] + k)).astype(jnp.zeros(1).dtype)
            if o["kind"] == "wild":
                v = (v * 10.0 ** ((k * 7 + o["base"]) % 53 - 26)).astype(v.dtype)
            if o["kind"] == "neg":
                v = -v
            if o["kind"] == "nan":
                v[::3] = np.nan
                v[1::5] = np.inf
            e["vals"] = exact(v)
            b.update_buffer(jnp.asarray(v.reshape(shape)), o["start"])
        elif o["op"] == "cursor":
            bs[o["i"] - 1].cursor = o["c"]
        elif o["op"] == "hold":
            bs.append(bs[o["i"] - 1])
        elif o["op"] == "save":
            bs[o["i"] - 1].save_resource(pre)
        elif o["op"] == "load":
            bs.append(bs[o["via"] - 1].load_resource(moved(pre + o["name"] + ".npz", len(ev))))
        elif o["op"] == "snew":
            ss.append(State({k: tval(v) for k, v in o["kv"]}, name=o["name"]))
        elif o["op"] == "supdate":
            keys, vals = [k for k, _ in o["kv"]], [tval(v) for _, v in o["kv"]]
            s = ss[o["i"] - 1]
            if o["how"] == "method":
                s.update(keys, vals)
            else:
                key, pos = jax.random.PRNGKey(1), jnp.ones((2, 2))
                out = UpdateState("the state", keys, vals)(key, {"the state": s, "b": 1}, pos, {})
                if bits(out[0]) != bits(key) or bits(out[2]) != bits(pos) or set(out[1]) != {"the state", "b"}:
                    e["op"] = "supdate-arguments"
        elif o["op"] == "shold":
            ss.append(ss[o["i"] - 1])
        elif o["op"] == "ssave":
            ss[o["i"] - 1].save_resource(sre)
        elif o["op"] == "sload":
            ss.append(ss[o["via"] - 1].load_resource(moved(sre + o["name"] + ".npz", len(ev))))
        e.update(read(bs, ss))
        ev.append(e)
    return ev


N = lambda name, shape, d: dict(op="new", name=name, shape=shape, cdim=d)
UP = lambda i, n, s, base, kind="plain": dict(op="update", i=i, n=n, start=s, base=base, kind=kind)
FIXED = [
    [N("a", [2, 5], 1), UP(1, 2, 0, 10), dict(op="cursor", i=1, c=2), UP(1, 2, 2, 20, "nan"), dict(op="cursor", i=1, c=4), dict(op="save", i=1),
     UP(1, 1, 4, 30), dict(op="load", name="a", via=1), UP(2, 3, 1, 40), dict(op="hold", i=2), UP(3, 1, 0, 50), dict(op="save", i=2), dict(op="load", name="a", via=1)],
    [N("x.y", [3], 0), N("long name", [3, 3], 1), dict(op="save", i=1), dict(op="save", i=2), UP(1, 3, 0, 5), dict(op="load", name="x.y", via=2), dict(op="load", name="long name", via=1),
     UP(4, 1, 2, 7), UP(3, 2, 1, 9)],
    [dict(op="snew", name="s", kv=[["training", "bool:True"], ["n", "int:1"], ["t", "str:a"]]), dict(op="ssave", i=1),
     dict(op="supdate", i=1, kv=[["training", "bool:False"], ["new", "str:x"]], how="method"), dict(op="sload", name="s", via=1), dict(op="shold", i=2),
     dict(op="supdate", i=3, kv=[["n", "int:5"], ["t", "bool:True"]], how="strategy"), dict(op="ssave", i=2), dict(op="sload", name="s", via=1),
     dict(op="supdate", i=1, kv=[["n", "int:0"], ["n", "int:2"]], how="method")],
    # many entries, in no particular order
    [dict(op="snew", name="many", kv=[[k, f"int:{i}"] for i, k in enumerate("q w e r t y u i o p a s d f g".split())]), dict(op="ssave", i=1), dict(op="sload", name="many", via=1),
     dict(op="supdate", i=2, kv=[[k, "str:" + k] for k in "g f d s a new p o i u y t r e".split()], how="strategy"), dict(op="ssave", i=2), dict(op="sload", name="many", via=1)],
    [dict(op="snew", name="e", kv=[]), dict(op="ssave", i=1), dict(op="sload", name="e", via=1), dict(op="supdate", i=2, kv=[["a", "str:"]], how="method")]]


def histories(ctx, num):
    import shutil
    hists = ctx.generate("ResourcesGen", "ResourcesGen.cfg", num=num, depth=18)
    return ctx.parallel("resources", [("some", [[i, h] for i, h in enumerate(FIXED + hists)])]) + [
        dict(t, id="x64-" + t["id"]) for t in ctx.parallel("resources", [("some", [[i, h] for i, h in enumerate(FIXED + hists[:num // 3])])], x64=True)]


def some(ctx, hists):
    import shutil
    traces = []
    for i, h in hists:
        folder = os.path.join(ctx.tmp, f"files{i}")
        os.makedirs(folder)
        name = f"fixed{i}" if i < len(FIXED) else f"generated{i}"
        ev = ctx.attempt(name, play, h, folder)
        shutil.rmtree(folder)
        if ev:
            traces.append(dict(id=name, ev=ev))
    return traces


def canary(t):
    import copy
    ups = [k for k, e in enumerate(t["ev"]) if e["op"] in ("update", "load")]
    if not ups:
        return None
    k = ups[len(ups) // 2]
    a, b = copy.deepcopy(t), copy.deepcopy(t)
    a["ev"][k]["bufs"][-1]["data"][-1] = 12345
    b["ev"][k]["bufs"][-1]["cdim"] += 1
    return [a, b]
