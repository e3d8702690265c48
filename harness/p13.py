"""P13: the temperature ladder adapts only in training, keeping its ends and its order."""
import core


def run(ctx):
    ctx.model_check("TemperingMC", "TemperingMC_alwaysadapt.cfg", expect="Inv", workers=1)
    ctx.model_check("TemperingMC", "TemperingMC_ok.cfg" if ctx.quick else "TemperingMC_thorough.cfg")
    import tempering
    with core.silence():
        traces = tempering.drive(ctx, 16 if ctx.quick else 160, rule=False)
        traces += overshoot(ctx) + bundles(ctx)
    ctx.validate("TemperingTrace", traces, tempering.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("swap-", "temper-"))]
    ctx.assumptions += ["gaps change by more than 1/4096 when the acceptance counts differ (64 chains)"]


def overshoot(ctx):
    """Adaptation towards a very uneven ladder: every exchange of the coldest pair accepted, none above."""
    import jax, numpy as np
    import tempering
    from core import q, qa
    S = 4096
    traces = []
    nc, ladder = 64, [1.0, 5.0, 10.0]
    rig = tempering.Rig(nc, ladder, 1)
    res, pos = rig.fresh()
    key = jax.random.PRNGKey(4)
    ll = np.zeros((nc, 3))
    ev = []
    ll[:, 2] = -100.0
    for _ in range(2):
        r = ctx.attempt("overshoot", rig.call, key, res, pos, ll.reshape(-1), np.zeros(nc * 3), False)
        if r is None:
            return traces
        key, res, pos, e, _ = r
        ev.append(e)
    traces.append(dict(id="overshoot", ev=ev, cfg=dict(r=3, nc=nc, n=1, ids=rig.ids0.tolist(), t=qa(np.asarray(ladder), S), tmax=q(ladder[-1], S))))
    # a single chain: each exchange is accepted or not, the rates differ by one
    ladder = [1.0, 2.0, 4.0, 8.0]
    rig = tempering.Rig(1, ladder, 1)
    res, pos = rig.fresh()
    ll = np.asarray([0.0, -100.0, 0.0, 0.0])    # the coldest pair refused, the next one accepted
    r = ctx.attempt("one-chain", rig.call, key, res, pos, ll, np.zeros(4), False)
    if r is not None:
        traces.append(dict(id="one-chain", ev=[r[3]], cfg=dict(r=4, nc=1, n=1, ids=rig.ids0.tolist(), t=qa(np.asarray(ladder), S), tmax=q(ladder[-1], S))))
    return traces


def bundles(ctx):
    """The initial ladder of the ready-made configuration."""
    import jax, numpy as np
    from core import q, qa, bits
    from flowMC.resource_strategy_bundle.RQSpline_MALA_PT import RQSpline_MALA_PT_Bundle
    S = 4096
    ev = []
    for nt, mx in ((5, 5.0), (2, 40.0)) if ctx.quick else ((2, 3.0), (5, 5.0), (4, 100.0), (7, 40.0)):
        def make():
            return RQSpline_MALA_PT_Bundle(jax.random.PRNGKey(0), 4, 2, lambda x, d: 0.0, 2, 2, 1, 1, 1,
                                           rq_spline_hidden_units=[2], rq_spline_n_layers=2, rq_spline_n_bins=3,
                                           n_temperatures=nt, max_temperature=mx)
        b = ctx.attempt("bundle-ladder", make)
        if b is None:
            continue
        t = np.asarray(b.resources["temperatures"].data)
        ev.append(dict(op="ladder", t=qa(t, S), tmax=q(mx, S), r=nt, frozen="no", tbits="", tbits0=""))
    return [dict(id="bundle-ladder", ev=ev, cfg=dict(r=2, nc=1, n=1, ids=[[1, 2]], t=[S, 2 * S], tmax=2 * S))] if ev else []
