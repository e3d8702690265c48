"""P05: training and production are separated, and production is frozen.  Complete runs of the real bundles
against Bundle.tla."""
import core


def run(ctx):
    for v in ("trainlate", "nocopy"):
        ctx.model_check("BundleMC", f"BundleMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("BundleMC", "BundleMC_ok.cfg" if ctx.quick else "BundleMC_thorough.cfg")
    import bundle
    traces = bundle.drive(ctx, 6 if ctx.quick else 120, [("one", "second-run", dict(bundle.FIXED[0], tr=1, pr=1), True)])
    ctx.validate("BundleTrace", traces, bundle.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("fill-", "opt-"))]
    ctx.assumptions += ["the local kernel and the flow are stand-ins; the global proposal kernel, the steppers, the trainer, "
                        "parallel tempering and the order of strategies are the bundle's own"]
