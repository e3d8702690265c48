"""P06: a bundle run fills its buffers exactly, each segment by the right sampler.  Complete runs of the
real bundles against Bundle.tla."""
import core


def run(ctx):
    for v in ("noreset", "nohand"):
        ctx.model_check("BundleMC", f"BundleMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("BundleMC", "BundleMC_ok.cfg" if ctx.quick else "BundleMC_thorough.cfg")
    import bundle
    traces = bundle.drive(ctx, 6 if ctx.quick else 120)
    ctx.validate("BundleTrace", traces, bundle.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("phase-", "opt-"))]
    ctx.assumptions += ["the local kernel and the flow are stand-ins; the global proposal kernel, the steppers, the trainer, "
                        "parallel tempering and the order of strategies are the bundle's own"]
