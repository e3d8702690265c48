"""P12: replica exchange permutes neighbours with the exact acceptance rule, and persists.  Generated
histories of parallel-tempering calls against Tempering.tla."""
import core


def run(ctx):
    for v in ("sign", "stale", "forget"):
        ctx.model_check("TemperingMC", f"TemperingMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("TemperingMC", "TemperingMC_ok.cfg" if ctx.quick else "TemperingMC_thorough.cfg")
    import tempering
    with core.silence():
        traces = tempering.drive(ctx, 12 if ctx.quick else 120)
    ctx.validate("TemperingTrace", traces, tempering.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith(("ladder-", "temper-"))]
    ctx.assumptions += ["exchange decisions closer than 0.01 to the threshold are not judged",
                        "the kernel under the replicas is a counting stand-in"]
