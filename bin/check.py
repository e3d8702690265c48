#!/usr/bin/env python3
"""check.py Pxx [quick|thorough]: decide one property against /repo's working tree."""
import os, sys
VENV = "/opt/venv/bin/python"
ENV = dict(JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", MPLBACKEND="Agg",
           PYTHONHASHSEED="0", TF_CPP_MIN_LOG_LEVEL="3", JAX_ENABLE_COMPILATION_CACHE="false")
if os.environ.get("_VF_CHILD") != "1":
    e = dict(os.environ, **ENV, _VF_CHILD="1")
    e.pop("PYTHONPATH", None)
    os.execve(VENV, [VENV, "-s", os.path.abspath(__file__)] + sys.argv[1:], e)

import importlib, importlib._bootstrap_external as be, threading, traceback
sys.dont_write_bytecode = True
_orig = be.cache_from_source
def _no_cache(path, *a, **k):
    # no stale bytecode of the code under test
    if str(path).startswith("/repo/"):
        raise NotImplementedError
    return _orig(path, *a, **k)
be.cache_from_source = _no_cache
import importlib.util
importlib.util.cache_from_source = _no_cache

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "harness"))
sys.path.insert(0, "/repo/src")
import core


def part(path):
    """One share of a check's scenarios, in a process of its own (Ctx.parallel)."""
    import json
    job = json.load(open(path))
    ctx = core.Ctx(job["prop"], job["tier"], job["seed"])
    rc = 0
    try:
        mod = importlib.import_module(job["module"])
        if job.get("x64"):
            import jax
            jax.config.update("jax_enable_x64", True)
        traces = []
        try:
            with core.silence():
                traces = getattr(mod, job["function"])(ctx, *job["args"])
        except core.MachineryError:
            raise
        except Exception as e:
            if not core.from_repo(e):
                raise
            ctx.fails.append(dict(scenario=job["function"], clause="unexpected-error", line=0, module="",
                                  event=f"{type(e).__name__}: {str(e)[:500]}", trace=None))
        with open(path + ".out", "w") as f:
            json.dump(dict(traces=traces, fails=ctx.fails), f, default=ctx.plain)
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


def main():
    if sys.argv[1] == "--part":
        part(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    ctx = core.Ctx(prop, tier, seed)
    try:
        mod = importlib.import_module(prop.lower())
        try:
            mod.run(ctx)
        except core.MachineryError:
            raise
        except Exception as e:
            if not core.from_repo(e):
                raise
            traceback.print_exc()
            ctx.fails.append(dict(scenario="driver", clause="unexpected-error", line=0, module="",
                                  event=f"{type(e).__name__}: {str(e)[:500]}", trace=None))
        rc = ctx.finish()
    except Exception as e:
        traceback.print_exc()
        rc = 2
        # a violation already seen stands, whatever happened to the machinery afterwards
        if ctx.fails and not ctx.stopped and not ctx.broken:
            ctx.stopped = True
            ctx.broken.append(e)
            try:
                rc = ctx.finish()
            except Exception:
                rc = 2
    finally:
        ctx.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)


main()
