#!/usr/bin/env python3
"""Checks that the tools the checks need are present (nothing has to be built: the specifications are
interpreted by TLC, the harness by Python, the code under test is imported from /repo's working tree)."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
ok = os.path.exists("/opt/veriftools/tla/tla2tools.jar") and os.path.exists("/opt/venv/bin/python")
ok = ok and subprocess.run(["java", "-version"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
r = subprocess.run(["/opt/venv/bin/python", "-c", "import jax, equinox, optax, diffrax"], env=dict(os.environ, JAX_PLATFORMS="cpu"))
sys.exit(0 if ok and r.returncode == 0 else 1)
