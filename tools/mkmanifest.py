"""Writes MANIFEST.json: a check for every property that has a driver."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "design": "The design model is explored exhaustively by TLC within the constants of its .cfg; ",
 "trace": "the same operators decide recordings of the real code, driven by generated and fixed scenarios. ",
 "trust": "Trusted: TLC, JAX, the recording harness. Only the recorded scenarios are decided for the code.",
}
TECH = json.load(open(os.path.join(V, "tools", "techniques.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"python3 bin/check.py {i} quick", thorough_cmd=f"python3 bin/check.py {i} thorough",
                           technique=TECH[i], level="model_checking", level_note=NOTE["design"] + NOTE["trace"] + NOTE["trust"]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
