"""Writes /verif/MANIFEST.json from the checks that exist (checks/Cxx.py) and the property list."""
import ast, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    f = os.path.join(V, "checks", p["id"] + ".py")
    if not os.path.exists(f):
        na.append(dict(property=p["id"], reason="no check built yet (model checking would apply)"))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("TECHNIQUE", "LEVEL_NOTE", "ASSUMPTIONS"):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(
        property=p["id"], quick_cmd=f"{PY} run.py {p['id']} quick", thorough_cmd=f"{PY} run.py {p['id']} thorough",
        evidence_file=f"evidence/{p['id']}.json",
        technique=c.get("TECHNIQUE", "model checking: stateless exhaustive exploration of the real code over a bounded space of "
                        "operation histories and inputs, every execution compared with a reference model"),
        level="model_checking",
        level_note=c.get("LEVEL_NOTE", "Exhaustive within the bounds in the evidence file (every execution is run on the real code from /repo; "
                         "nothing is sampled). Trusts: " + "; ".join(c.get("ASSUMPTIONS", ["the reference model"])))))
m = dict(version=1, setup_cmd=f"{PY} tools/setup_check.py", checks=checks, not_applicable=na,
         notes="No hooks in /repo are needed: random draws are intercepted by replacing numpy.random's entry points in the check's own process "
               "before czone is imported (mc/rng.py). Genuine defects found were repaired by the fix: commits listed in known_findings.txt.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
