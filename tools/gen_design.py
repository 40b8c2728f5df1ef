"""Writes /verif/DESIGN.md: tools/design_head.md + one section per property (from properties.jsonl, the checks' docstrings, bounds and
assumptions, and the last quick evidence) + tools/design_tail.md + the log of planted bugs."""
import ast, glob, importlib, json, os, re, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
os.chdir(V)
sys.path.insert(0, V)
import warnings
warnings.filterwarnings("ignore")
props = [json.loads(l) for l in open("properties.jsonl")]
PY = "/opt/venv/bin/python"
known = [l.strip() for l in open("known_findings.txt") if l.strip()]
seeds = json.load(open("tools/seed_results.json"))
out = [open("tools/design_head.md").read().rstrip(), "", "# Per property", ""]
timing = json.load(open("tools/timings.json")) if os.path.exists("tools/timings.json") else {}


if len(sys.argv) > 1:          # helper: bounds of one tier as JSON (alphabets are fixed when the checks are imported)
    t = sys.argv[1]
    print(json.dumps({p["id"]: {n: (h["bounds"](t) if callable(h.get("bounds")) else h.get("bounds", "")) for n, h in importlib.import_module("checks." + p["id"]).HARNESSES.items()} for p in props}))
    sys.exit()
import subprocess
B = {t: json.loads(subprocess.run([sys.executable, __file__, t], env={**os.environ, "VERIF_TIER": t}, capture_output=True, text=True, check=True).stdout.splitlines()[-1]) for t in ("quick", "thorough")}


for p in props:
    i = p["id"]
    m = importlib.import_module("checks." + i)
    out += [f"## {i} — {p['title']}", "", p["statement"], "", f"*Where:* {', '.join(p['anchors']['files'])}.", "",
            "*How it is decided.* " + " ".join((m.__doc__ or "").split()), ""]
    out += ["| space | quick bound | thorough bound |", "|---|---|---|"]
    for n, h in m.HARNESSES.items():
        q, t = B["quick"][i].get(n, "-"), B["thorough"][i].get(n, "-")
        out.append(f"| {n} | {q} | {'the same' if t == q else t} |".replace("\n", " "))
    out.append("")
    if getattr(m, "ASSUMPTIONS", None):
        out += ["*Assumptions:* " + "; ".join(m.ASSUMPTIONS) + ".", ""]
    if i in timing:
        out += [f"*Last measured (8 cores):* " + ", ".join(f"{k}: {v}" for k, v in timing[i].items()) + ".", ""]
    out += ["*Why tests cannot settle it:* " + p["why_tests_cant"], ""]
    f = [k for k in known if f"property={i} " in k]
    if f:
        out += ["*Defects found:* " + "; ".join(re.sub(rf"^(fixed|known): property={i} ", lambda x: "" if x[1] == "fixed" else "KNOWN ", k) for k in f) + ".", ""]
out += [open("tools/design_tail.md").read().rstrip(), "", "# Planted bugs", "",
        "Made with `tools/seed.py` from the definitions in `tools/seeds/*.py` (written from the property text and the code). Each was applied to a scratch copy, "
        "passed the existing tests, failed its own demonstration, and was then given to the quick check of its property (other checks were not run against it).", "",
        "| bug | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    n = d.split("/")[1]
    m = json.load(open(d))
    out.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {seeds.get(n, 'unchecked')} |")
open("DESIGN.md", "w").write("\n".join(out) + "\n")
print(len(out), "lines")
