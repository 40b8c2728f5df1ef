"""Undoes each fix: commit of /repo on its own (in a scratch copy) and runs the check of the property it is listed under: the violation must return."""
import json, os, re, shutil, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
out = sys.argv[1]
done = {json.loads(l)["c"] for l in open(out)} if os.path.exists(out) else set()
for l in open(os.path.join(V, "known_findings.txt")):
    m = re.match(r"fixed: property=(C\d+) (\w+) (.*)", l)
    if not m or m[2] in done or (sys.argv[2:] and m[2] not in sys.argv[2:]):
        continue
    prop, c, txt = m.groups()
    sc = "/tmp/revert"
    shutil.rmtree(sc, ignore_errors=True)
    shutil.copytree("/repo", sc, symlinks=True)
    try:
        r = subprocess.run(["git", "-c", "user.name=x", "-c", "user.email=x@x", "revert", "--no-commit", c], cwd=sc, capture_output=True, text=True)
        if r.returncode:
            res = "conflict"
        else:
            q = subprocess.run(["/opt/venv/bin/python", "run.py", prop, "quick"], cwd=V, capture_output=True, text=True, env={**os.environ, "MC_REPO": sc, "VERIF_SEED": "1"})
            res = q.returncode
    finally:
        shutil.rmtree(sc)
    open(out, "a").write(json.dumps(dict(c=c, prop=prop, res=res, txt=txt[:90])) + "\n")
    print(prop, c, res, txt[:90], flush=True)
