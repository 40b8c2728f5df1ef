"""Builds and vets planted bugs.  usage: seed.py [--nocheck] [ID...]   (default: all that have no meta.json)
Definitions are in tools/seeds/*.py:  bug(id, prop, file, [(old, new), ...], needs, breaks, demo)."""
import glob, json, os, re, shutil, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY, BASE = "/opt/venv/bin/python", "ccd2b3a"
BUGS = {}


def bug(id, prop, file, edits, needs, breaks, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(prop=prop, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo)


for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
    exec(compile(open(f).read(), f, "exec"), dict(bug=bug))


def run(cmd, cwd, env=None, timeout=900):
    try:
        r = subprocess.run(cmd, cwd=cwd, env={**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", **(env or {})},
                           capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 99, "timeout"


def vet(id, check=True):
    b = BUGS[id]
    d, sc, cl = os.path.join(V, "seeded", id), f"/tmp/seed_{id}", "/tmp/seed_clean"
    if not os.path.exists(cl):
        subprocess.run(["cp", "-a", "/repo", cl], check=True)
    shutil.rmtree(sc, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", sc], check=True)
    try:
        p = os.path.join(sc, b["file"])
        s = open(p).read()
        for old, new, *nth in b["edits"]:          # nth (from 0) picks one of several matches
            if s.count(old) != 1 and not nth:
                return f"edit matches {s.count(old)} times: {old!r}"
            parts = s.split(old)
            k = nth[0] + 1 if nth else 1
            s = old.join(parts[:k]) + new + old.join(parts[k:])
        open(p, "w").write(s)
        diff = subprocess.run(["git", "diff"], cwd=sc, capture_output=True, text=True).stdout
        # changed lines must be the original repository's
        blame = subprocess.run(["git", "blame", "-s", "HEAD", "--", b["file"]], cwd=sc, capture_output=True, text=True).stdout.splitlines()
        removed, ours, ln = 0, [], 0
        for l in subprocess.run(["git", "diff", "-U0"], cwd=sc, capture_output=True, text=True).stdout.splitlines():
            m = re.match(r"@@ -(\d+)", l)
            if m:
                ln = int(m[1])
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if not blame[ln - 1].startswith("^"):
                    ours.append(l)
                ln += 1
        if ours or not removed:
            return f"not original lines: {ours} (removed {removed})"
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n"
                                                    "import warnings\nwarnings.filterwarnings('ignore')\n" + b["demo"].strip("\n") + "\n")
        rc, o = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], sc, {"PYTHONPATH": sc})
        if rc:
            return "existing tests fail: " + o[-1500:]
        rc, o = run(["bash", os.path.join(d, "demo.sh")], cl, timeout=300)
        if rc:
            return "demo fails on clean tree: " + o[-1500:]
        rc, o = run(["bash", os.path.join(d, "demo.sh")], sc, timeout=300)
        if rc == 0:
            return "demo passes with the bug"
        tail = (o.strip().splitlines() or [""])[-1]
        meta = dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"])
        res = "unchecked"
        if check:
            t = time.time()
            rc, o = run([PY, "run.py", b["prop"], "quick"], V, {"MC_REPO": sc, "VERIF_SEED": "1"})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res = ("CAUGHT" if rc == 1 and v and f"property={b['prop']}" in v[0] else f"MISSED rc={rc} {o[-300:]}") + f" {time.time()-t:.0f}s"
        json.dump(meta, open(os.path.join(d, "meta.json"), "w"), indent=1)
        return f"{res}   [demo: {tail[:150]}]"
    finally:
        shutil.rmtree(sc, ignore_errors=True)


if __name__ == "__main__":
    a = [x for x in sys.argv[1:] if not x.startswith("--")]
    todo = a or [i for i in BUGS if not os.path.exists(os.path.join(V, "seeded", i, "meta.json"))]
    log = os.path.join(V, "tools", "seed_results.json")
    for i in todo:
        r = vet(i, "--nocheck" not in sys.argv)
        print(i, BUGS[i]["prop"], r, flush=True)
        if r.startswith(("CAUGHT", "MISSED")):
            res = json.load(open(log)) if os.path.exists(log) else {}
            res[i] = r.split()[0].lower()
            json.dump(res, open(log, "w"), indent=1, sort_keys=True)
    shutil.rmtree("/tmp/seed_clean", ignore_errors=True)
