"""Full (unsampled) runs of chosen checks on mutants that survived a sampled run: recheck.py RESULTS.jsonl 'file:offset:new=Cxx,Cyy' ..."""
import json, os, shutil, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sc = f"/tmp/recheck{os.getpid()}"
shutil.copytree("/repo", sc, symlinks=True)
R = [json.loads(l) for l in open(sys.argv[1])]
try:
    for a in sys.argv[2:]:
        k, _, cs = a.rpartition("=")
        f, off, *_ = k.split(":")
        for r in R:
            if r["m"][0].endswith(f) and r["m"][1] == int(off) and r["res"] != "caught":
                p, s, e, new = r["m"][:4]
                b = open(os.path.join("/repo", p), "rb").read()
                open(os.path.join(sc, p), "wb").write(b[:s] + new.encode() + b[e:])
                out = []
                for c in cs.split(","):
                    q = subprocess.run(["/opt/venv/bin/python", "run.py", c, "quick"], cwd=V, capture_output=True, text=True, env={**os.environ, "MC_REPO": sc})
                    out.append((c, q.returncode))
                    if q.returncode == 1:
                        break
                print(p, r["m"][4], new, "<-", r["m"][5], out, flush=True)
                open(os.path.join(sc, p), "wb").write(b)
finally:
    shutil.rmtree(sc)
