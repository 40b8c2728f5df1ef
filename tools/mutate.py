"""Tries small mutants of the code under test on the checks (a development aid: finds statements no check depends on).
usage: mutate.py OUT.jsonl N [file substring ...]     runs up to N mutants not yet in OUT, in a fixed shuffled order"""
import ast, glob, json, multiprocessing, os, random, shutil, subprocess, sys, time
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
PY = "/opt/venv/bin/python"
MAP = {"generator.py": "C01 C02 C13 C17 C21 C12 C14 C06 C29", "amorphous_algorithms.py": "C16 C18 C29 C17", "molecule.py": "C15 C14 C09 C23 C07 C17 C29", "prefab.py": "C24 C25 C14",
       "wulff.py": "C26 C14", "scene.py": "C07 C28 C30 C14", "adsorbate.py": "C23 C29 C14", "alpha_shape.py": "C22 C23 C29", "post.py": "C21 C14 C29", "strain.py": "C12 C14",
       "transform.py": "C10 C04 C09 C02 C11 C15 C14 C06", "measure.py": "C19 C20 C16", "misc.py": "C10 C24 C25 C18 C16", "viz.py": "C30", "algebraic.py": "C03 C04 C11 C27 C13 C14 C05",
       "volume.py": "C03 C05 C06 C08 C07 C14 C17 C23", "voxel.py": "C01 C02 C19 C16 C14"}
SWAP = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "any": "all", "all": "any", "argmin": "argmax", "argmax": "argmin", "logical_and": "logical_or", "logical_or": "logical_and",
        "minimum": "maximum", "maximum": "minimum", "fix": "floor", "cos": "sin", "sin": "cos"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*"}


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[slice(*pos(n))].decode()
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
            if not isinstance(n, ast.Assert):
                skip |= {id(x) for x in ast.walk(n)}
            elif n.msg:
                skip |= {id(x) for x in ast.walk(n.msg)}
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list + [a.annotation for a in n.args.args if a.annotation]:
                skip |= {id(x) for x in ast.walk(d)}
            if n.name in ("print_progress", "abstractmethod"):
                skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("print", "isinstance"):
            skip |= {id(x) for x in ast.walk(n)}
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        out = []
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            out.append(f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant | ast.JoinedStr):
            out.append(f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})")
        elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
            out.append(f"({seg(n.left)} @ ({seg(n.right)}).T)")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            out.append("(" + op.join(f"({seg(v)})" for v in n.values) + ")")
            out += [seg(v) for v in n.values]
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            out.append(f"({seg(n.operand)})")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            out.append(str(not n.value))
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            out += [str(n.value + 1)] + ([str(n.value - 1)] if n.value > 0 else [])
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            out.append(repr(n.value * 1.3 + .1) if n.value > 1e-2 else repr(n.value * 1e3))
        elif isinstance(n, ast.Attribute) and n.attr in SWAP and isinstance(n.value, ast.Name) and n.value.id == "np":
            out.append(f"np.{SWAP[n.attr]}")
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            out.append(seg(n.value))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy"):
            out.append(seg(n.args[0]) if n.args else seg(n.func.value))
        elif isinstance(n, ast.If):
            out = []
            for t in ("True", "False"):
                yield (*pos(n.test), t, n.lineno, seg(n.test))
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and (isinstance(n, ast.AugAssign) or isinstance(n.targets[0], (ast.Attribute, ast.Subscript))):
            out.append("pass")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            out.append("pass")
        elif isinstance(n, ast.Return) and n.value is not None and isinstance(n.value, ast.Tuple) is False:
            pass
        elif isinstance(n, (ast.Break, ast.Continue)):
            out.append("pass")
        for t in out:
            yield (*pos(n), t, n.lineno, seg(n))


def main():
    out, N, only = sys.argv[1], int(sys.argv[2]), sys.argv[3:]
    M = []
    for p in sorted(glob.glob("/repo/czone/*/*.py")):
        if os.path.basename(p) in MAP and (not only or any(o in p for o in only)):
            M += [(os.path.relpath(p, "/repo"), *m) for m in mutants(p)]
    random.Random(7).shuffle(M)
    done = set()
    if os.path.exists(out):
        done = {tuple(json.loads(l)["m"][:4]) for l in open(out)}
    print(len(M), "mutants,", len(done), "done", flush=True)
    M = [m for m in M if m[:4] not in done][:N]
    J = int(os.environ.get("MUT_JOBS", 8))
    ps = [multiprocessing.get_context("fork").Process(target=work, args=(M[j::J], out, j)) for j in range(J)]
    [p.start() for p in ps]
    [p.join() for p in ps]


def work(M, out, j):
    """one mutant at a time, each check on one worker and a fraction of its subtrees"""
    sc = f"/tmp/mut/{os.getpid()}"
    shutil.copytree("/repo", sc, symlinks=True)
    vf = f"/tmp/mut/v{os.getpid()}"
    shutil.copytree(os.environ.get("MUT_VERIF", V), vf, symlinks=True, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"))
    for i, w in enumerate(sorted(os.sched_getaffinity(0))):
        if i == j % len(os.sched_getaffinity(0)):
            os.sched_setaffinity(0, {w})
            break
    try:
        for f, a, z, t, line, old in M:
            b = open(os.path.join("/repo", f), "rb").read()
            new = b[:a] + t.encode() + b[z:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            open(os.path.join(sc, f), "wb").write(new)
            t0, res, by = time.time(), "SURVIVED", []
            for c in MAP[os.path.basename(f)].split():
                try:
                    r = subprocess.run([PY, "run.py", c, "quick"], cwd=vf, capture_output=True, text=True, timeout=300,
                                       env={"MC_SAMPLE": "0.06", "MC_CAP": "25", **os.environ, "MC_REPO": sc, "MC_WORKERS": "1", "PYTHONDONTWRITEBYTECODE": "1"})
                    rc, o = r.returncode, r.stdout
                except subprocess.TimeoutExpired:
                    rc, o = 99, "timeout"
                if rc == 1 and "VIOLATION" in o:
                    res, by = "caught", c
                    break
                if rc:
                    res = "odd"
                    by.append(f"{c} rc={rc} {(r.stdout + r.stderr)[-200:] if rc != 99 else ''}")
            open(os.path.join(sc, f), "wb").write(b)
            with open(out, "a") as h:
                h.write(json.dumps(dict(m=[f, a, z, t, line, old], res=res, by=by, s=round(time.time() - t0, 1))) + "\n")
    finally:
        shutil.rmtree(sc)
        shutil.rmtree(vf)


main()
