"""Stateless, exhaustive explorer for the real code.

A harness is a Python function ``body(ch)``.  Every nondeterministic decision (an input
drawn from a finite alphabet, the next operation of a history, the outcome of a random
draw made by the code under test) is taken with ``ch.choose``.  The explorer runs the body
again and again, each time replaying a recorded prefix of choices and taking the next
untried alternative at the deepest open choice point, until the whole tree has been
visited.  Nothing is sampled; when a cap (executions, time) is hit, the evidence says so.

* ``ch.choose(label, options)``  a choice point.  Replaying a prefix checks that label and
  number of options are the recorded ones: a divergence is a hard error of the harness.
* ``ch.prune(why)``              this path is outside the bound; not counted as a trace.
* ``ch.visit(key, left)``        explicit-state deduplication: prunes if the canonical state
  ``key`` was already expanded with at least as many steps left.
* ``ch.state(key)``              report an observed canonical state (counted distinct).
* ``ch.op(n)``                   n operations of the implementation executed (transitions).
* ``ch.fail(msg, key=..)``       the property is broken on this execution.
"""
import hashlib, json, multiprocessing as mp, os, pickle, resource, signal, sys, tempfile, time, traceback, zlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Prune(BaseException):
    pass


class Violation(BaseException):
    def __init__(self, msg, key=None):
        self.msg, self.key = str(msg), key
        super().__init__(msg)


class NonTermination(BaseException):
    pass


class HarnessError(BaseException):
    """the harness (not the code under test) is broken"""


class _Foreign(BaseException):
    """subtree belongs to another worker"""


def h64(obj):
    b = obj if isinstance(obj, bytes) else repr(obj).encode()
    return int.from_bytes(hashlib.blake2b(b, digest_size=8).digest(), "big")


class Ch:
    """the choices of one execution"""

    def __init__(self, ex, prefix):
        self.ex, self.prefix = ex, prefix
        self.path = []      # indices taken
        self.widths = []    # number of options at each point
        self.labels = []    # human readable
        self.cost = 0
        self._seen_state = False

    def choose(self, label, options):
        options = list(options)
        n = len(options)
        if n == 0:
            raise Prune("no option")
        i = len(self.path)
        if i < len(self.prefix):
            k, w, lab = self.prefix[i]
            if (w is not None and w != n) or (lab is not None and lab != label):
                raise HarnessError(f"divergence while replaying choice {i}: {lab}/{w} became {label}/{n}")
            if k >= n:
                raise HarnessError(f"replayed choice {i} ({label}) out of range: {k} of {n}")
        else:
            k = 0
        self.path.append(k)
        self.widths.append(n)
        self.labels.append((label, options[k]))
        if self.ex is not None:
            self.ex.on_choice(self)
        return options[k]

    def flag(self, label):
        return self.choose(label, (False, True))

    def prune(self, why=""):
        raise Prune(why)

    def visit(self, key, left=0):
        """dedupe: only a *fresh* path (beyond the replayed prefix) may be cut"""
        self.state(key)
        if self.ex is None:
            return
        k = h64(key)
        if len(self.path) >= len(self.prefix):
            old = self.ex.visited.get(k)
            if old is not None and old[0] >= left and old[1] != tuple(self.path):
                self.ex.merged += 1
                raise Prune("merged")
            if old is None or old[0] < left:
                self.ex.visited[k] = (left, tuple(self.path))

    def state(self, key):
        self._seen_state = True
        if self.ex is not None:
            self.ex.states.add(h64(key))

    def op(self, n=1):
        if self.ex is not None:
            self.ex.ops += n

    def outcome(self, key):
        if self.ex is not None:
            self.ex.outcomes.add(h64(key))

    def fail(self, msg, key=None):
        raise Violation(msg, key)

    def check(self, cond, msg, key=None):
        if not cond:
            raise Violation(msg() if callable(msg) else msg, key)

    def describe(self):
        return [f"{l} = {_short(o)}" for l, o in self.labels]


def _short(o, n=160):
    if callable(o) and hasattr(o, "__name__"):
        s = o.__name__
    else:
        s = repr(o)
    s = " ".join(s.split())
    return s if len(s) <= n else s[:n] + "..."


class Explorer:
    def __init__(self, body, worker=0, nworkers=1, shard_depth=2, max_viol=3, watchdog=60, deadline=None, stop=None):
        self.body, self.worker, self.nworkers = body, worker, nworkers
        self.shard_depth, self.max_viol, self.watchdog, self.deadline = shard_depth, max_viol, watchdog, deadline
        self.stop = stop
        self.visited, self.states, self.outcomes = {}, set(), set()
        self.ops = self.execs = self.traces = self.pruned = self.merged = self.points = 0
        self.violations, self.samples, self.capped = [], [], None
        self.maxdepth = 0

    def on_choice(self, ch):
        if len(ch.path) == self.shard_depth and not self.mine(ch.path):
            raise _Foreign()

    def mine(self, path):
        if self.sample and zlib.crc32(b"s" + repr(path).encode()) % 1000 >= 1000 * self.sample:
            return False
        return self.nworkers < 2 or zlib.crc32(repr(path).encode()) % self.nworkers == self.worker

    # only for trying out mutants (tools/mutate.py): a fraction of the subtrees; never set by a registered command
    sample = float(os.environ.get("MC_SAMPLE", 0))

    def _finish_short(self, ch):
        # executions that end before the shard depth are owned by one worker
        return len(ch.path) < self.shard_depth and not self.mine(ch.path)

    def run(self):
        prefix = []
        while prefix is not None:
            if self.stop is not None and self.stop.value and not self.capped:
                self.capped = "stopped after violations in another worker"
                break
            if self.deadline and time.time() > self.deadline:
                self.capped = "time cap"
                break
            ch, kind, info = execute(self.body, prefix, self, self.watchdog)
            newpts = max(0, len(ch.path) - max(len(prefix) - 1, 0))
            foreign = kind == "foreign" or self._finish_short(ch)
            if kind == "harness":
                if "diverge" not in info and "out of range" not in info:
                    raise HarnessError(info)
                # randomness and order of execution are owned here: what still differs is the code under test
                self.violations.append(dict(msg=f"the same choices lead to different behaviour when repeated: {info}", key="diverges",
                                            choices=[k for k, *_ in prefix], labels=ch.describe()))
                if self.stop is not None:
                    self.stop.value = 1
                self.capped = "stopped after violations"
                break
            if not foreign:
                self.execs += 1
                self.points += newpts
                self.maxdepth = max(self.maxdepth, len(ch.path))
                if not ch._seen_state:
                    for d in range(len(ch.path) - newpts + 1, len(ch.path) + 1):
                        self.states.add(h64(ch.path[:d]))
                if kind == "ok":
                    self.traces += 1
                    if len(self.samples) < 3 and self.traces in (1, 17, 301):
                        self.samples.append(ch.describe())
                elif kind == "prune":
                    self.pruned += 1
                elif kind == "viol":
                    self.traces += 1
                    self.violations.append(dict(msg=info.msg, key=info.key, choices=list(ch.path), labels=ch.describe()))
                    if self._unknown() >= self.max_viol:
                        if self.stop is not None:
                            self.stop.value = 1
                        self.capped = "stopped after violations"
                        break
            prefix = self._next(ch)
        return self

    known_keys = frozenset()

    def _unknown(self):
        return sum(1 for v in self.violations if v["key"] not in self.known_keys)

    @staticmethod
    def _next(ch):
        path = list(ch.path)
        while path:
            i = len(path) - 1
            if path[i] + 1 < ch.widths[i]:
                return [(path[j], ch.widths[j], ch.labels[j][0]) for j in range(i)] + [(path[i] + 1, ch.widths[i], ch.labels[i][0])]
            path.pop()
        return None


def reset_rng():
    """own the hidden randomness: the global generators restart from the same state in every execution"""
    import random
    random.seed(20240229)
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(20240229)
    r = sys.modules.get("mc.rng")
    if r is not None:
        r.reset()


def _alarm(sig, frm):
    raise NonTermination()


def execute(body, prefix, ex, watchdog=60):
    ch = Ch(ex, prefix)
    reset_rng()
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, watchdog)
    try:
        body(ch)
        kind, info = "ok", None
    except Prune as e:
        kind, info = "prune", e
    except _Foreign:
        kind, info = "foreign", None
    except Violation as e:
        kind, info = "viol", e
    except NonTermination:
        kind, info = "viol", Violation(f"execution did not terminate within {watchdog} s")
    except HarnessError as e:
        kind, info = "harness", str(e)
    except MemoryError as e:
        kind, info = "viol", Violation("MemoryError")
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        kind, info = "viol", Violation(f"unexpected {type(e).__name__}: {e} at {where}", key=f"exc:{type(e).__name__}")
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return ch, kind, info


def _worker(args, path):
    body, w, n, depth, deadline, known, stop, watchdog = args
    try:                # one CPU per worker: libraries then start no helper threads
        cpus = sorted(os.sched_getaffinity(0))
        os.sched_setaffinity(0, {cpus[w % len(cpus)]})
    except OSError:
        pass
    try:                # runaway allocations become MemoryErrors, which are reported
        vm = int(open("/proc/self/statm").read().split()[0]) * resource.getpagesize()
        resource.setrlimit(resource.RLIMIT_AS, (vm + (3 << 30),) * 2)
    except (OSError, ValueError):
        pass
    ex = Explorer(body, w, n, depth, deadline=deadline, stop=stop, watchdog=watchdog)
    ex.known_keys = known
    err = None
    try:
        ex.run()
    except HarnessError as e:
        err = str(e)
    out = {k: getattr(ex, k) for k in ("states", "outcomes", "ops", "execs", "traces", "pruned", "merged", "points",
                                       "violations", "samples", "capped", "maxdepth")}
    out["err"] = err
    with open(path, "wb") as f:
        pickle.dump(out, f)


def explore(body, nworkers=8, shard_depth=2, deadline=None, known=frozenset(), watchdog=60):
    """runs the whole tree; returns merged statistics"""
    stop = mp.get_context("fork").Value("i", 0, lock=False)
    with tempfile.TemporaryDirectory(prefix="mc_") as td:
        procs = []
        ctx = mp.get_context("fork")
        for w in range(nworkers):
            p = ctx.Process(target=_worker, args=((body, w, nworkers, shard_depth, deadline, known, stop, watchdog), f"{td}/{w}"))
            p.start()
            procs.append(p)
        for p in procs:
            p.join()
        tot = None
        for w, p in enumerate(procs):
            if not os.path.exists(f"{td}/{w}"):
                if p.exitcode is None or p.exitcode >= 0:
                    raise HarnessError(f"worker {w} died with exit code {p.exitcode}")
                r = dict(states=set(), outcomes=set(), ops=0, execs=0, traces=0, pruned=0, merged=0, points=0, samples=[], capped="died", maxdepth=0, err=None,
                         violations=[dict(msg=f"the process running the executions was ended by signal {-p.exitcode}", key=f"signal {-p.exitcode}", choices=[], labels=[])])
            else:
                with open(f"{td}/{w}", "rb") as f:
                    r = pickle.load(f)
            if r["err"]:
                raise HarnessError(r["err"])
            if tot is None:
                tot = r
                continue
            tot["states"] |= r["states"]
            tot["outcomes"] |= r["outcomes"]
            for k in ("ops", "execs", "traces", "pruned", "merged", "points"):
                tot[k] += r[k]
            tot["violations"] += r["violations"]
            tot["samples"] = (tot["samples"] + r["samples"])[:4]
            tot["maxdepth"] = max(tot["maxdepth"], r["maxdepth"])
            tot["capped"] = tot["capped"] or r["capped"]
    return tot


# ---------------------------------------------------------------- known findings
def known_findings(pid):
    """lines of /verif/known_findings.txt:  known: property=<id> key=<key> <text> | fixed: property=<id> <commit> <text>"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2].strip()
                key, _, text = rest.partition(" ")
                out[key.removeprefix("key=")] = text
    return out


# ---------------------------------------------------------------- running a check
def run_check(mod, tier, seed):
    """mod: module with PROPERTY, HARNESSES {name: dict(body=.., shard=.., bounds=..)}, ASSUMPTIONS"""
    t0 = time.time()
    pid = mod.PROPERTY
    known = known_findings(pid)
    cap = 780 if tier == "quick" else 840
    cap = float(os.environ.get("MC_CAP", cap))
    agg = dict(states=0, transitions=0, traces_validated_against_impl=0, executions=0, pruned_paths=0, merged_states=0,
               distinct_outcomes=0, max_depth=0)
    per, samples, viol, capped = {}, [], [], None
    only = os.environ.get("MC_ONLY")
    todo = [n for n, h in mod.HARNESSES.items() if not (only and n not in only.split(",")) and tier in h.get("tiers", ("quick", "thorough"))]
    for i, name in enumerate(todo):
        h = mod.HARNESSES[name]
        reserve = min(40., cap / (2 * len(todo))) * (len(todo) - 1 - i)      # the following harnesses get a share of the time
        t1 = time.time()
        r = explore(h["body"], nworkers=int(os.environ.get("MC_WORKERS", h.get("workers", 8))), shard_depth=h.get("shard", 2), deadline=t0 + cap - reserve,
                    known=frozenset(known), watchdog=h.get("watchdog", 60))
        per[name] = dict(bounds=_bounds(h, tier), states=len(r["states"]), transitions=r["ops"] or r["points"],
                         traces=r["traces"], executions=r["execs"], pruned=r["pruned"], merged=r["merged"],
                         distinct_outcomes=len(r["outcomes"]), max_choices=r["maxdepth"], capped=r["capped"],
                         wall_s=round(time.time() - t1, 2))
        agg["states"] += len(r["states"])
        agg["transitions"] += r["ops"] or r["points"]
        agg["traces_validated_against_impl"] += r["traces"]
        agg["executions"] += r["execs"]
        agg["pruned_paths"] += r["pruned"]
        agg["merged_states"] += r["merged"]
        agg["distinct_outcomes"] += len(r["outcomes"])
        agg["max_depth"] = max(agg["max_depth"], r["maxdepth"])
        capped = capped or r["capped"]
        samples += [dict(harness=name, choices=s) for s in r["samples"][:2]]
        for v in r["violations"]:
            v["harness"] = name
            viol.append(v)
        if r["traces"] == 0 and not r["violations"] and not Explorer.sample:
            raise HarnessError(f"harness {name} explored no complete trace (vacuous)")
    new = [v for v in viol if v["key"] not in known]
    seen_known = sorted({v["key"] for v in viol if v["key"] in known})
    new.sort(key=lambda v: (len(v["choices"]), v["choices"]))
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(agg, samples=samples or [dict(choices=["(none)"])], harnesses=per, exhaustive=capped is None,
                            explanation=getattr(mod, "COVERAGE", (mod.__doc__ or "").strip())),
              assumptions=list(getattr(mod, "ASSUMPTIONS", ())), wall_s=round(time.time() - t0, 2), violations=len(new))
    if capped:
        ev["coverage"]["capped"] = capped
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in seen_known:
        print(f"KNOWN-FINDING: property={pid} {known[k]}")
    for name, p in per.items():
        print(f"{pid}/{name}: states={p['states']} transitions={p['transitions']} traces={p['traces']} pruned={p['pruned']} "
              f"outcomes={p['distinct_outcomes']} wall={p['wall_s']}s{' CAPPED: ' + p['capped'] if p['capped'] else ''}")
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for i, v in enumerate(new[:5]):
            rp = os.path.join("replays", f"{pid}-{v['harness']}-{i}.json")
            with open(os.path.join(VERIF, rp), "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, **v), f, indent=1, default=str)
            print(f"  {v['harness']}: {v['msg'][:400]}")
            for l in v["labels"][:12]:
                print("     ", l)
            print(f"VIOLATION property={pid} replay={rp}")
        return 1
    return 0


def _bounds(h, tier):
    b = h.get("bounds", "")
    return b(tier) if callable(b) else b


def replay(mod, rec):
    h = mod.HARNESSES[rec["harness"]]
    res = []
    for _ in range(2):
        ch, kind, info = execute(h["body"], [(c, None, None) for c in rec["choices"]], None, h.get("watchdog", 60))
        res.append((kind, info.msg if kind == "viol" else str(info)))
    print("\n".join(ch.describe()))
    if res[0] != res[1]:
        print("NOT REPRODUCIBLE:", res)
        return 2
    print(res[0])
    return 1 if res[0][0] == "viol" else 0
