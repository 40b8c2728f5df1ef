"""Seeded operations under a controlled scheduler: every sequence of seeded operations with perturbations of the hidden generators between
them, and every single preemption of an operation - at the lines of the code it executes - by another operation or by a perturbation, must
give the result the operation gives alone.  Every execution runs in a child forked from a process that never ran the code."""
import os
import sys
import pickle
import random
import struct
import itertools
import subprocess
import numpy as np
from mc import env, core, rng, ref
from mc import alpha as A
from mc.alpha import RVol, Surf
from czone.util.misc import get_N_splits
from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
from czone.generator import AmorphousGenerator
from czone.surface.adsorbate import add_adsorbate, find_approximate_normal
from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
from czone.transform.post import ChemicalSubstitution, PostSequence
from czone.molecule import Molecule

PROPERTY = "C29"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["results are equal when lists and integers are equal and coordinates agree to 1e-9", "preemption is at line granularity; the preempting operation runs to its end",
               "whether a seeded operation advances the global generator is left open, but it must not reset it to a fixed state"]


# ------------------------------------------------------------------ operations: name -> (arguments, run)
def cloud(n, k=0):
    i = np.arange(n) + k
    return np.c_[np.modf(i * .7548776662466927)[0] * 9, np.modf(i * .5698402909980532)[0] * 8, np.modf(i * .3819660112501051)[0] * 7]


def lattice(nx, ny, nz, a=2.1):
    return np.array(list(itertools.product(range(nx), range(ny), range(nz))), float) * a


def host():
    """a populated volume, made without running anything random (from reference sites)"""
    v = RVol(A.prism((7.3, 6.2, 6.4), (-.2, -.2, -.2)), (), A.Cell("cub").crystal()).build(A.Cell("cub").generator())
    v.populate_atoms()
    return v


def mol():
    return Molecule(np.array([6, 8]), np.array([[0, 0, 0], [0, 0, 1.15]]))


SPEC = np.array([6, 8, 6, 14, 8, 6, 6, 14, 79, 6] * 3)
OPS = {}


def op(name, make, run):
    OPS[name] = (make, run)


for args in ((3, 2, 20, 5), (4, 3, 17, 5), (1, 1, 30, 0), (5, 1, 12, 123456789), (7, 4, 34, 2)):
    op(f"get_N_splits{args}", lambda a=args: list(a), lambda a: get_N_splits(a[0], a[1], a[2], seed=a[3]))
for dims, md, de, s in (((6, 5, 4), 1.4, .11, 3), ((4.5, 4.5, 7), 1.2, .09, 0), ((3, 8, 5), .8, .2, 77)):
    op(f"gen_p_substrate{dims, s}", lambda d=dims, m=md, e=de, s=s: [np.array(d, float), m, e, s], lambda a: gen_p_substrate(a[0], min_dist=a[1], density=a[2], seed=a[3]))
    op(f"gen_p_substrate_batched{dims, s}", lambda d=dims, m=md, e=de, s=s: [np.array(d, float), m, e * .6, s], lambda a: gen_p_substrate_batched(a[0], min_dist=a[1], density=a[2], seed=a[3], batch_size=6))
op("gen_p_substrate default", lambda: [np.array([5., 4, 5])], lambda a: gen_p_substrate(a[0]))
op("gen_p_substrate_batched default", lambda: [np.array([5., 4, 5])], lambda a: gen_p_substrate_batched(a[0], density=.06))
for s in (23, 4):
    op(f"find_approximate_normal {s}", lambda s=s: [cloud(12) + [0, 0, .3], s], lambda a: find_approximate_normal(a[0], seed=a[1]))
op("find_approximate_normal default", lambda: [cloud(9, 5) + [.5, .5, 0]], lambda a: find_approximate_normal(a[0], decay=.95, tol=1e-4))


def shape(r):
    i, d = r
    return [sorted(map(int, i)), np.array(d["surface_tris"]).astype(int), np.array(d["a_tris"]).astype(int), np.array(d["tri"].simplices)]


op("alpha sampling cloud", lambda: [cloud(40), 1.9, 11], lambda a: sorted(map(int, alpha_shape_alg_3D_with_sampling(a[0], a[1], 4, std=.2, seed=a[2]))))
op("alpha sampling lattice", lambda: [lattice(3, 3, 3), 1.82, 5], lambda a: shape(alpha_shape_alg_3D_with_sampling(a[0], a[1], 3, std=5e-2, seed=a[2], return_alpha_shape=True)))
op("alpha rng lattice", lambda: [lattice(3, 3, 4), 1.8187, 5], lambda a: shape(alpha_shape_alg_3D(a[0], a[1], rng=np.random.default_rng(a[2]), return_alpha_shape=True)))
for s, samp in ((7, True), (31, False), (7, False)):
    op(f"add_adsorbate {s} {samp}", lambda s=s, u=samp: [host(), mol(), s, u], lambda a: ads(add_adsorbate(a[1], 0, 1.8, a[0], probe_radius=2.4, seed=a[2], use_sampling=a[3])))
op("add_adsorbate filtered", lambda: [host(), mol(), 12], lambda a: ads(add_adsorbate(a[1], 1, 2.1, a[0], seed=a[2], filters={"spatial": lambda x: x[:, 2] > 3}, mol_rotation=.4)))


def ads(r):
    return [np.array(r[0].atoms), np.array(r[0].species), bool(r[1])]


for t, u, f, s in (([6], [7], .5, 9), ([6, 8], [7, 16], .3, 9), ([14, 6, 8], [6, 8, 14], .7, 2)):
    op(f"substitution {t}->{u} {f} {s}", lambda t=t, u=u, f=f, s=s: [cloud(30), SPEC.copy(), ChemicalSubstitution(t, u, f), s], lambda a: list(a[2].apply_function(a[0], a[1], seed=a[3])))
op("substitution sequence", lambda: [cloud(30), SPEC.copy(), PostSequence([ChemicalSubstitution([6], [8], .4), ChemicalSubstitution([8], [6], .5)]), 21], lambda a: list(a[2].apply_function(a[0], a[1], seed=a[3])))
op("substitution seed 0", lambda: [cloud(30), SPEC.copy(), ChemicalSubstitution([6], [7], .5), 0], lambda a: list(a[2].apply_function(a[0], a[1], seed=a[3])))

# ------------------------------------------------------------------ perturbations
NOISE = {
    "none": lambda: None,
    "reseed global": lambda: (np.random.seed(5), random.seed(5)),
    "reseed global 0": lambda: (np.random.seed(0), random.seed(0)),
    "draw global": lambda: (np.random.rand(3), np.random.randint(0, 10, 5), np.random.standard_normal(2), random.random()),
    "fresh generator": lambda: np.random.default_rng().random(4),
    "unseeded splits": lambda: get_N_splits(3, 2, 20),
    "unseeded substitution": lambda: ChemicalSubstitution([6], [7], .5).apply_function(cloud(30), SPEC.copy()),
    "unseeded adsorbate": lambda: add_adsorbate(mol(), 0, 1.8, host(), probe_radius=2.4),
    "unseeded alpha": lambda: (alpha_shape_alg_3D(lattice(3, 3, 3), 1.82), alpha_shape_alg_3D_with_sampling(lattice(3, 3, 3), 1.82, 2)),
    "amorphous generator": lambda: AmorphousGenerator(density=.05).supply_atoms(np.array([[0, 0, 0], [4, 4, 5.]])),
}
CHEAP = ["none", "reseed global", "draw global", "fresh generator"]


# ------------------------------------------------------------------ isolated runs
def forked(fn):
    """fn() in a forked child; its (picklable) result, or the exception text"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        try:
            try:
                import signal
                signal.setitimer(signal.ITIMER_REAL, 50)
                core.reset_rng()
                with env.quiet():
                    out = ("ok", fn())
            except BaseException as e:  # noqa
                out = ("exc", f"{type(e).__name__}: {e}")
            data = pickle.dumps(out)
            os.write(w, struct.pack("<q", len(data)))
            v = memoryview(data)
            while v:
                v = v[os.write(w, v):]
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    try:
        while True:
            c = os.read(r, 1 << 20)
            if not c:
                break
            data += c
    finally:
        os.close(r)
        try:
            os.waitpid(pid, os.WNOHANG) if len(data) < 8 else os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    if len(data) < 8:
        return "exc", "child died"
    return pickle.loads(data[8:])


def equal(a, b):
    if isinstance(a, (list, tuple)):
        return isinstance(b, (list, tuple)) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.dtype.kind in "iub":
        return np.array_equal(a, b)
    return np.allclose(a, b, rtol=0, atol=1e-9, equal_nan=True)


_alone = {}


def alone(name):
    if name not in _alone:
        _alone[name] = forked(lambda: OPS[name][1](OPS[name][0]()))
    return _alone[name]


def brief(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def compare(ch, name, res, what):
    k, want = alone(name)
    ch.check(k == "ok", f"{name}: {want}")
    ch.check(equal(want, res), lambda: f"{name} gives another result {what}: {brief(res)} instead of {brief(want)}")


# ------------------------------------------------------------------ histories
SMALL = ["get_N_splits(3, 2, 20, 5)", "get_N_splits(4, 3, 17, 5)", "gen_p_substrate((6, 5, 4), 3)", "gen_p_substrate_batched((6, 5, 4), 3)", "find_approximate_normal 23", "alpha sampling lattice",
         "alpha rng lattice", "add_adsorbate 7 True", "add_adsorbate 7 False", "substitution [6, 8]->[7, 16] 0.3 9", "substitution sequence", "substitution seed 0"]


def body_history(ch):
    n = ch.choose("length", (1, 2, 3))
    names = [ch.choose(f"operation {i}", list(OPS) if n < 2 or (n == 2 and (i == 1 or THOROUGH)) else SMALL) for i in range(n)]
    noise = []
    for i in range(n):
        if n < 3 and i == n - 1:
            z = list(NOISE)
        elif n == 2 and THOROUGH:
            z = CHEAP[:2]
        else:
            z = CHEAP[1:] if THOROUGH and i == 2 else CHEAP[:1]
        noise.append(ch.choose(f"before {i}", z))
    share = ch.flag("same argument objects") if len(set(names)) < n else False

    def run():
        args, out = {}, []
        for name, z in zip(names, noise):
            NOISE[z]()
            make, f = OPS[name]
            a = args.setdefault(name, make()) if share else make()
            out.append(f(a))
        return out
    ch.op(n)
    k, out = forked(run)
    ch.check(k == "ok", f"{names} with {noise}: {out}")
    for i, (name, r) in enumerate(zip(names, out)):
        compare(ch, name, r, f"as number {i + 1} of {names} with {noise} before them")
    ch.state((names, noise, share))
    ch.outcome(tuple(names[:1]))


# ------------------------------------------------------------------ preemption
PKG = os.path.join(os.path.realpath(env.REPO), "czone") + os.sep


_ours = {}


class Preempt:
    """runs fn at the k-th line of the code under test that f executes; k None: records the lines"""

    def __init__(self, k=None, fn=None):
        self.k, self.fn, self.n, self.lines, self.done = k, fn, 0, [], False

    def glob(self, frame, event, arg):
        fn = frame.f_code.co_filename
        ours = _ours.get(fn)
        if ours is None:
            ours = _ours[fn] = os.path.realpath(fn).startswith(PKG)
        return self.loc if ours and not self.done else None

    def loc(self, frame, event, arg):
        if event != "line" or self.done:
            return self.loc
        if self.k is None:
            self.lines.append((os.path.basename(frame.f_code.co_filename), frame.f_lineno))
        elif self.n == self.k:
            self.done = True
            sys.settrace(None)
            self.fn()
        self.n += 1
        return self.loc

    def run(self, f, a):
        sys.settrace(self.glob)
        try:
            return f(a)
        finally:
            sys.settrace(None)


_points = {}


def points(name):
    """indices of line events to preempt at: for each line, its first, second (thorough: up to fifth) and last execution"""
    if name not in _points:
        def go():
            t = Preempt()
            make, f = OPS[name]
            t.run(f, make())
            return t.lines
        k, L = forked(go)
        assert k == "ok", L
        occ = {}
        for i, l in enumerate(L):
            occ.setdefault(l, []).append(i)
        m = 3 if THOROUGH else 1
        _points[name] = sorted({i for v in occ.values() for i in v[:m] + v[-1:]}) if len(L) > (600 if THOROUGH else 60) else list(range(len(L)))
        _points[name] = _points[name] or [0]
    return _points[name]


INTRUDERS = ["noise: reseed global", "noise: draw global", "noise: fresh generator", "get_N_splits(4, 3, 17, 5)", "gen_p_substrate((6, 5, 4), 3)", "find_approximate_normal 4", "alpha sampling lattice", "substitution [6]->[7] 0.5 9", "itself"]
PRE = [n for n in SMALL if n != "gen_p_substrate((6, 5, 4), 3)"] + ["gen_p_substrate((4.5, 4.5, 7), 0)", "add_adsorbate filtered", "alpha sampling cloud"]
INTR_T = INTRUDERS + ["add_adsorbate 31 False", "gen_p_substrate_batched((6, 5, 4), 3)", "noise: unseeded splits", "noise: unseeded alpha", "substitution sequence"]


def body_preempt(ch):
    name = ch.choose("operation", list(OPS) if THOROUGH else PRE)
    k = ch.choose("preempted at line event", points(name))
    i = points(name).index(k)
    who = ch.choose("by", INTR_T[i % 2::2] if THOROUGH else [INTRUDERS[0], INTRUDERS[1 + i % 8]] if "adsorbate" in name else [INTRUDERS[0], INTRUDERS[1 + i % 4], INTRUDERS[5 + i % 4]])
    other = name if who == "itself" else who
    shared = ch.flag("same argument objects") if who == "itself" else False
    ch.op(2)

    def run():
        make, f = OPS[name]
        a = make()
        got = []

        def intrude():
            if other.startswith("noise: "):
                NOISE[other[7:]]()
            else:
                got.append(OPS[other][1](a if shared else OPS[other][0]()))
        p = Preempt(k, intrude)
        r = p.run(f, a)
        return r, got, p.done
    kind, out = forked(run)
    what = f"when preempted at line event {k} by {who}"
    ch.check(kind == "ok", f"{name} {what}: {out}")
    r, got, done = out
    compare(ch, name, r, what)
    for g in got:
        compare(ch, other, g, f"when it preempts {name} at line event {k}")
    ch.outcome((name, done))
    ch.state((name, k, who, shared))


# ------------------------------------------------------------------ the global generators
def body_global(ch):
    """a seeded operation never resets the global generators"""
    name = ch.choose("operation", list(OPS))
    s = ch.choose("global seeds", [(1, 2), (0, 77), (123, 5)])

    def end(seed):
        def run():
            np.random.seed(seed), random.seed(seed)
            make, f = OPS[name]
            a = make()
            f(a)
            return [np.random.get_state()[1].tolist(), np.random.get_state()[2], hash(random.getstate())]
        return run
    ch.op(2)
    (k1, e1), (k2, e2) = forked(end(s[0])), forked(end(s[1]))
    ch.check(k1 == k2 == "ok", f"{name}: {e1} {e2}")
    ch.check(e1[:2] != e2[:2] and e1[2] != e2[2], f"{name} leaves the global generator in a state that does not depend on the state before: draws of other components repeat")
    ch.state((name, s))


# ------------------------------------------------------------------ processes
def body_process(ch):
    """fresh interpreters with different hash seeds"""
    h = ch.choose("PYTHONHASHSEED", ("0", "1", "2", "3") if THOROUGH else ("0", "1"))
    order = ch.choose("order", (1, -1))
    code = ("import sys,pickle;sys.path.insert(0,%r)\nfrom checks import C29\nfrom mc import core,env\ncore.reset_rng()\n"
            "with env.quiet():\n  out={n:C29.OPS[n][1](C29.OPS[n][0]()) for n in list(C29.OPS)[::%d]}\nsys.stdout.buffer.write(b'@@@'+pickle.dumps(out))" % (core.VERIF, order))
    e = dict(os.environ, PYTHONHASHSEED=h)
    p = subprocess.run([sys.executable, "-c", code], env=e, capture_output=True, timeout=300)
    ch.check(b"@@@" in p.stdout, lambda: "no result: " + p.stderr.decode()[-300:])
    out = pickle.loads(p.stdout.split(b"@@@", 1)[1])
    ch.op(len(OPS))
    for n in OPS:
        compare(ch, n, out[n], f"in another process (hash seed {h}, {'reverse ' * (order < 0)}order)")
    ch.state((h, order))


HARNESSES = {
    "histories": dict(body=body_history, shard=3, bounds=f"{len(OPS)} seeded operations: single and paired under 10 perturbations, triples of 12 (thorough: with perturbations), shared and fresh argument objects"),
    "preemption": dict(body=body_preempt, shard=3, bounds=f"{len(PRE)} (thorough {len(OPS)}) operations x every line event (long runs: first and last execution of every line; thorough: all operations, first three) x 2-3 of 9 (thorough 7 of 14) intruders in rotation"),
    "global state": dict(body=body_global, shard=2, bounds=f"{len(OPS)} operations x pairs of global seeds"),
    "processes": dict(body=body_process, shard=2, bounds="all operations in fresh interpreters x hash seeds x orders", watchdog=400),
}
TECHNIQUE = "stateless exploration of the real code under a controlled scheduler: all operation histories and all single preemptions at line granularity within bounds"
LEVEL_NOTE = "every sequence up to length 3 and every single preemption at the chosen line events; one preemption per execution"
