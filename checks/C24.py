"""All random outcomes (kinds and positions of defects) of the FCC planar-defect prefabs on small volumes, each populated structure
decoded layer by layer: the stacking sequence is recovered from the atoms alone and must contain the requested defects and no other."""
import os
import itertools
import numpy as np
from mc import env, ref, rng
from mc import alpha as A
from czone.generator import Generator
from czone.transform import Rotation, Reflection, Translation
from czone.volume import Plane
from czone.prefab import fccMixedTwinSF, fccStackingFault, fccTwin

PROPERTY = "C24"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["FCC crystals described by their conventional cubic cell with an atom on its corner, as the prefabs document",
               "volumes are single Volume objects (the prefabs read their surfaces)"]
a0 = 4.0
FCC = [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]
R1 = ref.rodrigues([1, 2, 3], .7)
FRAMES = {"plain": (np.eye(3), np.zeros(3)), "shifted": (np.eye(3), np.array([.7, -1.3, 2.2])), "rotated": (R1, np.array([3., 1, -2])),
          "quarter": (ref.rodrigues([0, 0, 1], np.pi / 2), np.zeros(3)), "mirrored": (ref.householder([1, 0, 2]) @ R1, np.array([0, 5., 0]))}
PLANES = [p for p in itertools.product((1, -1), repeat=3)]


def make_gen(frame):
    M, t = FRAMES[frame]
    g = Generator.from_unit_cell([79] * 4, np.array(FCC), (a0,) * 3, (90,) * 3)
    if frame == "plain":
        return g
    if frame == "shifted":
        return g.from_generator(transformation=[Translation(t.copy())])
    if frame == "mirrored":
        return g.from_generator(transformation=[Rotation(matrix=R1.copy()), Reflection(Plane(np.array([1., 0, 2]), np.zeros(3))), Translation(t.copy())])
    return g.from_generator(transformation=[Rotation(matrix=M.copy()), Translation(t.copy())])


class Stack:
    """layers of an FCC crystal along a {111} normal, decoded from atoms"""

    def __init__(self, frame, plane):
        M, self.o = FRAMES[frame]
        B = M * a0
        p = np.array(plane, float)
        self.n = B @ p / np.linalg.norm(B @ p)
        self.d = a0 / np.sqrt(3)
        v = [np.array(x, float) / 2 for x in itertools.product((1, 0, -1), repeat=3) if np.dot(x, plane) == 0 and np.abs(x).sum() == 2]
        v1 = v[0]
        v2 = next(w for w in v if abs(w @ v1 + .25) < 1e-9)          # 120 degrees
        self.v = B @ np.array([v1, v2]).T
        step = next(np.array(f) for f in FCC[1:] + [[.5, .5, 1], [-.5, .5, 0]] if abs(abs(np.dot(f, plane)) - 1) < 1e-9)
        step = step * np.sign(step @ p)
        w = B @ step
        self.s = w - self.n * (w @ self.n)
        self.pin = np.linalg.pinv(self.v)

    def frac(self, x):
        u = (x - self.o) @ self.pin.T
        return u

    def decode(self, atoms):
        """{layer: phase}; error text if an atom is on no layer or in no phase, or a layer has two phases"""
        h = (atoms - self.o) @ self.n / self.d
        k = np.round(h).astype(int)
        if np.abs(h - k).max() > 1e-4:
            i = int(np.argmax(np.abs(h - k)))
            return None, f"atom {np.round(atoms[i], 4).tolist()} is between layers"
        u = (atoms - self.o) @ self.pin.T
        us = self.pin @ self.s
        ph = np.full(len(atoms), -1)
        for j in range(3):
            w = u - j * us
            ph[np.abs(w - np.round(w)).max(1) < 1e-4] = j
        if (ph < 0).any():
            return None, f"atom {np.round(atoms[int(np.argmin(ph))], 4).tolist()} is on no stacking position"
        out = {}
        for q, j in zip(k, ph):
            if out.setdefault(int(q), int(j)) != j:
                return None, f"layer {q} holds two stacking positions"
        return out, None

    def fill(self, phase, rv):
        """sites of the decoded layers inside the volume"""
        lo, hi = rv.aabb()
        c = np.array(list(itertools.product(*zip(lo, hi))))
        hs = (c - self.o) @ self.n / self.d
        u = (c - self.o) @ self.pin.T
        a, b = np.floor(u.min(0)).astype(int) - 2, np.ceil(u.max(0)).astype(int) + 2
        g = np.array(list(itertools.product(range(a[0], b[0] + 1), range(a[1], b[1] + 1))), float) @ self.v.T
        P, unknown = [], []
        for k in range(int(np.floor(hs.min())), int(np.ceil(hs.max())) + 1):
            base = self.o + k * self.d * self.n
            for j in ([phase[k]] if k in phase else range(3)):
                p = g + base + j * self.s
                ins, sure = rv.judge(p)
                if k in phase:
                    P.append((p[ins | ~sure], ~sure[ins | ~sure]))
                else:
                    unknown.append((k, j, bool((ins & sure).any())))
        return P, unknown


def volumes(frame, plane):
    S = Stack(frame, plane)
    e1 = S.v[:, 0] / np.linalg.norm(S.v[:, 0])
    e2 = np.cross(S.n, e1)
    R = np.array([e1, e2, S.n]).T
    far = np.array([57., -31, 88])

    def slab(nl, w, c, eps=.31):
        b = (A.BOX - .5) * np.array([w, w * 1.1, nl * S.d + eps])
        return b @ R.T + c
    out = {}
    out["column"] = lambda: A.RVol(slab(13, 5.2, np.array([.3, .2, .15])))
    out["tall column"] = lambda: A.RVol(slab(24, 5.2, np.array([.3, .2, .15])))
    out["far column"] = lambda: A.RVol(slab(13, 4.6, far))
    out["box"] = lambda: A.RVol(A.prism((21.1, 20.3, 20.2), (-3.1, 2.2, .9)))
    out["ball"] = lambda: A.RVol(None, [A.Surf("sphere", 13.3, [1.1, .4, -.3])])
    out["capped column"] = lambda: A.RVol(slab(22, 9.2, np.array([.3, .2, 6.])), [A.Surf("sphere", 13.3, [.1, .4, -.3])])
    out["column in a ball"] = lambda: A.RVol(slab(13, 5.2, np.array([.3, .2, .15])), [A.Surf("sphere", 19., [1.1, .4, 3])])
    out["cut column"] = lambda: A.RVol(slab(14, 5.2, np.array([.3, .2, .15])), [A.Surf("plane", e1 + .15 * S.n, np.array([.3, .2, .15]) + 1.1 * e1)])
    return out


_vols = {}


def geometry(frame, plane, name):
    k = (frame, plane, name)
    if k not in _vols:
        _vols[k] = volumes(frame, plane)[name]()
    return _vols[k]


def snapshot(vol, gen):
    return (None if vol.points is None else np.array(vol.points).tobytes(), len(vol.alg_objects), vol.priority,
            [tuple(np.round(np.concatenate([np.ravel(v) for k, v in sorted(vars(a).items()) if isinstance(v, (float, int, np.ndarray))]), 9)) for a in vol.alg_objects],
            id(vol.generator), gen.voxel.sbases.tobytes(), np.array(gen.voxel.origin).tobytes(), np.array(gen.coords).tobytes(), np.array(gen.species).tobytes(), vol._atoms is None)


def judge(ch, mv, S, rv, N, sep, what, kinds=None, flags=None):
    ch.op()
    mv.populate_atoms()
    atoms, Z = np.asarray(mv.atoms), np.asarray(mv.species)
    ch.check(len(atoms) > 0 and np.all(Z == 79), f"{what}: wrong elements or empty")
    phase, err = S.decode(atoms)
    ch.check(err is None, f"{what}: {err}")
    P, unknown = S.fill(phase, rv)
    for k in sorted({k for k, _, _ in unknown}):
        # a layer without atoms: only if some stacking position has no site there
        ch.check(not all(i for q, _, i in unknown if q == k), f"{what}: layer {k} is missing")
    want, opt = np.vstack([p for p, _ in P]), np.hstack([o for _, o in P])
    r = ref.diff(atoms, Z, want, np.full(len(want), 79), optional=opt)
    ch.check(r is None, lambda: f"{what}: volume not filled exactly: {r}")
    ks = sorted(phase)
    seq = "".join("ABC"[phase[k]] for k in ks)
    ch.check(ks == list(range(ks[0], ks[-1] + 1)), f"{what}: layers missing between {ks[0]} and {ks[-1]}")
    ch.check(all(x != y for x, y in zip(seq, seq[1:])), f"{what}: two stacked layers coincide: {seq}")
    h = [i for i in range(1, len(seq) - 1) if seq[i - 1] == seq[i + 1]]
    runs = []
    for i in h:
        if runs and runs[-1][-1] == i - 1:
            runs[-1].append(i)
        else:
            runs.append([i])
    ch.check(all(len(r) <= 2 for r in runs), f"{what}: a defect which is neither a twin nor an intrinsic fault: {seq}")
    ch.check(len(runs) == N, f"{what}: {len(runs)} defects instead of {N}: {seq}")
    for x, y in zip(runs, runs[1:]):
        gap = np.mean(y) - np.mean(x)
        ch.check(gap > sep - (.6 if len(x) != len(y) else .1), f"{what}: defects closer than {sep} layers: {seq}")
    got = {len(r) for r in runs}
    if kinds is not None:
        ch.check(got <= kinds, f"{what}: wrong kind of defect: {seq}")
    if flags is not None:
        ch.check(bool(flags["twin"]) == (1 in got) and bool(flags["stacking_fault"]) == (2 in got), f"{what}: reported {flags} but {seq}")
    ch.outcome((seq, N))
    return seq


def ask(ch, kinds, N):
    n = [0]

    def draw(label, opts):
        n[0] += 1
        if n[0] > N + (1 if THOROUGH else 0):
            ch.prune("many restarts of the choice of positions")
        return ch.choose(label, opts)
    return rng.Ask(integer=lambda lo, hi: draw("position", range(lo, hi)), pick=lambda k: draw("pick", range(k)),
                   real=lambda: ch.choose("draw", kinds))


def run(ch, frame, plane, vname, cls, N, sep, ratio, kinds, flags):
    if not in_scope(frame, plane, vname, sep):
        ch.prune("a defect could be put where the volume has no atoms")
    S, rv = Stack(frame, plane), geometry(frame, plane, vname)
    gen = make_gen(frame)
    vol = rv.build(gen)
    before = snapshot(vol, gen)
    kw = dict(ratio=ratio) if cls is fccMixedTwinSF else {}
    what = f"{cls.__name__} {vname} {frame} {plane} N={N} sep={sep} {kw}"
    pf = cls(generator=gen, volume=vol, N=N, min_sep=sep, plane=plane, **kw)
    with rng.script(ask(ch, kinds, N)):
        ch.op()
        try:
            out = pf.build_object(return_defect_types=True) if flags else pf.build_object()
        except ValueError as e:
            if "m is too large" in str(e):
                # refused: then the layers really do not admit the request
                ch.check(room(S, rv) < (N + 1) * sep, f"{what}: refused although there is room")
                ch.prune("not admissible")
            raise
    mv, types = out if flags else (out, None)
    allow = {1} if cls is fccTwin or ratio == 0 else {2} if cls is fccStackingFault or ratio == 1 else {1, 2}
    if cls is not fccMixedTwinSF:
        types = None
    seq = judge(ch, mv, S, rv, N, sep, what, allow, types)
    ch.check(snapshot(vol, gen) == before, f"{what}: the input volume or generator was changed")
    return seq, pf, vol, gen


def room(S, rv):
    """number of layers the volume spans, less two"""
    a, b = span(S, rv)
    return b - a - 2


_scope = {}


def in_scope(frame, plane, name, sep=3):
    """all layers next to which a defect can be put have sites inside, whatever their stacking"""
    k = (frame, plane, name, sep)
    if k not in _scope:
        S, rv = Stack(frame, plane), geometry(frame, plane, name)
        a, b = span(S, rv)
        _, unknown = S.fill({}, rv)
        have = {(q, j) for q, j, i in unknown if i}
        _scope[k] = all((q, j) in have for q in range(int(np.floor(a)) + sep - 1, int(np.ceil(b)) - sep + 3) for j in range(3))
    return _scope[k]


def span(S, rv):
    lo, hi = rv.aabb()
    if rv.pts is not None:
        h = (rv.pts - S.o) @ S.n / S.d
    else:
        h = (np.array(list(itertools.product(*zip(lo, hi)))) - S.o) @ S.n / S.d
    a, b = h.min(), h.max()
    for s in rv.surfs:
        if s.kind == "sphere":
            c = (s.par[1] - S.o) @ S.n / S.d
            a, b = max(a, c - s.par[0] / S.d), min(b, c + s.par[0] / S.d)
    return a, b


CLASSES = (fccMixedTwinSF, fccTwin, fccStackingFault)
SPLIT = (.0, .49, .5, .999999)


def body_all(ch):
    """every outcome, one geometry at a time"""
    frame, plane, vname = ch.choose("scene", SCENES)
    N = ch.choose("N", (0, 1, 2, 3))
    if N == 3 and vname == "far column" and not THOROUGH:
        ch.prune()
    sep = ch.choose("separation", (3, 4) if N != 3 else (3,))
    ratio = ch.choose("ratio", (0.5, 0.0, 1.0) if N == 2 or THOROUGH else (.5,))
    run(ch, frame, plane, vname, fccMixedTwinSF, N, sep, ratio, (.0, .999999) if ratio in (0., 1.) else (.25, .75), True)


SCENES = [("plain", (1, 1, 1), "column"), ("rotated", (1, -1, 1), "column"), ("plain", (-1, 1, 1), "capped column"), ("mirrored", (1, 1, -1), "far column")]


def spread(which):
    """lowest, middle or highest position first; restarts go elsewhere"""
    n = [0]

    def draw(lo, hi):
        n[0] += 1
        return (lo, (lo + hi) // 2, hi - 1)[which] if n[0] == 1 else lo + (n[0] - 2) % (hi - lo)
    return draw


def body_wide(ch):
    """every frame, variant, volume and class"""
    frame = ch.choose("frame", list(FRAMES))
    plane = ch.choose("plane", PLANES)
    vname = ch.choose("volume", ["column", "far column", "box", "ball", "capped column", "cut column", "column in a ball"])
    cls = ch.choose("prefab", CLASSES)
    N = ch.choose("N", (1, 2) if vname != "ball" or THOROUGH else (1,))
    sep = 3 if vname != "box" else 4
    lows = ch.choose("which", (0, 1) if THOROUGH or N == 1 else (N,))
    if not in_scope(frame, plane, vname, sep):
        ch.prune("a defect could be put where the volume has no atoms")
    S, rv = Stack(frame, plane), geometry(frame, plane, vname)
    gen = make_gen(frame)
    vol = rv.build(gen)
    before = snapshot(vol, gen)
    what = f"{cls.__name__} {vname} {frame} {plane} N={N}"
    pf = cls(generator=gen, volume=vol, N=N, plane=plane, **({} if sep == 3 else dict(min_sep=sep)))
    seqs = []
    for kind in ((.1, .9) if cls is fccMixedTwinSF else (.4,)):
        k = [0]

        def real():
            k[0] += 1
            return kind if k[0] % 2 else 1 - kind
        with rng.script(rng.Ask(integer=spread(lows), pick=lambda n: n - 1 if lows else 0, real=real)):
            ch.op()
            try:
                mv = pf.build_object()
            except ValueError as e:
                if "m is too large" in str(e):
                    ch.check(room(S, rv) < (N + 1) * sep, f"{what}: refused although there is room")
                    ch.prune("not admissible")
                raise
        allow = {1} if cls is fccTwin else {2} if cls is fccStackingFault else {1, 2}
        seqs.append(judge(ch, mv, S, rv, N, sep, what, allow))
    ch.check(snapshot(vol, gen) == before, f"{what}: the input volume or generator was changed")
    # the input still gives the perfect crystal
    if cls is fccTwin:
        ch.op()
        vol.populate_atoms()
        rv.crystal = ref.Crystal(FRAMES[frame][0] * a0, FCC, [79] * 4, FRAMES[frame][1])
        A.check_atoms(ch, vol, rv, f"{what}: the input volume afterwards")


def body_default(ch):
    """unscripted: whatever numpy draws, the structure is a right one; repeated builds of one prefab"""
    frame = ch.choose("frame", ("plain", "rotated"))
    plane = ch.choose("plane", PLANES[:4])
    cls = ch.choose("prefab", CLASSES)
    N = ch.choose("N", (0, 1, 2, 3))
    vname = "column" if N < 3 else "capped column"
    if not in_scope(frame, plane, vname):
        ch.prune("a defect could be put where the volume has no atoms")
    S, rv = Stack(frame, plane), geometry(frame, plane, vname)
    gen = make_gen(frame)
    vol = rv.build(gen)
    if room(S, rv) < (N + 1) * 3 + 1:
        ch.prune("no room")
    pf = cls(generator=gen, volume=vol, N=N, plane=plane)
    for rep in range(3):
        ch.op()
        mv = pf.build_object()
        judge(ch, mv, S, rv, N, 3, f"{cls.__name__} {frame} {plane} N={N}, build {rep}", {1} if cls is fccTwin else {2} if cls is fccStackingFault else {1, 2})
    # fresh settings on the same prefab
    pf.N = 1
    other = tuple(-x for x in plane)
    pf.plane = other
    mv = pf.build_object()
    judge(ch, mv, Stack(frame, other), rv, 1, 3, f"{cls.__name__} {frame} re-aimed at {other}")


def kinds_of(seq):
    """t(win) or s(tacking fault) in order"""
    h = "".join("h" if seq[i - 1] == seq[i + 1] else "c" for i in range(1, len(seq) - 1))
    return "".join("t" if len(x) == 1 else "s" for x in h.split("c") if x)


class Odometer:
    """all scripts of draws, one after another: draws beyond the known prefix take their first value"""

    def __init__(self):
        self.prefix, self.more = [], True

    def __enter__(self):
        self.k = 0
        self.seen = []
        return self

    def draw(self, n):
        v = self.prefix[self.k] if self.k < len(self.prefix) else 0
        self.k += 1
        self.seen.append((v, n))
        return v

    def __exit__(self, *a):
        while self.seen and self.seen[-1][0] + 1 >= self.seen[-1][1]:
            self.seen.pop()
        self.more = bool(self.seen)
        self.prefix = [v for v, _ in self.seen]
        if self.more:
            self.prefix[-1] += 1


def body_kinds(ch):
    """with a ratio strictly between, every sequence of kinds is a possible outcome (and at the ends, only one)"""
    frame, plane, vname = ch.choose("scene", SCENES[:3] if not THOROUGH else SCENES)
    N = ch.choose("N", (1, 2, 3))
    ratio = ch.choose("ratio", (.5, .3, .7, 0., 1.))
    if N == 3:
        vname = "tall column"
    if not in_scope(frame, plane, vname):
        ch.prune("a defect could be put where the volume has no atoms")
    S, rv = Stack(frame, plane), geometry(frame, plane, vname)
    if room(S, rv) < (N + 1) * 3 + 1:
        ch.prune("no room")
    gen = make_gen(frame)
    vol = rv.build(gen)
    pf = fccMixedTwinSF(generator=gen, volume=vol, N=N, ratio=ratio, plane=plane)
    what = f"kinds {vname} {frame} {plane} N={N} ratio={ratio}"
    want = {"".join(x) for x in itertools.product("ts", repeat=N)} if 0 < ratio < 1 else {("t" if ratio == 0 else "s") * N}
    got, odo, n = set(), Odometer(), 0
    while odo.more and n < 64 and got != want:
        n += 1
        with odo, rng.script(rng.Ask(integer=lambda lo, hi: lo, pick=lambda k: odo.draw(2) if k == 2 else 0, real=lambda: (.02, .98)[odo.draw(2)])):
            mv = pf.build_object()
        got.add(kinds_of(judge(ch, mv, S, rv, N, 3, what)))
    k = 0
    while got < want and k < 400:          # drawn by other means than the scripted ones
        k += 1
        np.random.seed(k)
        got.add(kinds_of(judge(ch, pf.build_object(), S, rv, N, 3, what)))
    ch.check(got == want, f"{what}: outcomes {sorted(got)} instead of {sorted(want)}")


HARNESSES = {
    "kinds": dict(body=body_kinds, shard=3, bounds="3 scenes x N<=3 x 5 ratios, all scripts of the draws that decide the kinds, until every sequence of kinds was seen"),
    "outcomes": dict(body=body_all, shard=6, bounds=lambda t: f"{len(SCENES)} scenes x N<=3 x separations 3,4 x ratios, every position and kind that can be drawn"),
    "variants": dict(body=body_wide, shard=3, bounds="5 frames x 8 signed {111} variants x 6 volumes x 3 prefabs x N<=2, extreme and middle positions, both orders of kinds"),
    "repeated": dict(body=body_default, shard=3, bounds="2 frames x 4 variants x 3 prefabs x N<=3, repeated and re-aimed builds"),
}
