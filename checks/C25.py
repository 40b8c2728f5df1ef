"""All random outcomes (positions) of the wurtzite stacking-fault prefab on small volumes, each populated structure decoded bilayer by
bilayer from the atoms alone: the stacking must hold exactly the requested cubic bilayers and be hexagonal everywhere else, every
atom of one species bonded along the axis to one of the other."""
import os
import itertools
import numpy as np
from mc import env, ref, rng
from mc import alpha as A
from pymatgen.core import Lattice
from czone.generator import Generator
from czone.transform import Rotation, Reflection, Translation
from czone.volume import Plane
from czone.prefab import wurtziteStackingFault

PROPERTY = "C25"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["wurtzite crystals with the c axis last, as the prefab documents; sites (1/3,2/3,z),(2/3,1/3,z+1/2) or their mirror setting",
               "volumes are single Volume objects (the prefab reads their surfaces)"]
DIMS, ANGS = (3.2, 3.2, 5.2), (90, 90, 120)
B0 = Lattice.from_parameters(*DIMS, *ANGS).matrix.T
R1 = ref.rodrigues([1, 2, 3], .7)
I3 = np.eye(3)
FRAMES = {"plain": (I3, np.zeros(3)), "shifted": (I3, np.array([.7, -1.3, 2.2])), "rotated": (R1, np.array([3., 1, -2])),
          "upside down": (ref.rodrigues([1, 1, 0], np.pi), np.zeros(3)), "mirrored": (ref.householder([0, 0, 1]) @ R1, np.array([0, 5., 0]))}
# settings: height of the first cation, height of the anion on it, first lateral position
SETTINGS = {"standard": (0., .375, 0), "reversed": (0., .625, 0), "ideal-off": (.0005, .3785, 0), "anion first": (-.375, .375, 0),
            "mirror setting": (0., .375, 1), "mirror reversed": (0., .625, 1), "raised": (.25, .375, 0), "off": (.1, .375, 0), "off reversed": (.87, .625, 1)}
ZC, ZA = 30, 8


def sites(setting):
    z, u, sw = SETTINGS[setting]
    p, q = (1 / 3, 2 / 3), (2 / 3, 1 / 3)
    if sw:
        p, q = q, p
    return np.array([[*p, z], [*q, z + .5], [*p, z + u], [*q, z + u + .5]]), [ZC, ZC, ZA, ZA]


def make_gen(frame, setting):
    M, t = FRAMES[frame]
    f, Z = sites(setting)
    g = Generator.from_unit_cell(Z, f, DIMS, ANGS)
    if frame == "plain":
        return g
    if frame == "shifted":
        return g.from_generator(transformation=[Translation(t.copy())])
    if frame == "mirrored":
        return g.from_generator(transformation=[Rotation(matrix=R1.copy()), Reflection(Plane(np.array([0., 0, 1]), np.zeros(3))), Translation(t.copy())])
    return g.from_generator(transformation=[Rotation(matrix=M.copy()), Translation(t.copy())])


class Stack:
    def __init__(self, frame, setting):
        M, self.o = FRAMES[frame]
        self.B = M @ B0
        self.inv = np.linalg.inv(self.B)
        self.z, self.u, sw = SETTINGS[setting]
        self.n = self.B[:, 2] / np.linalg.norm(self.B[:, 2])
        self.d = DIMS[2] / 2

    def heights(self, p):
        return (np.atleast_2d(p) - self.o) @ self.inv[2]

    def decode(self, atoms, Z):
        """{(species, layer): lateral position 0, 1, 2}; layer k of cations at z + k/2, of anions at z + u + k/2"""
        w = (atoms - self.o) @ self.inv.T
        out = {}
        for sp, off in ((ZC, self.z), (ZA, self.z + self.u)):
            m = Z == sp
            h = (w[m, 2] - off) * 2
            k = np.round(h).astype(int)
            if len(h) and np.abs(h - k).max() > 1e-4:
                return None, f"an atom of element {sp} between layers, at {np.round(atoms[m][int(np.argmax(np.abs(h - k)))], 4).tolist()}"
            ph = np.full(len(h), -1)
            for j, c in enumerate(((1 / 3, 2 / 3), (2 / 3, 1 / 3), (0, 0))):
                e = w[m, :2] - c
                ph[np.abs(e - np.round(e)).max(1) < 1e-4] = j
            if (ph < 0).any():
                return None, f"an atom of element {sp} on no stacking position, at {np.round(atoms[m][int(np.argmin(ph))], 4).tolist()}"
            for q, j in zip(k, ph):
                if out.setdefault((sp, int(q)), int(j)) != j:
                    return None, f"layer {q} of element {sp} holds two stacking positions"
        return out, None

    def layers(self, rv):
        lo, hi = rv.aabb()
        c = np.array(list(itertools.product(*zip(lo, hi))))
        w = (c - self.o) @ self.inv.T
        a, b = np.floor(w.min(0)).astype(int) - 2, np.ceil(w.max(0)).astype(int) + 2
        g = np.array(list(itertools.product(range(a[0], b[0] + 1), range(a[1], b[1] + 1))), float)
        for sp, off in ((ZC, self.z), (ZA, self.z + self.u)):
            for k in range(2 * a[2], 2 * b[2] + 1):
                for j, c in enumerate(((1 / 3, 2 / 3), (2 / 3, 1 / 3), (0, 0))):
                    p = np.hstack([g + c, np.full((len(g), 1), off + k / 2)]) @ self.B.T + self.o
                    ins, sure = rv.judge(p)
                    yield sp, k, j, p, ins, sure


def span(S, rv):
    if rv.pts is not None:
        h = S.heights(rv.pts) * 2
    else:
        h = S.heights(np.array(list(itertools.product(*zip(*rv.aabb()))))) * 2
    a, b = h.min(), h.max()
    for s in rv.surfs:
        if s.kind == "sphere":
            c, r = S.heights(s.par[1])[0] * 2, s.par[0] / S.d
            a, b = max(a, c - r), min(b, c + r)
    return a, b


def geometry(frame, setting, name):
    k = (frame, setting, name)
    if k not in _vols:
        S = Stack(frame, setting)
        e1 = S.B[:, 0] / np.linalg.norm(S.B[:, 0])
        R = np.array([e1, np.cross(S.n, e1), S.n]).T

        def slab(nl, w, c):
            return ((A.BOX - .5) * np.array([w, w * 1.1, nl * S.d + .41])) @ R.T + c
        _vols[k] = {"column": lambda: A.RVol(slab(14, 4.9, np.array([.3, .2, .15]))),
                    "far column": lambda: A.RVol(slab(15, 5.3, np.array([57., -31, 88]))),
                    "box": lambda: A.RVol(A.prism((19.1, 18.3, 21.2), (-3.1, 2.2, .9))),
                    "ball": lambda: A.RVol(None, [A.Surf("sphere", 13.3, [1.1, .4, -.3])]),
                    "capped column": lambda: A.RVol(slab(24, 8.2, np.array([.3, .2, 6.])), [A.Surf("sphere", 14.9, [.1, .4, -.3])]),
                    "cut column": lambda: A.RVol(slab(14, 5.6, np.array([.3, .2, .15])), [A.Surf("plane", e1 + .15 * S.n, np.array([.3, .2, .15]) + 1.2 * e1)])}[name]()
    return _vols[k]


_vols, _scope = {}, {}


def in_scope(frame, setting, name, sep):
    k = (frame, setting, name, sep)
    if k not in _scope:
        S, rv = Stack(frame, setting), geometry(frame, setting, name)
        a, b = span(S, rv)
        have = {(sp, q, j) for sp, q, j, _, i, s in S.layers(rv) if (i & s).any()}
        _scope[k] = all((ZC, q, j) in have for q in range(int(np.floor(a)) + sep - 1, int(np.ceil(b)) - sep + 2) for j in range(3))
    return _scope[k]


def judge(ch, mv, S, rv, N, sep, what):
    ch.op()
    mv.populate_atoms()
    atoms, Z = np.asarray(mv.atoms), np.asarray(mv.species)
    ch.check(len(atoms) > 0 and np.all((Z == ZC) | (Z == ZA)), f"{what}: wrong elements or empty")
    phase, err = S.decode(atoms, Z)
    ch.check(err is None, f"{what}: {err}")
    W, O, WZ = [], [], []
    empty = {}
    for sp, k, j, p, ins, sure in S.layers(rv):
        if phase.get((sp, k), j) != j:
            continue
        if (sp, k) in phase:
            m = ins | ~sure
            W.append(p[m]), O.append(~sure[m]), WZ.append(np.full(m.sum(), sp))
        else:
            empty.setdefault((sp, k), []).append(bool((ins & sure).any()))
    for (sp, k), e in empty.items():
        ch.check(not all(e), f"{what}: layer {k} of element {sp} is missing")
    r = ref.diff(atoms, Z, np.vstack(W), np.hstack(WZ), optional=np.hstack(O))
    ch.check(r is None, lambda: f"{what}: volume not filled exactly: {r}")
    ks = sorted(k for sp, k in phase if sp == ZC)
    seq = "".join("ABC"[phase[ZC, k]] for k in ks)
    ch.check(ks == list(range(ks[0], ks[-1] + 1)), f"{what}: layers missing between {ks[0]} and {ks[-1]}")
    ch.check(all(x != y for x, y in zip(seq, seq[1:])), f"{what}: two adjacent bilayers coincide: {seq}")
    for k in ks:
        # the anion on the bond along the axis: above at u = 3/8 with the same k, else below (u - 1, two layers down)
        q = k if S.u < .5 else k - 2
        if (ZA, q) in phase:
            ch.check(phase[ZA, q] == phase[ZC, k], f"{what}: broken bonds along the axis at layer {k}: {seq}")
    cub = [i for i in range(1, len(seq) - 1) if seq[i - 1] != seq[i + 1]]
    ch.check(len(cub) == N, f"{what}: {len(cub)} cubic bilayers instead of {N}: {seq}")
    ch.check(all(y - x >= sep for x, y in zip(cub, cub[1:])), f"{what}: faults closer than {sep} layers: {seq}")
    ch.outcome((seq, N))
    return seq


def snapshot(vol, gen):
    return (None if vol.points is None else np.array(vol.points).tobytes(), len(vol.alg_objects), vol.priority,
            [tuple(np.round(np.concatenate([np.ravel(v) for k, v in sorted(vars(a).items()) if isinstance(v, (float, int, np.ndarray))]), 9)) for a in vol.alg_objects],
            id(vol.generator), gen.voxel.sbases.tobytes(), np.array(gen.voxel.origin).tobytes(), np.array(gen.coords).tobytes(), np.array(gen.species).tobytes(), vol._atoms is None)


def run(ch, frame, setting, vname, N, sep, handler, default=False):
    if not in_scope(frame, setting, vname, sep):
        ch.prune("a fault could be put where the volume has no atoms")
    S, rv = Stack(frame, setting), geometry(frame, setting, vname)
    gen = make_gen(frame, setting)
    vol = rv.build(gen)
    before = snapshot(vol, gen)
    what = f"{vname} {frame} {setting} N={N} sep={sep}"
    pf = wurtziteStackingFault(generator=gen, volume=vol, N=N) if default else wurtziteStackingFault(gen, vol, N, sep)
    with rng.script(handler):
        ch.op()
        try:
            mv = pf.build_object()
        except ValueError as e:
            if "m is too large" in str(e):
                a, b = span(S, rv)
                ch.check(b - a - 2 < (N + 1) * sep, f"{what}: refused although there is room")
                ch.prune("not admissible")
            raise
    seq = judge(ch, mv, S, rv, N, sep, what)
    ch.check(snapshot(vol, gen) == before, f"{what}: the input volume or generator was changed")
    return pf, vol, gen, S, rv


def body_all(ch):
    """every outcome"""
    frame, setting, vname = ch.choose("scene", SCENES)
    N = ch.choose("N", (0, 1, 2, 3))
    if N == 3 and vname != "column" and not THOROUGH:
        ch.prune()
    sep = ch.choose("separation", (2, 3, 4) if N < 3 or THOROUGH else (3,))
    n = [0]

    def draw(label, opts):
        n[0] += 1
        if n[0] > N + (1 if THOROUGH else 0):
            ch.prune("restart of the choice of positions")
        return ch.choose(label, opts)
    run(ch, frame, setting, vname, N, sep, rng.Ask(integer=lambda lo, hi: draw("position", range(lo, hi)), pick=lambda k: draw("pick", range(k))))


SCENES = [("plain", "standard", "column"), ("rotated", "reversed", "far column"), ("mirrored", "ideal-off", "capped column"), ("shifted", "anion first", "column")]


def spread(which):
    """lowest, middle or highest position first; restarts go elsewhere"""
    n = [0]

    def draw(lo, hi):
        n[0] += 1
        return (lo, (lo + hi) // 2, hi - 1)[which] if n[0] == 1 else lo + (n[0] - 2) % (hi - lo)
    return draw


def body_wide(ch):
    frame = ch.choose("frame", list(FRAMES))
    setting = ch.choose("setting", list(SETTINGS))
    vname = ch.choose("volume", ["column", "far column", "box", "ball", "capped column", "cut column"])
    N = ch.choose("N", (1, 2, 3))
    sep = 3 if vname != "box" else 4
    lows = ch.choose("which", (0, 1, 2))
    pf, vol, gen, S, rv = run(ch, frame, setting, vname, N, sep, rng.Ask(integer=spread(lows), pick=lambda n: (0, n // 2, n - 1)[lows]))
    if N == 1:
        # builds again, with whatever numpy draws; the input still gives the perfect crystal
        pf.N = 2
        ch.op()
        try:
            mv = pf.build_object()
        except ValueError:
            ch.prune()
        judge(ch, mv, S, rv, 2, sep, f"second build {vname} {frame} {setting}")
        ch.op()
        vol.populate_atoms()
        f, Z = sites(setting)
        rv.crystal = ref.Crystal(S.B, f, Z, S.o)
        A.check_atoms(ch, vol, rv, "the input volume afterwards")


def body_default(ch):
    frame = ch.choose("frame", list(FRAMES))
    pick = ch.choose("position", range(4))
    run(ch, frame, "standard", ch.choose("volume", ["column", "capped column"]), 1, 6, rng.Ask(integer=lambda lo, hi: lo + pick if lo + pick < hi else ch.prune("no such position")), default=True)


HARNESSES = {
    "outcomes": dict(body=body_all, shard=6, bounds=lambda t: f"{len(SCENES)} scenes x N<=3 x separations 2 to 4, every choice of positions"),
    "variants": dict(body=body_wide, shard=3, bounds="5 frames x 9 site settings x 6 volumes x N<=3, extreme and middle positions, repeated builds"),
    "default separation": dict(body=body_default, shard=2, bounds="5 frames x 2 volumes x all positions at the default separation"),
}
