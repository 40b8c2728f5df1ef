"""All combinations of up to three bounding parts x placement x order x crystal (and edit / re-populate histories), populated
and compared with the brute-force sites of the crystal inside the reference region."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf, RVol

PROPERTY = "C05"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["sites within 1e-6 of a hull face or a fifth of the tolerance (at most 1e-4) of a surface's padded boundary may or may not be there"]


def box_planes(size, c, R=np.eye(3), tol=None):
    h = np.array(size, float) / 2
    out = []
    for i in range(3):
        for s in (1, -1):
            n = R @ (np.eye(3)[i] * s)
            out.append(Surf("plane", n, np.array(c, float) + n * h[i] + R @ np.array([.3, -.2, .5]) * (np.arange(3) != i), tol=tol))
    return out


_b = box_planes((7, 6, 8), (0, 0, 0))
_tilt = box_planes((8, 5, 6), (1, 0, 0), ref.rodrigues([1, 2, 3], .9), tol=.3)
PARTS = {
    "prism": ("pts", alpha.prism((7, 6, 8), (-3, -2, -4))),
    "tetra": ("pts", np.array([[-5, -4, -3], [6, -3, -2], [-1, 7, -3], [0, 0, 7.]])),
    "sphere": ("surf", [Surf("sphere", 4.2, [.5, 0, -.3])]),
    "small sphere": ("surf", [Surf("sphere", 2.9, [1.5, .2, .1], tol=.25)]),
    "box of planes": ("surf", _b),
    "tilted box": ("surf", _tilt),
    "tetra of planes": ("surf", [Surf("plane", n, np.array(n) * 2.4) for n in ([1, 1, 1], [-1, -1, 1], [-1, 1, -1], [1, -1, -1])]),
    "half": ("surf", [Surf("plane", [1, 2, .4], [.4, .3, 0])]),
    "half2": ("surf", [Surf("plane", [-.2, 0, -1], [0, 0, -1.1], tol=.2)]),
    "cylinder": ("surf", [Surf("cylinder", [1, 1, 1], [0, .4, 0], 2.6, 9.0)]),
    "fat sphere": ("surf", [Surf("sphere", 2.2, [.1, -.4, .2], tol=1.45)]),
    "fat box": ("surf", box_planes((4, 5, 3), (.5, 0, 0), ref.rodrigues([3, 1, -1], .5), tol=1.3)),
    "fat rod": ("surf", [Surf("cylinder", [2, -1, .5], [0, 0, .3], 1.6, 4.0, tol=1.2)]),
    "slab": ("surf", box_planes((26, 25, 1.7), (0, 0, .4), ref.rodrigues([1, 0, 2], .35))),
    "long": ("pts", np.array([[-14, -1, 0], [15, .5, 1], [-13, 2, -.6], [16, 1.1, 3], [0, -1.6, 2.], [2, 3, -1]])),
    "disc": ("surf", [Surf("cylinder", [0, 1, 3], [.2, 0, .4], 4.5, 2.2, tol=.3)]),
}
NAMES = list(PARTS)
PLACES = [(0, 0, 0), (-23.1, -31.7, -18.9), (401.5, 3, -377.7)] + ([(14.2, -9.6, 33.3), (-4, -4, -4)] if THOROUGH else [])
CRYS = [("cscl", [0, 0, 0]), ("tri", [5.1, -2.2, .7]), ("fine", [.1, .2, .4]), ("big", [180.2, 1, -77]), ("needle", [-3.3, 2, 250])] + ([("hex", [-13, 1, 2]), ("out", [0, 0, 0])] if THOROUGH else [])


def bounded(names):
    return any(n not in ("half", "half2") for n in names)


COMBOS = [c for k in ((1, 2, 3, 4) if THOROUGH else (1, 2, 3)) for c in itertools.combinations(NAMES, k)
          if bounded(c) and len({"prism", "tetra", "long"} & set(c)) < 2]


def make(names, place, cell, origin):
    pts, surfs = None, []
    for n in names:
        k, v = PARTS[n]
        if k == "pts":
            pts = v + place
        else:
            surfs += [s.map(ref.Aff(np.eye(3), place)) for s in v]
    return RVol(pts, surfs, cell.crystal(origin))


def body(ch):
    names = ch.choose("parts", COMBOS)
    place = np.array(ch.choose("place", PLACES))
    cname, origin = ch.choose("crystal", CRYS)
    order = ch.choose("order", ("given", "reversed") if len(names) > 1 else ("given",))
    cell = alpha.Cell(cname)
    rv = make(names if order == "given" else names[::-1], place, cell, origin)
    vol = rv.build(cell.generator(origin=np.array(origin, float)))
    ch.op()
    vol.populate_atoms()
    alpha.check_atoms(ch, vol, rv, "populated")
    ch.check(vol.atoms.shape[0] == vol.species.shape[0], "positions and elements not paired")
    a = vol.ase_atoms
    ch.check(np.allclose(a.get_positions(), vol.atoms) and (a.get_atomic_numbers() == np.asarray(vol.species)).all(), "view as ASE atoms differs")


EDITS = ["add half", "add small sphere", "add disc", "add points", "replace points", "move boundary", "move joint", "move far", "add box of planes", "swap generator", "populate"]


def body_hist(ch):
    """re-population after edits"""
    start = ch.choose("start", (("prism",), ("sphere", "half"), ("box of planes",), ("cylinder",)))
    cell = alpha.Cell("cscl")
    rv = make(start, np.zeros(3), cell, [0, 0, 0])
    vol = rv.build(cell.generator())
    vol.populate_atoms()
    for i in range(4 if THOROUGH else 3):
        e = ch.choose(f"edit{i}", EDITS)
        ch.op()
        if e.startswith("add ") and e != "add points":
            for s in PARTS[e[4:]][1]:
                vol.add_alg_object(s.make())
                rv = RVol(rv.pts, rv.surfs + [s], rv.crystal)
        elif e == "add points":
            if rv.pts is None:
                ch.prune()
            p = np.array([[5.5, 5, 5], [-6, 1, 1.]])
            vol.addPoints(p)
            rv = RVol(np.vstack([rv.pts, p]), rv.surfs, rv.crystal)
        elif e == "replace points":
            p = PARTS["tetra"][1]
            vol.points = p.copy()
            rv = RVol(p, rv.surfs, rv.crystal)
        elif e.startswith("move"):
            t = alpha.T_ALL[2] if e != "move far" else alpha.T_EXTRA[0]
            vol.transform(t.make(locked=e != "move boundary"))
            rv = rv.map(t.aff, joint=e != "move boundary")
        elif e == "swap generator":
            c2 = alpha.Cell("tri")
            vol.add_generator(c2.generator(origin=np.array([1., 2, 3])), origin=np.array([.3, .1, -.2]))
            rv = RVol(rv.pts, rv.surfs, c2.crystal([.3, .1, -.2]))
        else:
            vol.populate_atoms()
            alpha.check_atoms(ch, vol, rv, f"repopulated after {i} edits")
    vol.populate_atoms()
    alpha.check_atoms(ch, vol, rv, "finally")


EMPTY = {"box cut away": box_planes((7, 6, 8), (0, 0, 0)) + [Surf("plane", [1, 0, 0], [-9, 0, 0])],
         "disjoint boxes": box_planes((3, 3, 3), (0, 0, 0)) + box_planes((3, 3, 3), (8, 0, 0)),
         "slab turned out": box_planes((4, 4, 4), (1, 2, 3))[:4] + [Surf("plane", [0, 0, 1], [0, 0, -2]), Surf("plane", [0, 0, -1], [0, 0, 2])]}


def body_empty(ch):
    """planes without common interior: no atoms, alone and inside groups"""
    e = ch.choose("planes", list(EMPTY))
    extra = ch.choose("extra", ((), ("sphere",), ("cylinder",), ("prism",), ("half",)))
    place = np.array(ch.choose("place", PLACES))
    cell = alpha.Cell("tri")
    rv = make(extra, place, cell, [0, 0, 0])
    rv.surfs = [s.map(ref.Aff(np.eye(3), place)) for s in EMPTY[e]] + rv.surfs
    vol = rv.build(cell.generator())
    for i in range(2):
        ch.op()
        vol.populate_atoms()
        ch.check(np.shape(vol.atoms) == (0, 3) and np.shape(vol.species) == (0,), lambda: f"empty volume holds {np.shape(vol.atoms)} atoms")
    other = RVol(alpha.prism((6, 6, 6), place - 3), (), cell.crystal())
    from czone.volume import MultiVolume
    mv = MultiVolume([vol, other.build(cell.generator())])
    mv.populate_atoms()
    alpha.check_atoms(ch, mv, other, "group with an empty member")


LARGE = {"ball": [Surf("sphere", 26.0, [1, 2, 3])], "rod": [Surf("cylinder", [1, 2, 3], [0, 1, 2], 4.0, 130.0)], "plate": box_planes((80, 60, 5), (10, 0, 0), ref.rodrigues([1, 2, 3], 1.2)),
         "lens": [Surf("sphere", 60.0, [-53, 0, 0]), Surf("sphere", 60.0, [53, 0, 0])], "wedge": box_planes((50, 40, 30), (0, 0, 0)) + [Surf("plane", [1, 1, 1], [-3, -2, -1])]}


def body_large(ch):
    """thousands of atoms"""
    k = ch.choose("volume", list(LARGE))
    place = np.array(ch.choose("place", PLACES[::2]), float)
    cname, origin = ch.choose("crystal", CRYS[:2] + CRYS[3:4] if not THOROUGH else CRYS[:2] + CRYS[3:])
    cell = alpha.Cell(cname)
    rv = RVol(None, [s.map(ref.Aff(np.eye(3), place)) for s in LARGE[k]], cell.crystal(origin))
    vol = rv.build(cell.generator(origin=np.array(origin, float)))
    ch.op()
    vol.populate_atoms()
    n = alpha.check_atoms(ch, vol, rv, f"{k} of {cname}")
    ch.check(n > 10, "too few")


DIAG = [np.array(v, float) for v in ([1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1])]


def body_diagonal(ch):
    """crystals whose lattice planes stand across the diagonals of the volume's box: its sites reach farthest towards a corner"""
    from czone.transform import MatrixTransform
    d = ch.choose("planes across", list(itertools.permutations(range(4), 3))[:: 1 if THOROUGH else 3])
    sign = ch.choose("signs", list(itertools.product((1, -1), repeat=3)))
    kind = ch.choose("volume", ("sphere", "ball", "rod", "cut ball", "octahedron"))
    place = np.array(ch.choose("place", PLACES[:2]), float)
    G = np.array([DIAG[i] * s for i, s in zip(d, sign)]) / 3 ** .5 / np.array([.8, .9, 1.])[:, None]     # rows: reciprocal vectors
    B = np.linalg.inv(G)
    cell = alpha.Cell("cub")
    g = cell.generator(origin=np.zeros(3))
    g.transform(MatrixTransform(B @ np.linalg.inv(g.voxel.sbases)))
    cr = ref.Crystal(B, cell.frac, cell.Z, [0, 0, 0])
    S = {"sphere": [Surf("sphere", 5.2, [.5, 0, -.3])], "ball": [Surf("sphere", 3.4, [0, 3, .2], tol=1.1)], "rod": [Surf("cylinder", [1, 1, 1], [0, .4, 0], 2.2, 9.0)],
         "cut ball": [Surf("sphere", 5., [0, 0, 0]), Surf("plane", [1, 0, 0], [.2, 0, 0])],
         "octahedron": [Surf("plane", n * s, n * s * 1.6) for n in DIAG for s in (1, -1)]}[kind]
    rv = RVol(None, [s.map(ref.Aff(np.eye(3), place)) for s in S], cr)
    vol = rv.build(g)
    ch.op()
    vol.populate_atoms()
    n = alpha.check_atoms(ch, vol, rv, f"{kind} of a crystal with planes across {d} {sign}")
    ch.check(n > 10, "too few")


HARNESSES = {
    "diagonal": dict(body=body_diagonal, shard=3, bounds=f"lattice planes across three diagonals of the box ({24 if THOROUGH else 8} orders x 8 signs) x 5 volumes x 2 places"),
    "empty": dict(body=body_empty, shard=2, bounds=f"{len(EMPTY)} empty plane sets x 5 extra parts x {len(PLACES)} places"),
    "large": dict(body=body_large, shard=2, bounds="5 volumes tens of Å wide x 2 places x 3 crystals"),
    "combinations": dict(body=body, shard=2, bounds=f"{len(COMBOS)} combinations of up to {4 if THOROUGH else 3} of {len(NAMES)} parts x {len(PLACES)} places x {len(CRYS)} crystals x 2 orders"),
    "histories": dict(body=body_hist, shard=2, bounds=f"4 volumes x all sequences of {4 if THOROUGH else 3} of {len(EDITS)} edits"),
}
