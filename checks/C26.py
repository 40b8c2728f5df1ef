"""All energy tables over facet families and an energy alphabet x crystals (with and without inversion, polar, hexagonal) x frames x
sizes: facets, their distances and the enclosed volume against an independent construction from the crystal's point group, found by
brute force over integer matrices; populated atoms against brute-force sites in that polyhedron."""
import os
import itertools
import numpy as np
from scipy.spatial import ConvexHull
from mc import env, ref
from mc import alpha as A
from pymatgen.core import Lattice, Structure
from czone.generator import Generator
from czone.transform import Rotation, Reflection, Translation
from czone.volume import Plane, Volume
from czone.prefab.wulff import WulffSingle

PROPERTY = "C26"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["generators whose cell is the standard conventional cell (or primitive to it), in any orientation: Miller indices are those of the conventional cell, as wulffpack defines them",
               "Winterbottom interfaces of non-cubic crystals: the basal plane only (wulffpack compares indices with directions)",
               "an interface energy of exactly zero is refused by wulffpack (division by zero) and not judged", "WulffDecahedron and WulffIcosahedron are not part of this property; shapes that the given families leave unbounded are refused by the library and not judged"]
FC = [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]
T4 = [[x + .25 for x in f] for f in FC]
X = {
    "fcc": ((4.0, 4.0, 4.0), (90,) * 3, FC, [79] * 4),
    "bcc": ((2.9,) * 3, (90,) * 3, [[0, 0, 0], [.5, .5, .5]], [26] * 2),
    "sc": ((3.1,) * 3, (90,) * 3, [[.2, .3, .4]], [84]),
    "cscl": ((3.3,) * 3, (90,) * 3, [[0, 0, 0], [.5, .5, .5]], [55, 17]),
    "zincblende": ((5.4,) * 3, (90,) * 3, FC + T4, [30] * 4 + [16] * 4),
    "diamond": ((5.4,) * 3, (90,) * 3, FC + T4, [14] * 8),
    "hcp": ((3.2, 3.2, 5.2), (90, 90, 120), [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [12, 12]),
    "wurtzite": ((3.2, 3.2, 5.2), (90, 90, 120), [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .375], [2 / 3, 1 / 3, .875]], [30, 30, 8, 8]),
    "tetragonal": ((3.0, 3.0, 4.1), (90,) * 3, [[0, 0, 0]], [49]),
    "polar tetragonal": ((3.9, 3.9, 4.2), (90,) * 3, [[0, 0, 0], [.5, .5, .53]], [56, 22]),
}
R1, R2 = ref.rodrigues([1, 2, 3], .7), ref.rodrigues([-2, 1, .5], 2.1)
I3 = np.eye(3)
FRAMES = ["plain", "rotated", "shifted", "mirrored", "set in another frame", "from primitive"]


def reference(name, frame):
    dims, angs, f, Z = X[name]
    B = Lattice.from_parameters(*dims, *angs).matrix.T
    M, t = I3, np.zeros(3)
    if frame == "rotated":
        M = R1
    elif frame == "shifted":
        t = np.array([1.3, -.4, 2.2])
    elif frame == "mirrored":
        M, t = ref.householder([0, 1, 2]) @ R1, np.array([.5, .5, -.9])
    elif frame == "set in another frame":
        M = R2
    return M, t, ref.Crystal(M @ B, f, Z, t)


def make(name, frame):
    dims, angs, f, Z = X[name]
    M, t, _ = reference(name, frame)
    if frame == "set in another frame":
        return Generator(structure=Structure(Lattice(Lattice.from_parameters(*dims, *angs).matrix @ R2.T), Z, f))
    if frame == "from primitive":
        return Generator(structure=Structure(Lattice.from_parameters(*dims, *angs), Z, f).get_primitive_structure())
    g = Generator.from_unit_cell(Z, np.array(f), dims, angs)
    if frame == "rotated":
        return g.from_generator(transformation=[Rotation(matrix=R1.copy())])
    if frame == "shifted":
        return g.from_generator(transformation=[Translation(t.copy())])
    if frame == "mirrored":
        return g.from_generator(transformation=[Rotation(matrix=R1.copy()), Reflection(Plane(np.array([0, 1., 2]), np.zeros(3))), Translation(t.copy())])
    return g


_pg = {}


def point_group(name):
    """integer matrices W with x -> W x + w a symmetry of the crystal, by brute force"""
    if name not in _pg:
        dims, angs, f, Z = X[name]
        B = Lattice.from_parameters(*dims, *angs).matrix.T
        G = B.T @ B
        W = np.array(list(itertools.product((-1, 0, 1), repeat=9)), float).reshape(-1, 3, 3)
        W = W[np.abs(np.einsum("nji,jk,nkl->nil", W, G, W) - G).max((1, 2)) < 1e-6]
        f, Z = np.array(f), np.array(Z)
        ok = []
        for w in W:
            g = f @ w.T
            for k in range(len(f)):
                s = g + (f[k] - g[0])
                e = s[:, None] - f[None]
                hit = (np.abs(e - np.round(e)).max(2) < 1e-6) & (Z[:, None] == Z[None])
                if hit.any(1).all():
                    ok.append(w)
                    break
        _pg[name] = np.array(ok)
    return _pg[name]


def family(name, hkl):
    """Miller indices equivalent to hkl (row vectors transform with the inverse)"""
    P = point_group(name)
    return np.unique(np.round(np.array([np.linalg.inv(w).T @ np.array(hkl, float) for w in P])).astype(int), axis=0)


def vertices(N, D):
    t = np.array(list(itertools.combinations(range(len(N)), 3)))
    Am = N[t]
    ok = np.abs(np.linalg.det(Am)) > 1e-9
    V = np.linalg.solve(Am[ok], D[t[ok]][..., None])[..., 0]
    V = V[(V @ N.T <= D + 1e-8 * np.abs(D).max()).all(1)]
    return V


def bounded(N):
    try:
        return bool((ConvexHull(N).equations[:, 3] < -1e-9).all())
    except Exception:
        return False


def expect(name, crystal, energies, natoms, interface=None):
    """unit normals and distances of all half-spaces; None if unbounded or empty"""
    rec = np.linalg.inv(crystal.B).T
    N, D, fam = [], [], []
    for hkl, e in energies.items():
        for m in family(name, hkl):
            n = rec @ m
            N.append(n / np.linalg.norm(n)), D.append(e), fam.append(hkl)
    if interface is not None:
        n = rec @ np.array(interface[0], float)
        N.append(n / np.linalg.norm(n)), D.append(interface[1]), fam.append("interface")
    N, D = np.array(N), np.array(D)
    if not bounded(N):
        return None
    V = vertices(N, D)
    if len(V) < 4:
        return None
    hull = ConvexHull(V, qhull_options="QJ")
    vol = ConvexHull(V).volume
    target = natoms * abs(np.linalg.det(crystal.B)) / len(crystal.frac)
    return N, D * (target / vol) ** (1 / 3), V * (target / vol) ** (1 / 3), fam, target


def facet_area(N, D, V, i):
    on = V[np.abs(V @ N[i] - D[i]) < 1e-6 * np.abs(D).max()]
    if len(on) < 3:
        return 0.
    u = np.linalg.svd(N[i][None])[2][1:]
    q = on @ u.T
    if np.linalg.matrix_rank(q - q.mean(0), tol=1e-6) < 2:
        return 0.
    return ConvexHull(q).volume


def judge(ch, vol, exp, what):
    N, D, V, fam, target = exp
    scale = np.abs(D).max()
    ch.check(isinstance(vol, Volume) and vol.points is None, f"{what}: not a volume bounded by planes only")
    got = []
    for a in vol.alg_objects:
        ch.check(isinstance(a, Plane), f"{what}: a surface which is no plane")
        n = np.ravel(a.normal) / np.linalg.norm(a.normal)
        d = float(n @ np.ravel(a.point))
        ch.check(np.all(np.isfinite(n)) and np.isfinite(d), f"{what}: facet not finite")
        e = np.maximum(np.abs(N - n).max(1), np.abs(D - d) / scale)
        ch.check(e.min() < 1e-6, lambda: f"{what}: facet with normal {np.round(n, 4).tolist()} at {d:.5f} is not one the energies dictate")
        got.append(int(np.argmin(e)))
    need = [i for i in range(len(N)) if facet_area(N, D, V, i) > 1e-7 * scale ** 2]
    # two half-spaces can coincide (the same facet from two families)
    have = {tuple(np.round(np.append(N[i], D[i] / scale), 6)) for i in got}
    for i in need:
        ch.check(any(np.abs(np.append(N[i], D[i] / scale) - np.array(h)).max() < 3e-6 for h in have),
                 lambda: f"{what}: facet {fam[i]} with normal {np.round(N[i], 4).tolist()} is missing")
    gn = np.array([np.ravel(a.normal) / np.linalg.norm(a.normal) for a in vol.alg_objects])
    gd = np.array([n @ np.ravel(a.point) for n, a in zip(gn, vol.alg_objects)])
    W = vertices(gn, gd)
    ch.check(len(W) >= 4 and abs(ConvexHull(W).volume - target) < 1e-5 * target, f"{what}: volume is not that of the requested number of atoms")
    ch.outcome((what.split()[0], len(need), len(vol.alg_objects)))


def populated(ch, vol, crystal, what):
    rv = A.RVol(None, [A.Surf("plane", np.ravel(a.normal), np.ravel(a.point)) for a in vol.alg_objects], crystal)
    ch.op()
    vol.populate_atoms()
    A.check_atoms(ch, vol, rv, what)


CUB = {(1, 0, 0): (None, 1.0, 1.3, .9), (1, 1, 0): (None, 1.05, 1.25), (1, 1, 1): (None, 1.0, 1.2, .7), (2, 1, 0): (None, 1.1)}
HEX = {(1, 0, 0): (1.0, 1.2), (0, 0, 1): (None, .9, 1.4), (1, 0, 1): (None, 1.05), (1, 1, 0): (None, 1.1), (0, 0, -1): (None, 1.15)}
TET = {(1, 0, 0): (1.0, 1.2), (0, 0, 1): (None, .9, 1.4), (1, 1, 1): (None, 1.05), (1, 1, 0): (None, 1.1), (0, 0, -1): (None, 1.15)}
POLAR = {(1, 1, 1): (None, 1.0, 1.2), (-1, -1, -1): (None, .8, 1.3), (1, 0, 0): (None, 1.1), (1, 1, 0): (None, 1.05)}


def tables(name):
    a = {"hcp": HEX, "wurtzite": HEX, "tetragonal": TET, "polar tetragonal": TET, "zincblende": POLAR}.get(name, CUB)
    if THOROUGH and a is CUB:
        a = dict(a)
        a[(3, 1, 1)] = (None, 1.08)
    out = []
    for c in itertools.product(*a.values()):
        e = {k: v for k, v in zip(a, c) if v is not None}
        if name in ("hcp", "tetragonal") and (0, 0, -1) in e:
            continue          # the same family as (0, 0, 1)
        if e:
            out.append(e)
    return out


def body_single(ch):
    name = ch.choose("crystal", list(X))
    frame = ch.choose("frame", FRAMES)
    if frame == "from primitive" and name in ("sc", "cscl", "hcp", "wurtzite", "tetragonal", "polar tetragonal"):
        ch.prune("primitive already")
    tb = tables(name)
    e = ch.choose("energies", tb if THOROUGH or frame == "plain" else tb[FRAMES.index(frame)::5])
    n = ch.choose("atoms", (60, 700) if len(e) < 3 or THOROUGH else (130,))
    _, _, cr = reference(name, frame)
    exp = expect(name, cr, e, n)
    if exp is None:
        ch.prune("not bounded")
    g = make(name, frame)
    keep = dict(e)
    ch.op()
    w = WulffSingle(g, e, n)
    vol, areas = w.get_construction(return_facet_areas=True)
    what = f"{name} {frame} {e} n={n}"
    judge(ch, vol, exp, what)
    ch.check(e == keep and np.allclose(g.voxel.sbases, cr.B if frame != "from primitive" else g.voxel.sbases), f"{what}: inputs modified")
    N, D, V, fam, _ = exp
    ar = np.array([facet_area(N, D, V, i) for i in range(len(N))])
    dup = len({tuple(np.round(x, 6)) for x in np.column_stack([N, D])}) < len(N)
    if not dup:
        for k in e:
            want = ar[[i for i in range(len(N)) if fam[i] == k]].sum() / ar.sum()
            ch.check(abs(areas.get(k, 0.) - want) < 1e-4, lambda: f"{what}: area fraction of {k} is {areas.get(k, 0.)} instead of {want}")
        ch.check(w.get_areas() == areas, f"{what}: areas differ between calls")
    if n < 200:
        populated(ch, vol, cr, f"{what}: atoms")


def body_shapes(ch):
    name = ch.choose("crystal", ("fcc", "bcc", "sc", "cscl", "diamond"))
    frame = ch.choose("frame", FRAMES[:5])
    shape = ch.choose("shape", ("cube", "cuboctohedron", "octohedron", "truncated_octohedron"))
    n = ch.choose("atoms", (40, 150, 1000) if THOROUGH else (40, 1000))
    e = {"cube": {(1, 0, 0): 1.0}, "cuboctohedron": {(1, 0, 0): 1.0, (1, 1, 1): 1.15}, "octohedron": {(1, 1, 1): 1.0},
         "truncated_octohedron": {(1, 0, 0): 1.1, (1, 1, 0): 1.15, (1, 1, 1): 1.0}}[shape]
    _, _, cr = reference(name, frame)
    ch.op()
    vol = getattr(WulffSingle, shape)(make(name, frame), n) if n != 1000 else getattr(WulffSingle, shape)(make(name, frame))
    exp = expect(name, cr, e, n)
    judge(ch, vol, exp, f"{shape} {name} {frame} n={n}")
    if n < 200:
        populated(ch, vol, cr, f"{shape} {name} {frame} n={n}: atoms")


INTER = [(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, -1, 0), (1, 1, 0), (-1, 0, 1), (1, 1, 1), (-1, -1, -1), (1, -1, 1), (1, 1, -2), (2, 1, 0)]


def body_winter(ch):
    name = ch.choose("crystal", ("fcc", "zincblende", "bcc", "hcp", "wurtzite", "tetragonal", "cscl"))
    frame = ch.choose("frame", FRAMES[:5])
    cubic = X[name][0][0] == X[name][0][2]
    itf = ch.choose("interface", INTER if cubic else INTER[:2])
    ei = ch.choose("interface energy", (.3, -.25, .02, .45) if THOROUGH or frame == "plain" else (.3, -.25))
    if not THOROUGH and name in ("bcc", "cscl") and frame not in ("plain", "set in another frame"):
        ch.prune()
    e = ch.choose("energies", ({(1, 0, 0): 1.0, (1, 1, 1): 1.1}, {(1, 1, 1): 1.0, (-1, -1, -1): 1.2, (1, 1, 0): 1.1}, {(1, 0, 0): 1.0}) if name == "zincblende" else
                  ({(1, 0, 0): 1.0, (1, 1, 1): 1.1}, {(1, 1, 1): .9}, {(1, 0, 0): 1.0, (1, 1, 0): 1.05}) if cubic else
                  ({(1, 0, 0): 1.0, (0, 0, 1): 1.1, (0, 0, -1): 1.1} if name == "wurtzite" else {(1, 0, 0): 1.0, (0, 0, 1): 1.1}, {(1, 0, 0): 1.2, (1, 0, 1): 1.0, (0, 0, 1): .9}))
    n = ch.choose("atoms", (80, 600) if THOROUGH else (80,))
    _, _, cr = reference(name, frame)
    exp = expect(name, cr, e, n, (itf, ei))
    if exp is None:
        ch.prune("not bounded")
    keep = dict(e)
    w = WulffSingle(make(name, frame), e, n)
    ch.op()
    vol = w.winterbottom(itf, ei)
    what = f"{name} {frame} {e} interface {itf} at {ei}"
    judge(ch, vol, exp, what)
    ch.check(e == keep and w.surface_energies == keep, f"{what}: the energies were modified")
    if itf in INTER[:3] + INTER[6:7]:
        populated(ch, vol, cr, f"{what}: atoms")
    # the single-crystal shape is not disturbed by it
    if ei == .3:
        exp = expect(name, cr, e, n)
        if exp is not None:
            judge(ch, w.get_construction(), exp, f"{what}: the free shape afterwards")


EDITS = {"more atoms": lambda w: setattr(w, "natoms", 300), "fewer atoms": lambda w: setattr(w, "natoms", 60), "energies": lambda w: setattr(w, "surface_energies", {(1, 0, 0): 1.0, (1, 1, 1): .95}),
         "generator": lambda w: setattr(w, "generator", make("bcc", "rotated")), "construct": lambda w: w.get_construction(), "areas": lambda w: w.get_areas(),
         "winterbottom": lambda w: w.winterbottom((1, 1, 1), .2)}


def body_edit(ch):
    """histories of edits and constructions on one object"""
    st = {"natoms": 150, "energies": {(1, 0, 0): 1.0, (1, 1, 1): 1.2}, "crystal": ("fcc", "plain")}
    w = WulffSingle(make("fcc", "plain"), dict(st["energies"]), 150)
    for i in range(4 if THOROUGH else 3):
        op = ch.choose("operation", list(EDITS))
        ch.op()
        EDITS[op](w)
        if op.endswith("atoms"):
            st["natoms"] = 300 if op == "more atoms" else 60
        elif op == "energies":
            st["energies"] = {(1, 0, 0): 1.0, (1, 1, 1): .95}
        elif op == "generator":
            st["crystal"] = ("bcc", "rotated")
    name, frame = st["crystal"]
    _, _, cr = reference(name, frame)
    vol = w.get_construction()
    judge(ch, vol, expect(name, cr, st["energies"], st["natoms"]), f"after edits: {st}")
    ch.check(vol.generator is not None and np.allclose(vol.generator.voxel.sbases, cr.B), "construction holds another generator")


HARNESSES = {
    "single crystals": dict(body=body_single, shard=3, bounds=lambda t: f"{len(X)} crystals x {len(FRAMES)} frames x all tables over 4-5 families with 1-3 energies or absent{' (every fifth table in frames other than the first)' if t == 'quick' else ''} x sizes"),
    "shapes": dict(body=body_shapes, shard=3, bounds="5 cubic crystals x 5 frames x 4 named shapes x sizes"),
    "winterbottom": dict(body=body_winter, shard=3, bounds="7 crystals x 5 frames x 11 interfaces (2 for non-cubic) x 4 interface energies x 2-3 tables"),
    "edits": dict(body=body_edit, shard=2, bounds=lambda t: f"all histories of {3 if t == 'quick' else 4} edits and constructions of one object"),
}
