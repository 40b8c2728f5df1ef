"""Adsorbate placement with the draw of the target atom scripted, so that every admissible target atom is visited, for all
combinations of hosts, molecules, bonding atoms, directions, rotations, filters and both surface algorithms."""
import os
import itertools
import numpy as np
from mc import env, rng, ref, alpha
from mc.alpha import Surf, RVol
from czone.molecule import Molecule
from czone.surface.adsorbate import add_adsorbate, get_nearest_neighbors
from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
from czone.volume import MultiVolume

PROPERTY = "C23"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["hosts are convex crystals (and a group of two); 'outward' is judged within 45 degrees of the geometric normal of face, edge or corner (90 degrees without sampling: the triangulation of a perfect lattice is then arbitrary and the local neighbours few)"]


class Host:
    def __init__(self, name, make, normal, inner):
        self.name, self.make, self.normal, self.inner = name, make, normal, inner

    def __repr__(self):
        return self.name


def _block(cellname, n, place=(0, 0, 0), R=np.eye(3)):
    cell = alpha.Cell(cellname)
    a = cell.dims[0]
    size = (np.array(n) - 1) * a
    place = np.array(place, float)
    if cellname == "cscl":
        size = size + .5 * a
    pts = (alpha.BOX * (size + .3) - .15) @ R.T + place

    def make():
        from czone.transform import Rotation, Translation
        g = cell.generator()
        g.transform(Rotation(matrix=R.copy())), g.transform(Translation(place))
        v = RVol(pts, (), None).build(g)
        v.populate_atoms()
        return v

    def local(p):
        return (p - place) @ R

    def normal(p):
        x = local(p)
        m = np.where(x > size - .1, 1., np.where(x < .1, -1., 0.))
        return R @ m / max(np.linalg.norm(m), 1e-9)
    inner = lambda p: bool(np.all((local(p) > .1) & (local(p) < size - .1))) if cellname == "cub" else bool(np.all((local(p) > 1.) & (local(p) < size - 1.)))
    return make, normal, inner


def _ball(r, c):
    cell, c = alpha.Cell("cub"), np.array(c, float)

    def make():
        v = RVol(None, [Surf("sphere", r, c)], None).build(cell.generator(origin=c))
        v.populate_atoms()
        return v
    return make, lambda p: (p - c) / np.linalg.norm(p - c), lambda p: np.linalg.norm(p - c) < 3.5


def _pair():
    """one block made of two half blocks"""
    mk, normal, inner = _block("cub", (4, 4, 4))

    def make():
        cell = alpha.Cell("cub")
        a = RVol(alpha.prism((4.65, 9.3, 9.3), (-.15, -.15, -.15)), (), None).build(cell.generator())
        b = RVol(alpha.prism((4.65, 9.3, 9.3), (4.5, -.15, -.15)), (), None).build(cell.generator())
        v = MultiVolume([a, b])
        v.populate_atoms()
        return v
    return make, normal, inner


HOSTS = [Host("block", *_block("cub", (4, 4, 4))), Host("ball", *_ball(7.1, (3., -20, 11))), Host("group", *_pair()),
         Host("binary", *_block("cscl", (3, 3, 4), (-9, 14, 3), ref.rodrigues([1, 2, 3], .7)))]
H = {h.name: h for h in HOSTS}
CACHE = {}


def host(name):
    if name not in CACHE:
        CACHE[name] = H[name].make()
    return CACHE[name]


MOLS = {
    "CO": lambda: Molecule([6, 8], [[0, 0, 0], [0, 0, 1.13]]),
    "bent": lambda: Molecule([8, 1, 1, 7], [[.3, .2, -.1], [1.06, .2, .49], [-.46, .2, .49], [.3, 1.1, 1.7]], origin=[1., 1, 1], orientation=ref.rodrigues([1, 1, 0], .6)),
    "rod": lambda: Molecule([6, 6, 6, 7], [[0, 0, 0], [0, 0, 1.4], [0, .3, 2.8], [.2, .3, 4.2]], origin=2),
}
VECS = {"z": [0, 0, 1], "x": [1., 0, 0], "skew": [1, -2, .5], "down": [0, 0, -1.]}
ROT = (0., .9, -2.5) if THOROUGH else (0., -2.5)


def filters(name, v):
    """filter dict and reference predicate over atom indices"""
    c = v.atoms.mean(0)
    top = v.atoms[:, 2] > np.quantile(v.atoms[:, 2], .7)
    z = sorted(set(np.asarray(v.species).astype(int).tolist()))
    from pymatgen.core import Element
    sym = Element.from_Z(z[0]).symbol
    third = np.arange(0, len(v.atoms), 3)
    F = {
        "none": ({}, np.ones(len(v.atoms), bool)),
        "spatial": ({"spatial": lambda p: p[:, 2] > np.quantile(v.atoms[:, 2], .7)}, top),
        "mask": ({"mask": np.arange(len(v.atoms)) % 2 == 0}, np.arange(len(v.atoms)) % 2 == 0),
        "indices": ({"indices": third.tolist()}, np.isin(np.arange(len(v.atoms)), third)),
        "element": ({"element": [sym]}, v.species == z[0]),
        "two of a kind": ({"spatial1": lambda p: p[:, 0] > c[0], "spatial2": lambda p: p[:, 1] < c[1]}, (v.atoms[:, 0] > c[0]) & (v.atoms[:, 1] < c[1])),
        "three, spatial first": ({"spatial": lambda p: p[:, 2] > c[2] - 1, "mask": np.arange(len(v.atoms)) % 3 != 0, "element": [z[0]]}, (v.atoms[:, 2] > c[2] - 1) & (np.arange(len(v.atoms)) % 3 != 0) & (v.species == z[0])),
        "three spatial": ({"spatial1": lambda p: p[:, 0] > c[0] - 2, "spatial2": lambda p: p[:, 1] < c[1] + 2, "spatial3": lambda p: p[:, 2] > c[2]}, (v.atoms[:, 0] > c[0] - 2) & (v.atoms[:, 1] < c[1] + 2) & (v.atoms[:, 2] > c[2])),
        "all": ({"element": [z[-1], 3], "indices": third, "spatial": lambda p: p[:, 2] < c[2] + 3}, (v.species == z[-1]) & np.isin(np.arange(len(v.atoms)), third) & (v.atoms[:, 2] < c[2] + 3)),
    }
    return F[name]


FILTERS = ["none", "spatial", "mask", "indices", "element", "two of a kind", "three, spatial first", "three spatial", "all"]


def place(ch, v, mol, idx, L, target=None, **kw):
    """one placement; target: callable(n) -> k scripts the draw of the target"""
    with rng.script(rng.Ask(pick=target) if target else rng.Ask()), env.quiet():
        ch.op()
        return add_adsorbate(mol, idx, L, v, **kw)


def judge(ch, hname, v, mol, out, ok, idx, L, vec, allowed, what, tight=None, cone=.7):
    a0, a1 = np.array(mol.atoms), np.asarray(out.atoms)
    ch.check(a1.shape == a0.shape and np.isfinite(a1).all(), what + ": not finite")
    ch.check(np.array_equal(out.species, mol.species), what + ": elements changed")
    inside = np.asarray(v.checkIfInterior(a1)).any()
    if ok is not None:
        ch.check(bool(ok) == (not inside), f"{what}: success is {ok} although {'an' if inside else 'no'} atom lies inside the host")
    # rigid and proper, from all pairs and triples of difference vectors
    k = idx % len(a0)
    d0, d1 = a0 - a0[k], a1 - a1[k]
    ch.check(np.allclose(d0 @ d0.T, d1 @ d1.T, atol=1e-7), what + ": not rigid")
    for i, j, l in itertools.combinations(range(len(a0)), 3):
        ch.check(abs(np.dot(d0[i], np.cross(d0[j], d0[l])) - np.dot(d1[i], np.cross(d1[j], d1[l]))) < 1e-6, what + ": mirrored")
    # bonding atom: one bond length from an allowed surface atom, along the outward normal, with the direction of the molecule
    w = a1[k] - np.asarray(v.atoms)
    r = np.linalg.norm(w, axis=1)
    cand = [t for t in np.nonzero(np.abs(r - L) < 1e-6)[0] if allowed[t] and not H[hname].inner(v.atoms[t]) and H[hname].normal(v.atoms[t]) @ w[t] / L > cone]
    ch.check(cand, lambda: f"{what}: bonding atom is not one bond length outward from an admissible surface atom (nearest {r.min():.3f}, bond {L})")
    m = mol.orientation @ np.array(vec, float)
    m = m / np.linalg.norm(m)
    good = []
    for t in cand:
        n = w[t] / L
        # direction of the molecule onto the normal: components along it are kept
        if np.allclose(d0 @ m, d1 @ n, atol=1e-6):
            good.append(t)
    ch.check(good, f"{what}: the chosen direction is not along the normal")
    if tight is not None:
        ch.check(tight in good, f"{what}: placed on atom {good} instead of the drawn {tight}")
    return good


def frozen(mol, v):
    return [np.array(mol.atoms), np.array(mol.species), np.array(mol.origin), np.array(mol.orientation), np.array(v.atoms), np.array(v.species)]


def unchanged(ch, before, mol, v, what):
    ch.check(all(np.array_equal(a, b) for a, b in zip(before, frozen(mol, v))), what + ": molecule or host was modified")


def one(ch, hname, mname, idx, vec, rot, fname, sampling, seed, L=1.7, scripted=True):
    v, mol = host(hname), MOLS[mname]()
    f, allowed = filters(fname, v)
    what = f"{mname}({idx}) on {hname}, direction {vec}, rotation {rot}, filter {fname}, sampling {sampling}, seed {seed}"
    before = frozen(mol, v)
    kw = dict(mol_rotation=rot, filters=f, use_sampling=sampling, seed=seed, probe_radius=3.0)
    kw["mol_vector"] = np.array(VECS[vec])
    chosen = []

    def target(n):
        if not chosen:
            chosen.append(ch.choose("target", range(n)))
        return min(chosen[0], n - 1)
    args = (target,) if scripted else ()
    try:
        out, ok = place(ch, v, mol, idx, L, *args, **kw)
    except ValueError as e:
        if "a cannot be empty" in str(e):
            ch.check(not any(allowed[t] and np.linalg.norm(H[hname].normal(v.atoms[t])) > .5 and not H[hname].inner(v.atoms[t]) and hname != "ball" and corner(hname, v.atoms[t]) for t in range(len(v.atoms))),
                     what + ": no target found although an allowed corner atom exists")
            ch.prune("no target")
        raise
    unchanged(ch, before, mol, v, what)
    out2, t, nn, nnp = place(ch, v, mol, idx, L, *args, debug=True, **kw)
    ch.check(np.allclose(out2.atoms, out.atoms, atol=1e-12), what + ": same seed, other placement")
    good = judge(ch, hname, v, mol, out, ok, idx, L, VECS[vec], allowed, what, int(t), .7 if sampling else 0.)
    ch.check(len(nn) and t not in nn and np.allclose(np.linalg.norm(nnp, axis=1) * 0 + 1, 1), what + ": neighbours")
    ch.outcome((hname, mname, idx, vec, rot, int(t), bool(ok)))
    return v, mol, out, int(t), kw, L, args, what


def corner(hname, p):
    return np.sum(np.abs(H[hname].normal(p)) > .1) == 3 and hname == "block"


def body_targets(ch):
    hname = ch.choose("host", list(H))
    sampling = ch.choose("sampling", (True, False))
    fname = ch.choose("filter", FILTERS if THOROUGH or hname in ("block", "binary") and sampling else ("none", "two of a kind", "three spatial"))
    mname = ch.choose("molecule", list(MOLS) if THOROUGH else ["bent"])
    one(ch, hname, mname, 0 if mname != "rod" else -1, "z", .4, fname, sampling, ch.choose("seed", (0, 1) if THOROUGH else (0,)))


def body_poses(ch):
    mname = ch.choose("molecule", list(MOLS))
    n = len(MOLS[mname]().species)
    idx = ch.choose("bonding atom", list(range(n)) + [-1])
    vec = ch.choose("direction", list(VECS))
    hname = ch.choose("host", ("block", "ball", "binary") if THOROUGH else ("binary",))
    rot = ch.choose("rotation", ROT)
    L = ch.choose("bond", (1.2, 2.3))
    seed = ch.choose("seed", range(4 if THOROUGH else 2))
    v, mol, out, t, kw, L, args, what = one(ch, hname, mname, idx, vec, rot, "none", bool(seed % 2), seed, L, scripted=False)
    # the rotation about the normal relative to no rotation
    kw["mol_rotation"] = 0.
    np.random.rand(2)
    base, _ = place(ch, v, mol, idx, L, **kw)
    k = idx % n
    nrm = (out.atoms[k] - v.atoms[t]) / L
    want = (base.atoms - base.atoms[k]) @ ref.rodrigues(nrm, rot).T + base.atoms[k]
    ch.check(np.allclose(out.atoms, want, atol=1e-6), what + ": not rotated about the normal by the given angle")


def steps(simplices, start, n):
    """atoms within n edges of the triangulation"""
    adj = {}
    for q in simplices:
        for i in q:
            adj.setdefault(int(i), set()).update(int(j) for j in q)
    seen, front = {start}, {start}
    for _ in range(n):
        front = set().union(*[adj.get(i, set()) for i in front]) - seen
        seen |= front
    return seen - {start}


SHAPES = {}


def body_near(ch):
    hname, sampling, radius = ch.choose("host", list(H)), ch.flag("sampling"), ch.choose("probe", (2.2, 3.0, 20.))
    key = (hname, sampling, radius)
    v = host(hname)
    if key not in SHAPES:
        r = np.random.default_rng(3)
        with env.quiet():
            SHAPES[key] = alpha_shape_alg_3D_with_sampling(v.atoms, radius, 5, rng=r, return_alpha_shape=True) if sampling else alpha_shape_alg_3D(v.atoms, radius, return_alpha_shape=True, rng=r)
    ind, d = SHAPES[key]
    if not ind:
        ch.prune("no surface")
    only = ch.choose("surface only", (None, True, False))
    n = ch.choose("shells", (None, 1, 2, 3, 4))
    t = int(ch.choose("target", sorted(map(int, ind))))
    kw = ({} if only is None else dict(surface_only=only)) | ({} if n is None else dict(N_shells=n))
    got = get_nearest_neighbors(t, d, **kw)
    ch.op()
    cells = d["tri"].simplices[np.ravel(d["a_tris"])] if only is False else d["tri"].simplices[d["surface_tris"]]
    want = steps(cells, t, 3 if n is None else n)
    got = [int(i) for i in np.ravel(got)]
    ch.check(len(set(got)) == len(got) and set(got) == want, lambda: f"{key}, {kw}, atom {t}: missing {sorted(want - set(got))}, wrong {sorted(set(got) - want)}")
    ch.outcome((key, only, n, t, len(want)))
    # and placing with these options keeps all guarantees
    if n in (None, 2) and radius == 3.0 and t == sorted(map(int, ind))[0]:
        mol = MOLS["bent"]()
        f, allowed = filters("none", v)
        before = frozen(mol, v)
        out, ok = place(ch, v, mol, 0, 1.7, use_sampling=sampling, seed=2, probe_radius=radius, **kw)
        unchanged(ch, before, mol, v, f"{key}, {kw}")
        judge(ch, hname, v, mol, out, ok, 0, 1.7, VECS["z"], allowed, f"{key}, {kw}", None, 0.)


HARNESSES = {
    "neighbours": dict(body=body_near, shard=3, bounds=f"{len(HOSTS)} hosts x both surface algorithms x 3 probe radii x surface only or not x 1 to 4 shells x every surface atom"),
    "targets": dict(body=body_targets, shard=4, bounds=f"{len(HOSTS)} hosts x both surface algorithms x {len(FILTERS)} filters (2 for some hosts in quick), every outcome of the target draw"),
    "poses": dict(body=body_poses, shard=4, bounds=f"{len(MOLS)} molecules x every bonding atom x {len(VECS)} directions x {len(ROT)} rotations x 2 bond lengths x seeds"),
}
