"""All transformation sequences up to length 3 with every assignment of the joint / basis-only flags, in every nesting, applied to
points, surfaces, molecules, generators and volumes once as a sequence object and once member by member: both routes must
leave every target in the same observable state."""
import os
import copy
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf, Cell
from czone.transform import MultiTransform
from czone.molecule import Molecule
from czone.volume import Volume, MultiVolume
from czone.generator import AmorphousGenerator

PROPERTY = "C09"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["both routes run the package's own single transformations (their meaning is decided by C02, C04 and C06)"]
FLAGS = [(True, False), (False, False), (True, True), (False, True)]
TS = [alpha.T_ALL[i] for i in ((0, 2, 3, 4, 5, 7) if THOROUGH else (0, 2, 3, 7))]
M1 = [(t, f) for t in TS for f in FLAGS]
M2 = [(t, f) for t in alpha.T_ALL for f in FLAGS] if THOROUGH else [(t, f) for t in alpha.T_ALL[:8] for f in FLAGS]
NEST = {0: ["[]"], 1: ["[a]", "[[a]]"], 2: ["[ab]", "[[a]b]", "[a[b]]", "[[ab]]", "+a+b", "+[ab]"],
        3: ["[abc]", "[[ab]c]", "[a[bc]]", "[[a][b[c]]]", "+[ab]+c"]}
G = np.linspace(-4, 5, 6)
PTS = np.array([[x, y + .2, z - .3] for x in G for y in G for z in G])
BOX = np.array([[-3, -2.5, -4], [3.5, 4, 2.]])
SURFS = [Surf("sphere", 2.1, [1, .5, 0]), Surf("plane", [1, 2, -1], [.3, 0, 1]), Surf("cylinder", [1, 0, 2], [0, 1, 1], 1.7, 4)]


def build(nest, ts):
    """sequence object with the given nesting, built by the constructor ([..]) or by adding one after another (+)"""
    it = iter(ts)
    if nest.startswith("+"):
        m = MultiTransform()
        for part in nest.split("+")[1:]:
            m.add_transform([next(it) for _ in part[1:-1]] if part.startswith("[") else next(it))
        return m
    stack = []
    for c in nest:
        if c == "[":
            stack.append([])
        elif c == "]":
            x = MultiTransform(stack.pop())
            if not stack:
                return x
            stack[-1].append(x)
        else:
            stack[-1].append(next(it))


def gens():
    g = Cell("tri").generator(origin=np.array([1.3, -.4, .8]))
    return g


def targets():
    v1 = Volume(points=alpha.prism((5, 4, 4), (-2, -2, -1)), alg_objects=[SURFS[1].make()], generator=gens())
    v2 = Volume(alg_objects=[SURFS[0].make(), SURFS[2].make()], generator=Cell("cub").generator())
    v3 = Volume(points=alpha.prism((3, 3, 3), (1, 0, 0)), priority=1)
    m = Molecule([1, 8, 6], [[0, 0, 0], [1, .2, 0], [0, -1, 2.]], origin=np.array([.4, .1, -.2]))
    mi = Molecule([1, 8, 6], [[0, 0, 0], [1, .2, 0], [0, -1, 2.]], origin=1)
    m.print_warnings = mi.print_warnings = False
    ag = AmorphousGenerator(origin=np.array([1., 2, 3]))
    return dict(surf=[s.make() for s in SURFS], mol=m, mol_atom=mi, gen=gens(), vol=v1, vol2=v2, multi=MultiVolume([v1.from_volume(), v3], priority=2), amorphous=ag)


def observe(t):
    out = {}
    sp, pl, cy = t["surf"]
    unit = lambda v: np.ravel(v) / np.linalg.norm(v)
    out["surf"] = [np.r_[np.ravel(sp.center), sp.radius, sp.tol], np.r_[unit(pl.normal), np.ravel(pl.point), pl.tol],
                   np.r_[unit(cy.axis), np.ravel(cy.point), cy.radius, cy.length, cy.tol]]
    out["surf interior"] = [np.asarray(s.checkIfInterior(PTS)) for s in t["surf"]]
    for k in ("mol", "mol_atom"):
        out[k] = [t[k].atoms, t[k].species, np.ravel(t[k].origin)]
    out["gen"] = [np.ravel(t["gen"].origin), box(t["gen"])]
    out["amorphous"] = [np.ravel(t["amorphous"].origin)]
    for k in ("vol", "vol2"):
        v = t[k]
        out[k] = [v.points if v.points is not None else np.zeros(0), np.asarray(v.checkIfInterior(PTS)), np.ravel(v.generator.origin), box(v.generator)]
    out["multi"] = [np.asarray(t["multi"].checkIfInterior(PTS)), t["multi"].volumes[0].points, t["multi"].volumes[1].points,
                    np.ravel(t["multi"].volumes[0].generator.origin), box(t["multi"].volumes[0].generator), np.array([t["multi"].priority])]
    return out


def box(g):
    """sites within a box, in a canonical order; sites near the border of the box are left to a wide margin"""
    c, s = g.supply_atoms(BOX)
    inside = np.all((c > BOX[0]) & (c < BOX[1]), axis=1)
    c, s = c[inside], np.asarray(s)[inside]
    return np.c_[c, s]


def same(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.ndim == 2 and a.shape[1] == 4:        # atoms: as sets, sites at the border may differ by rounding
        for x, y in ((a, b), (b, a)):
            inner = np.all((x[:, :3] > BOX[0] + 1e-6) & (x[:, :3] < BOX[1] - 1e-6), axis=1)
            if inner.any():
                if len(y) == 0:
                    return False
                if ref.cKDTree(y).query(x[inner])[0].max() > 1e-7:
                    return False
        return True
    if a.dtype == bool or b.dtype == bool:
        return np.array_equal(a, b)
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=1e-8)


def compare(ch, A, B):
    for k in A:
        for i, (x, y) in enumerate(zip(A[k], B[k])):
            ch.check(same(x, y), lambda: f"{k}[{i}]: sequence {np.asarray(x).ravel()[:8]} vs one by one {np.asarray(y).ravel()[:8]}")


def run(ch, seq):
    n = len(seq)
    nest = ch.choose("nesting", NEST[n])
    mk = lambda: [t.make(locked=f[0], basis_only=f[1]) for t, f in seq]
    multi, single = build(nest, mk()), mk()
    a, b = targets(), targets()
    ch.op(n * 8)
    p = PTS.copy()
    pa = multi.applyTransformation(p)
    pb = PTS
    ba = multi.applyTransformation_bases(np.diag([1., 2, 3]))
    bb = np.diag([1., 2, 3])
    for t in single:
        pb, bb = t.applyTransformation(pb), t.applyTransformation_bases(bb)
    ch.check(np.array_equal(p, PTS), "points were modified")
    ch.check(np.allclose(pa, pb, atol=1e-9), lambda: f"points: {pa[0]} vs {pb[0]}")
    ch.check(np.allclose(ba, bb, atol=1e-9), "bases differ")
    one = multi.applyTransformation(PTS[5])
    ch.check(np.allclose(np.ravel(one), pb[5], atol=1e-9), "single point differs from the same point in an array")
    apply_all(a, [multi])
    apply_all(b, single)
    A, B = observe(a), observe(b)
    compare(ch, A, B)
    # the sequence object is unchanged by use: applying it again to a fresh set gives the same
    c = targets()
    apply_all(c, [multi])
    compare(ch, observe(c), B)
    for x, y in zip(mk(), [t for t in _flat(multi)]):
        ch.check(x.locked == y.locked and x.basis_only == y.basis_only and type(x) is type(y), "member of the sequence changed")
    ch.outcome((np.round(pb[0], 5).tobytes(), tuple(f for _, f in seq)))


def _flat(m):
    for t in m.transforms:
        if isinstance(t, MultiTransform):
            yield from _flat(t)
        else:
            yield t


def apply_all(t, trs):
    for x in trs:
        for i, s in enumerate(t["surf"]):
            r = x.applyTransformation_alg(s)
            t["surf"][i] = r
        for k in ("mol", "mol_atom", "gen", "vol", "vol2", "multi", "amorphous"):
            t[k].transform(x)


def body(ch):
    n = ch.choose("length", (0, 1, 2))
    run(ch, [ch.choose(f"member{i}", M2 if i == 0 or THOROUGH else M1) for i in range(n)])


T3 = [(alpha.T_ALL[i], f) for i in (0, 2, 7) for f in FLAGS] if THOROUGH else [(alpha.T_ALL[0], FLAGS[0]), (alpha.T_ALL[0], FLAGS[1]), (alpha.T_ALL[2], FLAGS[2]), (alpha.T_ALL[2], FLAGS[3]), (alpha.T_ALL[7], FLAGS[0])]


def body3(ch):
    run(ch, [ch.choose(f"member{i}", T3) for i in range(3)])


HARNESSES = {
    "pairs": dict(body=body, shard=2, bounds=f"all sequences of length <= 2 over {len(M2)} / {len(M2 if THOROUGH else M1)} flagged transformations x {len(NEST[2])} nestings x 8 targets"),
    "triples": dict(body=body3, shard=2, bounds=f"all triples over {len(T3)} flagged transformations x {len(NEST[3])} nestings x 8 targets"),
}
