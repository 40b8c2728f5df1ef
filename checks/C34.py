"""All subsets of options of every constructor and copying method, in every accepted form: the result is the one the options describe
(reference volumes, crystals, molecules and maps), and the object copied is left as it was."""
import os
import itertools
import numpy as np
from mc import env, ref, core
from mc import alpha as A
from ase import Atoms
from pymatgen.core.structure import Molecule as PmgMolecule, Structure
from pymatgen.core import Lattice
from czone.generator import Generator, AmorphousGenerator, NullGenerator
from czone.molecule import Molecule
from czone.scene import Scene
from czone.transform import (Translation, MatrixTransform, Rotation, Reflection, Inversion, HStrain, IStrain, MultiTransform)
from czone.transform.post import ChemicalSubstitution, ArbitraryPostTransform, PostSequence
from czone.volume import Volume, MultiVolume, Plane, Sphere, Cylinder, Voxel

PROPERTY = "C34"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["options and forms are those documented or accepted by the constructors' own shape checks; forms that are refused may be refused",
               "options given to a group's copying method go to every member, the group keeps its own priority (documented)"]
V = np.array
f = lambda *v: np.array(v, float)
TRI = f(1.02, .97, 1.05)


class Gen:
    """a generator and the crystal it stands for"""

    def __init__(self, name, cell, origin=None, turn=None, strain=None, post=False):
        self.name, self.cell, self.origin, self.turn, self.strain, self.post = name, A.Cell(cell), origin, turn, strain, post

    def make(self):
        g = self.cell.generator(**({} if self.origin is None else dict(origin=V(self.origin, float))))
        if self.turn:
            g.transform(self.turn.make(basis_only=True))
        if self.strain is not None:
            g.strain_field = HStrain(V(self.strain))
        if self.post:
            g.post_transform = ChemicalSubstitution([self.cell.Z[0]], [77], 1.0)
        return g

    def crystal(self, origin=None):
        o = self.origin if origin is None else origin
        c = self.cell.crystal(np.zeros(3) if o is None else o)
        B = c.B if self.turn is None else self.turn.lin @ c.B
        if self.strain is not None:
            B = B @ np.diag(self.strain)
        return ref.Crystal(B, c.frac, [77 if self.post and z == self.cell.Z[0] else z for z in c.Z], c.o)

    def __repr__(self):
        return self.name


GENS = [Gen("simple cubic", "cub"), Gen("turned, offset triclinic", "tri", (.4, 1, -.2), A.rotation([1, 2, 0], .8)),
        Gen("strained hexagonal", "hex", (1, 0, 5), None, TRI), Gen("substituted", "cscl", None, A.rotation([0, 0, 1], .3), None, True)]
HULL = {"prism": A.prism((6, 5, 7), (-1, -2, .3)), "wedge": f((0, 0, 0), (7, 0, 0), (0, 6.5, 1), (1, 2, 8), (5, 5, 5), (-2, -1, 3)) + [.07, -.13, .11]}
SURF = {"ball": [A.Surf("sphere", 3.6, (1.4, .5, 3))], "cut": [A.Surf("plane", (1, 1, 0), (2.2, .3, 1), tol=1e-3), A.Surf("cylinder", (0, 0, 1), (1.1, .4, 3.3), 3.1, 6.2)]}
ROT, TRA, REF = A.rotation([1, 2, 3], .7, [2, -1, .5]), A.translation([1.3, -.7, 2.1]), A.reflection([1, 1, 0], [1, 2, 0])
# (name, factory of the argument, [(reference map, joint?)])
MOVES = [("none", None, []), ("empty list", lambda: [], []), ("one", lambda: [ROT.make()], [(ROT, True)]),
         ("unlocked then joint", lambda: [TRA.make(locked=False), REF.make()], [(TRA, False), (REF, True)]),
         ("sequence, as tuple", lambda: (MultiTransform([REF.make(), TRA.make(locked=False)]), ROT.make(locked=False)), [(REF, True), (TRA, False), (ROT, False)]),
         ("on the lattice only", lambda: [ROT.make(basis_only=True)], [(ROT, "basis")])]


def moved(rv, moves):
    for t, joint in moves:
        if joint == "basis":
            c = rv.crystal
            rv = rv.map(t.aff, joint=False)
            rv.crystal = None if c is None else c.map(t.aff.M, t.aff.t, basis_only=True)
        else:
            rv = rv.map(t.aff, joint=joint)
    return rv


BASES = [("hull", "prism", None, 0, 2), ("surfaces", None, "cut", 1, -1), ("both", "wedge", "ball", 2, 0), ("no generator", "prism", "ball", None, 3)]
NEW_GEN, NEW_ORIGIN = [None, 3, 1], f(.9, -1.3, .35)
g = np.linspace(-3.3, 8.7, 7)
PROBE = V(list(itertools.product(g, g + .11, g - .07)))


def look(ch, v, rv, tol, what):
    ch.check(v.priority == rv.priority, lambda: f"{what}: priority {v.priority} instead of {rv.priority}")
    ch.check(v.tolerance == tol, lambda: f"{what}: tolerance {v.tolerance} instead of {tol}")
    ch.check((v.generator is None) == (rv.crystal is None), lambda: f"{what}: generator {v.generator}")
    ch.check((v.points is None) == (rv.pts is None) and (rv.pts is None or (np.shape(v.points) == np.shape(rv.pts) and np.allclose(v.points, rv.pts, atol=1e-8))), lambda: f"{what}: points {v.points}")
    ch.check(len(v.alg_objects) == len(rv.surfs), lambda: f"{what}: {len(v.alg_objects)} surfaces instead of {len(rv.surfs)}")
    ch.check([s.tol for s in v.alg_objects] == [s.tol for s in rv.surfs], lambda: f"{what}: tolerances of the surfaces {[s.tol for s in v.alg_objects]}")
    ins, sure = rv.judge(PROBE)
    if rv.pts is not None and tol > 1e-9:
        sure &= np.abs(ref.d_hull(PROBE, rv.pts)) > .05
    got = v.checkIfInterior(PROBE.copy())
    bad = sure & (got != ins)
    ch.check(not bad.any(), lambda: f"{what}: point {PROBE[np.argmax(bad)].tolist()} reported {'in' if got[np.argmax(bad)] else 'out'}side")
    if rv.pts is not None and not rv.surfs:        # the tolerance takes effect: a point just outside a facet
        N, D = ref.hull_planes(rv.pts)[:2]
        on = [p for p in rv.pts if abs(N[0] @ p - D[0]) < 1e-6]
        p = np.mean(on, axis=0) + 5e-4 * N[0]
        ch.check(bool(v.checkIfInterior(p)[0]) == (tol > 1e-4), lambda: f"{what}: tolerance {tol} has no effect")
    if rv.crystal is not None:
        v.populate_atoms()
        want, wz, opt = rv.sites()
        if rv.pts is not None and tol > 1e-9:
            lo, hi = rv.aabb()
            want, wz = rv.crystal.in_box(lo - .1, hi + .1)
            d = ref.d_hull(want, rv.pts)
            rest = A.RVol(None, rv.surfs).judge(want)
            opt = (np.abs(d) < .05) | ~rest[1]
            m = ((d < 0) & rest[0]) | opt
            want, wz, opt = want[m], wz[m], opt[m]
        r = ref.diff(v.atoms, v.species, want, wz, optional=opt)
        ch.check(r is None, lambda: f"{what}: {r}")
        ch.outcome((len(want), round(float(np.sum(want)), 3)))


def build_base(k, tol=None):
    name, h, s, gi, pr = BASES[k]
    rv = A.RVol(None if h is None else HULL[h], SURF[s] if s else [], None if gi is None else GENS[gi].crystal(), pr)
    v = Volume(points=None if h is None else HULL[h].copy(), alg_objects=[x.make() for x in SURF[s]] if s else None, generator=None if gi is None else GENS[gi].make(), priority=pr, **({} if tol is None else dict(tolerance=tol)))
    return v, rv


def body_volume(ch):
    how = ch.choose("how", ["copy", "constructor", "step by step"])
    k = ch.choose("of", list(range(len(BASES)))) if how == "copy" else None
    mv = ch.choose("moves", MOVES) if how == "copy" else MOVES[0]
    pts = ch.choose("points", [None, "wedge"] if how == "copy" else [None, "prism", "wedge"])
    sf = ch.choose("surfaces", [None, "ball", "list form"] + (["none"] if how == "copy" else []))
    gi = ch.choose("generator", NEW_GEN if how == "copy" else [None] + list(range(len(GENS))))
    org = ch.choose("generator origin", [None, "array", "zero"])
    pr = ch.choose("priority", [None, 5])
    tol = ch.choose("tolerance", [None, 1e-3] + ([1e-10] if how == "copy" else []))
    if how == "copy":
        btol = [1e-3, None, None, 2e-3][k]
        v0, rv0 = build_base(k, btol)
    else:
        v0, rv0, btol = None, A.RVol(), None
        if pts is None and sf is None:
            ch.prune("no region")
        if sf == "list form" and pts is None:
            ch.prune("unbounded")
    rv = A.RVol(rv0.pts, rv0.surfs, rv0.crystal, rv0.priority)
    kw = {}
    if pts:
        kw["points"], rv.pts = HULL[pts].copy(), HULL[pts]
    if sf:
        S = {"ball": SURF["ball"], "list form": SURF["cut"], "none": []}[sf]
        kw["alg_objects"] = tuple(s.make() for s in S) if sf == "list form" else [s.make() for s in S]
        rv.surfs = list(S)
    if rv.pts is None and not rv.surfs:
        ch.prune("no region left")
    if gi is not None:
        kw["generator"], rv.crystal = GENS[gi].make(), GENS[gi].crystal()
    if org:
        new = NEW_ORIGIN if org == "array" else np.zeros(3)
        kw["gen_origin"] = new.copy()
        if rv.crystal is not None:
            c = rv.crystal
            rv.crystal = ref.Crystal(c.B, c.frac, c.Z, new)
    if pr is not None:
        kw["priority"] = rv.priority = pr
    if tol is not None:
        kw["tolerance"] = tol
    btol = btol or 1e-10
    want_tol = btol if tol is None else tol
    what = f"{how} of {BASES[k][0] if k is not None else '-'} with {sorted(kw)} and moves {mv[0]}"
    if how == "copy":
        if mv[1]:
            kw["transformation"] = mv[1]()
        v = v0.from_volume(**kw)
        rv = moved(rv, mv[2])
    elif how == "constructor":
        v = Volume(**kw)
    else:
        v = Volume()
        if "priority" in kw:
            v.priority = kw["priority"]
        for s in kw.get("alg_objects", []):
            v.add_alg_object(s)
        if pts:
            for lo, hi in ((0, 5), (5, 6), (6, None)):        # several points, then one as a vector, then the rest (if any)
                q = kw["points"][lo:hi]
                if len(q):
                    v.addPoints(q[0] if len(q) == 1 else q)
        if gi is not None:
            v.add_generator(kw["generator"], *([kw["gen_origin"]] if org else []))
        if tol is not None:
            v.tolerance = tol
    ch.op()
    look(ch, v, rv, want_tol, what)
    if v0 is not None:
        look(ch, v0, rv0, btol, f"original after {what}")
    ch.state((how, k, mv[0], pts, sf, gi, org, pr, tol))


# ---------------------------------------------------------------- groups
def members():
    a, ra = build_base(0)
    b, rb = build_base(2)
    c = Volume(points=A.prism((4, 4, 4), (3, 1, 1)), generator=GENS[3].make(), priority=1)
    rc = A.RVol(A.prism((4, 4, 4), (3, 1, 1)), [], GENS[3].crystal(), 1)
    return [(a, ra), (b, rb), (c, rc)]


def leaves(o):
    return [x for m in o.volumes for x in leaves(m)] if isinstance(o, MultiVolume) else [o]


def body_group(ch):
    form = ch.choose("members given as", ["list", "tuple", "iterator", "one by one", "single then list"])
    nested = ch.choose("nesting", ["flat", "pair inside", "group of one"])
    gp = ch.choose("group priority", [None, 0, 4])
    opt = ch.choose("copy option", ["no copy", "plain", "priority", "generator", "gen_origin", "zero gen_origin", "alg_objects", "points", "tolerance", "generator and origin"])
    mv = ch.choose("moves", MOVES) if opt != "no copy" else MOVES[0]
    M = members()
    R = {id(v): r for v, r in M}
    flat = [v for v, _ in M]
    if nested == "pair inside":
        inner = MultiVolume([M[0][0], M[1][0]], priority=2)
        top = [inner, M[2][0]]
        rm = lambda rs: A.RMulti([A.RMulti(rs[:2], 2), rs[2]], gp or 0)
    elif nested == "group of one":
        inner = MultiVolume(M[2][0])
        top = [M[0][0], M[1][0], inner]
        rm = lambda rs: A.RMulti([rs[0], rs[1], A.RMulti(rs[2:], 0)], gp or 0)
    else:
        top = flat
        rm = lambda rs: A.RMulti(rs, gp or 0)
    if form in ("list", "tuple", "iterator"):
        mvol = MultiVolume({"list": list, "tuple": tuple, "iterator": iter}[form](top), **({} if gp is None else dict(priority=gp)))
    else:
        mvol = MultiVolume(*([top[0]] if form != "one by one" else []), **({} if gp is None else dict(priority=gp)))
        if form == "one by one":
            for v in top:
                mvol.add_volume(v)
        else:
            mvol.add_volume(iter(top[1:]))
    ch.check([id(v) for v in mvol.volumes] == [id(v) for v in top], lambda: f"members given as {form}: {len(mvol.volumes)} members instead of {len(top)}")
    rs = [r for _, r in M]
    got, what, tol = mvol, f"group ({form}, {nested})", 1e-10
    if opt != "no copy":
        kw = {}
        if opt == "priority":
            kw["priority"] = 7
            rs = [A.RVol(r.pts, r.surfs, r.crystal, 7) for r in rs]
        if opt.startswith("generator"):
            kw["generator"] = GENS[1].make()
            rs = [A.RVol(r.pts, r.surfs, GENS[1].crystal(), r.priority) for r in rs]
        if opt.endswith("origin"):
            new = np.zeros(3) if opt.startswith("zero") else NEW_ORIGIN
            kw["gen_origin"] = new.copy()
            rs = [A.RVol(r.pts, r.surfs, ref.Crystal(r.crystal.B, r.crystal.frac, r.crystal.Z, new), r.priority) for r in rs]
        if opt == "alg_objects":
            kw["alg_objects"] = [s.make() for s in SURF["cut"]]
            rs = [A.RVol(r.pts, SURF["cut"], r.crystal, r.priority) for r in rs]
        if opt == "points":
            kw["points"] = HULL["wedge"].copy()
            rs = [A.RVol(HULL["wedge"], r.surfs, r.crystal, r.priority) for r in rs]
        if opt == "tolerance":
            kw["tolerance"] = tol = 1e-3
        if mv[1]:
            kw["transformation"] = mv[1]()
        what = f"copy of {what} with {sorted(kw)}, moves {mv[0]}"
        got = mvol.from_volume(**kw)
        rs = [moved(r, mv[2]) for r in rs]
        ch.check(not {id(x) for x in leaves(got)} & {id(x) for x in flat}, lambda: f"{what}: shares members with the original")
    ch.op()
    ch.check(got.priority == (gp or 0), lambda: f"{what}: priority {got.priority} instead of {gp or 0}")
    L = leaves(got)
    ch.check(len(L) == 3, lambda: f"{what}: {len(L)} volumes")
    for j, (v, r) in enumerate(zip(L, rs)):
        look(ch, v, r, tol, f"{what}: member {j}")
    got.populate_atoms()
    if tol < 1e-9:
        A.check_atoms(ch, got, rm(rs), what)
    if got is not mvol:
        mvol.populate_atoms()
        A.check_atoms(ch, mvol, rm([r for _, r in M]), f"original after {what}")
    ch.state((form, nested, gp, opt, mv[0]))


# ---------------------------------------------------------------- generators
def same_atoms(ch, gen, crystal, strain, what, subst=None):
    box = A.prism((6.3, 5.1, 7.7), (-2.1, 1.4, -.6))
    lo, hi = box.min(0), box.max(0)
    if isinstance(strain, tuple):              # a field without inverse: compare displaced sites well inside
        P, Z = gen.supply_atoms(box.copy())
        W, WZ = crystal.in_box(lo + .3, hi - .3)
        W = strain[0](W, crystal)
        m = V([np.min(np.linalg.norm(P - w, axis=1)) < 1e-6 for w in W]) if len(W) else V([])
        ch.check(len(W) > 5 and m.all(), lambda: f"{what}: no atom at {W[np.argmin(m)].tolist()}")
        return
    if strain is not None:
        crystal = strain(crystal)
    P, Z = gen.supply_atoms(box.copy())
    m = np.all((P > lo + 1e-6) & (P < hi - 1e-6), axis=1)
    W, WZ = crystal.in_box(lo - 1e-5, hi + 1e-5)
    if subst:
        WZ = V([subst.get(z, z) for z in WZ])
    r = ref.diff(P[m], V(Z)[m], W, WZ, optional=~np.all((W > lo + 2e-6) & (W < hi - 2e-6), axis=1))
    ch.check(r is None, lambda: f"{what}: {r}")
    ch.outcome((len(W), round(float(np.sum(W)), 3)))


HM = f((1.05, .02, 0), (0, .96, .03), (.01, 0, 1.1))


def wave(x, basis=None, h=.05):
    return x + h * np.sin(x[:, ::-1])


# (name, factory, reference crystal map, or displacement of sites in a tuple)
STRAINS = [("none", None, None),
           ("homogeneous, crystal", lambda: HStrain(HM), lambda c: ref.Crystal(c.B @ HM.T, c.frac, c.Z, c.o)),
           ("homogeneous, standard, fixed point", lambda: HStrain(HM, mode="standard", origin=[1, 2, .5]), lambda c: ref.Crystal(HM.T @ c.B, c.frac, c.Z, HM.T @ (c.o - [1, 2, .5]) + [1, 2, .5])),
           ("field with option, standard", lambda: IStrain(wave, mode="standard", h=.11), (lambda p, c: c.o + wave(p - c.o, h=.11),)),
           ("field, crystal, fixed point", lambda: IStrain(wave, origin=[1, 2, .5]), (lambda p, c: f(1, 2, .5) + wave((p - f(1, 2, .5)) @ np.linalg.inv(c.B).T) @ c.B.T,))]
FORMS = {"lists": list, "tuples": tuple, "arrays": np.array}


def body_generator(ch):
    cell = A.Cell(ch.choose("cell", ["tri", "hex", "cscl"]))
    how = ch.choose("built by", ["unit cell", "space group", "structure", "setters"])
    org = ch.choose("origin", [None, (.3, -7.2, 5.7)])
    sname, sf, rs = ch.choose("strain", STRAINS)
    fm = ch.choose("data as", list(FORMS)) if how in ("unit cell", "space group") else "lists"
    sub = ch.flag("substitution")
    mv = ch.choose("copied with moves", [None] + MOVES)
    F = FORMS[fm]
    Z, co, dims, angs = F(cell.Z), F([F(x) for x in cell.frac.tolist()]), F(cell.dims), F(cell.angs)
    if fm == "arrays":
        Z = [int(z) for z in Z]
    kw = {}
    if org is not None:
        kw["origin"] = V(org, float)
    if sf:
        kw["strain_field"] = sf()
    st = Structure(Lattice.from_parameters(*cell.dims, *cell.angs), cell.Z, cell.frac)
    if how == "unit cell":
        gen = Generator.from_unit_cell(Z, co, dims, angs, **kw)
    elif how == "space group":
        gen = Generator.from_spacegroup(Z, co, dims, angs, **(dict(sgn=1) if fm != "tuples" else dict(sym="P1")), **kw)
    elif how == "structure":
        gen = Generator(structure=st, **kw)
    else:
        gen = Generator()
        if sf:
            gen.strain_field = kw["strain_field"]
        if org is not None:
            gen.origin = kw["origin"]
        gen.structure = st
    if sub:
        gen.post_transform = ChemicalSubstitution([cell.Z[0]], [78], 1.)
    ch.op()
    cry = cell.crystal(np.zeros(3) if org is None else org)
    what = f"{cell} by {how} with {sorted(kw)} as {fm}, strain {sname}"
    ch.check(np.allclose(gen.origin, cry.o), lambda: f"{what}: origin {gen.origin}")
    ch.check((gen.strain_field is None) == (sf is None), lambda: f"{what}: strain field {gen.strain_field}")
    S = {cell.Z[0]: 78} if sub else None
    same_atoms(ch, gen, cry, rs, what, S)
    if mv is not None:
        new = gen.from_generator(**({} if mv[1] is None else dict(transformation=mv[1]())))
        c = cry
        for t, joint in mv[2]:
            c = c.map(t.aff.M, t.aff.t, basis_only=joint == "basis")
        same_atoms(ch, new, c, rs, f"copy of {what}, moves {mv[0]}", S)
        same_atoms(ch, gen, cry, rs, f"{what} after being copied", S)
    ch.state((cell.name, how, org, sname, fm, sub, mv and mv[0]))


def body_amorphous(ch):
    opts = {k: v for k, v in [("origin", (1., -2, 3)), ("min_dist", 1.55), ("density", .04), ("species", 14)] if ch.flag(k)}
    reuse = ch.choose("earlier result", ["none", "there", "used again"])
    mv = ch.choose("copied with moves", [None] + MOVES)
    cp = {k: v for k, v in opts.items()}
    if "origin" in cp:
        cp["origin"] = ch.choose("origin as", [list, tuple, np.array])(cp["origin"])
    a = AmorphousGenerator(**cp)
    full = {**dict(origin=None, min_dist=1.4, density=.1103075, species=6), **opts}
    box = A.prism((6, 5, 7), (3, -20, 1))
    core.reset_rng()
    old = None
    if reuse != "none":
        p, z = a.supply_atoms(box.copy())
        old = (p.copy(), V(z).copy())
        a.use_old_result = reuse == "used again"
    m = ref.Aff()
    b = a
    if mv is not None:
        b = a.from_generator(**({} if mv[1] is None else dict(transformation=mv[1]())))
        for t, joint in mv[2]:
            m = m if joint == "basis" else m.then(t.aff)
    what = f"amorphous {sorted(opts)}, earlier result {reuse}, moves {mv and mv[0]}"
    ch.op()
    for x, mm, w in [(b, m, what)] + [(a, ref.Aff(), f"original of {what}")] * (b is not a):
        ch.check((x.min_dist, x.density, x.species) == (full["min_dist"], full["density"], full["species"]), lambda: f"{w}: settings {x.min_dist, x.density, x.species}")
        ch.check((x.origin is None) == (full["origin"] is None) and (x.origin is None or np.allclose(x.origin, mm(f(*full["origin"])))), lambda: f"{w}: origin {x.origin}")
        ch.check((x.old_result is None) == (old is None), lambda: f"{w}: earlier result {'lost' if old else 'appeared'}")
        if old is not None:
            ch.check(np.allclose(x.old_result[0], mm(old[0])) and np.array_equal(x.old_result[1], old[1]), lambda: f"{w}: earlier result is not the moved one")
        p, z = x.supply_atoms(box.copy())
        if reuse == "used again":
            ch.check(np.allclose(p, mm(old[0])) and np.array_equal(z, old[1]), lambda: f"{w}: earlier result not used again")
        else:
            d = np.linalg.norm(p[:, None] - p[None] + 9 * np.eye(len(p))[:, :, None], axis=-1).min() if len(p) > 1 else 9
            ch.check(d > full["min_dist"] - 1e-9, lambda: f"{w}: atoms {d} apart")
            ch.check(np.all(V(z) == full["species"]), lambda: f"{w}: elements {set(V(z))}")
            n = full["density"] * 6 * 5 * 7
            ch.check(abs(len(p) - n) <= max(2, .15 * n), lambda: f"{w}: {len(p)} atoms instead of about {n}")
    ch.state((tuple(opts), reuse, mv and mv[0]))


# ---------------------------------------------------------------- molecules
MZ, MP = [8, 1, 1, 7], f((0, 0, .1), (.8, .6, .2), (-.8, .6, 0), (3, 1, 2))
Q = ref.rodrigues([1, 2, 2], 1.1)
ZF = {"list": list, "tuple": tuple, "array": np.array, "column": lambda z: np.array(z)[:, None], "floats": lambda z: np.array(z, float)}
PF = {"array": np.array, "list": lambda p: p.tolist(), "flat": lambda p: p.ravel(), "tuples": lambda p: tuple(map(tuple, p.tolist()))}
OF = [("default", None, f(0, 0, 0), None), ("point as list", [1, 2, 3.5], f(1, 2, 3.5), None), ("point as tuple", (1, 2, 3.5), f(1, 2, 3.5), None), ("point as array", f(1, 2, 3.5), f(1, 2, 3.5), None),
      ("point as column", f(1, 2, 3.5)[:, None], f(1, 2, 3.5), None), ("point as row", f(1, 2, 3.5)[None], f(1, 2, 3.5), None), ("integer point", V([1, 2, 3]), f(1, 2, 3), None),
      ("first atom", 0, None, 0), ("last atom", 3, None, 3), ("numpy index", np.int64(2), None, 2), ("from the end", -2, None, 2)]


def body_molecule(ch):
    src = ch.choose("from", ["constructor", "ase", "pymatgen"])
    zf = ch.choose("elements as", list(ZF)) if src == "constructor" else "list"
    pf = ch.choose("positions as", list(PF)) if src == "constructor" else "array"
    on, o, pt, idx = ch.choose("origin", OF)
    ori = ch.flag("orientation given")
    pr = ch.choose("priority", [None, 3])
    mv = ch.choose("copied with moves", [None] + MOVES)
    cp = lambda x: x.copy() if isinstance(x, np.ndarray) else x
    if src == "constructor":
        kw = {}
        if on != "default":
            kw["origin"] = cp(o)
        if ori:
            kw["orientation"] = Q.copy()
        m = Molecule(ZF[zf](MZ), PF[pf](MP.copy()), **kw)
    else:
        m = Molecule.from_ase_atoms(Atoms(numbers=MZ, positions=MP)) if src == "ase" else Molecule.from_pmg_molecule(PmgMolecule(MZ, MP))
        if on != "default":
            m.set_origin(**({"idx": o} if idx is not None else {"point": cp(o)}))
        if ori:
            m.orientation = Q.copy()
    if pr is not None:
        m.priority = pr
    m.print_warnings = False
    what = f"molecule ({src}, {zf}, {pf}, origin {on})"
    ch.op()
    res = [(m, ref.Aff(), what)]
    if mv is not None:
        aff = ref.Aff()
        for t, _ in mv[2]:
            aff = aff.then(t.aff)
        n = m.from_molecule(**({} if mv[1] is None else dict(transformation=mv[1]())))
        res.append((n, aff, f"copy of {what}, moves {mv[0]}"))
    for x, a, w in res:
        ch.check(np.array_equal(x.species, MZ) and np.shape(x.species) == (4,), lambda: f"{w}: elements {x.species}")
        ch.check(np.shape(x.atoms) == (4, 3) and np.allclose(x.atoms, a(MP)), lambda: f"{w}: positions {x.atoms}")
        want = a(MP)[idx] if idx is not None else a(pt)
        ch.check(np.shape(x.origin) == (3,) and np.allclose(x.origin, want), lambda: f"{w}: origin {x.origin} instead of {want}")
        ch.check(np.allclose(x.orientation, Q if ori else np.eye(3)), lambda: f"{w}: orientation {x.orientation}")
        ch.check(x.priority == (pr or 0), lambda: f"{w}: priority {x.priority}")
        at = x.ase_atoms
        ch.check(np.array_equal(at.get_atomic_numbers(), MZ) and np.allclose(at.get_positions(), a(MP)), lambda: f"{w}: ASE atoms differ")
    ch.state((src, zf, pf, on, ori, pr, mv and mv[0]))


# ---------------------------------------------------------------- scenes
BF = [("default", None, f((0, 0, 0), (10, 10, 10))), ("array", lambda: f((-1, -2, -3), (9, 8, 12)), f((-1, -2, -3), (9, 8, 12))), ("lists", lambda: [[-1, -2, -3], [9, 8, 12]], f((-1, -2, -3), (9, 8, 12))),
      ("tuples", lambda: ((0, 0, 0), (4, 5, 6)), f((0, 0, 0), (4, 5, 6)))]


def body_scene(ch):
    bn, b, wb = ch.choose("bounds", BF)
    sel = ch.choose("objects", [c for n in (1, 2, 3) for c in itertools.permutations(range(3), n)])
    form = ch.choose("given as", ["list", "tuple", "iterator", "added", "some added"] + (["single"] if len(sel) == 1 else []))
    M = members()
    top = [M[i][0] for i in sel]
    kw = {} if b is None else dict(bounds=b())
    if form in ("list", "tuple", "iterator"):
        sc = Scene(objects={"list": list, "tuple": tuple, "iterator": iter}[form](top), **kw)
    elif form == "single":
        sc = Scene(objects=top[0], **kw)
    else:
        n = 1 if form == "some added" else 0
        sc = Scene(**({"objects": top[:n]} if n else {}), **kw)
        for v in top[n:]:
            sc.add_object(v)
    what = f"scene of {sel} given as {form}, bounds {bn}"
    ch.check([id(x) for x in sc.objects] == [id(x) for x in top], lambda: f"{what}: {len(sc.objects)} objects")
    ch.check(np.shape(sc.bounds) == (2, 3) and np.allclose(sc.bounds, wb), lambda: f"{what}: bounds {sc.bounds}")
    sc.populate()
    ch.op()
    W, WZ, opt = A.resolve([M[i][1] for i in sel])
    r = ref.diff(sc.all_atoms, sc.all_species, W, WZ, optional=opt)
    ch.check(r is None, lambda: f"{what}: {r}")
    ch.check(np.allclose(sc.ase_atoms.cell, np.diag(wb[1] - wb[0])), lambda: f"{what}: cell {sc.ase_atoms.cell}")
    ch.outcome((len(W), sel))
    ch.state((bn, sel, form))


# ---------------------------------------------------------------- transformations, strains, surfaces, voxels
VF = {"list": lambda *v: list(v), "tuple": lambda *v: tuple(v), "array": lambda *v: f(*v), "integers": lambda *v: V(v, int), "column": lambda *v: f(*v)[:, None]}
RF = {**VF, "row": lambda *v: f(*v)[None]}
K = dict(locked=[None, True, False], basis_only=[None, True, False])
M3 = f((1, .3, 0), (0, 1, 0), (.1, 0, 1.2))
PTS = f((0, 0, 0), (1.2, -3, .4), (60, -70, 33.3), (-.2, .1, 5))


def body_transform(ch):
    kind = ch.choose("class", ["Translation", "MatrixTransform", "Rotation", "Reflection", "Inversion", "sequence"])
    lk, bo = ch.choose("locked", K["locked"]), ch.choose("basis only", K["basis_only"])
    fl = {k: v for k, v in (("locked", lk), ("basis_only", bo)) if v is not None}
    late = ch.flag("set afterwards")
    if kind == "sequence":
        form = ch.choose("given as", ["list", "tuple", "iterator", "added one by one", "added as iterator", "single", "nested"])
        parts = [ROT.make(**fl), TRA.make(), REF.make(locked=False)]
        if form in ("list", "tuple", "iterator"):
            t = MultiTransform({"list": list, "tuple": tuple, "iterator": iter}[form](parts))
        elif form == "single":
            t, parts = MultiTransform(parts[0]), parts[:1]
        elif form == "nested":
            t = MultiTransform([MultiTransform(parts[:2]), parts[2]])
        else:
            t = MultiTransform()
            for p in (parts if form == "added one by one" else [iter(parts)]):
                t.add_transform(p)
        aff = ROT.aff if len(parts) == 1 else ROT.aff.then(TRA.aff).then(REF.aff)
        ch.check(bool(t.locked) == any(p.locked for p in parts) and bool(t.basis_only) == any(p.basis_only for p in parts), lambda: f"sequence as {form}: flags {t.locked, t.basis_only}")
        form = f"sequence as {form}"
    else:
        vf = ch.choose("vector as", list(VF) if kind == "Translation" else [None] + list(RF))
        vec = None if vf is None else RF[vf](2, -1, 3)
        o = None if vf is None else f(2, -1, 3)
        args = {} if late else dict(fl)
        n = f(1, 2, -1)
        late_set = []
        if kind == "Translation":
            make, par, aff = Translation, [("shift", vec)], ref.Aff(np.eye(3), o)
        elif kind == "Reflection":
            make, par, aff = Reflection, [("plane", Plane(n, f(0, 0, 0) if vec is None else vec))], ref.Aff.about(ref.householder(n), o)
        else:
            make = dict(MatrixTransform=MatrixTransform, Rotation=Rotation, Inversion=Inversion)[kind]
            par = [] if kind == "Inversion" else [("matrix", (M3 if kind == "MatrixTransform" else Q).copy())]
            par += [] if vec is None else [("origin", vec)]
            aff = ref.Aff.about({"MatrixTransform": M3, "Rotation": Q, "Inversion": -np.eye(3)}[kind], o)
        t = make(**{} if late else {**dict(par), **fl})
        if late:
            for k, v in par + list(fl.items()):
                setattr(t, k, v)
        ch.check(t.locked is (True if lk is None else lk) and t.basis_only is bool(bo), lambda: f"{kind} with {fl}: locked {t.locked}, basis only {t.basis_only}")
        form = f"{kind} with vector as {vf}, {fl}, {'set afterwards' if late else 'constructed'}"
    ch.op()
    for P in (PTS, PTS[:3], PTS[:1]):
        got = t.applyTransformation(P.copy())
        ch.check(np.shape(got) == P.shape and np.allclose(got, aff(P), atol=1e-9), lambda: f"{form}: {P.tolist()} mapped to {np.array(got).tolist()}")
    got = t.applyTransformation(PTS[1].copy())
    ch.check(np.allclose(np.squeeze(got), aff(PTS[1])), lambda: f"{form}: one point mapped to {got}")
    ch.check(np.allclose(t.applyTransformation_bases(M3.copy()), aff.M @ M3), lambda: f"{form}: bases mapped to {t.applyTransformation_bases(M3.copy())}")
    # how the flags act on volumes and generators
    gen, cry = GENS[1].make(), GENS[1].crystal()
    v = Volume(points=HULL["wedge"].copy(), alg_objects=[Plane(f(1, 2, 0), f(1, 1, 1))], generator=gen)
    v.transform(t)
    steps = [(ROT.aff, lk is not False, bool(bo)), (TRA.aff, True, False), (REF.aff, False, False)][:len(parts)] if kind == "sequence" else [(aff, lk is not False, bool(bo))]
    c, rv = cry, A.RVol(HULL["wedge"], [A.Surf("plane", (1, 2, 0), (1, 1, 1))], None)
    for a, joint, basis in steps:
        rv = rv.map(a, joint=False)
        if joint:
            c = c.map(a.M, a.t, basis_only=basis)
    rv.crystal = c
    ch.check(np.allclose(v.points, rv.pts), lambda: f"{form}: points of the volume {v.points}")
    ch.check(np.allclose(v.generator.origin, c.o) and np.allclose(v.generator.voxel.sbases, c.B), lambda: f"{form}: generator of the volume at {v.generator.origin}")
    ins, sure = rv.judge(PROBE)
    got = v.checkIfInterior(PROBE.copy())
    ch.check(not (sure & (got != ins)).any(), lambda: f"{form}: region of the volume")
    ch.state((form, lk, bo, late))


def body_strain(ch):
    n = ch.choose("components", [3, 6, 9, "3x3", None])
    ff = ch.choose("as", ["list", "tuple", "array", "column", "row"])
    mode = ch.choose("mode", [None, "crystal", "standard"])
    on, o = ch.choose("origin", [("default", None), ("generator", "generator"), ("list", [1, 2, .5]), ("tuple", (1, 2, .5)), ("array", f(1, 2, .5))])
    late = ch.flag("set afterwards")
    vals = {3: [1.02, .97, 1.1], 6: [1.02, .97, 1.1, .03, -.02, .05], 9: HM.ravel().tolist(), "3x3": HM.tolist(), None: None}[n]
    M = {3: np.diag([1.02, .97, 1.1]), 6: f((1.02, .05, -.02), (.05, .97, .03), (-.02, .03, 1.1)), 9: HM, "3x3": HM, None: np.eye(3)}[n]
    if vals is not None:
        F = {"list": lambda x: x, "tuple": lambda x: tuple(map(tuple, x)) if n == "3x3" else tuple(x), "array": np.array, "column": lambda x: np.array(x) if n == "3x3" else np.array(x)[:, None], "row": lambda x: np.array(x)[None]}[ff]
        vals = F(vals)
    elif ff != "list":
        ch.prune("no components")
    par = {} if vals is None else dict(matrix=vals)
    rest = {} if mode is None else dict(mode=mode)
    if o is not None:
        rest["origin"] = o.copy() if isinstance(o, np.ndarray) else o
    s = HStrain(**rest) if late else HStrain(**par, **rest)
    if late and par:
        s.matrix = vals
    crystal = (mode or "crystal") == "crystal"
    ch.check(np.allclose(s.matrix, M), lambda: f"strain of {n} components as {ff}: matrix {s.matrix}")
    ch.check(s.mode == (mode or "crystal"), lambda: f"mode {s.mode}")
    gen, c = GENS[1].make(), GENS[1].crystal()
    gen.strain_field = s
    oo = c.o if on in ("default", "generator") else f(1, 2, .5)
    L = c.B @ M.T @ np.linalg.inv(c.B) if crystal else M.T
    same_atoms(ch, gen, ref.Crystal(L @ c.B, c.frac, c.Z, L @ (c.o - oo) + oo), None, f"strain of {n} components as {ff}, mode {mode}, origin {on}")
    ch.op()
    ch.state((n, ff, mode, on, late))


def body_surface(ch):
    kind = ch.choose("surface", ["sphere", "plane", "cylinder"])
    vf = ch.choose("point as", list(VF) if kind == "sphere" else list(RF))
    nf = ch.choose("direction as", list(RF)) if kind != "sphere" else None
    tol = ch.choose("tolerance", [None, .2, "by setter"])
    mv = ch.choose("copied with moves", [None] + MOVES)
    p, n = RF[vf](2, -1, 3), None if nf is None else RF[nf](1, 2, -2)
    kw = dict(tol=tol) if tol == .2 else {}
    S = {"sphere": A.Surf("sphere", 4.2, (2, -1, 3), tol=tol and .2), "plane": A.Surf("plane", (1, 2, -2), (2, -1, 3), tol=tol and .2), "cylinder": A.Surf("cylinder", (1, 2, -2), (2, -1, 3), 3.1, 7.5, tol=tol and .2)}[kind]
    s = {"sphere": lambda: Sphere(4.2, p, **kw), "plane": lambda: Plane(n, p, **kw), "cylinder": lambda: Cylinder(n, p, 3.1, 7.5, **kw)}[kind]()
    if tol == "by setter":
        s.tol = .2
    pts = V(list(itertools.product(np.linspace(-6.1, 9.3, 9), np.linspace(-7.2, 6.7, 9), np.linspace(-4.3, 10.1, 9))))
    ch.op()
    todo = [(s, S, f"{kind} with point as {vf}, direction as {nf}, tolerance {tol}")]
    if mv is not None:
        new = s.from_alg_object(**({} if mv[1] is None else dict(transformation=mv[1]())))
        T = S
        for t, _ in mv[2]:
            T = T.map(t.aff)
        todo.append((new, T, f"copy of {todo[0][2]}, moves {mv[0]}"))
    for x, X, w in todo:
        ch.check(x.tol == (.2 if tol else 1e-5), lambda: f"{w}: tolerance {x.tol}")
        d = X.depth(pts)
        got = x.checkIfInterior(pts.copy())
        ch.check(np.shape(got) == (len(pts),), lambda: f"{w}: answer of shape {np.shape(got)}")
        bad = (np.abs(d - X.tol) > 1e-7 + (0 if kind != "cylinder" else .3 * (X.tol > .1))) & (got != (d < X.tol))
        ch.check(not bad.any(), lambda: f"{w}: point {pts[np.argmax(bad)].tolist()} reported {'in' if got[np.argmax(bad)] else 'out'}side")
    ch.state((kind, vf, nf, tol, mv and mv[0]))


def body_voxel(ch):
    B = f((3, .2, 0), (0, 2.5, .4), (.1, 0, 4))
    b = ch.choose("bases", [None, B, B.tolist()])
    sn, s, m = ch.choose("scale", [("default", None, 1), ("number", 2.5, 2.5), ("one element", V([1.5]), 1.5), ("list", [1.5, 2, 3], f(1.5, 2, 3)), ("array", f(1.5, 2, 3), f(1.5, 2, 3)), ("row", f(1.5, 2, 3)[None], f(1.5, 2, 3))])
    o = ch.choose("origin", [None, f(1, -2, .3)])
    late = ch.flag("set afterwards")
    par = {k: v for k, v in (("bases", b), ("scale", s), ("origin", o)) if v is not None}
    cp = {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in par.items()}
    x = Voxel() if late else Voxel(**cp)
    if late:
        for k, v in cp.items():
            setattr(x, k, v)
    want = (np.eye(3) if b is None else B) * m
    w = f"voxel with {sorted(par)}, scale as {sn}"
    ch.check(np.allclose(x.sbases, want) and np.allclose(x.bases, np.eye(3) if b is None else B), lambda: f"{w}: bases {x.sbases}")
    ch.check(np.allclose(x.reciprocal_bases @ want, np.eye(3)), lambda: f"{w}: reciprocal bases")
    ch.check(np.allclose(x.origin, 0 if o is None else o), lambda: f"{w}: origin {x.origin}")
    box = A.prism((4, 7, 5), (3, -2, 1))
    lo, hi = x.get_extents(box.copy())
    u = (box - x.origin) @ np.linalg.inv(want).T
    ch.check(np.all(np.asarray(lo) <= u.min(0) + 1e-9) and np.all(np.asarray(hi) + 1 >= u.max(0) - 1e-9), lambda: f"{w}: extents {lo} {hi} do not cover the box")
    y = Voxel()
    ch.check(np.allclose(y.sbases, np.eye(3)) and np.allclose(y.origin, 0), lambda: f"{w}: a new voxel has other defaults: {y.sbases} {y.origin}")
    ch.op()
    ch.state((str(b), sn, str(o), late))


def body_post(ch):
    form = ch.choose("sequence as", ["list", "tuple", "iterator", "added", "added as iterator", "single", "nested", "none"])
    use = ch.choose("used", ["directly", "in a generator", "in a volume"])
    frac = ch.choose("fraction", [0., 1.])
    P = [ChemicalSubstitution([8], [16], frac), ArbitraryPostTransform(lambda p, s: (p + f(0, 0, .25), s)), ChemicalSubstitution((16, 22), (34, 40), 1)]
    mk = {"list": lambda: PostSequence(list(P)), "tuple": lambda: PostSequence(tuple(P)), "iterator": lambda: PostSequence(iter(P)), "single": lambda: PostSequence(P[0]),
          "nested": lambda: PostSequence([PostSequence(P[:1]), PostSequence(P[1:])]), "none": lambda: PostSequence(None)}
    if form in mk:
        s = mk[form]()
    else:
        s = PostSequence(None)
        for p in (P if form == "added" else [iter(P)]):
            s.add_transform(p)
    n = dict(single=1, none=0).get(form, 3)
    sub = {}
    if n:
        sub = {8: 16} if frac else {}
    if n == 3:
        sub = {8: 34 if frac else 8, 22: 40}
    dz = f(0, 0, .25 if n == 3 else 0)
    cell = A.Cell("tri")
    what = f"sequence as {form}, fraction {frac}, {use}"
    if use == "directly":
        p, z = s.apply_function(PTS.copy(), V([8, 22, 38, 8]))
        ch.check(np.allclose(p, PTS + dz) and np.array_equal(z, [sub.get(i, i) for i in (8, 22, 38, 8)]), lambda: f"{what}: {np.array(p).tolist()}, {z}")
    else:
        gen = cell.generator()
        gen.post_transform = s
        c = cell.crystal()
        c = ref.Crystal(c.B, c.frac, [sub.get(z, z) for z in c.Z], c.o + dz)
        if use == "in a volume":
            b = A.prism((6, 7, 5), (1, 2, 0))
            v = Volume(alg_objects=[Sphere(4., f(1, 2, 3))], generator=gen)
            v.populate_atoms()
            A.check_atoms(ch, v, A.RVol(None, [A.Surf("sphere", 4., (1, 2, 3))], c), what)
        else:
            p, z = gen.supply_atoms(A.prism((6, 7, 5), (1, 2, 0)))
            lo, hi = f(1.2, 2.2, .4), f(6.8, 8.8, 4.9)
            W, WZ = c.in_box(lo, hi)
            m = np.all((p > lo) & (p < hi), axis=1)
            r = ref.diff(p[m], V(z)[m], W, WZ)
            ch.check(r is None, lambda: f"{what}: {r}")
    ch.op()
    ch.state((form, use, frac))


HARNESSES = {
    "volumes": dict(body=body_volume, shard=4, bounds=f"constructor, step by step building and copies of {len(BASES)} volumes x all subsets of points, surfaces, generator, generator origin, priority, tolerance x {len(MOVES)} lists of transformations"),
    "groups": dict(body=body_group, shard=3, bounds=f"5 ways of giving 3 members x 3 nestings x 3 group priorities x 9 copy options x {len(MOVES)} lists of transformations"),
    "generators": dict(body=body_generator, shard=4, bounds=f"3 cells x 4 ways of building x origin x {len(STRAINS)} strains x 3 forms of the data x substitution x {len(MOVES)} copies"),
    "amorphous": dict(body=body_amorphous, shard=3, bounds=f"all subsets of 4 options x 3 histories x {len(MOVES)} copies"),
    "molecules": dict(body=body_molecule, shard=4, bounds=f"3 sources x 5 forms of elements x 4 of positions x {len(OF)} origins x orientation x priority x {len(MOVES)} copies"),
    "scenes": dict(body=body_scene, shard=3, bounds="4 bounds x all ordered selections of 3 objects x 6 ways of giving them"),
    "transformations": dict(body=body_transform, shard=3, bounds="6 classes x all flags x set at once or afterwards x all vector forms, on points, bases, volumes and generators"),
    "strains": dict(body=body_strain, shard=3, bounds="5 component counts x 5 forms x modes x origins"),
    "surfaces": dict(body=body_surface, shard=3, bounds=f"3 surfaces x all forms of both vectors x tolerance x {len(MOVES)} copies"),
    "voxels": dict(body=body_voxel, shard=2, bounds="all subsets of options x forms"),
    "substitutions": dict(body=body_post, shard=2, bounds="8 ways of building a sequence x 3 uses x 2 fractions"),
}
