"""All (build, mutate one side, observe the others) histories: scenarios build objects from arrays and other objects, every party has
a list of mutators (attributes, in-place edits of exposed arrays, operations); after every mutation every other party must
behave exactly as before.  Sequences of two mutations.  A second harness freezes all arguments of every operation."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Cell
from ase import Atoms
from pymatgen.core.structure import Molecule as PmgMolecule
from czone.generator import Generator, AmorphousGenerator, NullGenerator
from czone.molecule import Molecule
from czone.prefab import fccMixedTwinSF, fccTwin, fccStackingFault, wurtziteStackingFault, WulffSingle
from czone.transform import (Translation, Rotation, Reflection, Inversion, MatrixTransform, MultiTransform, rot_v, s2s_alignment,
                             HStrain, IStrain, BaseTransform, BaseStrain, ChemicalSubstitution)
from czone.volume import (Volume, MultiVolume, Plane, Sphere, Cylinder, BaseAlgebraic, makeRectPrism, snap_plane_near_point,
                          convex_hull_to_planes, get_bounding_box)
from czone.scene import Scene
from czone.util.measure import calc_rdf, get_sdist_fun

PROPERTY = "C14"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["groups, scenes and sequences hold their members themselves; a generator holds its pymatgen structure and strain by reference"]
PRISM = alpha.prism((5, 4, 4), (-2, -2, -1))
G = np.linspace(-4.1, 5.2, 5)
PROBE = np.array([[x, y + .13, z - .21] for x in G for y in G for z in G])
BOX = np.array([[-3, -2.5, -4], [3.5, 4, 2.]])


# ---------------------------------------------------------------- observers
def observe(o):
    """observable behaviour as a list of arrays"""
    if isinstance(o, np.ndarray):
        return [o.copy()]
    if isinstance(o, list):
        return [np.array([float(np.sum(x)) if not isinstance(x, (BaseAlgebraic, BaseTransform, Volume, MultiVolume)) else 0. for x in o] + [len(o)])]
    if isinstance(o, Sphere):
        return [np.array(o.checkIfInterior(PROBE)), np.array(o.center), np.array([o.radius, o.tol])]
    if isinstance(o, Plane):
        return [np.array(o.checkIfInterior(PROBE)), np.array(o.normal), np.array(o.point), np.array([o.tol])]
    if isinstance(o, Cylinder):
        return [np.array(o.checkIfInterior(PROBE)), np.array(o.axis), np.array(o.point), np.array([o.radius, o.length, o.tol])]
    if isinstance(o, Generator):
        return list(canon(*o.supply_atoms(BOX))) + [np.array(o.origin)]
    if isinstance(o, AmorphousGenerator):
        old = o.old_result
        return [np.array(o.origin, float) if o.origin is not None else np.zeros(0), np.array([o.species, o.density, o.min_dist, float(o.use_old_result)])] + \
            ([np.array(old[0]), np.array(old[1])] if old is not None else [])
    if isinstance(o, Volume):
        out = [np.array(o.checkIfInterior(PROBE)), np.array([o.priority, o.tolerance, len(o.alg_objects)])]
        out += [np.array(o.points)] if o.points is not None else []
        if isinstance(o.generator, Generator):
            o.populate_atoms()
            out += canon(o.atoms, o.species)
        return out
    if isinstance(o, MultiVolume):
        out = [np.array(o.checkIfInterior(PROBE)), np.array([o.priority, len(o.volumes)])]
        o.populate_atoms()
        return out + list(canon(o.atoms, o.species))
    if isinstance(o, Molecule):
        return [np.array(o.atoms), np.array(o.species), np.array(o.origin), np.array(o.orientation), np.array([o.priority])]
    if isinstance(o, MultiTransform):
        return [np.array(o.applyTransformation(PROBE.copy())), np.array([len(o.transforms)])]
    if isinstance(o, BaseTransform):
        return [np.array(o.applyTransformation(PROBE.copy())), np.array(o.applyTransformation_bases(np.eye(3))), np.array([o.locked, o.basis_only])]
    if isinstance(o, HStrain):
        return [np.array(o.matrix)] + ([np.array(o.origin)] if o.origin_type != "generator" else [])
    if isinstance(o, Atoms):
        return [o.get_positions(), o.get_atomic_numbers()]
    if isinstance(o, PmgMolecule):
        return [np.array(o.cart_coords), np.array([s.number for s in o.species])]
    raise TypeError(type(o))


def canon(p, z):
    p, z = np.asarray(p, float), np.asarray(z, float)
    a = np.round(np.c_[p, z], 6) + 0.
    return (a[np.lexsort(a.T)],)


def same(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.allclose(np.asarray(x, float), np.asarray(y, float), atol=2e-6) for x, y in zip(a, b))


# ---------------------------------------------------------------- mutators
def inplace(get):
    def f(o):
        a = get(o)
        if a is not None and isinstance(a, np.ndarray) and a.flags.writeable:
            a += np.array(1, a.dtype) if a.dtype.kind in "iu" else .61
    return f


def _post(o):
    o.post_transform = ChemicalSubstitution([o.species[0]], [77], 1.0)


def _strain(o):
    o.strain_field = HStrain(matrix=[1.2, .9, 1.1])


def _strain_edit(o):
    if o.strain_field is None:
        return _strain(o)
    o.strain_field.matrix = [.7, 1.1, 1.3]


TR = Translation(np.array([.9, -.4, .7]))
RO = Rotation(matrix=rot_v(np.array([1., 2, 3]), .8), origin=np.array([1., 0, 0]))


def mutators(o):
    m = {}
    if isinstance(o, np.ndarray):
        m["in place"] = inplace(lambda x: x)
        m["scaled"] = lambda x: np.multiply(x, 3, out=x)
    elif isinstance(o, list):
        m["cleared"] = lambda x: x.clear()
        m["first element dropped"] = lambda x: x.pop(0)
        m["doubled"] = lambda x: x.extend(x[:1])
    elif isinstance(o, BaseAlgebraic):
        m["tol"] = lambda x: setattr(x, "tol", 1.3)
        m["moved"] = lambda x: TR.applyTransformation_alg(x)
        m["rotated"] = lambda x: RO.applyTransformation_alg(x)
        if isinstance(o, Sphere):
            m["radius"] = lambda x: setattr(x, "radius", x.radius * .5)
            m["center"] = lambda x: setattr(x, "center", np.array([2., 2, 2]))
            m["center in place"] = inplace(lambda x: x.center)
        elif isinstance(o, Plane):
            m["flip"] = lambda x: x.flip_orientation()
            m["normal in place"] = inplace(lambda x: x.normal)
            m["point in place"] = inplace(lambda x: x.point)
        else:
            m["axis in place"] = inplace(lambda x: x.axis)
            m["point in place"] = inplace(lambda x: x.point)
            m["radius"] = lambda x: setattr(x, "radius", x.radius * .5)
            m["length"] = lambda x: setattr(x, "length", x.length * .5)
    elif isinstance(o, Generator):
        m["moved"] = lambda x: x.transform(TR)
        m["rotated"] = lambda x: x.transform(RO)
        m["origin set"] = lambda x: setattr(x, "origin", np.array([.3, .3, .3]))
        m["origin in place"] = inplace(lambda x: x.origin)
        m["bases in place"] = inplace(lambda x: x.voxel.bases)
        m["scale"] = lambda x: setattr(x.voxel, "scale", 1.3)
        m["strained"] = _strain
        m["strain edited"] = _strain_edit
        m["post"] = _post
    elif isinstance(o, AmorphousGenerator):
        m["moved"] = lambda x: x.transform(TR)
        m["species"] = lambda x: setattr(x, "species", 14)
        m["density"] = lambda x: setattr(x, "density", .05)
        m["reuse"] = lambda x: setattr(x, "use_old_result", not x.use_old_result)
        m["origin in place"] = inplace(lambda x: x.origin)
        m["result in place"] = inplace(lambda x: x.old_result[0] if x.old_result is not None else None)
        m["supplied"] = lambda x: x.supply_atoms(np.array([[0, 0, 0], [6., 6, 6]]))
    elif isinstance(o, Volume):
        m["moved"] = lambda x: x.transform(TR)
        m["boundary rotated"] = lambda x: x.transform(Rotation(matrix=RO.matrix, locked=False))
        m["surface added"] = lambda x: x.add_alg_object(Plane([0, 1, 1], [0, 0, .2]))
        m["surface edited"] = lambda x: [setattr(s, "tol", 1.1) for s in x.alg_objects]
        m["surface moved"] = lambda x: [TR.applyTransformation_alg(s) for s in x.alg_objects]
        m["surfaces dropped"] = lambda x: x.alg_objects.clear()
        m["points added"] = lambda x: x.addPoints(PRISM * 1.7 + 1)
        m["points replaced"] = lambda x: setattr(x, "points", PRISM * .6)
        m["points in place"] = inplace(lambda x: x.points)
        m["priority"] = lambda x: setattr(x, "priority", x.priority + 5)
        m["tolerance"] = lambda x: setattr(x, "tolerance", .7)
        m["populated"] = lambda x: x.populate_atoms() if x.generator is not None else None
        m["atoms in place"] = lambda x: (x.populate_atoms(), inplace(lambda y: y.atoms)(x)) if x.generator is not None else None
        m["other generator"] = lambda x: x.add_generator(Cell("rho").generator(), origin=np.array([1., 1, 1]))
        if isinstance(o.generator, Generator):
            for k, f in mutators(o.generator).items():
                m["generator " + k] = (lambda f: lambda x: f(x.generator))(f)
    elif isinstance(o, MultiVolume):
        m["moved"] = lambda x: x.transform(TR)
        m["member moved"] = lambda x: x.volumes[0].transform(RO)
        m["member dropped"] = lambda x: x.volumes.pop(0)
        m["member priorities"] = lambda x: [setattr(v, "priority", 9 - i) for i, v in enumerate(x.volumes)]
        m["member surfaces"] = lambda x: [setattr(s, "tol", 1.1) for v in x.volumes for s in getattr(v, "alg_objects", [])]
        m["member generators"] = lambda x: [v.generator.transform(RO) for v in x.volumes if getattr(v, "generator", None) is not None]
        m["member generator bases"] = lambda x: [inplace(lambda v: v.generator.voxel.bases)(v) for v in x.volumes if getattr(v, "generator", None) is not None]
        m["volume added"] = lambda x: x.add_volume(Volume(points=PRISM * 1.3, generator=Cell("cub").generator()))
        m["priority"] = lambda x: setattr(x, "priority", 8)
        m["populated"] = lambda x: x.populate_atoms()
    elif isinstance(o, Molecule):
        m["moved"] = lambda x: x.transform(TR)
        m["positions"] = lambda x: x.update_positions(x.atoms * 2)
        m["species"] = lambda x: x.update_species(x.species + 1)
        m["removed"] = lambda x: x.remove_atoms([len(x.atoms) - 1], new_origin_idx=0)
        m["origin point"] = lambda x: x.set_origin(point=np.array([9., 9, 9]))
        m["origin atom"] = lambda x: x.set_origin(idx=0)
        m["orientation"] = lambda x: setattr(x, "orientation", RO.matrix.copy())
        m["priority"] = lambda x: setattr(x, "priority", 4)
        for a in ("atoms", "species", "orientation", "origin"):
            m[a + " in place"] = inplace((lambda a: lambda x: getattr(x, a))(a))
    elif isinstance(o, MultiTransform):
        m["grown"] = lambda x: x.add_transform(TR)
    elif isinstance(o, BaseTransform):
        m["locked"] = lambda x: setattr(x, "locked", not x.locked)
        m["basis only"] = lambda x: setattr(x, "basis_only", not x.basis_only)
        if isinstance(o, Translation):
            m["shift"] = lambda x: setattr(x, "shift", np.array([5., 5, 5]))
            m["shift in place"] = inplace(lambda x: x.shift)
        else:
            m["origin"] = lambda x: setattr(x, "origin", np.array([5., 5, 5]))
            m["origin in place"] = inplace(lambda x: x.origin)
            m["matrix in place"] = inplace(lambda x: x.matrix)
    elif isinstance(o, HStrain):
        m["matrix"] = lambda x: setattr(x, "matrix", [2, 1, 1.5])
        m["matrix in place"] = inplace(lambda x: x.matrix)
        m["mode"] = lambda x: setattr(x, "mode", "standard")
        m["origin in place"] = inplace(lambda x: x.origin)
    elif isinstance(o, Atoms):
        m["positions"] = lambda x: x.translate([1, 2, 3])
        m["positions in place"] = inplace(lambda x: x.positions)
        m["numbers"] = lambda x: x.set_atomic_numbers(x.get_atomic_numbers() + 1)
    elif isinstance(o, PmgMolecule):
        m["translated"] = lambda x: x.translate_sites(vector=[1, 2, 3])
    return m


# ---------------------------------------------------------------- scenarios: name -> (parties, linked pairs)
def surfs():
    return dict(sphere=Sphere(3.0, np.array([.5, 0, .2])), plane=Plane(np.array([1., 1, 0]), np.array([1., .5, 0])),
                cylinder=Cylinder(np.array([0, .2, 1.]), np.array([.1, 0, 0]), 2.4, 5.))


def crystal(**kw):
    return Cell("tri").generator(origin=np.array([.3, -.2, .5]), **kw)


def s_volume():
    pts, s, g, o = PRISM.copy(), surfs(), crystal(), np.array([.1, .2, .3])
    v = Volume(points=pts, alg_objects=list(s.values()), generator=g, gen_origin=o, priority=2)
    return dict(volume=v, points=pts, generator=g, origin=o, **s), set()


def s_volume_list():
    s, g = surfs(), crystal(strain_field=HStrain(matrix=[1.05, 1, .97]))
    lst = list(s.values())
    v = Volume(alg_objects=lst, generator=g)
    w = Volume(alg_objects=lst, generator=g)
    return dict(volume=v, other=w, list=lst, generator=g), set()


def s_volume_steps():
    s, g = surfs(), crystal()
    pts, more, repl, o = PRISM.copy(), np.array([[4., 3, 3], [-3, 0, 0]]), PRISM * 1.1, np.array([.4, .4, .4])
    v = Volume()
    v.addPoints(pts)
    v.addPoints(more)
    w = Volume()
    w.points = repl
    for x in s.values():
        v.add_alg_object(x)
        w.add_alg_object(x)
    v.add_generator(g, origin=o)
    w.add_generator(g)
    return dict(volume=v, other=w, points=pts, more=more, replaced=repl, generator=g, origin=o, sphere=s["sphere"]), set()


def s_copy_volume():
    v = Volume(points=PRISM.copy(), alg_objects=list(surfs().values()), generator=crystal(strain_field=HStrain(matrix=[1.05, 1, .97])), priority=1)
    v.populate_atoms()
    return dict(volume=v, copy=v.from_volume(), moved=v.from_volume(transformation=[TR, RO])), set()


def s_copy_replace():
    v = Volume(points=PRISM.copy(), alg_objects=list(surfs().values()), generator=crystal(), priority=1)
    g2, p2, s2 = Cell("cub").generator(), PRISM * .9, [Sphere(2.2, np.array([0, 0, 0.]))]
    return dict(volume=v, regenerated=v.from_volume(generator=g2), repointed=v.from_volume(points=p2, priority=7), resurfaced=v.from_volume(alg_objects=s2),
                generator=g2, points=p2, surface=s2[0]), set()


def s_copy_group():
    a = Volume(points=PRISM.copy(), generator=crystal(), priority=1)
    b = Volume(alg_objects=[surfs()["sphere"]], generator=Cell("cub").generator())
    c = Volume(alg_objects=[surfs()["cylinder"]], generator=Cell("hex").generator())
    mv = MultiVolume([a, MultiVolume([b, c], priority=1)], priority=3)
    return dict(group=mv, copy=mv.from_volume(), moved=mv.from_volume(transformation=[RO])), set()


def s_copy_group_generator():
    a = Volume(points=PRISM.copy(), generator=crystal(), priority=1)
    b = Volume(alg_objects=[surfs()["sphere"]], generator=Cell("cub").generator())
    mv = MultiVolume([a, b])
    g = Cell("hex").generator()
    n = mv.from_volume(generator=g)
    return dict(first=n.volumes[0], second=n.volumes[1], generator=g, a=a, b=b), set()


def s_copy_generator():
    hs = HStrain(matrix=np.array([1.05, 1, .97]), origin=np.array([1., 0, 0]))
    g = crystal()
    g.strain_field = hs
    g.post_transform = ChemicalSubstitution([8], [9], 1.0)
    return dict(generator=g, copy=g.from_generator(), moved=g.from_generator(transformation=[TR, RO]), strain=hs), {("generator", "strain"), ("strain", "generator")}


def s_generator_inputs():
    Z, frac, o = [8, 22], np.array([[.1, .2, .3], [.6, .7, .2]]), np.array([.5, .4, .3])
    g = Generator.from_unit_cell(Z, frac, (3, 4, 5), (80, 95, 100), origin=o)
    h = Generator.from_spacegroup([11, 17], np.array([[0, 0, 0], [.5, .5, .5]]), [5.6] * 3, [90] * 3, sgn=225, origin=o)
    k = crystal()
    k.origin = o
    return dict(generator=g, other=h, third=k, coords=frac, origin=o, Z=Z), set()


def s_generator_defaults():
    """generators and volumes built with defaults share nothing"""
    a, b = Cell("cub").generator(), Cell("cub").generator()
    v, w = Volume(generator=a, points=PRISM.copy()), Volume(generator=b, points=PRISM.copy())
    x, y = Volume(), Volume()
    return dict(a=a, b=b, v=v, w=w, x=x, y=y), set()


def s_shared_structure():
    """two generators from the same structure: moving one leaves the other"""
    g = crystal()
    h = Generator(structure=g.structure, origin=np.array([1., 1, 1]))
    return dict(g=g, h=h), set()


def s_copy_surfaces():
    s = surfs()
    out = dict(s)
    for k, x in s.items():
        out[k + " copy"] = x.from_alg_object()
        out[k + " moved"] = x.from_alg_object(transformation=[TR, RO])
    return out, set()


def s_surface_inputs():
    c, n, p, a, q = (np.array(v, float) for v in ([.5, 0, 0], [1, 2, 0], [.1, .2, .3], [0, 1, 1], [.2, 0, 0]))
    return dict(sphere=Sphere(2.5, c), plane=Plane(n, p), cylinder=Cylinder(a, q, 2., 4.), other=Plane(n, p), c=c, n=n, p=p, a=a, q=q), set()


def s_molecule():
    Z, pos, o, R = np.array([8, 1, 6]), np.array([[0, 0, 0], [1, 0, .2], [0, 1.5, 0]]), np.array([.2, .1, 0]), RO.matrix.copy()
    m = Molecule(Z, pos, origin=o, orientation=R)
    n = Molecule(Z, pos, origin=1)
    return dict(molecule=m, other=n, copy=m.from_molecule(), moved=n.from_molecule(transformation=[TR]), Z=Z, positions=pos, origin=o, orientation=R), set()


def s_molecule_sources():
    a = Atoms(numbers=[8, 1, 6], positions=[[0, 0, 0], [1, 0, .2], [0, 1.5, 0]])
    p = PmgMolecule(["O", "H", "C"], [[0, 0, 0], [1, 0, .2], [0, 1.5, 0]])
    m, n = Molecule.from_ase_atoms(a), Molecule.from_pmg_molecule(p)
    return dict(ase=a, pmg=p, molecule=m, other=n, view=m.ase_atoms, ), set()


def s_molecule_updates():
    m = Molecule([8, 1, 6], [[0, 0, 0], [1, 0, .2], [0, 1.5, 0]])
    pos, Z, o, R = np.array([[0, 0, 1.], [1, 0, .2], [0, 1.5, 2]]), np.array([3, 4, 5]), np.array([1., 2, 3]), RO.matrix.copy()
    m.update_positions(pos)
    m.update_species(Z)
    m.set_origin(point=o)
    m.orientation = R
    n = Molecule([1, 1, 1], np.zeros((3, 3)))
    n.set_atoms(Z, pos)
    return dict(molecule=m, other=n, positions=pos, Z=Z, origin=o, orientation=R), set()


def s_transforms():
    sh, M, o, R = np.array([1., 2, 3]), np.array([[1, .2, 0], [0, 1, 0], [0, .1, 1.]]), np.array([.5, .5, 0]), RO.matrix.copy()
    pl = Plane([1, 0, 1], [0, 0, 1.])
    return dict(translation=Translation(sh), matrix=MatrixTransform(M, origin=o), rotation=Rotation(matrix=R, origin=o), reflection=Reflection(pl), inversion=Inversion(origin=o),
                sh=sh, M=M, o=o, R=R, plane=pl), set()


def s_sequence():
    lst = [TR, RO]
    m = MultiTransform(lst)
    n = MultiTransform()
    n.add_transform(lst)
    return dict(sequence=m, other=n, list=lst), set()


def s_transformed():
    """targets keep nothing of the transformation applied to them"""
    t, r = Translation(np.array([.5, .1, .2])), Rotation(matrix=RO.matrix.copy(), origin=np.array([.3, 0, 0]))
    v = Volume(points=PRISM.copy(), alg_objects=list(surfs().values()), generator=crystal())
    m = Molecule([8, 1, 6], [[0, 0, 0], [1, 0, .2], [0, 1.5, 0]])
    g = crystal()
    s = surfs()
    for x in (t, r):
        v.transform(x), m.transform(x), g.transform(x)
        for k in s:
            s[k] = x.applyTransformation_alg(s[k])
    return dict(translation=t, rotation=r, volume=v, molecule=m, generator=g, **s), set()


def s_strain():
    M, o = np.array([[1.1, .1, 0], [0, 1, 0], [0, 0, .9]]), np.array([1., 2, 3])
    a, b = HStrain(matrix=M, origin=o), HStrain(matrix=M, origin=o, mode="standard")
    c, d = HStrain(), HStrain()
    return dict(a=a, b=b, c=c, d=d, M=M, o=o), set()


def s_scene_inputs():
    b = np.array([[0, 0, 0], [5., 6, 7]])
    v = Volume(points=PRISM.copy(), generator=crystal())
    lst = [v]
    sc = Scene(bounds=b, objects=lst)
    view = [None]

    class View(np.ndarray):
        pass
    sc.populate()
    return dict(scene=SceneProbe(sc), bounds=b, list=lst), set()


class SceneProbe(Atoms):
    """observes a scene through its ASE view at any time"""

    def __init__(self, sc):
        super().__init__()
        self.sc = sc

    def get_positions(self, *a, **k):
        self.sc.populate()
        return np.vstack([self.sc.all_atoms, self.sc.bounds])

    def get_atomic_numbers(self):
        return np.array(self.sc.all_species)

    @property
    def positions(self):
        return self.sc.ase_atoms.positions

    def translate(self, d):
        self.sc.ase_atoms.translate(d)

    def set_atomic_numbers(self, z):
        self.sc.ase_atoms.set_atomic_numbers(z)


def s_exports():
    v = Volume(points=PRISM.copy(), generator=crystal())
    v.populate_atoms()
    mv = MultiVolume([v.from_volume()])
    mv.populate_atoms()
    return dict(volume=v, atoms=v.ase_atoms, group=mv, group_atoms=mv.ase_atoms), set()


def s_amorphous():
    o = np.array([1., 2, 3])
    g = AmorphousGenerator(origin=o, density=.03)
    with env.quiet():
        g.supply_atoms(np.array([[0, 0, 0], [5., 5, 5]]))
    g.use_old_result = True
    v = Volume(points=PRISM.copy(), generator=g)
    return dict(generator=g, copy=g.from_generator(), owned=v.generator, origin=o), set()


def fcc():
    return Generator.from_spacegroup([29], np.array([[0, 0, 0]]), [3.6] * 3, [90] * 3, sgn=225)


def s_prefab_fcc():
    g = fcc()
    v = Volume(points=makeRectPrism(14, 14, 16) - 7, alg_objects=[Sphere(11., np.zeros(3))], generator=g)
    mv = fccMixedTwinSF(g, v, ratio=.5, N=2, min_sep=1).build_object()
    return dict(structure=mv, volume=v, generator=g), set()


def s_prefab_fcc_points():
    """a volume of points alone which already owns the generator; counts 0 and 1; both kinds"""
    g = fcc()
    v = Volume(points=makeRectPrism(14, 14, 16) - 7, generator=g)
    was = observe(v)
    out = {f"{c.__name__} {n}": c(generator=v.generator if n else g, volume=v, N=n, min_sep=1).build_object() for c, n in ((fccTwin, 1), (fccStackingFault, 1), (fccMixedTwinSF, 0))}
    assert same(was, observe(v)), "the volume was changed by building"
    return dict(volume=v, generator=g, **out), set()


def s_prefab_fcc_surfaces():
    """a volume of surfaces alone, without generator"""
    g = fcc()
    s = Sphere(8., np.zeros(3))
    v = Volume(alg_objects=[s, Plane([1, 0, 0], [4., 0, 0])])
    pf = fccMixedTwinSF(g, v, ratio=.5, N=1)
    return dict(first=pf.build_object(), second=pf.build_object(), generator=g), set()


def s_prefab_wurtzite_points():
    g = Generator.from_spacegroup([30, 16], np.array([[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, .375]]), [3.8, 3.8, 6.2], [90, 90, 120], sgn=186)
    v = Volume(points=makeRectPrism(8, 8, 22) - 4, generator=g, priority=4)
    was = observe(v)
    a, b = (wurtziteStackingFault(generator=v.generator, volume=v, N=n, min_sep=1).build_object() for n in (0, 1))
    assert same(was, observe(v)), "the volume was changed by building"
    return dict(none=a, one=b, volume=v, generator=g), set()


def s_prefab_wurtzite():
    g = Generator.from_spacegroup([30, 16], np.array([[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, .375]]), [3.8, 3.8, 6.2], [90, 90, 120], sgn=186)
    v = Volume(points=makeRectPrism(8, 8, 22) - 4, generator=g)
    mv = wurtziteStackingFault(g, v, N=2, min_sep=1).build_object()
    return dict(structure=mv, volume=v, generator=g), set()


def s_prefab_wulff():
    g = fcc()
    w = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 1.1}, natoms=150)
    return dict(first=w.get_construction(), second=w.get_construction(), generator=g), set()


SCEN = [s_volume, s_volume_list, s_volume_steps, s_copy_volume, s_copy_replace, s_copy_group, s_copy_group_generator, s_copy_generator, s_generator_inputs,
        s_generator_defaults, s_shared_structure, s_copy_surfaces, s_surface_inputs, s_molecule, s_molecule_sources, s_molecule_updates, s_transforms,
        s_sequence, s_transformed, s_strain, s_scene_inputs, s_exports, s_amorphous, s_prefab_fcc, s_prefab_fcc_points, s_prefab_fcc_surfaces, s_prefab_wurtzite, s_prefab_wurtzite_points, s_prefab_wulff]
SLOW = {"s_transformed", "s_volume", "s_generator_inputs", "s_copy_replace", "s_copy_group_generator", "s_generator_defaults", "s_volume_steps", "s_prefab_fcc", "s_prefab_fcc_points", "s_prefab_fcc_surfaces", "s_prefab_wurtzite_points", "s_prefab_wurtzite", "s_prefab_wulff", "s_copy_group", "s_amorphous", "s_copy_volume"}


def baseline(ch, parties, skip=()):
    out = {}
    for k, o in parties.items():
        if k in skip:
            continue
        try:
            out[k] = observe(o)
        except Exception as e:
            out[k] = f"unobservable: {type(e).__name__}"
    return out


def mutate(ch, parties, i, first=True):
    who = ch.choose(f"party{i}", sorted(parties))
    m = mutators(parties[who])
    if not m:
        ch.prune()
    how = ch.choose(f"mutation{i}", sorted(m))
    try:
        m[how](parties[who])
    except Exception:
        pass            # a rejected or ill-formed mutation is only interesting for what it does to the others
    return who, how


def body(ch):
    sc = ch.choose("scenario", SCEN)
    parties, links = sc()
    base = baseline(ch, parties)
    bad = [k for k, v in base.items() if isinstance(v, str)]
    ch.check(not bad, lambda: f"{bad}: {[base[k] for k in bad]}")
    hist = []
    depth = 2 if (THOROUGH or sc.__name__ not in SLOW) else 1
    broken = set()
    for i in range(depth):
        who, how = mutate(ch, parties, i)
        hist.append((who, how))
        ch.op()
        new = baseline(ch, parties)
        for k in parties:
            if k == who or (who, k) in links:
                continue
            ch.check(isinstance(new[k], str) and new[k] == base[k] or not isinstance(new[k], str) and not isinstance(base[k], str) and same(new[k], base[k]),
                     lambda: f"{sc.__name__[2:]}: after {hist}, {k} changed")
        base = new
    ch.outcome((sc.__name__, tuple(hist)))


# ---------------------------------------------------------------- operations do not modify their arguments
def _ops():
    v = lambda: Volume(points=PRISM.copy(), alg_objects=list(surfs().values()), generator=crystal())
    mv = lambda: MultiVolume([v(), Volume(alg_objects=[surfs()["sphere"]], generator=Cell("cub").generator())])
    P = lambda: PROBE.copy()
    pts = lambda: np.array([[0, 0, 0], [4, 0, 0], [0, 5, 0], [0, 0, 6], [3, 3, 3.]])
    tr = lambda: dict(t=Translation(np.array([1., 2, 3])), r=Rotation(matrix=RO.matrix.copy(), origin=np.array([1., 0, 0])), f=Reflection(Plane([1, 0, 1], [0, 0, 1.])),
                      i=Inversion(origin=np.array([1., 1, 0])), m=MatrixTransform(np.array([[1, .2, 0], [0, 1, 0], [0, .1, 1.]])))
    seq = lambda: MultiTransform(list(tr().values()))
    O = {}
    O["interior of volume"] = (lambda v, p: v.checkIfInterior(p), v, P)
    O["interior of group"] = (lambda v, p: v.checkIfInterior(p), mv, P)
    for k in ("sphere", "plane", "cylinder"):
        O["interior of " + k] = (lambda s, p: s.checkIfInterior(p), (lambda k: lambda: surfs()[k])(k), P)
    O["supply"] = (lambda g, b: g.supply_atoms(b), crystal, lambda: BOX.copy())
    O["supply strained"] = (lambda g, b: g.supply_atoms(b), lambda: crystal(strain_field=HStrain(matrix=[1.1, .9, 1])), lambda: BOX.copy())
    O["supply amorphous"] = (lambda g, b: g.supply_atoms(b) and None, lambda: Frozen(AmorphousGenerator(density=.02)), lambda: BOX.copy())
    for k in "trfim":
        O["points by " + k] = (lambda t, p: t.applyTransformation(p), (lambda k: lambda: tr()[k])(k), P)
        O["bases by " + k] = (lambda t, p: t.applyTransformation_bases(p), (lambda k: lambda: tr()[k])(k), lambda: np.diag([1., 2, 3]))
        O["volume by " + k] = (lambda t: v().transform(t), (lambda k: lambda: tr()[k])(k))
        O["molecule by " + k] = (lambda t: Molecule([1, 2], [[0, 0, 0], [1., 1, 1]]).transform(t), (lambda k: lambda: tr()[k])(k))
        O["generator by " + k] = (lambda t: crystal().transform(t), (lambda k: lambda: tr()[k])(k))
        O["copy of surfaces by " + k] = (lambda t, s: s.from_alg_object(transformation=[t]), (lambda k: lambda: tr()[k])(k), lambda: surfs()["cylinder"])
    O["points by sequence"] = (lambda t, p: t.applyTransformation(p), seq, P)
    O["volume by sequence"] = (lambda t: v().transform(t), seq)
    O["snap"] = (lambda p, g: snap_plane_near_point(p, g, (1, -1, 2)), lambda: np.array([1., 2, 3]), crystal)
    O["align"] = (lambda a, b, p, q: s2s_alignment(a, b, p, q), lambda: Plane([1, 0, 1], [0, 0, 1.]), lambda: Plane([0, 1, 1], [0, 3, 1.]), lambda: np.array([1., 2, 3]), lambda: np.array([4., 2, 3]))
    O["hull to planes"] = (lambda p: convex_hull_to_planes(p), pts)
    O["bounding box"] = (lambda l, a, b: get_bounding_box([a, b] + l), lambda: [Plane(n, [0, 0, 0]) for n in ([-1, 0, 0], [0, -1, 0], [0, 0, -1])], lambda: Plane([1, 1, 1], [2., 2, 2]), lambda: Plane([1, 0, 0], [3., 2, 2]))
    O["project"] = (lambda a, p: a.project_point(p), lambda: Plane([1, 0, 1], [0, 0, 1.]), P)
    O["squared distances"] = (lambda a, b, d: get_sdist_fun(d, px=True, pz=True)(a, b), lambda: P()[:9, :, None], lambda: P()[:9, :, None] + .3, lambda: np.array([20., 21, 22]))
    O["rdf"] = (lambda p: calc_rdf(p, cutoff=3.0), lambda: P())
    O["set volume points"] = (lambda p: setattr(v(), "points", p), pts)
    O["hstrain apply"] = (lambda s, p: s.apply_strain(p), lambda: HStrain(matrix=[1.1, 1, .9], mode="standard", origin=np.array([1., 0, 0])), P)
    O["substitute"] = (lambda p, z: ChemicalSubstitution([1, 2], [2, 1], .5).apply_function(p, z), P, lambda: np.arange(len(PROBE)) % 4)
    O["scene"] = (lambda a, b: Scene(objects=[a, b]).populate(), v, mv)
    O["remove"] = (lambda i: Molecule([1, 2, 3], np.eye(3)).remove_atoms(i), lambda: np.array([0, 2]))
    return O


class Frozen(AmorphousGenerator):
    """an amorphous generator observed without its own history (which supplying legitimately changes)"""

    def __init__(self, g):
        super().__init__(density=.02)


OPS = _ops()


def body_args(ch):
    name = ch.choose("operation", sorted(OPS))
    f, *mk = OPS[name]
    args = [m() for m in mk]
    skip = [i for i, a in enumerate(args) if isinstance(a, Frozen)]
    before = [observe(a) if i not in skip else None for i, a in enumerate(args)]
    for i in range(2):
        ch.op()
        with env.quiet():
            f(*args)
        for k, a in enumerate(args):
            if k not in skip:
                ch.check(same(observe(a), before[k]), f"{name} modified argument {k}")


HARNESSES = {
    "aliasing": dict(body=body, shard=2, bounds=f"{len(SCEN)} scenarios x all sequences of 2 mutations (1 for {len(SLOW)} slow scenarios in quick) of any party"),
    "arguments": dict(body=body_args, shard=1, bounds=f"{len(OPS)} operations x every argument, applied twice"),
}
