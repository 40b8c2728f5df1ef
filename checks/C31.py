"""All short histories of setting (accepted and refused values, in every order, with uses in between) on every class with settings:
afterwards the object behaves exactly as one built anew with the accepted values, and its getters report them."""
import os
import itertools
import numpy as np
from mc import env, ref, core
from mc import alpha as A
from czone.generator import Generator, AmorphousGenerator
from czone.molecule import Molecule
from czone.prefab import fccMixedTwinSF, fccStackingFault, fccTwin, wurtziteStackingFault
from czone.prefab.wulff import WulffSingle
from czone.scene import Scene
from czone.transform import (Translation, MatrixTransform, Rotation, Reflection, Inversion, HStrain, IStrain, MultiTransform)
from czone.transform.post import ChemicalSubstitution, ArbitraryPostTransform, PostSequence
from czone.util.measure import calc_rdf, get_sdist_fun, get_voxel_grid
from czone.volume import Volume, MultiVolume, Plane, Sphere, Cylinder, Voxel, makeRectPrism

PROPERTY = "C31"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["a structure given to a generator resets its orientation but keeps its origin (documented in the code); strains with a fixed origin keep it",
               "the global random generator is put in the same state before the two objects compared are used"]
g = np.linspace(-3.2, 3.9, 7)
PROBE = np.array([[x, .97 * y + .05, 1.03 * z - .1] for x in g for y in g for z in g] + [[40, 1, 2], [-30.5, 80, 2], [9.8, 10.1, 10.2]])
PTS = np.array([[0, 0, 0], [1.2, -3, .4], [60, -70, 33.3], [-.2, .1, 5]])
BOX = A.prism((4.1, 5.2, 3.7), (-1.3, .4, 1.1))
arr = np.array


def f(*v):
    return np.array(v, float)


class Subject:
    """sets: {attribute: (accepted value factories, refused value factories)}; build(values) -> object; observe(object) -> [arrays]"""

    def __init__(self, build, observe, sets, setter=None, effect=None, getters=True, base=None):
        self.build, self.observe, self.sets = build, observe, sets
        self.setter = setter or (lambda o, k, v: setattr(o, k, v))
        self.effect = effect or (lambda vals, k, i: {**vals, k: i})
        self.getters = getters
        self.base = base or {}
        self.memo = {}

    def values(self, vals):
        return {k: (None if i is None else self.sets[k][0][i]()) for k, i in vals.items()}

    def fresh(self, vals):
        key = tuple(sorted((k, -1 if i is None else i) for k, i in vals.items()))
        if key not in self.memo:
            core.reset_rng()
            self.memo[key] = self.observe(self.build(**self.values(vals)))
        return self.memo[key]


def surfaces():
    return [Sphere(2., f(1, -1, .5)), Plane(f(1, 2, 0), f(.3, 0, 1)), Cylinder(f(0, 1, 1), f(1, 0, 0), 1.3, 4.)]


def o_alg(s):
    p = s.params
    p = p() if callable(p) else p
    return [*p, s.tol, s.checkIfInterior(PROBE.copy())] + ([s.get_bounding_box()] if isinstance(s, Cylinder) else []) + \
        ([s.sdist_from_plane(PROBE.copy()), s.project_point(PROBE.copy())] if isinstance(s, Plane) else [])


def o_transform(t):
    r = [bool(t.locked), bool(t.basis_only), t.applyTransformation(PTS.copy()), t.applyTransformation_bases(np.diag([2., 3, 4]) + .1)]
    for s in surfaces():
        r += o_alg(t.applyTransformation_alg(s))[:-2]
    gen = A.Cell("tri").generator(origin=f(.4, 1, -.2))
    v = Volume(points=BOX.copy(), generator=gen)
    v.transform(t)
    return r + [v.points, v.generator.origin, v.generator.voxel.bases]


def cloud(p, z):
    """atoms in an order of their own"""
    p, z = np.round(np.asarray(p, float), 7) + 0., np.asarray(z, float)
    i = np.lexsort((z, p[:, 2], p[:, 1], p[:, 0]))
    return [p[i], z[i]]


def o_gen(gn):
    r = [gn.origin, gn.voxel.sbases] if gn.voxel is not None else []
    if gn.structure is not None:
        core.reset_rng()
        r += cloud(*gn.supply_atoms(BOX.copy()))
    return r


def strain(k):
    return [lambda: HStrain([1.02, .97, 1.1]), lambda: HStrain([[1, .1, 0], [0, 1, 0], [.05, 0, .95]], mode="standard", origin=[1, 2, 0]),
            lambda: IStrain(fun=lambda x, **k: x + .02 * np.sin(x), mode="standard")][k]()


def post(k):
    return [lambda: ChemicalSubstitution([8], [16], .5), lambda: ArbitraryPostTransform(lambda p, s: (p + [0, 0, .1], s))][k]()


def structure(n):
    return A.Cell(n).generator().structure


def b_gen(structure=None, origin=None, strain_field=None, post_transform=None, voxel=None):
    gn = Generator(structure=structure, origin=origin, strain_field=strain_field)
    if voxel is not None and gn.voxel is None:
        gn.voxel = voxel
    elif voxel is not None:
        gn.voxel.bases, gn.voxel.scale = voxel.bases, voxel.scale
        if origin is None:
            gn.voxel.origin = voxel.origin
    if post_transform is not None:
        gn.post_transform = post_transform
    return gn


def e_gen(vals, k, i):
    vals = {**vals, k: i}
    if k == "structure":
        if vals.get("voxel") is not None and vals.get("origin") is None:
            vals["keep"] = vals["voxel"]       # the origin stays that of the voxel
        vals["voxel"] = None
    if k == "voxel":
        vals["origin"], vals["keep"] = None, None
    if k == "origin":
        vals["keep"] = None
    return vals


VOX = [lambda: Voxel(bases=np.diag([3., 3.5, 2.8]) + .2, scale=f(1.2), origin=f(1, 1, -2))]


def gen_values(self, vals):
    vals = dict(vals)
    keep = vals.pop("keep", None)
    out = {k: (None if i is None else self.sets[k][0][i]()) for k, i in vals.items()}
    if keep is not None:
        out["origin"] = VOX[keep]().origin
    return out


def o_amorph(a):
    core.reset_rng()
    p, z = a.supply_atoms(A.prism((6, 5, 7), (3, -20, 1)))
    return [p, z, a.density, a.min_dist, a.origin]


def b_attr(cls, *ctor, **fixed):
    def build(**v):
        o = cls(**{k: v[k] for k in ctor if v.get(k) is not None}, **fixed)
        for k in v:
            if k not in ctor and v[k] is not None:
                setattr(o, k, v[k])
        return o
    return build


def o_strain(s):
    gn = A.Cell("tri").generator(origin=f(.4, 1, -.2))
    gn.transform(Rotation(matrix=ref.rodrigues([1, 2, 0], .4)))
    gn.strain_field = s
    out = cloud(*gn.supply_atoms(BOX.copy()))
    gn2 = A.Cell("hex").generator(origin=f(5, 1, 0))
    gn2.strain_field = s                      # the same field on another generator
    return [s.mode, *out, *cloud(*gn2.supply_atoms(BOX.copy()))]


def o_subst(c):
    core.reset_rng()
    z = np.array([8, 22, 8, 38, 22, 8] * 20)
    p = np.arange(360.).reshape(120, 3)
    return [*c.apply_function(p, z, seed=5), *c.apply_function(p, z, seed=6)]


# ---------------------------------------------------------------- volumes
def b_vol(points=None, generator=None, tolerance=None, priority=None, radius=None, center=None, normal=None, gorigin=None):
    v = Volume(points=points, alg_objects=[Sphere(radius, center), Plane(normal, f(.2, .1, .3))], generator=generator, priority=priority, tolerance=tolerance)
    if gorigin is not None:
        v.generator.origin = gorigin
    return v


def s_vol(v, k, x):
    if k in ("radius", "center"):
        setattr(v.alg_objects[0], k, x)
    elif k == "normal":
        v.alg_objects[1].normal = x
    elif k == "generator":
        v.add_generator(x)
    elif k == "gorigin":
        v.generator.origin = x
    elif k == "surface":
        v.add_alg_object(x)
    elif k == "more":
        v.addPoints(x)
    else:
        setattr(v, k, x)


def e_vol(vals, k, i):
    vals = {**vals, k: i}
    if k == "generator":
        vals["gorigin"] = None
    return vals


def o_vol(v):
    v.populate_atoms()
    return [v.checkIfInterior(PROBE.copy()), v.priority, v.tolerance, v.points, *cloud(v.atoms, v.species), np.array(v.ase_atoms.positions).shape]


def b_multi(p0, p1, p2, own):
    vs = []
    for p, (c, r, z) in zip((p0, p1, p2), (((0, 0, 0), 3., "cscl"), ((2, 1, 0), 2.6, "cub"), ((-1, 2, 1), 2.2, "hex"))):
        vs.append(Volume(alg_objects=[Sphere(r, f(*c))], generator=A.Cell(z).generator(), priority=p))
    return MultiVolume([vs[0], MultiVolume([vs[1]], priority=p1), vs[2]], priority=own)


def s_multi(m, k, x):
    if k in ("p0", "p2"):
        by(m, k).priority = x
    elif k == "p1":
        by(m, k).priority = x
        by(m, k).volumes[0].priority = x
    elif k == "own":
        m.priority = x
    else:
        m.add_volume(x)


def by(m, k):
    """members may be reordered by populating: told apart by their sphere"""
    r = dict(p0=3., p1=2.6, p2=2.2)[k]
    for v in m.volumes:
        w = v.volumes[0] if isinstance(v, MultiVolume) else v
        if w.alg_objects[0].radius == r:
            return v


def o_multi(m):
    m.populate_atoms()
    return [m.priority, m.checkIfInterior(PROBE.copy()), *cloud(m.atoms, m.species), len(m.volumes)]


def b_scene(bounds, p0, p1, p2):
    m = b_multi(p0, p1, p2, 0)
    return Scene(bounds=bounds, objects=list(m.volumes))


def s_scene(s, k, x):
    if k == "bounds":
        s.bounds = x
    elif k == "object":
        s.add_object(x)
    else:
        s.volumes = s.objects
        s_multi(s, k, x)


def o_scene(s):
    s.populate()
    a = s.ase_atoms
    return [s.bounds, a.cell.array, *cloud(s.all_atoms, s.all_species), *cloud(a.positions, a.numbers), len(s.objects)]


# ---------------------------------------------------------------- prefabs
FCC = [[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]]
WZ = ((3.2, 3.2, 5.2), (90, 90, 120), [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .375], [2 / 3, 1 / 3, .875]], [30, 30, 8, 8])


def fcc(Z, a=4., R=None):
    gn = Generator.from_unit_cell([Z] * 4, arr(FCC), (a,) * 3, (90,) * 3)
    return gn.from_generator(transformation=[Rotation(matrix=R)]) if R is not None else gn


def wz(R=None):
    gn = Generator.from_unit_cell(WZ[3], arr(WZ[2]), *WZ[:2])
    return gn.from_generator(transformation=[Rotation(matrix=R)]) if R is not None else gn


R1 = ref.rodrigues([1, 2, 3], .7)


def o_prefab(p):
    core.reset_rng()
    v, kinds = p.build_object(return_defect_types=True)
    v.populate_atoms()
    return [*cloud(v.atoms, v.species), *([] if kinds is None else [np.ravel(kinds).astype(str)])]


def cube(s, c=(.3, .2, .1)):
    return Volume(points=A.prism((s,) * 3, c))


def o_wulff(w):
    v = w.get_construction()
    pl = arr([np.append(p.normal, p.normal @ p.point) for p in v.alg_objects])
    pl = pl[np.lexsort(np.round(pl, 6).T)]
    ar = w.get_areas()
    return [pl, *[x for k in sorted(ar) for x in (list(k), ar[k])], v.generator.voxel.sbases]


def o_mol(m):
    return [m.priority, m.atoms, m.species, m.origin, m.checkIfInterior(PTS)]


XYZ = arr([[0, 0, 0], [1.1, 0, 0], [0, 1.3, .2], [.3, .4, 2.]])


def s_mol(m, k, x):
    dict(positions=m.update_positions, species=m.update_species, origin=lambda p: m.set_origin(point=p), index=lambda i: m.set_origin(idx=i),
         remove=m.remove_atoms, priority=lambda p: setattr(m, "priority", p), atoms=lambda a: m.set_atoms(*a))[k](x)


def b_mol(positions, species, priority, origin=None):
    m = Molecule(species, positions)
    m.priority = priority
    if origin is not None:
        m.set_origin(point=origin)
    return m


def c(*xs):
    """factories giving a new value each time"""
    import copy
    return [lambda x=x: copy.deepcopy(x) for x in xs]


BOOL = (c(True, False), c("yes", 1, None))
SUBJECTS = {
    "sphere": Subject(b_attr(Sphere, "radius", "center", "tol"), o_alg, dict(
        radius=(c(2., .7, 31.5), c(0., -1., "r")), center=(c(f(0, 0, 0), [1.5, -2, .3], f(40, 3, 1)), c(f(1, 2), 5., f(1, 2, 3, 4))), tol=(c(1e-5, .3), c(0., -.1, "t")))),
    "plane": Subject(b_attr(Plane, "normal", "point", "tol"), o_alg, dict(
        normal=(c(f(0, 0, 1), [1, -2, 3], f(-70, 0, .5)), c(f(0, 0, 0), f(1, 2))), point=(c(f(0, 0, 0), [[1.5, -2, .3]], f(40, 3, 1)), c(f(1, 2))), tol=(c(1e-5, .3), c(0., -.1))), getters=False),
    "cylinder": Subject(b_attr(Cylinder, "axis", "point", "radius", "length", "tol"), o_alg, dict(
        axis=(c(f(0, 0, 1), [1, -2, 30]), c(f(0, 0, 0), f(1, 2))), point=(c(f(0, 0, 0), [1.5, -2, .3]), c(f(1, 2))), radius=(c(2., 31), c(0., -2., "r")),
        length=(c(3., 50), c(0, -4.)), tol=(c(1e-5, .3), c(0., -.1))), getters=False),
    "voxel": Subject(b_attr(Voxel, "bases", "scale", "origin"), lambda v: [v.sbases, v.reciprocal_bases, v.origin, *v.get_extents(BOX.copy())], dict(
        bases=(c(np.diag([3., 4, 5]), f([3, 1, 0], [0, 3, 1], [.5, 0, 4]), f([0, 3, 0], [2.2, 0, 0], [0, 0, -3])), c(np.eye(2), np.zeros((3, 2)), f([1, 2, 0], [0, 0, 0], [0, 0, 1]))),
        scale=(c(f(1), f(2.5), f(1, 2, .5)), c(f(1, 2), np.ones((3, 2)))), origin=(c(f(0, 0, 0), f(1.5, 20, -3)), c(f(1, 2), f([1, 2, 3]))))),
    "generator": Subject(b_gen, o_gen, dict(
        structure=([lambda: structure("tri"), lambda: structure("hex"), lambda: structure("out")], c("Cu", None)),
        origin=(c(f(1, -2, .3), f(40.5, 3, 1)), c(f(1, 2), f([1, 2, 3]))),
        strain_field=([lambda: strain(0), lambda: strain(1), lambda: strain(2)], c("strain", np.eye(3))),
        post_transform=([lambda: post(0), lambda: post(1)], c("post")), voxel=(VOX, c("voxel", np.eye(3)))), effect=e_gen, getters=False,
        base=dict(structure=[0, None], origin=None, strain_field=None, post_transform=None, voxel=None)),
    "amorphous generator": Subject(b_attr(AmorphousGenerator, "origin", "min_dist", "density", "species"), o_amorph, dict(
        density=(c(.05, .02), c(0., -1.)), min_dist=(c(1.4, 2.), c(0., -.4)), species=(c(6, 14), ()), origin=(c(f(1, 2, 3), f(-7, 0, 1)), c(f(1, 2), 4.)))),
    "translation": Subject(b_attr(Translation, "shift", "locked", "basis_only"), o_transform, dict(
        shift=(c(f(1, -2, .3), [4, 0, 100]), c(f(1, 2), [[1, 2, 3]], 5.)), locked=BOOL, basis_only=(BOOL[0][::-1], BOOL[1]))),
    "matrix map": Subject(b_attr(MatrixTransform, "matrix", "origin", "locked", "basis_only"), o_transform, dict(
        matrix=(c(arr(A.SHEAR, float), ref.rodrigues([1, 2, 3], .7)), c(np.eye(2), np.ones(3))), origin=(c(f(0, 0, 0), [4, 0, 100]), c(f(1, 2))), locked=BOOL, basis_only=(BOOL[0][::-1], BOOL[1]))),
    "rotation": Subject(b_attr(Rotation, "matrix", "origin", "locked", "basis_only"), o_transform, dict(
        matrix=(c(ref.rodrigues([0, 0, 1], 1.), R1), c(np.eye(2), -np.eye(3), 2 * np.eye(3), arr(A.SHEAR, float), np.diag([1., -1, 1]), np.diag([2., .5, 1]))), origin=(c(f(0, 0, 0), [4, 0, 100]), c(f(1, 2))),
        locked=BOOL, basis_only=(BOOL[0][::-1], BOOL[1]))),
    "inversion": Subject(b_attr(Inversion, "origin", "locked"), o_transform, dict(origin=(c(f(0, 0, 0), [4, 0, 100]), c(f(1, 2))), locked=BOOL)),
    "reflection": Subject(b_attr(Reflection, "plane", "locked", "basis_only"), o_transform, dict(
        plane=([lambda: Plane(f(0, 0, 1), f(1, 2, 3)), lambda: Plane(f(1, 2, -3), f(0, 0, 40)), lambda: Plane(f(0, 0, 1), f(1, 2, -7))], c(f(0, 0, 1), "xy")), locked=BOOL, basis_only=(BOOL[0][::-1], BOOL[1])), getters=False),
    "homogeneous strain": Subject(b_attr(HStrain, "matrix", "origin", "mode"), o_strain, dict(
        matrix=(c([1.02, .97, 1.1], [1.02, .97, 1.1, .01, -.02, .03], f([1, .1, 0], [0, 1, .02], [.05, 0, .95]), [1.05, 0, .02, .1, .9, 0, 0, .03, 1.]), c([1, 2], np.eye(2), 1., np.ones((2, 6)))),
        origin=(c(f(1, 2, 0), f(-4, 0, 9)), c(f(1, 2))), mode=(c("crystal", "standard"), c("real", None))), getters=False),
    "custom strain": Subject(b_attr(IStrain, "fun", "origin", "mode"), o_strain, dict(
        fun=([lambda: f_sin, lambda: f_shear], [lambda: f_bad]), origin=(c(f(1, 2, 0), f(-4, 0, 9)), c(f(1, 2))), mode=(c("crystal", "standard"), c("real", None)), fun_kwargs=(c(dict(a=.02), dict(a=.05)), c([1, 2], "a"))), getters=False,
        setter=lambda o, k, v: setattr(o, "strain_fun" if k == "fun" else k, v)),
    "substitution": Subject(b_attr(ChemicalSubstitution, "target", "substitute", "frac"), o_subst, dict(
        target=(c([8, 22], [38, 8]), ()), substitute=(c([16, 40], [1, 2]), ()), frac=(c(.5, .1, 1.), ()))),
    "volume": Subject(b_vol, o_vol, dict(
        points=(c(A.prism((4, 4, 4), (-2, -2, -2)), A.prism((3, 5, 3), (0, -3, -1), R1), A.prism((9, 9, 9), (-4, -4, -4))), c(np.zeros((4, 2)), A.BOX[:3], np.zeros((5, 3)))),
        generator=([lambda: A.Cell("cscl").generator(), lambda: A.Cell("tri").generator(origin=f(.3, .4, .5))], c("Cu")), tolerance=(c(1e-10, .05), c("t", 1)), priority=(c(0, 3), c(1.5, "p", None)),
        radius=(c(3., 2.), c(0., -1.)), center=(c(f(0, 0, 0), f(.5, 1, -.7)), c(f(1, 2))), normal=(c(f(0, 0, 1), f(1, 1, 0)), c(f(0, 0, 0))), gorigin=(c(f(.7, .1, .2)), c(f(1, 2))),
        surface=((), c("sphere", np.eye(3))), more=((), c(f(1, 2), np.ones((2, 2)), np.ones((1, 2, 3))))), setter=s_vol, effect=e_vol, getters=False, base=dict(gorigin=None)),
    "group": Subject(b_multi, o_multi, {**{k: (c(*p), c(.5, "p")) for k, p in dict(p0=(0, 5), p1=(0, 2, -1), p2=(0, 3)).items()}, "own": (c(0, 7), c(1.5, None)),
                                       "volume": ((), [lambda: "v", lambda: [cube(2.), "v"], lambda: [Sphere(1., f(0, 0, 0))], lambda: Molecule([6], f([0, 0, 0])[None])])}, setter=s_multi, getters=False),
    "scene": Subject(b_scene, o_scene, {**{k: (c(*p), c(.5)) for k, p in dict(p0=(0, 5), p1=(0, 2, -1), p2=(0, 3)).items()},
                                       "bounds": (c(f([0, 0, 0], [10, 10, 10]), [[-3, 1, -50], [7, 20.5, 9]]), c(np.zeros((3, 2)), np.zeros((2, 2)), 5.)),
                                       "object": ((), [lambda: "ignored", lambda: Sphere(1., f(0, 0, 0))])}, setter=s_scene, getters=False),
    "molecule": Subject(b_mol, o_mol, dict(positions=(c(XYZ, XYZ @ R1.T + 3), c(XYZ[:3], XYZ[:, :2])), species=(c(f(6, 1, 1, 8), f(7, 7, 1, 2)), c(f(1, 2, 3))), priority=(c(0, 4), c(.5, "p")),
                                           origin=(c(f(1, 2, 3), f(-9, 0, 0)), c(f(1, 2))), index=((), c(99, 1.5, "x")), remove=((), c([99], [0, 7])), atoms=((), c((f(1, 2), XYZ), (f(1, 2, 3), XYZ[:, :2])))),
                        setter=s_mol, getters=False, base=dict(origin=None)),
    "fcc defects": Subject(b_attr(fccMixedTwinSF, "generator", "volume", "ratio", "N", "min_sep", "plane"), o_prefab, dict(
        generator=([lambda: fcc(79), lambda: fcc(29, 3.6, R1)], c("Au")), volume=([lambda: cube(24.), lambda: cube(21., (-9, 4, 50))], c("box", Sphere(3., f(0, 0, 0)))), ratio=(c(.5, 1., 0.), c(-.1, 1.1)),
        N=(c(1, 2), c("n", None)), min_sep=(c(3, 4), c(3.5, "m")), plane=(c((1, 1, 1), (1, -1, 1)), ()))),
    "wurtzite faults": Subject(b_attr(wurtziteStackingFault, "generator", "volume", "N", "min_sep"), o_prefab, dict(
        generator=([lambda: wz(), lambda: wz(R1)], c("ZnO")), volume=([lambda: cube(40.), lambda: cube(44., (-9, 4, 50))], c("box")), N=(c(1, 2), c("n", None)), min_sep=(c(3, 4), c(3.5,)))),
    "wulff": Subject(b_attr(WulffSingle, "generator", "surface_energies", "natoms"), o_wulff, dict(
        generator=([lambda: fcc(79), lambda: fcc(29, 3.6, R1)], c("Au")), surface_energies=(c({(1, 0, 0): 1., (1, 1, 1): 1.15}, {(1, 0, 0): 1., (1, 1, 0): 1.1}), c({(1, 0, 0): 1}, {"100": 1.}, [1.])),
        natoms=(c(300, 1500.), c("many", None)))),
}
SUBJECTS["generator"].values = gen_values.__get__(SUBJECTS["generator"])
BADSILENT = {("scene", "object")}
PLAIN = {"radius", "tol", "tolerance", "priority", "ratio", "N", "min_sep", "plane", "natoms", "density", "min_dist", "locked", "basis_only", "frac", "shift", "bases", "matrix", "center"}
SLOW = {"fcc defects", "wurtzite faults"}


def f_sin(x, basis=None, a=.01):
    return x + a * np.sin(3 * x)


def f_shear(x, basis=None, a=.01):
    return x + a * x[:, [1, 2, 0]]


def f_bad(x, **k):
    return x[:3]


def same(a, b):
    if isinstance(a, str) or a is None or b is None or isinstance(a, np.ndarray) and a.dtype.kind in "UO":
        return type(a) is type(b) and np.array_equal(a, b)
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=2e-7)


def compare(ch, S, name, o, vals, what):
    want = S.fresh(vals)
    core.reset_rng()
    got = S.observe(o)
    ch.check(len(want) == len(got) and all(same(x, y) for x, y in zip(got, want)), lambda: f"{name} {what}: behaves otherwise than one built with the same values: " + next(
        (f"{np.ravel(x)[:4]} instead of {np.ravel(y)[:4]} (value {i})" for i, (x, y) in enumerate(zip(got, want)) if not same(x, y)), "?"))
    if S.getters:
        for k, i in vals.items():
            if i is not None and k in PLAIN:
                ch.check(same(getattr(o, k), S.sets[k][0][i]()), lambda: f"{name}.{k} is {getattr(o, k)!r} after {what}")
    ch.state((name, tuple(sorted((k, str(i)) for k, i in vals.items()))))
    ch.op()


def body(ch):
    name = ch.choose("class", list(SUBJECTS))
    S = SUBJECTS[name]
    start = {k: 0 for k, (good, bad) in S.sets.items() if good}
    for k, i in S.base.items():
        start[k] = ch.choose(f"initial {k}", i) if isinstance(i, list) else i
    vals = start
    o = S.build(**S.values(vals))
    depth = (2 if name in SLOW else 3) + (1 if THOROUGH else 0)
    used = "use"
    done = []
    for step in range(depth):
        opts = ["use"] if used != "use" or step == 0 else []
        for k, (good, bad) in S.sets.items():
            opts += [("set", k, i) for i in range(len(good)) if vals.get(k) != i]
            opts += [("refuse", k, i) for i in range(len(bad))]
        op = ch.choose("then", opts)
        if op == "use":
            compare(ch, S, name, o, vals, f"after {done}")
            used = "use"
            continue
        used = "no"
        kind, k, i = op
        done.append(op)
        if kind == "set":
            if name == "volume" and k == "gorigin" and vals.get("generator") is None:
                ch.prune()
            S.setter(o, k, S.sets[k][0][i]())
            vals = S.effect(vals, k, i)
        else:
            try:
                S.setter(o, k, S.sets[k][1][i]())
            except Exception:
                pass
            else:
                ch.check((name, k) in BADSILENT, f"{name}: {k} = {S.sets[k][1][i]()!r} was accepted")
        ch.op()
    compare(ch, S, name, o, vals, f"after {done}")


# ---------------------------------------------------------------- settings never given
def o_volume_edge(v):
    e = np.array([[x, 0, 0] for x in (1 + 1e-11, 1 + 5e-10, 1 - 1e-12, 1 + 1e-8, .5)])
    return [v.checkIfInterior(e), v.priority, v.tolerance]


def o_surface_edge(s):
    return [s.tol, s.checkIfInterior(np.array([[0, 0, 2 + d] for d in (0, 9e-6, 1.1e-5, -1e-5, 1e-9)]))]


def o_rdf(r):
    return list(r) if isinstance(r, tuple) else [r]


CL = np.c_[np.modf(np.arange(26) * .7548776662466927)[0] * 9, np.modf(np.arange(26) * .5698402909980532)[0] * 8, np.modf(np.arange(26) * .38196601125)[0] * 7]
PR = dict(generator=lambda: fcc(79), volume=lambda: cube(24.))


def pf(cls, gen=None, vol=None, **kw):
    return cls(generator=(gen or PR["generator"])(), volume=(vol or PR["volume"])(), **kw)


def wulffs(**kw):
    return WulffSingle(fcc(79), {(1, 0, 0): 1., (1, 1, 1): 1.15}, **kw)


DEFAULTS = {   # name: (with the settings omitted, with the documented values given, what is compared)
    "sphere": (lambda: Sphere(2., f(0, 0, 0)), lambda: Sphere(2., f(0, 0, 0), 1e-5), o_surface_edge),
    "plane": (lambda: Plane(f(0, 0, 1), f(0, 0, 2)), lambda: Plane(f(0, 0, 1), f(0, 0, 2), 1e-5), o_surface_edge),
    "cylinder": (lambda: Cylinder(f(1, 0, 0), f(0, 0, 0), 2., 4.), lambda: Cylinder(f(1, 0, 0), f(0, 0, 0), 2., 4., 1e-5), o_surface_edge),
    "voxel": (Voxel, lambda: Voxel(np.eye(3), f(1), f(0, 0, 0)), lambda v: [v.bases, v.scale, v.origin, v.sbases]),
    "translation": (lambda: Translation(f(1, 2, 3)), lambda: Translation(f(1, 2, 3), True, False), o_transform),
    "matrix map": (lambda: MatrixTransform(arr(A.SHEAR, float)), lambda: MatrixTransform(arr(A.SHEAR, float), None, True, False), o_transform),
    "matrix map about a point": (lambda: MatrixTransform(arr(A.SHEAR, float), f(0, 1, 2)), lambda: MatrixTransform(arr(A.SHEAR, float), f(0, 1, 2), locked=True, basis_only=False), o_transform),
    "rotation": (lambda: Rotation(R1), lambda: Rotation(matrix=R1, origin=None, locked=True, basis_only=False), o_transform),
    "inversion": (Inversion, lambda: Inversion(origin=f(0, 0, 0)), o_transform),
    "reflection": (lambda: Reflection(Plane(f(0, 0, 1), f(1, 2, 3))), lambda: Reflection(Plane(f(0, 0, 1), f(1, 2, 3)), locked=True, basis_only=False), o_transform),
    "homogeneous strain": (lambda: HStrain([1.1, 1, .9]), lambda: HStrain([1.1, 1, .9], "generator", "crystal"), o_strain),
    "custom strain": (lambda: IStrain(f_sin), lambda: IStrain(f_sin, "generator", "crystal", a=.01), o_strain),
    "no homogeneous strain": (HStrain, lambda: HStrain(np.eye(3)), o_strain),
    "no custom strain": (IStrain, lambda: HStrain(np.eye(3)), o_strain),
    "generator": (lambda: Generator(structure=structure("tri")), lambda: Generator(f(0, 0, 0), structure("tri"), None), o_gen),
    "amorphous generator": (AmorphousGenerator, lambda: AmorphousGenerator(f(0, 0, 0), 1.4, .1103075, 6), lambda a: o_amorph(a)[:4]),
    "volume": (lambda: Volume(points=A.prism((2, 2, 2), (-1, -1, -1)), generator=A.Cell("cub").generator()),
               lambda: Volume(A.prism((2, 2, 2), (-1, -1, -1)), None, A.Cell("cub").generator(), 0, 1e-10), o_volume_edge),
    "group": (lambda: MultiVolume([cube(2.)]), lambda: MultiVolume([cube(2.)], 0), lambda m: [m.priority]),
    "empty group": (MultiVolume, lambda: MultiVolume([], 0), lambda m: [m.priority, len(m.volumes)]),
    "scene": (Scene, lambda: Scene([[0, 0, 0], [10, 10, 10]], []), lambda s: [s.bounds]),
    "molecule": (lambda: Molecule(f(6, 1, 1, 8), XYZ), lambda: Molecule(f(6, 1, 1, 8), XYZ, origin=f(0, 0, 0)), lambda m: o_mol(m) + [m.orientation - np.eye(3)]),
    "fcc defects": (lambda: pf(fccMixedTwinSF), lambda: pf(fccMixedTwinSF, ratio=.5, N=1, min_sep=3, plane=(1, 1, 1)), o_prefab),
    "fcc twin": (lambda: pf(fccTwin), lambda: pf(fccTwin, N=1, min_sep=3, plane=(1, 1, 1)), o_prefab),
    "fcc fault": (lambda: pf(fccStackingFault), lambda: pf(fccStackingFault, N=1, min_sep=3, plane=(1, 1, 1)), o_prefab),
    "wurtzite faults": (lambda: pf(wurtziteStackingFault, wz, lambda: cube(44.)), lambda: pf(wurtziteStackingFault, wz, lambda: cube(44.), N=1, min_sep=6), o_prefab),
    "wulff": (wulffs, lambda: wulffs(natoms=1000), o_wulff),
    "wulff cube": (lambda: WulffSingle.cube(fcc(79)), lambda: WulffSingle.cube(fcc(79), 1000), lambda v: [np.sort(np.round(v.get_bounding_box(), 6), axis=0)]),
    "radial distribution": (lambda: calc_rdf(CL.copy()), lambda: calc_rdf(CL.copy(), 20., True, True, True), o_rdf),
    "distances": (lambda: get_sdist_fun(), lambda: get_sdist_fun(None, False, False, False), lambda fn: [fn(CL[:4], CL[4:8])]),
    "voxel grid": (lambda: get_voxel_grid((3, 2, 2)), lambda: get_voxel_grid((3, 2, 2), True, True, True), lambda r: [x for row in r for x in (len(row), sorted(map(int, row)))]),
    "prism": (lambda: makeRectPrism(2, 3, 4), lambda: arr([[x, y, z] for x in (0, 2.) for y in (0, 3.) for z in (0, 4.)]), lambda p: [p[np.lexsort(p.T)]]),
    "prism about a point": (lambda: makeRectPrism(2, 3, 4, center=f(5, -6, .5)), lambda: arr([[5 + x, -6 + y, .5 + z] for x in (-1, 1.) for y in (-1.5, 1.5) for z in (-2, 2.)]), lambda p: [p[np.lexsort(p.T)]]),
}


def defaults(ch):
    name = ch.choose("class or function", list(DEFAULTS))
    omitted, given, obs = DEFAULTS[name]
    other = ch.choose("built before", ("nothing", "another one, which was then changed")) if name in CHANGED else "nothing"
    if other != "nothing":
        CHANGED[name](omitted())
    out = []
    for make in (omitted, given):
        core.reset_rng()
        out.append(obs(make()))
        ch.op()
    a, b = out
    ch.check(len(a) == len(b) and all(same(x, y) for x, y in zip(a, b)), lambda: f"{name}: with its settings left out it behaves otherwise than with the documented values ({other} built before): " + next(
        (f"{np.ravel(x)[:4]} instead of {np.ravel(y)[:4]} (value {i})" for i, (x, y) in enumerate(zip(a, b)) if not same(x, y)), "?"))
    ch.state((name, other))


def _voxel(v):
    v.origin[:] = 7
    v.bases[:] = 2 * np.eye(3)
    v.scale[:] = 3


CHANGED = {  # changing an object that was built with defaults must not change the defaults
    "scene": lambda s: (s.add_object(cube(2.)), s.bounds.__setitem__(slice(None), 3)), "empty group": lambda m: m.add_volume(cube(2.)),
    "molecule": lambda m: m.transform(Rotation(matrix=R1)), "generator": lambda g: (g.transform(Translation(f(1, 2, 3))), g.transform(Rotation(matrix=R1))),
    "amorphous generator": lambda a: a.transform(Translation(f(1, 2, 3))), "inversion": lambda i: None,
    "volume": lambda v: v.add_alg_object(Sphere(.5, f(0, 0, 0))),
}


HARNESSES = {
    "defaults": dict(body=defaults, bounds=lambda t: f"{len(DEFAULTS)} classes and functions, their settings left out and given with the documented values, after another one so built was changed or not"),
    "settings": dict(body=body, shard=2, bounds=lambda t: f"{len(SUBJECTS)} classes x all histories of {4 if t == 'thorough' else 3} steps ({3 if t == 'thorough' else 2} for the defect prefabs), each step a "
                     "use of the object, any accepted value or any refused value of any setting; compared at every use and at the end"),
}
