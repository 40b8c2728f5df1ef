"""Crash points: every computation of the library is interrupted at every line it executes (an exception raised there, as by Ctrl-C or by
a failing allocation), on objects with a history; afterwards its inputs are as before, and repeating the computation on the same objects
gives exactly what it gives undisturbed.  Also: interrupted a second time while being repeated; and failing user-supplied functions."""
import os
import sys
import shutil
import tempfile
import numpy as np
from mc import env, ref, core
from mc import alpha as A
from czone.generator import Generator, AmorphousGenerator
from czone.generator.amorphous_algorithms import gen_p_substrate, gen_p_substrate_batched
from czone.molecule import Molecule
from czone.prefab import fccMixedTwinSF, wurtziteStackingFault
from czone.prefab.wulff import WulffSingle
from czone.scene import Scene
from czone.surface.adsorbate import add_adsorbate
from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
from czone.transform import Translation, Rotation, Reflection, MultiTransform, HStrain, IStrain, s2s_alignment
from czone.transform.post import ChemicalSubstitution, ArbitraryPostTransform, PostSequence
from czone.util.measure import calc_rdf, get_voxel_grid
from czone.util.misc import get_N_splits
from czone.volume import Volume, MultiVolume, Plane, Sphere, Cylinder, snap_plane_near_point, get_bounding_box, convex_hull_to_planes
from checks.C31 import cloud, same, fcc, wz, cube, R1, PROBE, structure

PROPERTY = "C32"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["an interruption is an exception raised before a line of the library executes (not inside numpy, scipy, ase, ...)",
               "a volume whose population fails in a user-supplied function holds its old atoms or all the new ones; what a population interrupted at a line, or a group, or the half-written file holds before the repetition is left open; edits (transformations, added parts) that are interrupted are not judged",
               "the global random generator is put in the same state before the computations compared"]
ROOT = os.path.join(os.path.realpath(env.REPO), "czone") + os.sep


OURS = {}


class Cut(KeyboardInterrupt):
    pass


def traced(fn, at=None):
    """run fn; raise Cut before the at-th line event of the library's code.  Returns (result, list of line ids, cut?)"""
    seen = []

    def local(frame, event, arg):
        if event == "line":
            seen.append((frame.f_code.co_filename, frame.f_lineno))
            if at is not None and len(seen) == at + 1:
                raise Cut()
        return local

    def glob(frame, event, arg):
        f = frame.f_code.co_filename
        if f not in OURS:
            OURS[f] = os.path.realpath(f).startswith(ROOT)
        return local if OURS[f] else None
    core.reset_rng()
    old = sys.gettrace()
    sys.settrace(glob)
    try:
        r = fn()
        return r, seen, False
    except (Cut, Exception):
        if at is None:
            raise
        return None, seen, True
    finally:
        sys.settrace(old)


# ---------------------------------------------------------------- worlds: make() -> dict; run(w) -> result; out(w, r) -> arrays; inputs(w) -> arrays
def d_gen(g):
    if not hasattr(g, "voxel"):
        return [g.origin, g.density, g.min_dist] if hasattr(g, "density") else []
    s = g.strain_field
    return [g.origin, g.voxel.sbases, g.coords, np.array(g.species)] + ([s.mode, s.origin if s.origin_type != "generator" else 0, *([s.matrix] if hasattr(s, "matrix") else [])] if s is not None else [])


def d_vol(v):
    if isinstance(v, MultiVolume):
        return [v.priority, len(v.volumes)] + [x for m in sorted(v.volumes, key=lambda m: repr(type(m)) + repr(m.priority)) for x in d_vol(m)]
    if isinstance(v, Molecule):
        return [v.atoms, v.species, v.priority, v.origin, v.orientation]
    r = [v.priority, v.tolerance, v.points, v.checkIfInterior(PROBE[::7].copy())] + (d_gen(v.generator) if v.generator is not None else [])
    for s in v.alg_objects:
        p = s.params
        r += [*(p() if callable(p) else p), s.tol]
    return r


def tri(**k):
    return A.Cell("tri").generator(**k)


def strained():
    g = tri(origin=np.array([.3, -.2, .4]))
    g.strain_field = HStrain([1.02, .97, 1.05])
    g.post_transform = PostSequence([ArbitraryPostTransform(lambda p, s: (p, np.where(p[:, 0] > 1, 77, s))), ChemicalSubstitution([8], [16], 1.)])
    return g


def w_volume():
    return dict(v=Volume(points=A.prism((5, 4, 4), (-1, -1, 0)), alg_objects=[Cylinder(np.array([0, 0, 1.]), np.array([1., 1, 1]), 2.5, 9.)], generator=strained()))


def w_planes():
    v = Volume(alg_objects=[Plane(n, 2.2 * np.array(n)) for n in np.vstack([np.eye(3), -np.eye(3), [[.6, .8, 0]]])], generator=A.Cell("hex").generator())
    v.populate_atoms()
    v.transform(Rotation(matrix=R1))
    return dict(v=v)


def w_multi():
    a = Volume(alg_objects=[Sphere(2.4, np.array([0, 0, 0.]))], generator=A.Cell("cscl").generator(), priority=2)
    b = Volume(alg_objects=[Sphere(2.2, np.array([1.5, 0, 0]))], generator=A.Cell("cub").generator(), priority=5)
    c = Volume(points=A.prism((3, 3, 3), (-2, -1, 0)), generator=tri(), priority=-3)
    m = MultiVolume([b, MultiVolume([a, c], priority=4)])
    m.populate_atoms()
    a.priority = 0
    m.transform(Translation(np.array([.4, .1, 3])))
    return dict(v=m)


def w_scene():
    m = w_multi()["v"]
    v = Volume(points=A.prism((4, 4, 4), (-1, -1, 1)), generator=strained(), priority=1)
    mol = Molecule([6, 8, 1], np.array([[0, 0, 3.], [0, 0, 9], [2.5, 2.5, 2.5]]))
    s = Scene(bounds=np.array([[-5, -5, -5], [9., 9, 9]]), objects=[v, mol, m])
    s.populate()
    v.transform(Rotation(matrix=R1, origin=np.array([1., 1, 2])))
    m.priority = 1
    return dict(s=s)


def w_amorphous(old):
    g = AmorphousGenerator(min_dist=1.5, density=.06)
    v = Volume(points=A.prism((5, 4, 5), (2, -3, 1)), generator=g)
    core.reset_rng()
    v.populate_atoms()
    v.generator.use_old_result = old
    v.transform(Translation(np.array([.5, 0, 0])))
    return dict(v=v)


def o_atoms(w, r):
    return cloud(w["v"].atoms, w["v"].species)


def o_scene(w, r):
    s = w["s"]
    return cloud(s.all_atoms, s.all_species) + [x for o in sorted(s.objects, key=lambda o: type(o).__name__) for x in cloud(o.atoms, o.species)]


def o_built(w, r):
    r.populate_atoms()
    return cloud(r.atoms, r.species) + [r.checkIfInterior(PROBE.copy())]


def host():
    v = Volume(points=A.prism((7.3, 6.2, 6.4), (-.2, -.2, -.2)), generator=A.Cell("cub").generator())
    v.populate_atoms()
    return v


def wulff():
    w = WulffSingle(fcc(79, 4., R1), {(1, 0, 0): 1., (1, 1, 1): 1.15}, 400)
    w.get_construction()
    w.natoms = 900
    return dict(w=w)


CLOUD = np.c_[np.modf(np.arange(26) * .7548776662466927)[0] * 9, np.modf(np.arange(26) * .5698402909980532)[0] * 8, np.modf(np.arange(26) * .38196601125)[0] * 7]


def d_mol(m):
    return [m.atoms, m.species, m.origin, m.orientation, m.priority]


def planes(w, r):
    return [x for p in r for x in (p.normal, p.point)]


def seqs():
    return [Translation(np.array([1., 2, 3])), MultiTransform([Rotation(matrix=R1), Reflection(Plane(np.array([1., 1, 0]), np.array([0, 0, 2.])))])]


def written(w):
    import ase.io
    f = os.path.join(w["dir"], "x.xyz")
    w["s"].to_file(f, format="extxyz")
    return ase.io.read(f)


def w_written():
    w = w_scene()
    w["s"].populate()
    w["dir"] = tempfile.mkdtemp(prefix="c32_")
    return w


def clean(w):
    if w.get("dir"):
        shutil.rmtree(w["dir"], ignore_errors=True)


W = {
    "populate volume": (w_volume, lambda w: w["v"].populate_atoms(), o_atoms, lambda w: d_vol(w["v"])),
    "populate plane-bound volume": (w_planes, lambda w: w["v"].populate_atoms(), o_atoms, lambda w: d_vol(w["v"])),
    "populate group": (w_multi, lambda w: w["v"].populate_atoms(), o_atoms, lambda w: d_vol(w["v"])),
    "populate scene": (w_scene, lambda w: w["s"].populate(), o_scene, lambda w: [w["s"].bounds, len(w["s"].objects)] + [x for o in sorted(w["s"].objects, key=lambda o: type(o).__name__) for x in d_vol(o)]),
    "populate amorphous": (lambda: w_amorphous(False), lambda w: w["v"].populate_atoms(), o_atoms, lambda w: d_vol(w["v"])),
    "populate amorphous, reused": (lambda: w_amorphous(True), lambda w: w["v"].populate_atoms(), o_atoms, lambda w: d_vol(w["v"]) + cloud(*w["v"].generator.old_result)),
    "copy volume": (w_planes, lambda w: w["v"].from_volume(transformation=seqs(), generator=tri(), priority=3), o_built, lambda w: d_vol(w["v"]) + o_atoms(w, 0)),
    "copy group": (w_multi, lambda w: w["v"].from_volume(transformation=seqs()), o_built, lambda w: d_vol(w["v"])),
    "copy generator": (lambda: dict(g=strained()), lambda w: w["g"].from_generator(transformation=seqs()), lambda w, r: cloud(*r.supply_atoms(A.prism((4, 4, 4)))), lambda w: d_gen(w["g"])),
    "copy molecule": (lambda: dict(m=Molecule([6, 8], np.array([[0, 0, 0], [0, 0, 1.15]]))), lambda w: w["m"].from_molecule(transformation=seqs()), lambda w, r: d_mol(r), lambda w: d_mol(w["m"])),
    "fcc defects": (lambda: dict(p=fccMixedTwinSF(fcc(79, 4., R1), cube(20., (1, 2, 3)), .5, 2)), lambda w: w["p"].build_object(), o_built, lambda w: d_vol(w["p"].volume) + d_gen(w["p"].generator)),
    "wurtzite faults": (lambda: dict(p=wurtziteStackingFault(wz(R1), cube(30., (1, 2, 3)), 1, 4)), lambda w: w["p"].build_object(), o_built, lambda w: d_vol(w["p"].volume) + d_gen(w["p"].generator)),
    "wulff": (wulff, lambda w: w["w"].get_construction(), lambda w, r: planes(w, r.alg_objects) + d_gen(r.generator), lambda w: d_gen(w["w"].generator) + [w["w"].natoms]),
    "wulff areas": (wulff, lambda w: w["w"].get_construction(return_facet_areas=True)[1], lambda w, r: [x for k in sorted(r) for x in (list(k), r[k])], lambda w: d_gen(w["w"].generator) + [w["w"].natoms]),
    "winterbottom": (wulff, lambda w: w["w"].winterbottom((1, 0, 0), .3), lambda w, r: planes(w, r.alg_objects), lambda w: d_gen(w["w"].generator) + [w["w"].natoms, *planes(w, w["w"].get_construction().alg_objects)]),
    "cube": (lambda: dict(g=fcc(79)), lambda w: WulffSingle.cube(w["g"], 300), lambda w, r: planes(w, r.alg_objects), lambda w: d_gen(w["g"])),
    "adsorbate": (lambda: dict(v=host(), m=Molecule([6, 8], np.array([[0, 0, 0], [0, 0, 1.15]]))), lambda w: add_adsorbate(w["m"], 0, 1.8, w["v"], seed=5, use_sampling=False),
                  lambda w, r: d_mol(r[0]) + [r[1]], lambda w: d_mol(w["m"]) + d_vol(w["v"]) + o_atoms(w, 0)),
    "alpha shape": (lambda: dict(c=CLOUD.copy()), lambda w: alpha_shape_alg_3D(w["c"], 1.9), lambda w, r: [np.sort(r)], lambda w: [w["c"]]),
    "alpha sampling": (lambda: dict(c=CLOUD.copy()), lambda w: alpha_shape_alg_3D_with_sampling(w["c"], 1.9, 3, seed=4), lambda w, r: [np.sort(list(r))], lambda w: [w["c"]]),
    "radial distribution": (lambda: dict(c=CLOUD.copy()), lambda w: calc_rdf(w["c"], 3., px=True, py=False, pz=True), lambda w, r: list(r) if isinstance(r, tuple) else [r], lambda w: [w["c"]]),
    "voxel grid": (dict, lambda w: get_voxel_grid((3, 2, 4), px=True, py=False, pz=True), lambda w, r: [x for row in r for x in (len(row), sorted(map(int, row)))], lambda w: []),
    "amorphous block": (dict, lambda w: gen_p_substrate([4., 4., 5.], 1.4, density=.08, seed=3), lambda w, r: [r], lambda w: []),
    "amorphous block, batched": (dict, lambda w: gen_p_substrate_batched([4., 4., 5.], 1.4, density=.08, seed=3, batch_size=6), lambda w, r: [r], lambda w: []),
    "splits": (dict, lambda w: get_N_splits(3, 2, 14, seed=9), lambda w, r: [r], lambda w: []),
    "snap plane": (lambda: dict(g=strained()), lambda w: snap_plane_near_point(np.array([4., 3, 2.3]), w["g"], (1, 1, -1), mode="floor"), lambda w, r: planes(w, [r[0] if isinstance(r, tuple) else r]), lambda w: d_gen(w["g"])),
    "planes of a hull": (lambda: dict(c=CLOUD.copy()), lambda w: convex_hull_to_planes(w["c"]), lambda w, r: planes(w, r[0] if isinstance(r, tuple) else r), lambda w: [w["c"]]),
    "region of planes": (lambda: dict(p=[Plane(n, 2.2 * np.array(n) + [30, 1, 2]) for n in np.vstack([np.eye(3), -np.eye(3), [[.6, .8, 0]]])]), lambda w: get_bounding_box(w["p"]),
                         lambda w, r: [r[0][np.lexsort(np.round(r[0], 6).T)], r[1]], lambda w: planes(w, w["p"])),
    "alignment": (lambda: dict(a=Plane(np.array([1., 2, 0]), np.array([3., 1, 1])), b=Plane(np.array([0, -1., 2]), np.array([5., 0, 1])), p=np.array([1., 1, 1]), q=np.array([4., 0, 9])),
                  lambda w: s2s_alignment(w["a"], w["b"], w["p"], w["q"]), lambda w, r: [r.applyTransformation(PROBE[:5])], lambda w: planes(w, [w["a"], w["b"]]) + [w["p"], w["q"]]),
    "write scene": (w_written, lambda w: written(w), lambda w, r: cloud(r.positions, r.numbers) + [r.cell.array], lambda w: [w["s"].bounds] + o_scene(w, 0)),
}
BASE = {}
SLOW = {"wulff", "winterbottom", "adsorbate"}       # the quick tier interrupts these at the first execution of every line only
if not THOROUGH:
    del W["wulff areas"], W["cube"]


def base(name):
    if name not in BASE:
        make, run, out, inputs = W[name]
        w = make()
        with env.quiet():
            r, seen, _ = traced(lambda: run(w))
            BASE[name] = (out(w, r), seen)
        clean(w)
    return BASE[name]


def points(name, n):
    """the visits at which to interrupt: the first ones and the last one of every line (all of them in the thorough tier, up to a bound)"""
    seen = base(name)[1]
    where = {}
    for i, l in enumerate(seen):
        where.setdefault(l, []).append(i)
    return sorted({i for v in where.values() for i in (v[:1] if name in SLOW and not THOROUGH else v[:n] + v[-1:])})


def equal(ch, got, want, what):
    ch.check(len(got) == len(want) and all(same(x, y) for x, y in zip(got, want)), lambda: what + ": " + next(
        (f"{np.ravel(x)[:5]} instead of {np.ravel(y)[:5]} (value {i})" for i, (x, y) in enumerate(zip(got, want)) if not same(x, y)), f"{len(got)} values, not {len(want)}"))


def body(ch):
    name = ch.choose("computation", list(W))
    make, run, out, inputs = W[name]
    with env.quiet():
        want, seen = base(name)
        at = ch.choose("interrupted at line event", points(name, 40 if THOROUGH else 2))
        w = make()
        before = inputs(w)
        try:
            _, got, cut = traced(lambda: run(w), at)
            ch.op(len(got))
            where = f"{name} interrupted at {os.path.basename(seen[at][0])}:{seen[at][1]}"
            equal(ch, inputs(w), before, f"{where}: its inputs changed")
            again = ch.choose("repeated", ("undisturbed", "interrupted again half way") if at % (5 if not THOROUGH else 2) == 0 else ("undisturbed",))
            if again != "undisturbed":
                traced(lambda: run(w), len(seen) // 2)
            core.reset_rng()
            r = run(w)
            equal(ch, out(w, r), want, f"{where}, then repeated")
            equal(ch, inputs(w), before, f"{where}, then repeated: its inputs changed")
            ch.state((name, at, again))
        finally:
            clean(w)


# ---------------------------------------------------------------- failing user-supplied functions
class Faulty:
    """counts the calls of everything the user supplied; raises at the k-th"""

    def __init__(self):
        self.n, self.at, self.kind = 0, None, None

    def __call__(self):
        self.n += 1
        if self.at is not None and self.n == self.at + 1:
            raise self.kind("user function failed")


class MyGen(Generator):
    fault = None

    def supply_atoms(self, bbox):
        self.fault()
        return super().supply_atoms(bbox)

    def __deepcopy__(self, memo):
        import copy
        g = MyGen(structure=self.structure, origin=self.origin.copy())
        g._voxel, g.fault = copy.deepcopy(self.voxel), self.fault
        return g


class MySphere(Sphere):
    fault = None

    def checkIfInterior(self, p):
        self.fault()
        return super().checkIfInterior(p)

    def __deepcopy__(self, memo):
        s = MySphere(self.radius, self.center.copy(), self.tol)
        s.fault = self.fault
        return s


def faulty_world(f):
    g = MyGen(structure=structure("cscl"))
    g.fault = f

    def wobble(x, **k):
        if f.at is not None or f.n:
            f()
        return x + .03 * np.sin(x)

    class Fn:
        def __call__(self, x, **k):
            return wobble(x)

        def __deepcopy__(self, memo):
            return self
    s = MySphere(2.6, np.array([0, 0, .5]))
    s.fault = f
    h = tri()
    h.strain_field = IStrain(fun=Fn(), mode="standard")

    class Post:
        def __call__(self, p, z):
            f()
            return p, np.where(z == 8, 9, z)

        def __deepcopy__(self, memo):
            return self
    h.post_transform = ArbitraryPostTransform(Post())
    a = Volume(alg_objects=[s], generator=g, priority=1)
    b = Volume(points=A.prism((4, 4, 4), (-1, -1, 0)), generator=h, priority=2)
    c = Volume(alg_objects=[s.from_alg_object(transformation=[Translation(np.array([3., 0, 0]))])], generator=g, priority=2)
    m = MultiVolume([a, c], priority=1)
    return m, b


def user(ch):
    what = ch.choose("populated", ("scene", "group"))
    m, b = faulty_world(f := Faulty())
    o = Scene(objects=[b, m]) if what == "scene" else MultiVolume([b, m])
    pop = o.populate if what == "scene" else o.populate_atoms
    first = ch.flag("populated before")

    def atoms():
        return cloud(o.all_atoms, o.all_species) if what == "scene" else cloud(o.atoms, o.species)
    edit = ch.choose("edited", ("no", "moved", "priority"))
    m2, b2 = faulty_world(f2 := Faulty())
    o2 = Scene(objects=[b2, m2]) if what == "scene" else MultiVolume([b2, m2])
    if first:
        pop()
    for mm, bb in ((m, b), (m2, b2)):
        if edit == "moved":
            mm.transform(Translation(np.array([.7, .2, 0])))
        if edit == "priority":
            bb.priority = 0
    def each(g, v):
        return [[np.array(x.atoms), np.array(x.species)] if x.atoms is not None else [] for x in (*g.volumes, v)]
    before = each(m, b)
    f2.n = 0
    (o2.populate if what == "scene" else o2.populate_atoms)()
    want = cloud(o2.all_atoms, o2.all_species) if what == "scene" else cloud(o2.atoms, o2.species)
    N = f2.n
    for k in range(1, 3):
        at = ch.choose(f"failure {k}", list(range(N)))
        f.n, f.at, f.kind = 0, at, ch.choose("exception", (ValueError, KeyboardInterrupt)) if k == 1 else ValueError
        try:
            pop()
        except (f.kind, ValueError):
            pass
        else:
            ch.fail(f"the failure of call {at} of a user-supplied function was swallowed")
        f.at = None
        f.n = 0
        for now, old, new in zip(each(m, b), before, each(m2, b2)):       # every volume has its old atoms, or its new ones
            ch.check(any(len(now) == len(x) and all(same(p, q) for p, q in zip(now, x)) for x in (old, new)),
                     lambda: f"{what} populated while call {at} of a user-supplied function failed: a volume is left with {[len(x) for x in now]} atoms and species, {[len(x) for x in old]} before, {[len(x) for x in new]} when done")
        if k == 1 and not ch.flag("failing again"):
            break
    pop()
    equal(ch, atoms(), want, f"{what} populated again after call {at} of a user-supplied function failed")
    ch.op(3)


HARNESSES = {
    "interrupted": dict(body=body, shard=2, watchdog=120, bounds=lambda t: f"{len(W)} computations x an exception before the first {40 if t == 'thorough' else 2} and the last execution of every line of the library they run "
                        f"(repeated undisturbed, and for every {'second' if t == 'thorough' else 'fifth'} point interrupted again half way)"),
    "user function fails": dict(body=user, shard=3, bounds="populating a scene or a nested group whose generators, strain, post-transformation and surfaces are user-supplied: every call failing, "
                                "twice in a row, after every edit, populated before or not"),
}
