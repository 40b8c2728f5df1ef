G, V, A, T, X = "czone/generator/generator.py", "czone/volume/volume.py", "czone/volume/algebraic.py", "czone/transform/transform.py", "czone/volume/voxel.py"
S, ST, M = "czone/scene/scene.py", "czone/transform/strain.py", "czone/molecule/molecule.py"

bug("c01-upper-cell", "C01", G, [("range(min_extent[2], max_extent[2] + 1), ", "range(min_extent[2], max_extent[2]), ")],
    "a region whose upper end lies exactly on a lattice plane holding a site",
    "the last layer of cells along the third axis is left out, so sites on the upper end of the region are missing", """
import numpy as np
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90])
box = np.array([[x, y, z] for x in (0., 8) for y in (0., 8) for z in (0., 8)])
at, _ = g.supply_atoms(box)
n = sum(bool(np.all(np.abs(a - [4, 4, 8]) < 1e-6)) for a in at)
assert n == 1, f"site (4, 4, 8) supplied {n} times"
""")
bug("c01-trunc", "C01", X, [("        min_extent = np.floor(np.min(extents, axis=0))\n", "        min_extent = np.trunc(np.min(extents, axis=0))\n")],
    "a region reaching into the negative octant of the crystal's own coordinates",
    "the lower cell index is rounded toward zero, so the outermost row of cells on the negative side is missing", """
import numpy as np
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.25, 0.25, 0.25]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90])
box = np.array([[x, y, z] for x in (-3.5, 3.) for y in (-3.5, 3.) for z in (-3.5, 3.)])
at, _ = g.supply_atoms(box)
n = sum(bool(np.all(np.abs(a - [-3, -3, -3]) < 1e-6)) for a in at)
assert n == 1, f"site (-3, -3, -3) supplied {n} times"
""")
bug("c02-side", "C02", T, [("        return np.dot(self.matrix, points)\n", "        return np.dot(points, self.matrix)\n")],
    "a lattice that is not cubic, or a second rotation after the first",
    "the lattice vectors are multiplied from the wrong side, so only the first turn of a cubic crystal is right", """
import numpy as np
from czone.generator import Generator
from czone.transform import Rotation, rot_v
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[3, 4, 5], cellAngs=[90, 90, 90])
R = rot_v([0, 0, 1], np.pi / 6)
g.transform(Rotation(R))
site = R @ np.array([3., 0, 0])
box = site + np.array([[x, y, z] for x in (-1., 1) for y in (-1., 1) for z in (-1., 1)])
at, _ = g.supply_atoms(box)
assert any(np.linalg.norm(a - site) < 1e-6 for a in at), "image of site (3, 0, 0) is missing"
""")
bug("c03-stale-hull", "C03", V, [("        self._hull = ConvexHull(self.points, incremental=True)\n",
     "        if self._hull is not None and self.points.shape[0] > self._hull.npoints:\n"
     "            # only hand over the points which are new\n"
     "            self._hull.add_points(self.points[self._hull.npoints:])\n"
     "        else:\n            self._hull = ConvexHull(self.points, incremental=True)\n")],
    "replacing a volume's points by a larger set of points (or adding points that are then followed by a replacement)",
    "the hull keeps the old points when the points are replaced by more points, so the old region stays interior", """
import numpy as np
from czone.volume import Volume, makeRectPrism
v = Volume(points=makeRectPrism(2, 2, 2))
p = np.vstack([makeRectPrism(1, 1, 1) + 10, [[10.5, 10.5, 12.0]]])
v.points = p
assert v.checkIfInterior(np.array([[10.5, 10.5, 11.0]]))[0]
assert not v.checkIfInterior(np.array([[1., 1, 1]]))[0], "a point of the old region is still interior"
""")
bug("c05-four-planes", "C05", V, [("            if len(planes) > 3:\n", "            if len(planes) > 4:\n")],
    "a volume bounded by exactly four planes (a tetrahedron)",
    "the corners of a region bounded by exactly four planes are not looked for, so no region is found to fill (or that of the cylinder is used)", """
import numpy as np
from czone.volume import Volume, Plane
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
n = [[-1, 0, 0], [0, -1, 0], [0, 0, -1], [1, 1, 1]]
p = [[-.5, 0, 0], [0, -.5, 0], [0, 0, -.5], [1.1, 1.1, 1.1]]
v = Volume(alg_objects=[Plane(a, b) for a, b in zip(n, p)], generator=g)
v.populate_atoms()
want = sum(1 for x in range(4) for y in range(4) for z in range(4) if x + y + z <= 3)
assert len(v.atoms) == want, (len(v.atoms), want)
""")
bug("c06-alg-elif", "C06", V, [("        if len(self.alg_objects) > 0:\n            for i, obj in enumerate(self.alg_objects):\n                self.alg_objects[i] =",
                                 "        elif len(self.alg_objects) > 0:\n            for i, obj in enumerate(self.alg_objects):\n                self.alg_objects[i] =")],
    "moving a volume that has both points and surfaces",
    "the surfaces of a volume that also has points stay behind when it is transformed", """
import numpy as np
from czone.volume import Volume, Plane, makeRectPrism
from czone.generator import Generator
from czone.transform import Translation
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(4, 4, 4), alg_objects=[Plane([1, 0, 0], [2, 0, 0])], generator=g)
v.populate_atoms()
a = v.atoms + [3, 0, 0]
v.transform(Translation([3, 0, 0]))
v.populate_atoms()
assert len(v.atoms) == len(a), (len(v.atoms), len(a))
""")
bug("c06-nested", "C06", V, [("        for vol in self.volumes:\n            vol.transform(transformation)\n",
     "        moved = []\n        for vol in self.volumes:\n            if not any(vol.priority == m.priority and type(vol) == type(m) == MultiVolume for m in moved):\n                vol.transform(transformation)\n            moved.append(vol)\n")],
    "a group holding two nested groups of equal priority",
    "the second of two nested groups with the same priority stays behind when the outer group is transformed", """
import numpy as np
from czone.volume import Volume, MultiVolume, makeRectPrism
from czone.generator import Generator
from czone.transform import Translation
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = lambda x: Volume(points=makeRectPrism(2, 2, 2) + x, generator=g)
m = MultiVolume([MultiVolume([v(0)]), MultiVolume([v(10)])])
m.populate_atoms()
a = m.atoms + [3, 0, 0]
m.transform(Translation([3, 0, 0]))
m.populate_atoms()
assert np.allclose(np.sort(m.atoms, axis=0), np.sort(a, axis=0))
""")
bug("c07-resort", "C07", S, [("        self.objects.sort(key=lambda ob: ob.priority)\n",
     "        if self._checks is None or len(self._checks) != len(self.objects):\n            self.objects.sort(key=lambda ob: ob.priority)\n")],
    "populating, changing the priority of an object, and populating again",
    "objects are only re-sorted when one was added since the last population, so a changed priority is judged by the old order", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
g = lambda z: Generator.from_unit_cell(Z=[z], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
a = Volume(points=makeRectPrism(4, 4, 4), generator=g(6), priority=0)
b = Volume(points=makeRectPrism(4, 4, 4) + [2, 0, 0], generator=g(7), priority=1)
s = Scene(objects=[a, b])
s.populate()
a.priority = 5
s.populate()
n = {z: int(np.sum(s.all_species == z)) for z in (6, 7)}
assert n == {6: 32, 7: 64}, n
""")
bug("c08-negative", "C08", V, [("        plevels = np.array([x.priority for x in self.volumes])\n", "        plevels = np.array([abs(x.priority) for x in self.volumes])\n")],
    "members of a group with priorities of opposite sign",
    "priorities -1 and 1 are taken as one level, so both objects lose the overlap", """
import numpy as np
from czone.volume import Volume, MultiVolume, makeRectPrism
from czone.generator import Generator
g = lambda z: Generator.from_unit_cell(Z=[z], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
a = Volume(points=makeRectPrism(4, 4, 4), generator=g(6), priority=-1)
b = Volume(points=makeRectPrism(4, 4, 4) + [2, 0, 0], generator=g(7), priority=1)
m = MultiVolume([a, b])
m.populate_atoms()
n = {z: int(np.sum(m.species == z)) for z in (6, 7)}
assert n == {6: 64, 7: 32}, n
""")
bug("c09-shift-fold", "C09", T, [("        for t in self.transforms:\n            points = t.applyTransformation(points)\n        return points\n",
     "        # translations commute with each other: add them up\n"
     "        shift = np.zeros(3)\n"
     "        for t in self.transforms:\n            if isinstance(t, Translation):\n                shift = shift + t.shift\n            else:\n"
     "                points = t.applyTransformation(points)\n        return points + shift\n")],
    "a sequence in which a translation comes before a map about a fixed origin",
    "all translations of a sequence are applied last", """
import numpy as np
from czone.transform import MultiTransform, Translation, Rotation, rot_v
t = [Translation([1., 0, 0]), Rotation(rot_v([0, 0, 1], np.pi / 2))]
p = np.array([[1., 2, 3], [0, 1, 0]])
q = t[1].applyTransformation(t[0].applyTransformation(p))
assert np.allclose(MultiTransform(t).applyTransformation(p), q)
""")
bug("c10-rotv-zero", "C10", T, [("    eps = np.finfo(float).eps  #get machine epsilon for collinearity check\n", "    eps = 1e-3  #tolerance for collinearity check\n")],
    "two vectors that enclose a small but non-zero angle",
    "vectors within a thousandth of a radian are treated as parallel, so the returned matrix does not map one onto the other", """
import numpy as np
from czone.transform import rot_vtv
v, w = np.array([1., 0, 0]), np.array([np.cos(5e-4), np.sin(5e-4), 0])
assert np.linalg.norm(rot_vtv(v, w) @ v - w) < 1e-9
""")
bug("c10-euler", "C10", T, [('        return scRotation.from_euler("ZXZ", [alpha, beta, gamma],\n', '        return scRotation.from_euler("ZXZ", [alpha, beta, gamma] if beta >= 0 else [gamma, beta, alpha],\n')],
    "a negative middle angle", "the first and last angle are swapped when the middle angle is negative", """
import numpy as np
from czone.transform import rot_zxz
z = lambda a: np.array([[np.cos(a), -np.sin(a), 0], [np.sin(a), np.cos(a), 0], [0, 0, 1]])
x = lambda a: np.array([[1, 0, 0], [0, np.cos(a), -np.sin(a)], [0, np.sin(a), np.cos(a)]])
for b in (0.7, -0.7):
    assert np.allclose(rot_zxz(.3, b, 1.1), z(.3) @ x(b) @ z(1.1)), b
""")
bug("c11-origin", "C11", T, [("    R_t = Rotation(matrix=R, origin=M_plane.point)\n", "    R_t = Rotation(matrix=R, origin=T_plane.point)\n")],
    "surfaces whose defining points differ and that are not already face to face",
    "the moving surface is turned about the target's point while the later shift assumes its own point stayed put", """
import numpy as np
from czone.volume import Plane
from czone.transform import s2s_alignment
M, T = Plane([1, 0, 0], [4., 1, 3]), Plane([0, 0, 1], [0, 0, 5.])
mt = s2s_alignment(M, T, np.array([3., 0, 0]), np.array([1., 1, 5]))
M2 = M.from_alg_object(transformation=[mt])
assert abs(T.sdist_from_plane(M2.point)) < 1e-9, T.sdist_from_plane(M2.point)
assert np.allclose(M2.normal, -T.normal)
""")
bug("c12-bases-once", "C12", ST, [('        if self.mode == "crystal":\n            self._bases = np.copy(obj.voxel.sbases)\n',
     '        if self.mode == "crystal" and self.bases is None:\n            self._bases = np.copy(obj.voxel.sbases)\n')],
    "a strain in crystal coordinates, populated, then the generator rotated (or the strain shared by two generators)",
    "the crystal axes of a strain are taken once, so the strain keeps the old axes after the generator is turned", """
import numpy as np
from czone.generator import Generator
from czone.transform import Rotation, rot_v, HStrain
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90])
g.strain_field = HStrain(matrix=[1.1, 1, 1])
box = 3 * np.array([[x, y, z] for x in (-1., 1) for y in (-1., 1) for z in (-1., 1)])
g.supply_atoms(box)
R = rot_v([0, 0, 1], 0.5)
g.transform(Rotation(R))
at, _ = g.supply_atoms(box)
want = R @ np.array([2.2, 0, 0])
assert any(np.linalg.norm(a - want) < 1e-6 for a in at), "strained site along the turned axis is missing"
""")
bug("c12-voigt", "C12", ST, [("[v[5], v[1], v[3]]", "[v[5], v[1], v[4]]")],
    "a six-element strain whose fourth and fifth elements differ",
    "the yz entry of a six-element strain is taken from the xz element in one of the two places", """
import numpy as np
from czone.transform import HStrain
h = HStrain(matrix=[1, 1, 1, .1, .2, .3])
assert np.allclose(h.matrix, [[1, .3, .2], [.3, 1, .1], [.2, .1, 1]]), h.matrix
""")
bug("c13-away", "C13", "czone/util/misc.py", [("    return np.sign(x) * np.ceil(np.abs(x))\n", "    return np.ceil(x)\n")],
    "mode ceil with a point on the negative side of the generator origin",
    "for points behind the origin, the next plane toward the origin is returned instead of the next away from it", """
import numpy as np
from czone.volume import snap_plane_near_point
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90])
p = snap_plane_near_point(np.array([0, 0, -3.]), g, (0, 0, 1), mode="ceil")
assert abs(p.point[2] + 4) < 1e-9, p.point
""")
bug("c14-alg-share", "C14", V, [("        self._alg_objects.append(copy.deepcopy(obj))\n", "        self._alg_objects.append(copy.copy(obj) if isinstance(obj, Plane) else obj)\n")],
    "adding the same sphere or cylinder to two volumes and moving one of them",
    "spheres and cylinders are shared between the volumes they were added to", """
import numpy as np
from czone.volume import Volume, Sphere
from czone.transform import Translation
s = Sphere(radius=1.0, center=np.zeros(3))
a, b = Volume(alg_objects=[s]), Volume(alg_objects=[s])
a.transform(Translation([5., 0, 0]))
assert b.checkIfInterior(np.zeros((1, 3)))[0], "moving one volume moved the other"
""")
bug("c14-gen-shallow", "C14", V, [("        new_generator = copy.deepcopy(generator)\n", "        new_generator = copy.copy(generator)\n")],
    "one generator handed to two volumes, one of which is moved jointly",
    "volumes share the lattice of the generator they were given", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.transform import Translation
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
a, b = Volume(points=makeRectPrism(2, 2, 2), generator=g), Volume(points=makeRectPrism(2, 2, 2), generator=g)
a.transform(Translation([.25, 0, 0]))
b.populate_atoms()
assert np.allclose(b.atoms[:, 0] % 1, .5), b.atoms
""")
bug("c15-track-early", "C15", M, [("            point = np.array(point).ravel()\n            assert(point.shape == (3,))\n            self._origin_tracking = False\n",
     "            self._origin_tracking = False\n            point = np.array(point).ravel()\n            assert(point.shape == (3,))\n")],
    "a molecule tracking an atom that is given an origin point of the wrong shape",
    "the rejected edit already stopped the origin from following its atom", """
import numpy as np
from czone.molecule.molecule import Molecule
from czone.transform import Translation
m = Molecule([6, 8], [[0, 0, 0.], [1, 0, 0]], origin=1)
m.print_warnings = False
try:
    m.set_origin(point=np.zeros(4))
except AssertionError:
    pass
m.transform(Translation([0, 0, 2.]))
assert np.allclose(m.origin, [1, 0, 2]), m.origin
""")

bug("c04-sphere-origin", "C04", T, [("                    (alg_object.center - self.origin).T).T + self.origin\n", "                    (alg_object.center - self.origin).T).T + alg_object.center\n")],
    "a sphere turned about an origin which is not its centre",
    "after a turn about an origin the sphere is put relative to its old centre instead of the origin", """
import numpy as np
from czone.volume import Sphere
from czone.transform import Rotation, rot_v
s = Sphere(radius=1.0, center=np.array([2., 0, 0]))
R = Rotation(rot_v([0, 0, 1], np.pi / 2), origin=np.array([1., 0, 0]))
assert np.allclose(R.applyTransformation_alg(s).center, [1, 1, 0]), s.center
""")
bug("c04-seq-alg", "C04", T, [("        for t in self.transforms:\n            alg_object = t.applyTransformation_alg(alg_object)\n",
     "        for t in sorted(self.transforms, key=lambda t: isinstance(t, Reflection)):\n            alg_object = t.applyTransformation_alg(alg_object)\n")],
    "a sequence in which a reflection is followed by another kind of map",
    "reflections of a sequence are applied to surfaces last, to points in order", """
import numpy as np
from czone.volume import Plane
from czone.transform import Reflection, Translation, MultiTransform
mt = MultiTransform([Reflection(Plane([1, 0, 0], [0, 0, 0])), Translation([2., 0, 0])])
p = Plane([1, 0, 0], [1., 0, 0])
x = np.array([[0.5, 0, 0], [1.5, 0, 0]])
before = p.checkIfInterior(x)
q = p.from_alg_object(transformation=[mt])
assert list(before) == list(q.checkIfInterior(mt.applyTransformation(x)))
""")
bug("c05-small-sphere", "C05", V, [("                shift = spheres[s_idx].center - (d / 2) * np.ones(3)\n", "                shift = spheres[s_idx].center - (np.min([s.radius for s in spheres]) + spheres[0].tol) * np.ones(3)\n")],
    "a volume bounded by two spheres of different tolerance, the bigger one first",
    "the box around the smallest sphere is shifted by the tolerance of the first one, so sites in the padding are lost", """
import numpy as np
from czone.volume import Volume, Sphere
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = Volume(alg_objects=[Sphere(6.0, np.array([0.5, 0.5, 0.5]), tol=1e-6), Sphere(3.0, np.array([.1, 0, 0]), tol=1.5)], generator=g)
v.populate_atoms()
r = np.arange(-9, 10)
grid = np.array(np.meshgrid(r, r, r)).reshape(3, -1).T
want = int(np.sum(v.checkIfInterior(grid)))
assert len(v.atoms) == want, (len(v.atoms), want)
""")
