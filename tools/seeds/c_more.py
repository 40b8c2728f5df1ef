AM, ME, MI = "czone/generator/amorphous_algorithms.py", "czone/util/measure.py", "czone/util/misc.py"
G, PO, AD, AL = "czone/generator/generator.py", "czone/transform/post.py", "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py"
PF, WU, A, S, V, VZ, T = "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/volume/algebraic.py", "czone/scene/scene.py", "czone/volume/volume.py", "czone/viz/viz.py", "czone/transform/transform.py"
M, ST, X = "czone/molecule/molecule.py", "czone/transform/strain.py", "czone/volume/voxel.py"

bug("c18-reseed", "C18", MI, [("            splits = [rng.integers(m, l - m)]\n            idx.mask = np.abs(idx.data - splits[-1]) < m\n", "            splits = splits[:1]\n            idx.mask = np.abs(idx.data - splits[-1]) < m\n")],
    "a first draw after which the remaining positions cannot be placed",
    "a dead end is retried with the same first position, so drawing never ends for some first draws", """
import signal
from czone.util.misc import get_N_splits
signal.alarm(20)
for seed in range(40):
    s = get_N_splits(2, 3, 10, seed=seed)
    assert s == [3, 6], s
""")
bug("c21-order", "C21", G, [("        if self.post_transform is not None:\n            # apply", "        if self.post_transform is not None and self.strain_field is None:\n            # apply")],
    "a generator with both a strain field and a post-transformation",
    "the post-transformation is skipped when the generator is strained", """
import numpy as np
from czone.generator import Generator
from czone.transform import HStrain
from czone.transform.post import ChemicalSubstitution
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90])
g.strain_field = HStrain(matrix=[1.01, 1, 1])
g.post_transform = ChemicalSubstitution([6], [14], 1.0)
_, s = g.supply_atoms(5 * np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)]))
assert set(s) == {14}, set(s)
""")
bug("c29-falsy", "C29", MI, [("    rng = np.random.default_rng(seed=seed)\n", "    rng = np.random.default_rng(seed=seed if seed else None)\n")],
    "seed 0", "seed 0 is taken as no seed", """
from czone.util.misc import get_N_splits
a = [get_N_splits(4, 3, 500, seed=0) for _ in range(3)]
assert a[0] == a[1] == a[2], a
""")
CLOUD = '''
import numpy as np
from scipy.spatial import Delaunay
from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling
def expect(p, r):
    t = Delaunay(p)
    q = p[t.simplices]
    a = q[:, 1:] - q[:, :1]
    c = np.linalg.solve(2 * a, (a**2).sum(-1)[..., None])[..., 0]
    ok = np.linalg.norm(c, axis=1) <= r
    outer = (t.neighbors < 0).any(1)
    s = set()
    for i, (v, n) in enumerate(zip(t.simplices, t.neighbors)):
        if ok[i] and (outer[i] or any(m >= 0 and not ok[m] and outer[m] for m in n)):
            for k in range(4):
                if n[k] < 0 or not ok[n[k]]:
                    s |= set(np.delete(v, k))
    return s, c
'''
bug("c25-bz-global", "C25", PF, [("        bz = (0.5)*self.generator.voxel.sbases @ np.array([0, 0, -1])\n", "        bz = (0.5)*self.generator.structure.lattice.matrix.T @ np.array([0, 0, -1])\n")],
    "a generator that has been rotated", "the shift along the c axis is taken along the unrotated crystal's axis", """
import numpy as np
from czone.prefab import wurtziteStackingFault
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
from czone.transform import Rotation, rot_v
g = Generator.from_unit_cell(Z=[30, 30, 8, 8], coords=np.array([[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .375], [2/3, 1/3, .875]]), cellDims=[3.25, 3.25, 5.2], cellAngs=[90, 90, 120])
R = Rotation(rot_v([1, .3, 0], 1.1))
g.transform(R)
v = Volume(points=R.applyTransformation(makeRectPrism(16, 16, 50)))
for seed in range(4):
    np.random.seed(seed)
    o = wurtziteStackingFault(generator=g, volume=v, N=1).build_object()
    o.populate_atoms()
    h = np.sort(o.atoms @ (R.matrix @ [0, 0, 1]))
    assert np.diff(h).max() < 2.2, np.diff(h).max()
""")
bug("c26-natoms-stale", "C26", WU, [("            self._natoms = int(val)\n        except:\n", "            self._natoms = max(int(val), getattr(self, '_natoms', 0))\n        except:\n")],
    "reducing the number of atoms of an existing construction", "the number of atoms of a construction can only grow", """
import numpy as np
from czone.prefab import WulffSingle
from czone.generator import Generator
g = Generator.from_spacegroup(Z=[29], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90], sgn=225)
w = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): 1.1}, natoms=2000)
w.get_construction()
w.natoms = 300
v = w.get_construction()
v.populate_atoms()
assert 150 < len(v.atoms) < 500, len(v.atoms)
""")
bug("c26-octo", "C26", WU, [("        energies = {(1, 0, 0): 1.0, (1, 1, 1): 1.15}\n", "        energies = {(1, 0, 0): 1.15, (1, 1, 1): 1.15}\n")],
    "the cuboctohedron", "the cuboctohedron is built with equal energies for both facets", """
import numpy as np
from czone.prefab import WulffSingle
from czone.generator import Generator
g = Generator.from_spacegroup(Z=[29], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90], sgn=225)
v = WulffSingle.cuboctohedron(g, 500)
d = {}
for p in v.alg_objects:
    d.setdefault(int(np.sum(np.abs(p.normal) > 1e-6)), []).append(float(np.dot(p.normal, p.point)))
assert np.allclose(np.array(d[3]) / d[1][0], 1.15), d
""")
bug("c26-facet-origin", "C26", WU, [("            Plane(f.normal, f.normal * f.distance_from_origin)\n            for f in wulff._yield_facets()\n", "            Plane(f.normal, np.mean(f.vertices, axis=0) if len(f.vertices) else f.normal)\n            for f in wulff._yield_facets()\n            if f.area > 1e-3 * wulff.area\n")],
    "an energy for which a facet is only just exposed", "facets with a tiny area are left out, so the shape sticks out where they should cut it", """
import numpy as np
from czone.prefab import WulffSingle
from czone.generator import Generator
g = Generator.from_spacegroup(Z=[29], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90], sgn=225)
e = 3 / np.sqrt(3) * .985
v = WulffSingle(g, {(1, 0, 0): 1.0, (1, 1, 1): float(e)}, natoms=4000).get_construction()
assert len(v.alg_objects) == 14, len(v.alg_objects)
""")
bug("c14-ravel", "C14", M, [("            point = np.array(point).ravel()\n", "            point = np.asarray(point).ravel()\n")],
    "the array an origin was set from being written to afterwards (for instance the molecule's own positions)",
    "an origin set from an array follows later changes of that array", """
import numpy as np
from czone.molecule.molecule import Molecule
m = Molecule([6, 8], [[0, 0, 0.], [1, 0, 0]])
o = np.array([1., 2, 3])
m.set_origin(point=o)
o += 5
assert np.allclose(m.origin, [1, 2, 3]), m.origin
""")
bug("c14-mol-alias", "C14", M, [("        positions = np.array(positions)\n        positions = np.reshape(positions, (-1, 3))\n", "        positions = np.asarray(positions)\n        positions = np.reshape(positions, (-1, 3))\n")],
    "the array a molecule was made from being written to afterwards", "a molecule shares its positions with the array it was made from", """
import numpy as np
from czone.molecule.molecule import Molecule
p = np.array([[0, 0, 0.], [1, 0, 0]])
m = Molecule([6, 8], p)
p += 5
assert np.allclose(m.atoms[1], [1, 0, 0]), m.atoms
""")
bug("c14-from-gen", "C14", G, [("        new_generator = copy.deepcopy(self)\n", "        new_generator = copy.copy(self)\n        new_generator.__dict__.update({k: copy.copy(v) for k, v in self.__dict__.items()})\n")],
    "a copied generator with a strain field or composed post-transformation that is edited",
    "a copied generator shares the inside of its parts (strain matrix, list of post-transformations) with the original", """
import numpy as np
from czone.generator import Generator
from czone.transform.post import ChemicalSubstitution, PostSequence
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90])
g.post_transform = PostSequence([ChemicalSubstitution([6], [14], 1.0)])
h = g.from_generator()
g.post_transform.add_transform(ChemicalSubstitution([14], [32], 1.0))
_, s = h.supply_atoms(5 * np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)]))
assert set(s) == {14}, set(s)
""")
bug("c12-origin-zero", "C12", ST, [('        if self.origin_type == "generator":\n            self.origin = np.copy(obj.origin)\n', '        if self.origin_type == "generator" and not np.any(self.origin):\n            self.origin = np.copy(obj.origin)\n')],
    "a strain relative to the generator's origin, populated, then the generator moved", "the strain keeps the first non-zero origin it saw", """
import numpy as np
from czone.generator import Generator
from czone.transform import HStrain, Translation
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90], origin=np.array([1., 0, 0]))
g.strain_field = HStrain(matrix=[1.1, 1, 1])
box = 6 * np.array([[x, y, z] for x in (-1., 1) for y in (-1., 1) for z in (-1., 1)])
g.supply_atoms(box)
g.transform(Translation([1., 0, 0]))
at, _ = g.supply_atoms(box)
assert np.min(np.linalg.norm(at - [4.2, 0, 0], axis=1)) < 1e-6
""")
bug("c07-skip-empty", "C07", S, [("            eidx = offsets[rel_plevels[i] + 1]\n", "            eidx = offsets[rel_plevels[i] + 1] if rel_plevels[i] < 2 else len(self.objects) - 1\n")],
    "four or more objects, the last priority level shared by two of them",
    "from the third priority level on, an object is compared with all objects but the last one", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
g = lambda z: Generator.from_unit_cell(Z=[z], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = lambda x, p, z: Volume(points=makeRectPrism(4, 4, 4) + [x, 0, 0], generator=g(z), priority=p)
s = Scene(objects=[v(100, 0, 3), v(50, 1, 4), v(0, 2, 5), v(2, 2, 6)])
s.populate()
n = {z: int(np.sum(s.all_species == z)) for z in (5, 6)}
assert n == {5: 32, 6: 32}, n
""")
bug("c08-union-first", "C08", V, [("            check = np.logical_or(check, vol.checkIfInterior(testPoints))\n",
     "            todo = np.logical_not(check)\n            check[todo] = vol.checkIfInterior(testPoints[todo])\n            if np.sum(check) >= len(testPoints) - 1:\n                break\n")],
    "a set of query points all but one of which lie in the first members", "the search of a group stops one point early", """
import numpy as np
from czone.volume import Volume, MultiVolume, makeRectPrism
m = MultiVolume([Volume(points=makeRectPrism(2, 2, 2)), Volume(points=makeRectPrism(2, 2, 2) + 10)])
assert list(m.checkIfInterior(np.array([[1., 1, 1], [11, 11, 11]]))) == [True, True]
""")
bug("c03-tol-cyl", "C03", A, [("        length_check = length_dists < self.length/2.0 + self.tol\n", "        length_check = length_dists < (self.length + self.tol)/2.0\n")],
    "a query point just beyond the end of a cylinder, within its tolerance", "the ends of a cylinder are padded by half its tolerance", """
import numpy as np
from czone.volume import Cylinder
c = Cylinder([0, 0, 1], np.zeros(3), 1.0, 4.0, tol=.2)
assert c.checkIfInterior(np.array([[0, 0, 2.15]]))[0]
""")
bug("c17-box-min", "C17", G, [("            self._old_result = (coords, np.ones(coords.shape[0]) * self.species)\n", "            self._old_result = (coords, np.full(coords.shape[0], self.species) if self._old_result is None else np.resize(self._old_result[1], coords.shape[0]))\n")],
    "changing the element of an amorphous generator after it was used", "the element given first sticks after the first supply", """
import numpy as np
from czone.generator import AmorphousGenerator
g = AmorphousGenerator()
box = 5 * np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)])
g.supply_atoms(box)
g.species = 14
_, s = g.supply_atoms(box)
assert set(s) == {14}, set(s)
""")
bug("c01-species", "C01", G, [("        coords = lcoords[:, :, None] + scoords[:, None, :]\n", "        coords = lcoords[:, :, None] + scoords[:, None, np.argsort(scoords[3, :], kind='stable')] if np.all(np.diff(np.array(self.species)) >= 0) else lcoords[:, :, None] + np.vstack([scoords[:3], np.sort(scoords[3])])[:, None, :]\n")],
    "a cell whose sites are not listed in order of element", "elements and positions of a cell are paired in sorted order", """
import numpy as np
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[17, 11], coords=np.array([[0., 0, 0], [.5, .5, .5]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90])
at, z = g.supply_atoms(np.array([[x, y, z] for x in (0., 8) for y in (0., 8) for z in (0., 8)]))
i = np.argmin(np.linalg.norm(at - [4, 4, 4], axis=1))
assert z[i] == 17, z[i]
""")
bug("c11-anti", "C11", T, [("    R = rot_vtv(M_plane.normal, -1.0 * T_plane.normal)\n", "    R = rot_vtv(M_plane.normal, -1.0 * T_plane.normal) if abs(np.dot(M_plane.normal, T_plane.normal)) < 1 - 1e-6 else np.eye(3)\n")],
    "a moving surface whose normal is parallel to the target's", "a surface already parallel to the target is not turned over", """
import numpy as np
from czone.volume import Plane
from czone.transform import s2s_alignment
M, T = Plane([0, 0, 1], [3., 1, 2]), Plane([0, 0, 1], [0, 0, 5.])
M2 = M.from_alg_object(transformation=[s2s_alignment(M, T, np.zeros(3), np.zeros(3))])
assert np.allclose(M2.normal, -T.normal), M2.normal
""")

