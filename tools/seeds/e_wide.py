AM, ME, MI = "czone/generator/amorphous_algorithms.py", "czone/util/measure.py", "czone/util/misc.py"
G, PO, AD, AL = "czone/generator/generator.py", "czone/transform/post.py", "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py"
PF, WU, A, S, V, VZ, T = "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/volume/algebraic.py", "czone/scene/scene.py", "czone/volume/volume.py", "czone/viz/viz.py", "czone/transform/transform.py"
M, ST, X = "czone/molecule/molecule.py", "czone/transform/strain.py", "czone/volume/voxel.py"

bug("c31-radius-sticks", "C31", A, [("        if radius > 0.0:\n            self._radius = radius\n", "        self._radius = radius\n        if radius > 0.0:\n            return\n")],
    "setting a refused radius, catching the error, using the sphere", "a refused radius replaces the previous one", """
import numpy as np
from czone.volume import Sphere
s = Sphere(2., [0, 0, 0])
try:
    s.radius = -5.
    raise SystemExit("accepted")
except ValueError:
    pass
assert s.radius == 2. and not s.checkIfInterior(np.array([[3., 0, 0]]))[0]
""")
bug("c31-voxel-scale-first", "C31", X, [("        try:\n            self.bases * np.array(scale)\n", "        try:\n            self._scale = np.array(scale)\n            self.bases * self._scale\n")],
    "a refused scale, the error caught, the voxel used afterwards", "a scale of the wrong shape is stored before it is refused", """
import numpy as np
from czone.volume import Voxel
v = Voxel(scale=np.array([2.]))
try:
    v.scale = np.array([1., 2.])
    raise SystemExit("accepted")
except ValueError:
    pass
assert np.allclose(v.sbases, 2 * np.eye(3))
""")
bug("c32-strain-lost", "C32", G, [("        if self.strain_field is None:\n            return out_coords, species\n        else:\n            self.strain_field.scrape_params(self)\n            return self.strain_field.apply_strain(out_coords), species\n",
     "        field, self._strain_field = self._strain_field, None\n        if field is None:\n            return out_coords, species\n\n        field.scrape_params(self)\n        out_coords = field.apply_strain(out_coords)\n        self._strain_field = field\n        return out_coords, species\n")],
    "a user's strain function raising once", "an exception in the strain function leaves the generator unstrained", """
import numpy as np
from czone.generator import Generator
from czone.transform import IStrain
state = dict(fail=False)
def fun(x, **k):
    if state["fail"]:
        raise RuntimeError("once")
    return x * 1.1
g = Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90], strain_field=IStrain(fun, mode="standard"))
box = np.array([[0., 0, 0], [6, 6, 6]])
want = g.supply_atoms(box)[0]
state["fail"] = True
try:
    g.supply_atoms(box)
    raise SystemExit("swallowed")
except RuntimeError:
    pass
state["fail"] = False
assert g.strain_field is not None and np.allclose(g.supply_atoms(box)[0], want)
""")
bug("c32-atoms-early", "C32", V, [("        coords, species = self.generator.supply_atoms(bbox)\n        check = self.checkIfInterior(coords)\n\n        self._atoms = coords[check, :]\n        self._species = species[check]\n",
     "        self._atoms, self._species = self.generator.supply_atoms(bbox)\n        check = self.checkIfInterior(self._atoms)\n\n        self._atoms = self._atoms[check, :]\n        self._species = self._species[check]\n")],
    "populating cut short while atoms are tested against a surface", "the untrimmed block of atoms is left in the volume", """
import numpy as np
from czone.generator import Generator
from czone.volume import Volume, Sphere
class Shy(Sphere):
    fail = False
    def checkIfInterior(self, p):
        if Shy.fail:
            raise RuntimeError("once")
        return super().checkIfInterior(p)
v = Volume(alg_objects=[Shy(4., [0, 0, 0])], generator=Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90]))
v.populate_atoms()
n = len(v.atoms)
Shy.fail = True
try:
    v.populate_atoms()
    raise SystemExit("swallowed")
except RuntimeError:
    pass
assert len(v.atoms) == n
""")
bug("c33-round", "C33", G, [("                                              coords=coords)\n", "                                              coords=np.round(coords, 3))\n")],
    "special positions at thirds of the cell", "sites on threefold axes are taken for general ones", """
import numpy as np
from czone.generator import Generator
g = Generator.from_spacegroup([30], [[1 / 3, 2 / 3, 0]], [3., 3, 5], [90, 90, 120], sgn=186)
assert len(g.coords) == 2, len(g.coords)
""")
bug("c33-merge", "C33", G, [("                                              species=Z,\n", "                                              species=Z, tol=0.05,\n")],
    "a site within a few hundredths of a symmetry element", "nearby symmetric sites are merged into one", """
import numpy as np
from czone.generator import Generator
g = Generator.from_spacegroup([14], [[.48, .31, .17]], [9., 8, 11], [90, 90, 90], sgn=47)
assert len(g.coords) == 8, len(g.coords)
""")
bug("c34-group-priority", "C34", V, [("        return MultiVolume(volumes=new_vols, priority=self.priority)\n", "        return MultiVolume(volumes=new_vols, priority=kwargs.get(\"priority\", self.priority))\n")],
    "a group copied with a priority for its members", "the priority given for the members becomes that of the group as well", """
import numpy as np
from czone.volume import Volume, MultiVolume, Sphere
m = MultiVolume([Volume(alg_objects=[Sphere(4., [0, 0, 0])])], priority=2)
c = m.from_volume(priority=5)
assert c.priority == 2 and c.volumes[0].priority == 5
""")
bug("c34-origin-zero", "C34", V, [("            if 'gen_origin' in kwargs:\n", "            if np.any(kwargs.get('gen_origin')):\n")],
    "moving the lattice of a generator back to the origin with gen_origin", "an origin of zero counts as not given", """
import numpy as np
from czone.generator import Generator
from czone.volume import Volume, Sphere
g = Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90], origin=np.array([1., 1, 1]))
v = Volume(alg_objects=[Sphere(4., [0, 0, 0])], generator=g, gen_origin=np.zeros(3))
assert np.allclose(v.generator.origin, 0)
""")
bug("c34-molecule-origin", "C34", M, [("                new_molecule.transform(t)\n", "                new_molecule.transform(t, transform_origin=not t.basis_only)\n")],
    "copying a molecule with a transformation marked for the basis only", "the origin of the copy stays behind while its atoms move", """
import numpy as np
from czone.molecule import Molecule
from czone.transform import Translation
m = Molecule([6, 8], [[0, 0, 0], [0, 0, 1.1]], origin=[1., 0, 0])
n = m.from_molecule(transformation=[Translation([1, 2, 3], basis_only=True)])
k = m.from_molecule()
k.transform(Translation([1, 2, 3], basis_only=True))
assert np.allclose(n.atoms, k.atoms) and np.allclose(n.origin, k.origin) and np.allclose(n.origin, [2, 2, 3])
""")
bug("c34-alg-reuse", "C34", A, [("                new_alg_object = t.applyTransformation_alg(new_alg_object)\n", "                new_alg_object = t.applyTransformation_alg(copy.deepcopy(self))\n")],
    "copying a surface with two transformations or more", "only the last transformation reaches the copy", """
import numpy as np
from czone.volume import Sphere
from czone.transform import Translation
s = Sphere(1., [0, 0, 0]).from_alg_object(transformation=[Translation([1, 0, 0]), Translation([0, 2, 0])])
assert np.allclose(s.center, [1, 2, 0])
""")
bug("c34-min-kw", "C34", G, [("        return cls(structure=structure, **kwargs)\n", "        return cls(kwargs.get(\"origin\"), structure, kwargs.get(\"strain\"))\n", 1)],
    "building from a unit cell with a strain field", "the strain field is dropped", """
import numpy as np
from czone.generator import Generator
from czone.transform import HStrain
g = Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90], strain_field=HStrain([1.1, 1, 1]))
assert g.strain_field is not None
""")
bug("c02-scaled-bases", "C02", G, [("        self.voxel.bases = transformation.applyTransformation_bases(\n            self.voxel.bases)\n", "        self.voxel.bases = transformation.applyTransformation_bases(\n            self.voxel.sbases)\n")],
    "a generator with a scaled voxel being transformed", "the scale is applied once more with every transformation", """
import numpy as np
from czone.generator import Generator
from czone.transform import Translation
g = Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90])
g.voxel.scale = 1.5
g.transform(Translation([0, 0, 0]))
assert np.allclose(g.voxel.sbases, 4.5 * np.eye(3))
""")
bug("c03-cylinder-pad", "C03", A, [("        length_check = length_dists < self.length/2.0 + self.tol\n", "        length_check = length_dists < (self.length + self.tol)/2.0\n")],
    "a cylinder with a tolerance that matters and a point just beyond a cap", "the caps are padded by half the tolerance", """
import numpy as np
from czone.volume import Cylinder
assert Cylinder([0, 0, 1], [0, 0, 0], 5., 8., tol=.1).checkIfInterior(np.array([[1., 0, 4.08]]))[0]
""")
bug("c18-last-slot", "C18", MI, [("    splits = [rng.integers(m, l - m)]\n", "    splits = [rng.integers(m, max(l - m - 1, m + 1))]\n", 0)],
    "a request whose only selections need the last admissible position first", "the first draw never is the last admissible position (and a draw may never end)", """
import numpy as np
from czone.util.misc import get_N_splits
seen = {get_N_splits(1, 2, 8, seed=i)[0] for i in range(300)}
assert seen == {2, 3, 4, 5}, seen
""")
bug("c21-shared-draw", "C21", PO, [("        for t, s in zip(self.target, self.substitute):\n            t_filter = species == t\n            t_probs = rng.uniform(0,1,size=species.shape)\n", "        t_probs = rng.uniform(0,1,size=species.shape)\n        for t, s in zip(self.target, self.substitute):\n            t_filter = out_species == t\n")],
    "a substitute that is itself a target listed later", "atoms just substituted are substituted again", """
import numpy as np
from czone.transform import ChemicalSubstitution
c = ChemicalSubstitution([8, 16], [16, 34], 1.)
_, z = c.apply_function(np.zeros((4, 3)), np.array([8, 16, 8, 1]))
assert z.tolist() == [16, 34, 16, 1], z
""")
bug("c25-top-priority", "C25", PF, [("            new_vol.add_alg_object(plane_tmp)\n            new_vol.priority = self.N - (i + 1)\n", "            new_vol.add_alg_object(plane_tmp)\n            new_vol.priority = max(self.N - (i + 1), 1)\n", 1)],
    "two faults or more", "the last two grains get the same priority", """
import numpy as np
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
from czone.prefab import wurtziteStackingFault
g = Generator.from_unit_cell([30, 30, 8, 8], [[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .375], [2/3, 1/3, .875]], [3.2, 3.2, 5.2], [90, 90, 120])
o = wurtziteStackingFault(generator=g, volume=Volume(points=makeRectPrism(8, 8, 60)), N=3, min_sep=3)
np.random.seed(0)
assert sorted(v.priority for v in o.build_object().volumes) == [0, 1, 2, 3]
""")
bug("c13-int-wrap", "C13", A, [("    miller_indices = np.array(miller_indices)\n", "    miller_indices = np.array(miller_indices) // np.gcd.reduce(np.abs(miller_indices))\n")],
    "indices with a common factor, e.g. (0, 0, 2)", "the denser family of a multiple is replaced by the primitive one", """
import numpy as np
from czone.generator import Generator
from czone.volume import snap_plane_near_point
g = Generator.from_unit_cell([29], [[0, 0, 0]], [4., 4, 4], [90, 90, 90])
p = snap_plane_near_point(np.array([0., 0, 2.1]), g, (0, 0, 2))
assert abs(p.sdist_from_plane(np.array([0, 0, 2.]))) < 1e-9
""")
bug("c27-few-planes", "C27", A, [("        return np.empty((0,3)), res.status\n", "        return np.empty((0,3)), res.status if len(planes) > 4 else 3\n")],
    "at most four planes that exclude each other", "empty regions of few planes are reported as unbounded", """
import numpy as np
from czone.volume import Plane, get_bounding_box
P = [Plane(n, p) for n, p in (([1, 0, 0], [0, 0, 0]), ([-1, 0, 0], [5, 0, 0]))]
assert get_bounding_box(P)[1] == 2
""")
bug("c28-cell-abs", "C28", S, [("        cell_dims = self.bounds[1, :] - self.bounds[0, :]\n", "        cell_dims = self.bounds[1, :] - np.minimum(self.bounds[0, :], 0)\n")],
    "scene bounds that begin at positive coordinates", "the exported cell is too large", """
import numpy as np
from czone.generator import Generator
from czone.scene import Scene
from czone.volume import Volume, Sphere
s = Scene(bounds=np.array([[1., 2, 3], [9, 9, 9]]), objects=[Volume(alg_objects=[Sphere(4., [5, 5, 5])], generator=Generator.from_unit_cell([29], [[0, 0, 0]], [3., 3, 3], [90, 90, 90]))])
s.populate()
assert np.allclose(s.ase_atoms.cell.lengths(), [8, 7, 6])
""")
bug("c11-point-fixed", "C11", T, [("    R_t = Rotation(matrix=R, origin=M_plane.point)\n", "    R_t = Rotation(matrix=R, origin=M_plane.project_point(np.zeros(3)))\n")],
    "planes represented by a point other than the foot of the origin", "the rotation is about another point than the shift assumes", """
import numpy as np
from czone.volume import Plane
from czone.transform import s2s_alignment
m, t = Plane([1, 2, 0], [3., 1, 4]), Plane([0, 0, 1], [1., 1, 7])
x = s2s_alignment(m, t, np.array([3., 1, 4]), np.array([2., 2, 9]))
p = x.applyTransformation(m.point[None])
assert abs(t.sdist_from_plane(p)[0]) < 1e-9, p
""")
