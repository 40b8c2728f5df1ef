AM, ME, MI = "czone/generator/amorphous_algorithms.py", "czone/util/measure.py", "czone/util/misc.py"
G, PO, AD, AL = "czone/generator/generator.py", "czone/transform/post.py", "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py"
PF, WU, A, S, V, VZ, T = "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/volume/algebraic.py", "czone/scene/scene.py", "czone/volume/volume.py", "czone/viz/viz.py", "czone/transform/transform.py"

SEP = '''
import numpy as np
def mind(c, dims):
    d = np.abs(c[:, None] - c[None])
    for k in (0, 1):
        d[..., k] = np.minimum(d[..., k], dims[k] - d[..., k])
    d = np.sqrt((d**2).sum(-1)) + 1e9 * np.eye(len(c))
    return d.min()
'''
bug("c16-top-neighbour", "C16", AM, [("                if (k < num_blocks[2] - 1):\n", "                if (k < num_blocks[2] - 2):\n")],
    "an atom drawn in the last but one layer of voxels after one in the last layer, close by",
    "the last layer of voxels is not compared with when an atom lands in the layer below it", SEP + '''
from czone.generator.amorphous_algorithms import gen_p_substrate
dims = np.array([6., 6, 7])
for seed in range(30):
    c = gen_p_substrate(dims, min_dist=1.6, density=.1, seed=seed)
    assert mind(c, dims) >= 1.6 - 1e-9, (seed, mind(c, dims))
''')
bug("c16-batch-pairs", "C16", AM, [("            for j in range(i):\n", "            for j in range(i - 1):\n")],
    "two consecutive accepted candidates of one batch in neighbouring voxels",
    "an accepted candidate is not compared with the one just before it in its batch", SEP + '''
from czone.generator.amorphous_algorithms import gen_p_substrate_batched
dims = np.array([14., 14, 14])
for seed in range(20):
    c = gen_p_substrate_batched(dims, min_dist=1.5, density=.08, seed=seed, batch_size=16)
    assert mind(c, dims) >= 1.5 - 1e-9, (seed, mind(c, dims))
''')
bug("c17-keep", "C17", G, [("            self._old_result = (coords, np.ones(coords.shape[0]) * self.species)\n            return self.old_result\n",
     "            result = (coords, np.ones(coords.shape[0]) * self.species)\n            if self._old_result is None:\n                self._old_result = result\n            return result\n")],
    "two supplies without reuse, then a supply with reuse turned on",
    "reuse returns the first result ever generated instead of the previous one", """
import numpy as np
from czone.generator import AmorphousGenerator
g = AmorphousGenerator()
box = lambda a: a * np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)])
g.supply_atoms(box(5))
p, _ = g.supply_atoms(box(7))
g.use_old_result = True
q, _ = g.supply_atoms(box(9))
assert q.shape == p.shape and np.allclose(p, q)
""")
bug("c18-mask-last", "C18", MI, [("        idx.mask = np.logical_or(idx.mask, np.abs(idx.data - splits[-1]) < m)\n", "        idx.mask = np.logical_or(idx.mask, np.abs(idx.data - splits[0]) < m) if len(splits) > 3 else np.logical_or(idx.mask, np.abs(idx.data - splits[-1]) < m)\n")],
    "five or more positions requested", "from the fourth position on, the separation to it is not kept", """
from czone.util.misc import get_N_splits
for seed in range(200):
    s = get_N_splits(5, 3, 40, seed=seed)
    assert min(b - a for a, b in zip(s, s[1:])) >= 3, s
""")
bug("c19-zface", "C19", ME, [("    zf_face = (idx // (dim[0] * dim[1]) == dim[2] - 1)[:, None]\n", "    zf_face = (idx // (dim[0] * dim[0]) == dim[2] - 1)[:, None]\n")],
    "a grid with different numbers of voxels along x and y, open along z",
    "the top layer is found wrongly unless the grid is square, so voxels wrap around the open axis", """
import numpy as np
from czone.util.measure import get_voxel_grid
dim = (3, 4, 5)
nb = get_voxel_grid(dim, True, True, False)
z = lambda i: i // 12
for i, s in enumerate(nb):
    assert all(abs(z(j) - z(i)) <= 1 for j in s), (i, sorted(s))
""")
bug("c19-yedge", "C19", ME, [("    be = ((ind // dim[0]) % dim[1]) == (dim[1]-1)\n", "    be = ((ind // dim[1]) % dim[1]) == (dim[1]-1)\n")],
    "a grid with different numbers of voxels along x and y, periodic along y",
    "the last row along y is found wrongly unless the grid is square, so wrapping goes to the wrong voxel", """
from czone.util.measure import get_voxel_grid
dim = (2, 3, 4)
nb = get_voxel_grid(dim, True, True, True)
f = lambda i: (i % 2, (i // 2) % 3, i // 6)
d = lambda a, b, n: min((a - b) % n, (b - a) % n)
for i, s in enumerate(nb):
    want = {j for j in range(24) if all(d(a, b, n) <= 1 for a, b, n in zip(f(i), f(j), dim))}
    assert set(s) == want, (i, s)
""")
bug("c20-strides", "C20", ME, [("    Nt = np.array([1, N[0], N[0] * N[1]])\n", "    Nt = np.array([1, N[0], N[0] * N[0]])\n")],
    "coordinates that span a different number of cutoffs along x and y",
    "atoms are put into the wrong boxes unless the grid is square, so pairs below the cutoff are lost", """
import numpy as np
from czone.util.measure import calc_rdf
c = np.random.default_rng(1).random((60, 3)) * [9, 21, 14]
c[0], c[1] = 0, [9, 21, 14]
h = calc_rdf(c.copy(), cutoff=4.0, px=False, py=False, pz=False)
d = np.linalg.norm(c[:, None] - c[None], axis=-1)[~np.eye(60, dtype=bool)]
w = np.histogram(d, bins=40, range=(0, 4.0))[0]
assert np.array_equal(h, w), (h.sum(), w.sum())
""")
bug("c20-cols", "C20", ME, [("    sdims = np.array(dims)[cols]\n", "    sdims = np.array(dims)[:len(cols)]\n")],
    "periodic axes other than the first ones, in a box with unequal sides",
    "the periods of the first axes are used instead of those of the periodic axes", """
import numpy as np
from czone.util.measure import get_sdist_fun
f = get_sdist_fun((4., 6., 10.), px=False, py=True, pz=True)
a, b = np.array([[[1.], [.5], [.5]]]), np.array([[[2.], [5.5], [9.]]])
assert np.allclose(f(a, b), 1 + 1 + 1.5**2), f(a, b)
""")
bug("c21-chain", "C21", PO, [("            t_filter = species == t\n", "            t_filter = out_species == t\n")],
    "a substitution list in which one pair's substitute is another pair's target",
    "an atom already substituted is substituted again by a later pair", """
import numpy as np
from czone.transform.post import ChemicalSubstitution
c = ChemicalSubstitution([6, 7], [7, 8], 1.0)
p, s = c.apply_function(np.zeros((3, 3)), np.array([6, 7, 6]))
assert list(s) == [7, 8, 7], s
""")
bug("c23-mask-reset", "C23", AD, [("            tmp_mask[val] = True\n            valid_indices = np.logical_and(valid_indices, tmp_mask)\n", "            tmp_mask[val] = True\n            valid_indices = tmp_mask\n")],
    "an index filter combined with an earlier filter, or naming an atom below the surface",
    "an index filter replaces the filters before it and the restriction to the surface", """
import numpy as np
from czone.surface.adsorbate import add_adsorbate
from czone.molecule.molecule import Molecule
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_unit_cell(Z=[6, 14], coords=np.array([[0.1, 0.13, 0.17], [.6, .63, .67]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(16, 16, 16), generator=g)
v.populate_atoms()
mol = Molecule([8, 1], [[0, 0, 0.], [0, 0, 1]])
for seed in range(6):
    m, tgt, *_ = add_adsorbate(mol, 0, 1.5, v, filters={"element": [6], "indices": np.arange(len(v.atoms))}, seed=seed, debug=True, use_sampling=False)
    assert v.species[tgt] == 6, (seed, v.species[tgt])
""")
bug("c23-orient", "C23", AD, [("    m_vec = mol_out.orientation @ mol_vector\n", "    m_vec = mol_vector\n")],
    "a molecule whose orientation is not the identity",
    "the molecule's own orientation is ignored when its bonding direction is turned onto the normal", """
import numpy as np
from czone.surface.adsorbate import add_adsorbate
from czone.molecule.molecule import Molecule
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.1, 0.13, 0.17]]), cellDims=[3, 3, 3], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(12, 12, 12), generator=g)
v.populate_atoms()
R = np.array([[0, 0, 1.], [1, 0, 0], [0, 1, 0]])
mol = Molecule([8, 1], np.array([[0, 0, 0], R @ [0, 0, 1.]]), orientation=R)
for seed in range(3):
    m, tgt, *_ = add_adsorbate(mol, 0, 1.5, v, seed=seed, debug=True, use_sampling=False)
    n = (m.atoms[0] - v.atoms[tgt]) / 1.5
    assert np.allclose(m.atoms[1] - m.atoms[0], n, atol=1e-6), seed
""")
bug("c24-burgers", "C24", PF, [("                burger = twin_last * gen_tmp.voxel.sbases @ (\n", "                burger = gen_tmp.voxel.sbases @ (\n")],
    "a stacking fault above an odd number of twins",
    "the shift of a stacking fault inside a twinned part has the wrong sense and puts like layers on top of each other", """
import numpy as np
from czone.prefab import fccMixedTwinSF
from czone.generator import Generator
from czone.volume import Volume, Sphere
g = Generator.from_spacegroup(Z=[29], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90], sgn=225)
v = Volume(alg_objects=[Sphere(radius=18.0, center=np.zeros(3))])
nn = 4 / np.sqrt(2)
for seed in range(12):
    np.random.seed(seed)
    o = fccMixedTwinSF(generator=g, volume=v, N=3, ratio=.5).build_object()
    o.populate_atoms()
    d = np.linalg.norm(o.atoms[:, None].astype(np.float32) - o.atoms[None].astype(np.float32), axis=-1) + 99 * np.eye(len(o.atoms), dtype=np.float32)
    assert d.min() > nn - .05, (seed, d.min())
""")
bug("c24-twin-flag", "C24", PF, [("                twin_last *= -1\n", "                twin_last = -1\n")],
    "a stacking fault above an even number (two or more) of twins",
    "after two twins the sense of later stacking faults is still reversed", """
import numpy as np
from czone.prefab import fccMixedTwinSF
from czone.generator import Generator
from czone.volume import Volume, Sphere
g = Generator.from_spacegroup(Z=[29], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90], sgn=225)
v = Volume(alg_objects=[Sphere(radius=18.0, center=np.zeros(3))])
nn = 4 / np.sqrt(2)
for seed in range(30):
    np.random.seed(seed)
    o = fccMixedTwinSF(generator=g, volume=v, N=4, ratio=.4).build_object()
    o.populate_atoms()
    d = np.linalg.norm(o.atoms[:, None].astype(np.float32) - o.atoms[None].astype(np.float32), axis=-1) + 99 * np.eye(len(o.atoms), dtype=np.float32)
    assert d.min() > nn - .05, (seed, d.min())
""")
bug("c28-cell", "C28", S, [("        cell_dims = self.bounds[1, :] - self.bounds[0, :]\n", "        cell_dims = self.bounds[1, :] - np.min([self.bounds[0, :], np.zeros(3)], axis=0)\n")],
    "scene bounds whose lower corner is positive", "the cell of a scene with a positive lower bound is too large", """
import numpy as np
from czone.scene import Scene
from czone.molecule.molecule import Molecule
s = Scene(bounds=np.array([[1., 2, 3], [11, 12, 13]]), objects=[Molecule([6], [[5, 5, 5.]])])
s.populate()
assert np.allclose(s.ase_atoms.cell.lengths(), 10), s.ase_atoms.cell.lengths()
""")
bug("c28-kwargs", "C28", V, [("        ase_write(filename=fname, images=self.ase_atoms, **kwargs)\n", "        ase_write(fname, self.ase_atoms, format=kwargs.get(\"format\"))\n")],
    "writing a volume with writer options other than the format", "options given for writing a volume are dropped", """
import numpy as np, tempfile, os
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(2, 2, 2), generator=g)
v.populate_atoms()
with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, "a.xyz")
    v.to_file(f, format="xyz", comment="hello")
    assert "hello" in open(f).read().splitlines()[1]
""")
bug("c29-cur-seed", "C29", AD, [("        cur_seed = rng.integers(0,10000,1)[0]\n", "        cur_seed = np.random.randint(0,10000)\n")],
    "a seeded adsorbate placement repeated in another state of the global generator",
    "the normal search of a seeded placement draws from the global generator", """
import numpy as np
from czone.surface.adsorbate import add_adsorbate
from czone.molecule.molecule import Molecule
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.1, 0.13, 0.17]]), cellDims=[3, 3, 3], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(12, 12, 12), generator=g)
v.populate_atoms()
mol = Molecule([8, 1], [[0, 0, 0.], [0, 0, 1]])
out = []
for k in range(4):
    np.random.seed(k)
    m, _ = add_adsorbate(mol, 0, 1.5, v, seed=5)
    out.append(m.atoms)
assert all(np.allclose(out[0], x, atol=1e-9) for x in out)
""")