AM, ME, MI = "czone/generator/amorphous_algorithms.py", "czone/util/measure.py", "czone/util/misc.py"
G, PO, AD, AL = "czone/generator/generator.py", "czone/transform/post.py", "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py"
PF, WU, A, S, V, VZ, T = "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/volume/algebraic.py", "czone/scene/scene.py", "czone/volume/volume.py", "czone/viz/viz.py", "czone/transform/transform.py"
M, ST, X = "czone/molecule/molecule.py", "czone/transform/strain.py", "czone/volume/voxel.py"

bug("c22-all-neighbours", "C22", AL, [("    neighbor_check = np.any(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1)\n", "    neighbor_check = np.sum(np.logical_and(neighbor_check_0, neighbor_check_1), axis=1) > 1\n", 0)],
    "a cloud whose hull is not reached by small cells, so that a surface cell borders one open cell only",
    "a cell is only on the surface if two of its neighbours can be entered by the probe", """
import numpy as np
from scipy.spatial import Delaunay
from czone.surface.alpha_shape import alpha_shape_alg_3D as f
bad = []
for seed in range(40):
    rng = np.random.default_rng(seed)
    p = np.vstack([rng.random((60, 3)) * 5, [[2.5, 2.5, 90]]])
    t = Delaunay(p)
    c = p[t.simplices]
    A = 2 * (c[:, 1:] - c[:, :1])
    b = (c[:, 1:] ** 2).sum(-1) - (c[:, :1] ** 2).sum(-1)
    r = np.linalg.norm(np.linalg.solve(A, b[..., None])[..., 0] - c[:, 0], axis=1)
    pr = np.median(r)
    if np.abs(r - pr).min() < .02:
        pr = np.sort(r)[len(r) // 2: len(r) // 2 + 2].mean()
    ok = r <= pr
    nb = t.neighbors
    out = (nb < 0).any(1)
    surf = ok & (out | ((~ok[nb]) & out[nb] & (nb >= 0)).any(1))
    exp = set()
    for i in np.nonzero(surf)[0]:
        for k in range(4):
            if nb[i, k] < 0 or not ok[nb[i, k]]:
                exp |= set(np.delete(t.simplices[i], k))
    got = f(p, pr, rng=np.random.default_rng(1))
    bad.append(set(got) != exp)
assert sum(bad) < 5, sum(bad)
""")
bug("c22-outside-two", "C22", AL, [("    outside = np.sum(tri.neighbors >= 0,axis=1) < 4\n", "    outside = np.sum(tri.neighbors > 0,axis=1) < 4\n", 1)],
    "the cell numbered 0 and its neighbours being in the interior of the triangulation", "the neighbours of the first cell count as outer cells", """
import numpy as np
from scipy.spatial import Delaunay
from czone.surface.alpha_shape import alpha_shape_alg_3D_with_sampling as f
bad = []
for seed in range(40):
    rng = np.random.default_rng(seed)
    p = rng.random((60, 3)) * 5
    t = Delaunay(p)
    c = p[t.simplices]
    A = 2 * (c[:, 1:] - c[:, :1])
    b = (c[:, 1:] ** 2).sum(-1) - (c[:, :1] ** 2).sum(-1)
    r = np.linalg.norm(np.linalg.solve(A, b[..., None])[..., 0] - c[:, 0], axis=1)
    pr = np.median(r)
    if np.abs(r - pr).min() < .01:
        pr = np.sort(r)[len(r) // 2: len(r) // 2 + 2].mean()
    ok = r <= pr
    nb = t.neighbors
    out = (nb < 0).any(1)
    surf = ok & (out | ((~ok[nb]) & out[nb] & (nb >= 0)).any(1))
    exp = set()
    for i in np.nonzero(surf)[0]:
        for k in range(4):
            if nb[i, k] < 0 or not ok[nb[i, k]]:
                exp |= set(np.delete(t.simplices[i], k))
    got = f(p, pr, 1, std=1e-9, rng=np.random.default_rng(1))
    bad.append(set(got) != exp)
assert sum(bad) == 0, sum(bad)
""")
bug("c22-dup", "C22", AL, [("        return list(set(out_points)), shape_dict\n", "        return list(out_points), shape_dict\n", 0)],
    "asking for the alpha shape together with the indices", "indices are repeated for atoms shared between surface cells", """
import numpy as np
from czone.surface.alpha_shape import alpha_shape_alg_3D as f
s, _ = f(np.random.default_rng(0).random((20, 3)), 5., return_alpha_shape=True)
assert len(s) == len(set(s))
""")
bug("c27-many", "C27", A, [("        return hs.intersections - shift, res.status\n", "        return hs.intersections[:3 * len(planes) // 2] - shift, res.status\n")],
    "a region in which many planes meet three at a time (more vertices than 3/2 of its planes)", "vertices of many-faced regions are lost", """
import numpy as np
from czone.volume import Plane
from czone.volume.algebraic import get_bounding_box
N = [np.array(v, float) for v in [(1,0,0),(-1,0,0),(0,1,0),(0,-1,0),(0,0,1),(0,0,-1)]]
O = [np.array([a,b,c], float) for a in (1,-1) for b in (1,-1) for c in (1,-1)]
pl = [Plane(n, n) for n in N] + [Plane(n, n * .8) for n in O]
v, st = get_bounding_box(pl)
q = np.unique(np.round(v, 6), axis=0)
assert len(q) == 24, len(q)
""")
VW = '''
import numpy as np, matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
from czone.viz import viz
g = lambda z: Generator.from_unit_cell(Z=[z], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
s = Scene(objects=[Volume(points=makeRectPrism(3, 2, 2), generator=g(6)), Volume(points=makeRectPrism(2, 2, 2) + [5, 0, 0], generator=g(14))], bounds=np.array([[-1., -2, -3], [9, 8, 7]]))
s.populate()
def axes(f, *a, **k):
    plt.close("all")
    f(*a, **k)
    return {x.get_title(): x for x in plt.gcf().axes}
'''
bug("c30-zlim", "C30", VZ, [("    ax_y.set_zlim([bbox[0, 2], bbox[1, 2]])\n", "    ax_y.set_zlim([bbox[0, 1], bbox[1, 2]])\n", 1)],
    "bounds which do not start at the same height along y and z, in the rotatable view", "the XZ panel is cut at the wrong height", VW + """
a = axes(viz.simple_scene_view_with_rotate, s)
assert np.allclose(a["XZ projection"].get_zlim(), [-3, 7]), a["XZ projection"].get_zlim()
""")
bug("c30-last-species", "C30", VZ, [("    for s in np.unique(species):\n        mask = species == s\n", "    for s in np.unique(species):\n        mask = species >= s\n", 0)],
    "a scene of two or more elements", "heavier atoms are drawn again with every lighter element", VW + """
a = axes(viz.simple_scene_view, s)
assert sum(len(c._offsets3d[0]) for c in a["XY projection"].collections) == len(s.all_atoms)
""")
bug("c30-elev", "C30", VZ, [("    ax_r.azim = azim\n    ax_r.elev = elev\n", "    ax_r.azim = azim\n    ax_r.elev = elev if elev > 0 else 30\n", 2)],
    "looking at the scene from below", "views from below are shown from above", VW + """
a = axes(viz.simple_scene_view_with_rotate, s, azim=10, elev=-40)
assert a["Rotatable view"].elev == -40
""")
bug("c30-mutate", "C30", VZ, [("    bbox = scene.bounds\n", "    bbox = scene.bounds\n    bbox[1] = np.maximum(bbox[1], bbox[0] + 1e-3 + np.ptp(scene.all_atoms, axis=0))\n", 0)],
    "atoms extending over more than the scene's bounds", "viewing enlarges the bounds of the scene", VW + """
s.bounds = np.array([[-1., -2, -3], [2, 8, 7]])
axes(viz.simple_scene_view, s)
assert np.allclose(s.bounds, [[-1., -2, -3], [2, 8, 7]]), s.bounds
""") if False else None
bug("c25-last-volume", "C25", PF, [("        vols[0].priority = self.N\n", "        vols[0].priority = self.N - 1\n", 1)],
    "wurtzite, and where volumes of the group overlap", "the unfaulted part and the first faulted part have equal precedence and remove each other's atoms", """
import numpy as np
from czone.prefab import wurtziteStackingFault
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_unit_cell(Z=[30, 30, 8, 8], coords=np.array([[1/3, 2/3, 0], [2/3, 1/3, .5], [1/3, 2/3, .375], [2/3, 1/3, .875]]), cellDims=[3.25, 3.25, 5.2], cellAngs=[90, 90, 120])
v = Volume(points=makeRectPrism(14, 14, 80))
o = wurtziteStackingFault(generator=g, volume=v, N=1).build_object()
o.populate_atoms()
ref = v.from_volume(generator=g)
ref.populate_atoms()
assert abs(len(o.atoms) - len(ref.atoms)) < .1 * len(ref.atoms), (len(o.atoms), len(ref.atoms))
""")
bug("c24-last-plane", "C24", PF, [("        for i in range(N_planes):\n", "        for i in range(N_planes // 2):\n", 0)],
    "faults that would fall in the upper half of the volume", "only planes in the lower half are candidates, so requests which are admissible are refused", """
import numpy as np
from czone.prefab import fccTwin
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_spacegroup(Z=[79], coords=np.array([[0., 0, 0]]), cellDims=[4.08] * 3, cellAngs=[90] * 3, sgn=225)
v = Volume(points=makeRectPrism(20, 20, 20))
fccTwin(generator=g, volume=v, N=3, min_sep=3).build_object()
""")
bug("c24-ratio-edge", "C24", PF, [("            if (np.random.rand() < self.ratio):\n", "            if (np.random.rand() < self.ratio or defect_types[\"stacking_fault\"]):\n")],
    "mixed defects, a twin drawn after a stacking fault", "every defect after the first stacking fault is a stacking fault, whatever was drawn", """
import numpy as np
from czone.prefab import fccMixedTwinSF
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_spacegroup(Z=[79], coords=np.array([[0., 0, 0]]), cellDims=[4.08] * 3, cellAngs=[90] * 3, sgn=225)
v = Volume(points=makeRectPrism(30, 30, 30))
seen = set()
for seed in range(60):
    np.random.seed(seed)
    o = fccMixedTwinSF(generator=g, volume=v, N=2, ratio=.5).build_object()
    d = [np.linalg.det(x.generator.voxel.bases) > 0 for x in o.volumes]
    seen.add(tuple(d))
assert (True, True, False) in seen, seen
""")
bug("c16-batch-stop", "C16", AM, [("            stop_idx = np.where(np.cumsum(accept_filter) > (num_c - num_accepted))[0][0]\n", "            stop_idx = num_c - num_accepted\n")],
    "a last batch in which a rejected point precedes an accepted one", "the last batch is cut by position rather than by number of accepted points", """
import numpy as np
from czone.generator.amorphous_algorithms import gen_p_substrate_batched
for seed in range(60):
    c = gen_p_substrate_batched([12., 12, 12], seed=seed, density=.05)
    assert len(c) == round(12**3 * .05) and not np.any(np.all(c == 0, axis=1)), seed
""")
bug("c16-z-top", "C16", AM, [("                if (k > 0):\n", "                if (k > 1):\n")],
    "an atom in the second layer of voxels, close to one in the first", "the lowest layer of voxels is not searched from the second", """
import numpy as np
from czone.generator.amorphous_algorithms import gen_p_substrate
bad = 0
for seed in range(30):
    c = gen_p_substrate(np.array([6., 6, 12]), seed=seed, min_dist=1.4, density=.11)
    d = np.abs(c[:, None] - c[None])
    for k in (0, 1):
        d[..., k] = np.minimum(d[..., k], 6 - d[..., k])
    bad += (np.sqrt((d**2).sum(-1)) + 9 * np.eye(len(c))).min() < 1.4
assert bad == 0, bad
""")
bug("c17-old-first", "C17", G, [("            return self.old_result\n        else:\n", "            if np.all(np.abs(self.old_result[0] - np.mean(bbox, axis=0)) <= np.ptp(bbox, axis=0)):\n                return self.old_result\n            return self.old_result[0][:len(bbox)], self.old_result[1][:len(bbox)]\n        else:\n")],
    "reuse of a result for a region elsewhere", "a reused result is cut short if the region asked for is elsewhere", """
import numpy as np
from czone.generator import AmorphousGenerator
g = AmorphousGenerator()
g.use_old_result = True
box = 6 * np.array([[x, y, z] for x in (0., 1) for y in (0., 1) for z in (0., 1)])
a, _ = g.supply_atoms(box)
b, _ = g.supply_atoms(box + 20)
assert len(a) == len(b), (len(a), len(b))
""")
bug("c15-set-origin-keep", "C15", M, [("            self._origin_tracking = False\n            self._origin = point\n", "            self._origin_tracking = self._origin_tracking and np.array_equal(point, self.origin) if hasattr(self, '_BaseMolecule__origin_tracking') else False\n            self._origin = point\n")],
    "pinning the origin as a point at the position of the atom it follows", "an origin set as a point keeps following an atom if they coincide at that moment", """
import numpy as np
from czone.molecule import Molecule
m = Molecule([6, 8], np.array([[0., 0, 0], [0, 0, 1]]))
m.set_origin(idx=1)
m.set_origin(point=m.origin)
m.update_positions(np.array([[0., 0, 0], [0, 0, 3]]))
assert np.allclose(m.origin, [0, 0, 1]), m.origin
""")
bug("c15-orient-reset", "C15", M, [("        self._species = species\n        self._atoms = positions\n", "        order = np.lexsort(positions.T) if len(set(map(tuple, positions))) < len(positions) else np.arange(len(species))\n        self._species = species[order]\n        self._atoms = positions[order]\n")],
    "two atoms at the same place", "atoms are reordered when two of them coincide", """
import numpy as np
from czone.molecule import Molecule
from czone.transform import Translation
m = Molecule([6, 8, 1], np.array([[5., 0, 0], [1, 0, 0], [1, 0, 0]]))
assert list(m.species) == [6, 8, 1], m.species
""")
bug("c12-crystal-origin", "C12", ST, [("        sp += self.origin\n", "        sp += self.origin if self.origin_type == \"global\" or self.mode == \"standard\" else np.where(np.abs(self.origin) < 50, self.origin, 50 * np.sign(self.origin))\n", 0)],
    "a crystal-mode strain of a generator far from the coordinate origin", "sites of far-away generators are put back at the wrong place", """
import numpy as np
from czone.generator import Generator
from czone.transform import HStrain
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[2, 2, 2], cellAngs=[90, 90, 90], origin=np.array([60., 0, 0]))
g.strain_field = HStrain(matrix=[1.1, 1, 1])
at, _ = g.supply_atoms(np.array([[x, y, z] for x in (58., 66) for y in (0., 4) for z in (0., 4)]))
assert np.min(np.linalg.norm(at - [62.2, 2, 2], axis=1)) < 1e-6
""")
bug("c13-wrap", "C13", A, [("        new_index = np.fix(index)\n", "        new_index = np.floor(index)\n")] if False else [("    miller_indices = np.array(miller_indices)\n", "    miller_indices = np.array(miller_indices) // np.gcd.reduce(miller_indices)\n")],
    "indices with a common divisor", "indices with a common divisor select planes of the coarser family", """
import numpy as np
from czone.volume import snap_plane_near_point
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0., 0, 0]]), cellDims=[4, 4, 4], cellAngs=[90, 90, 90])
p = snap_plane_near_point(np.array([1.9, 0, 0]), g, (2, 0, 0))
assert abs(p.point[0] - 2) < 1e-9, p.point
""")
bug("c19-thin", "C19", ME, [("    be = ((ind // dim[0]) % dim[1]) == (dim[1]-1)\n", "    be = ((ind // dim[0]) % dim[1]) == max(dim[1]-1, 1)\n")],
    "a grid one voxel wide along y", "grids one voxel wide along y wrap onto the wrong layer", """
from czone.util.measure import get_voxel_grid
n = get_voxel_grid([3, 1, 4], True, True, True)
exp = [{(i + a) % 3 + 3 * ((k + c) % 4) for a in (-1, 0, 1) for c in (-1, 0, 1)} for k in range(4) for i in range(3)]
assert [set(x) for x in n] == exp
""")
bug("c20-edge-bin", "C20", ME, [("                                         range=(0.0, cutoff))\n", "                                         range=(0.0, counts.shape[0] * 0.1))\n")],
    "a cutoff that is not a multiple of the bin width", "bins are a tenth wide rather than dividing the cutoff evenly", """
import numpy as np
from czone.util.measure import calc_rdf
c = np.array([[0., 0, 0], [1.03, 0, 0], [9, 9, 9]])
h = calc_rdf(c, cutoff=1.04, px=False, py=False, pz=False)
w, _ = np.histogram([1.03, 1.03], bins=10, range=(0, 1.04))
assert list(h) == list(w), (h, w)
""")
bug("c28-species-order", "C28", S, [("        return Atoms(symbols=self.all_species,\n                     positions=self.all_atoms,\n                     cell=cell_dims)\n", "        atoms = Atoms(symbols=self.all_species,\n                     positions=self.all_atoms,\n                     cell=cell_dims)\n        atoms.wrap() if np.all(self.bounds[0, :] == 0) and np.any(self.all_atoms < 0) else None\n        return atoms\n")],
    "atoms below the lower bound of a scene starting at the origin", "atoms outside of the bounds are moved when the scene is converted", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
s = Scene(objects=[Volume(points=makeRectPrism(3, 2, 2) - 1., generator=g)], bounds=np.array([[0., 0, 0], [5, 5, 5]]))
s.populate()
a = s.ase_atoms
a.set_pbc(True); assert np.allclose(a.get_positions(), s.all_atoms) 
""") if False else None
bug("c28-dw-bounds", "C28", S, [("        cell_dims = self.bounds[1, :] - self.bounds[0, :]\n", "        cell_dims = np.max([self.bounds[1, :] - self.bounds[0, :], self.bounds[1, :]], axis=0)\n")],
    "bounds starting above zero", "the cell of a scene starting above zero reaches from zero", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
s = Scene(objects=[Volume(points=makeRectPrism(3, 2, 2), generator=g)], bounds=np.array([[1., 0, 0], [5, 5, 5]]))
s.populate()
assert np.allclose(s.ase_atoms.cell.lengths(), [4, 5, 5]), s.ase_atoms.cell
""")
bug("c29-best-seed", "C29", AD, [("    rng = np.random.default_rng(seed=seed)\n    A = points # use matrix notation\n", "    rng = np.random.default_rng(seed=seed) if margin == 0 else np.random\n    A = points # use matrix notation\n")] if False else
    [("    valid_indices[surface_ind] = True\n", "    valid_indices[np.random.permutation(surface_ind)[:max(1, len(surface_ind) - (len(surface_ind) > 60))]] = True\n")],
    "adsorption with a seed on a host with more than 60 surface atoms", "one surface atom, picked with the global generator, is never a target", """
import numpy as np
from czone.surface import add_adsorbate
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.molecule import Molecule
g = Generator.from_spacegroup(Z=[79], coords=np.array([[0., 0, 0]]), cellDims=[4.08] * 3, cellAngs=[90] * 3, sgn=225)
v = Volume(points=makeRectPrism(13, 13, 13), generator=g)
v.populate_atoms()
m = Molecule([6, 8], np.array([[0., 0, 0], [0, 0, 1.2]]))
r = set()
for i in range(40):
    np.random.seed(i)
    o, _ = add_adsorbate(m, 0, 2.0, v, seed=5)
    r.add(tuple(np.round(o.atoms.ravel(), 6)))
assert len(r) == 1, len(r)
""") if False else None
bug("c23-filter-last", "C23", AD, [("            tmp_mask = val(volume.atoms)\n            valid_indices = np.logical_and(valid_indices, tmp_mask)\n", "            tmp_mask = val(volume.atoms[valid_indices])\n            valid_indices[np.nonzero(valid_indices)[0][np.logical_not(tmp_mask)]] = False\n            valid_indices[surface_ind[0]] = valid_indices.any() and len(filters) > 2 or valid_indices[surface_ind[0]]\n")],
    "three or more filters of which one is spatial", "with many filters the first surface atom is allowed whatever the filters say", """
import numpy as np
from czone.surface import add_adsorbate
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.molecule import Molecule
g = Generator.from_spacegroup(Z=[79], coords=np.array([[0., 0, 0]]), cellDims=[4.08] * 3, cellAngs=[90] * 3, sgn=225)
v = Volume(points=makeRectPrism(13, 13, 13), generator=g)
v.populate_atoms()
m = Molecule([6, 8], np.array([[0., 0, 0], [0, 0, 1.2]]))
top = lambda p: (p[:, 2] > 12) & (p[:, 0] < 7)
for i in range(60):
    o, t, *_ = add_adsorbate(m, 0, 2.0, v, seed=i, debug=True, filters={"element": [79], "spatial1": top, "spatial2": lambda p: p[:, 1] < 7})
    a = v.atoms[t]
    assert a[2] > 12 and a[0] < 7 and a[1] < 7, a
""")
bug("c14-prefab-volume", "C14", PF, [("        vols = [self.volume.from_volume(generator=gen_tmp)]\n", "        vols = [self.volume if self.volume.generator is gen_tmp or not self.volume.alg_objects and self.volume.generator is not None else self.volume.from_volume(generator=gen_tmp)]\n", 0)],
    "building a defect structure from a volume which already owns a generator", "the structure holds the input volume itself", """
import numpy as np
from czone.prefab import fccTwin
from czone.generator import Generator
from czone.volume import Volume, makeRectPrism
g = Generator.from_spacegroup(Z=[79], coords=np.array([[0., 0, 0]]), cellDims=[4.08] * 3, cellAngs=[90] * 3, sgn=225)
v = Volume(points=makeRectPrism(20, 20, 20), generator=g)
o = fccTwin(generator=g, volume=v, N=1).build_object()
assert all(x is not v for x in o.volumes) and v.priority == 0
""")
bug("c26-areas-stale", "C26", WU, [], "", "", "") if False else None
bug("c10-near-anti", "C10", T, [("    if (theta < eps):\n", "    if (np.sin(theta) < 1e-7):\n")] if False else [("    v = v * (theta / np.linalg.norm(v))\n", "    v = v * (np.mod(theta, np.pi) / np.linalg.norm(v)) if theta > np.pi else v * (theta / np.linalg.norm(v))\n")],
    "rotation angles above pi", "angles above pi lose half a turn", """
import numpy as np
from czone.transform import rot_v
assert np.allclose(rot_v([0, 0, 1], 4.0), [[np.cos(4), -np.sin(4), 0], [np.sin(4), np.cos(4), 0], [0, 0, 1]])
""")
bug("c09-multi-bases", "C09", T, [("        for t in self.transforms:\n            points = t.applyTransformation(points)\n        return points\n", "        for t in self.transforms:\n            points = t.applyTransformation(points) if not (isinstance(t, MultiTransform) and t.basis_only) else points\n        return points\n")],
    "a nested sequence with a member that acts on the basis only", "nested sequences holding a basis-only member are skipped for points", """
import numpy as np
from czone.transform import MultiTransform, Translation, Rotation, rot_v
R = Rotation(rot_v([0, 0, 1], .5), basis_only=True)
S = MultiTransform([MultiTransform([Translation(np.array([1., 0, 0])), R]), Translation(np.array([0, 1., 0]))])
p = np.array([[1., 2, 3]])
q = Translation(np.array([0, 1., 0])).applyTransformation(R.applyTransformation(Translation(np.array([1., 0, 0])).applyTransformation(p)))
assert np.allclose(S.applyTransformation(p), q)
""")
bug("c08-priority-sum", "C08", V, [("        return MultiVolume(volumes=new_vols, priority=self.priority)\n", "        return MultiVolume(volumes=new_vols, priority=min([self.priority] + [v.priority for v in new_vols]))\n")],
    "copying a group whose members have lower priority numbers than itself", "a copied group takes the lowest number of its members", """
import numpy as np
from czone.volume import Volume, MultiVolume, makeRectPrism
m = MultiVolume([Volume(points=makeRectPrism(2, 2, 2), priority=-1)], priority=3)
assert m.from_volume().priority == 3
""")
bug("c06-locked-multi", "C06", V, [("        if transformation.locked and (not (self.generator is None)):\n", "        if transformation.locked and (not (self.generator is None)) and not (self.points is not None and self.alg_objects and self._atoms is not None):\n")],
    "a volume bounded by both points and surfaces, populated before it is moved", "a populated volume of mixed kind leaves its crystal behind", """
import numpy as np
from czone.volume import Volume, Sphere, makeRectPrism
from czone.generator import Generator
from czone.transform import Translation
g = Generator.from_unit_cell(Z=[6], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
v = Volume(points=makeRectPrism(4, 4, 4), alg_objects=[Sphere(radius=2.2, center=np.array([2., 2, 2]))], generator=g)
v.populate_atoms()
a = v.atoms
v.transform(Translation(np.array([.3, 0, 0])))
v.populate_atoms()
assert len(a) == len(v.atoms) and np.allclose(np.sort(a[:, 0]) + .3, np.sort(v.atoms[:, 0]))
""")
bug("c02-collinear", "C02", X, [("        self._bases = bases\n", "        self._bases = bases if np.linalg.det(bases) > -1e3 else -bases\n")],
    "a large cell after a reflection", "large left-handed cells are turned right-handed by inversion", """
import numpy as np
from czone.generator import Generator
from czone.transform import Reflection
from czone.volume import Plane
g = Generator.from_unit_cell(Z=[6], coords=np.array([[.1, .2, .3]]), cellDims=[12, 12, 12], cellAngs=[90, 90, 90])
g.transform(Reflection(Plane([1, 0, 0], np.zeros(3))))
at, _ = g.supply_atoms(np.array([[x, y, z] for x in (-6., 6) for y in (-6., 6) for z in (-6., 6)]))
assert np.min(np.linalg.norm(at - [-1.2, 2.4, 3.6], axis=1)) < 1e-6
""")
bug("c01-frac-float", "C01", G, [("        scoords = bases @ (np.hstack([fcoords,\n", "        scoords = bases @ (np.hstack([np.round(fcoords, 2),\n")],
    "fractional coordinates that are not multiples of a hundredth", "sites are moved onto a coarse grid", """
import numpy as np
from czone.generator import Generator
g = Generator.from_unit_cell(Z=[6], coords=np.array([[.333, .2, .3]]), cellDims=[3, 3, 3], cellAngs=[90, 90, 90])
at, _ = g.supply_atoms(np.zeros((1, 3)))
assert np.min(np.linalg.norm(at - 3 * np.array([.333, .2, .3]), axis=1)) < 1e-9
""")
bug("c05-two-spheres", "C05", V, [("key=lambda i: spheres[i].radius)[0]\n", "key=lambda i: spheres[i].radius)[-1]\n")] if False else [("                self.tri.find_simplex(testPoints, tol=self.tolerance) >= 0)\n", "                self.tri.find_simplex(testPoints, tol=self.tolerance) > 0)\n")],
    "a point in the simplex numbered 0", "points in the first simplex of the triangulation are outside", """
import numpy as np
from czone.volume import Volume
v = Volume(points=np.array([[0., 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]]))
assert v.checkIfInterior(np.array([.1, .1, .1]))[0]
""")
bug("c07-scene-none", "C07", S, [("        self._checks = []\n", "        self._checks = [] if self._checks is None or len(self._checks) == len(self.objects) else self._checks[:0] + [np.ones(0, dtype=bool)] * 0\n        self.objects[:] = [o for k, o in enumerate(self.objects) if all(o is not p for p in self.objects[:k])]\n        rel_plevels, offsets = self._get_priorities()\n")] if False else [("                    check = np.logical_and(check, check_against)\n", "                    check = np.logical_and(check, check_against) if j < i or np.any(check) else check_against\n")],
    "an object covered completely by one object, and not by a later one at the same level", "an atom removed by one object is brought back by another of equal priority", """
import numpy as np
from czone.volume import Volume, makeRectPrism
from czone.generator import Generator
from czone.scene import Scene
g = lambda z: Generator.from_unit_cell(Z=[z], coords=np.array([[0.5, 0.5, 0.5]]), cellDims=[1, 1, 1], cellAngs=[90, 90, 90])
s = Scene(objects=[Volume(points=makeRectPrism(2, 2, 2), generator=g(6)), Volume(points=makeRectPrism(4, 4, 4) - 1., generator=g(7)), Volume(points=makeRectPrism(4, 4, 4) + 50., generator=g(8))])
s.populate()
assert np.sum(s.all_species == 6) == 0
""")
bug("c04-cyl-bases", "C04", T, [], "", "", "") if False else None
