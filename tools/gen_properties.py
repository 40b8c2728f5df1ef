"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A generator supplies every site of its crystal, once, and nothing else",
 "For every unit cell (any lattice shape, any number of sites, site coordinates given inside or outside the cell), origin, orientation and non-empty region, the atoms a crystalline generator supplies for a region include every site of the infinite crystal that lies in that region, with its own element. Every supplied atom is a site of that crystal, and no site is supplied twice.",
 ["inputs", "configurations"],
 "all unit cells, origins, orientations, and regions given as point sets",
 "No test touches generators at all; a sampled cubic cell hides row/column, floor/ceil and off-by-one-cell errors that only show for skew cells, negative octants, or sites outside the cell.",
 ["czone/generator/generator.py", "czone/volume/voxel.py"],
 [("block of unit cells covering the region", "Voxel.get_extents"), ("tiling of the basis over the block", "Generator.supply_atoms"), ("cell construction", "Generator.from_unit_cell / from_spacegroup / structure setter")],
 observe=["Generator.supply_atoms(bbox)"])

prop("C02", "Transforming a generator transforms its infinite crystal",
 "After any sequence of translations, rotations, reflections, inversions and invertible matrix maps (each about any origin), the crystal a generator supplies is exactly the image of its original crystal under the composition of those maps, with elements preserved. A transformation marked as acting on the basis only turns the lattice about the generator's own origin and leaves that origin where it was.",
 ["histories", "inputs"], "all transformation sequences (up to the bound) over all lattices and flags",
 "Generators are untested; correctness is a statement about every sequence of transforms on non-commuting inputs, not a single call.",
 ["czone/generator/generator.py", "czone/transform/transform.py", "czone/volume/voxel.py"],
 [("bases and origin update", "Generator.transform"), ("per-class maps", "applyTransformation / applyTransformation_bases")],
 state=[("voxel", "current bases, scale and origin", "Generator.voxel")], observe=["Generator.supply_atoms", "Generator.origin"])

prop("C03", "A volume's interior is the intersection of its parts after any edit history",
 "A point is reported inside a convex volume exactly when it lies in the convex hull of the volume's current points (if it has any) and on the interior side of every one of its algebraic surfaces, each surface padded outward by its own tolerance. This holds after every history of adding points, replacing points, adding surfaces and applying transformations, for one query point or many, and rejecting an invalid edit changes nothing.",
 ["histories", "inputs"], "all edit histories up to the bound x all query points of a probe grid",
 "Volume core has no tests; stale caches (hull, triangulation, tolerances) only appear after particular edit orders.",
 ["czone/volume/volume.py", "czone/volume/algebraic.py"],
 [("hull and triangulation maintenance", "Volume.addPoints / points setter / createHull"), ("conjunction of checks", "Volume.checkIfInterior")],
 state=[("points/hull/tri", "defining points and their cached triangulation", "Volume"), ("alg_objects", "owned surfaces", "Volume")], observe=["Volume.checkIfInterior", "Volume.points", "Volume.hull"])

prop("C04", "Surfaces keep their interior under transformation",
 "For every transformation and every sphere, plane or cylinder that the transformation maps to a surface of the same kind and size (all isometries for spheres and cylinders, all invertible affine maps for planes), a point is interior to the surface exactly when its image is interior to the transformed surface. Radius, length and tolerance are unchanged, whether the transformation is applied directly, in sequence, or while copying the surface.",
 ["inputs", "histories"], "all surfaces x all transformation sequences (up to the bound) x probe points",
 "Existing tests rotate planes and cylinders about one point only; translations, reflections, inversions, affine maps and sequences are never exercised.",
 ["czone/transform/transform.py", "czone/volume/algebraic.py"],
 [("per-surface maps", "applyTransformation_alg"), ("copying constructor", "BaseAlgebraic.from_alg_object")], observe=["checkIfInterior before/after"])

prop("C05", "A populated volume holds exactly its material's sites in its interior",
 "Populating a volume yields exactly those sites of its generator's crystal that lie in the volume's interior, positions and elements paired: none missing, none outside, none twice. This holds whichever combination of points, spheres, planes and cylinders bounds the volume, wherever it lies, and however often it is re-populated after edits.",
 ["inputs", "configurations", "histories"], "all combinations of bounding parts (up to 3) x placements x crystals",
 "Populate is untested; a bounding box chosen from the wrong part silently truncates the object only for particular combinations.",
 ["czone/volume/volume.py", "czone/volume/algebraic.py", "czone/generator/generator.py"],
 [("bounding box heuristics", "Volume.get_bounding_box, get_bounding_box, Cylinder.get_bounding_box"), ("interior filter", "Volume.populate_atoms")], observe=["Volume.atoms", "Volume.species", "Volume.ase_atoms"])

prop("C06", "Joint transformations move a volume together with its atoms",
 "Populating a volume (or nested group of volumes) after any sequence of joint transformations gives exactly the image, under their composition, of the atoms it holds when populated before them. A transformation not marked joint moves only the boundary: the atoms are then the sites of the unmoved crystal that lie in the moved boundary.",
 ["histories", "inputs"], "all transformation sequences (up to the bound) x all volume kinds x joint flag",
 "Needs composition of volume, surface, generator and transform code; no test combines any two of them.",
 ["czone/volume/volume.py", "czone/generator/generator.py", "czone/transform/transform.py"],
 [("joint application", "Volume.transform / MultiVolume.transform"), ("generator moves with boundary", "Generator.transform")], observe=["atoms after populate_atoms"])

prop("C07", "A scene keeps an atom iff no equal-or-higher-precedence object contains it",
 "After population a scene holds an atom of an object exactly when no other object in the scene whose priority number is lower or equal contains that atom; molecules never displace atoms of others but are themselves displaced by volumes. This is independent of the order in which objects were added, of the priority values used, and of earlier edits and populations; positions and elements stay paired.",
 ["histories", "configurations"], "all priority assignments and insertion orders of up to 4 objects, and all edit/populate histories up to the bound",
 "The precedence rule is a statement over all weak orders of all objects; scenes have no tests.",
 ["czone/scene/scene.py"],
 [("priority levels and offsets", "Scene._get_priorities"), ("pairwise interior checks", "Scene.populate")],
 state=[("objects/_checks", "objects and per-object survivor masks, in matching order", "Scene")], observe=["Scene.all_atoms", "Scene.all_species", "Scene.ase_atoms", "Scene.species_from_object"])

prop("C08", "A group of volumes behaves as the union of its members under precedence",
 "A point is inside a group of volumes exactly when it is inside at least one member. Its populated atoms are those atoms of each member not contained in any other member of lower or equal priority number, for every priority assignment, member order, nesting of groups and history of edits.",
 ["histories", "configurations"], "all priority assignments, orders and nestings of up to 4 members, plus edit histories",
 "MultiVolume has no tests; mistakes show only for specific tie/ordering patterns or nesting.",
 ["czone/volume/volume.py"],
 [("member precedence", "MultiVolume._get_priorities / populate_atoms"), ("union", "MultiVolume.checkIfInterior")], observe=["MultiVolume.atoms/species", "MultiVolume.checkIfInterior"])

prop("C09", "A transformation sequence equals applying its parts one after another",
 "Applying a sequence object to points, a surface, a molecule, a generator or a volume has exactly the same effect as applying its member transformations one at a time in order. This holds for any mix of members, including members that are joint or not and members that act on the basis only, and for nested sequences.",
 ["histories", "configurations"], "all sequences up to length 3 over the transformation alphabet x flag combinations x target kinds",
 "Only flag mixes expose the aggregate flags; sequences are untested.",
 ["czone/transform/transform.py", "czone/generator/generator.py", "czone/volume/volume.py"],
 [("sequencing", "MultiTransform"), ("flag handling on targets", "Generator.transform, Volume.transform")], observe=["state of target after both routes"])

prop("C10", "Rotation builders return the proper rotation they promise",
 "For every input in their documented domain the rotation builders return a finite, orthogonal, determinant +1 matrix: axis-angle fixes its axis and turns by the angle (right-handed), vector-to-vector maps the first direction onto the second (including parallel and antiparallel vectors of any length), set alignment maps matching vector sets onto each other, and Euler builders equal the documented product of elementary rotations in both conventions. The angle between two vectors is finite and in [0, pi].",
 ["inputs"], "all ordered pairs of integer vectors in a cube and angle grids, exhaustively",
 "Singular inputs (collinear, antiparallel, rounding past 1) are measure-zero for random tests; these functions have none.",
 ["czone/transform/transform.py", "czone/util/misc.py"],
 [("builders", "rot_v, rot_vtv, rot_align, rot_zxz"), ("angle", "vangle")], observe=["returned matrices"])

prop("C11", "Surface alignment puts the moving surface face to face on the target",
 "Applying the transformation returned for aligning a moving surface to a target surface makes the moving surface coincide with the target plane with anti-parallel normals, and carries the moving reference point to the point of its offset plane nearest the target reference point. The returned map is rigid, and neither input surface nor input point is altered.",
 ["inputs"], "all pairs of planes over a grid of normals/positions x reference points",
 "No test calls it; it must hold for every relative placement (above/below, parallel/antiparallel, oblique).",
 ["czone/transform/transform.py", "czone/volume/algebraic.py"],
 [("rotation then translation", "s2s_alignment"), ("projection", "Plane.project_point")], observe=["returned MultiTransform applied to points and planes"])

prop("C12", "Strain fields displace sites by the stated strain and still fill the region",
 "A generator carrying a homogeneous or custom strain supplies exactly the crystal sites mapped through the strain function, expressed relative to the strain's origin (the generator's current origin, or the fixed point given) and in its coordinate system (crystal or Cartesian), with elements unchanged, after any transformation of the generator. Under a homogeneous strain the supplied atoms still include every strained site lying in the requested region; all documented forms of the strain tensor are equivalent.",
 ["inputs", "configurations", "histories"], "all strain tensors in an alphabet x modes x origins x lattices x regions x prior transforms",
 "Strain is untested, and compressive/sheared/rotated combinations only fail for particular geometry.",
 ["czone/transform/strain.py", "czone/generator/generator.py"],
 [("strain maps", "HStrain.apply_strain, IStrain.apply_strain"), ("parameter capture", "BaseStrain.scrape_params"), ("region coverage", "Generator.supply_atoms")], observe=["Generator.supply_atoms"])

prop("C13", "Snapped Miller planes are genuine lattice planes nearest the point",
 "For every crystal (any lattice, origin, orientation, homogeneous strain), Miller indices and point, the returned plane is perpendicular to the corresponding reciprocal vector, pointing along it, and lies on a plane of the family h*u+k*v+l*w = integer in the crystal's own coordinates. Mode 'nearest' gives the family member closest to the point; for points strictly between members, 'floor' gives the next one toward the generator origin and 'ceil' the next one away from it.",
 ["inputs"], "all lattices x origins x Miller indices in [-2,2]^3 x points on a grid x modes",
 "Excluded from the existing tests explicitly; correctness for mixed-sign, zero and multi-component indices needs exhaustive index coverage.",
 ["czone/volume/algebraic.py"], [("snapping", "snap_plane_near_point")], observe=["returned Plane normal and point"])

prop("C14", "Copies and inputs are independent: no operation changes what it was not asked to",
 "Objects built from other objects (volumes from surfaces, points and generators; copies of volumes, groups, generators, surfaces and molecules; prefabricated structures) share no mutable state with them: no later operation on either changes the behaviour of the other. Operations never modify their array or object arguments other than the target they are applied to. (Groups and scenes hold their members themselves, not copies.)",
 ["histories"], "all (build, mutate one side, observe the other) histories over constructors x mutators",
 "Aliasing shows only in specific create-then-mutate histories across two objects.",
 ["czone/volume/volume.py", "czone/generator/generator.py", "czone/volume/algebraic.py", "czone/molecule/molecule.py", "czone/transform/transform.py", "czone/prefab/prefab.py", "czone/util/measure.py"],
 [("deep copies on ownership", "add_alg_object, add_generator, from_* constructors"), ("copying setters", "np.array/np.copy in setters")], observe=["observable behaviour of both sides"])

prop("C15", "A molecule stays consistent through every edit history",
 "After any history of transforming, updating positions or elements, removing atoms, moving the origin and copying, a molecule's positions and elements are those obtained by applying the same edits to a plain list of atoms. An origin set on an atom keeps following that same atom; an origin set as a point moves only with transformations of it; every rejected edit (bad shape, bad index, bad type) leaves the molecule unchanged.",
 ["histories", "fault_sequences"], "all operation sequences up to the bound, valid and invalid, against a list model",
 "Tests check one operation at a time; index tracking errors need remove-then-use sequences.",
 ["czone/molecule/molecule.py"],
 [("atom arrays", "set_atoms, update_*, remove_atoms"), ("origin tracking", "set_origin, origin")],
 state=[("origin tracking flag/index/point", "what the origin follows", "BaseMolecule")], observe=["atoms, species, origin, priority"])

prop("C16", "Amorphous blocks respect density, bounds and minimum separation",
 "For every box, density, minimum separation and sequence of random draws, both amorphous block algorithms, whenever they return, return exactly round(volume x density) atoms, all inside the box, with no two atoms closer than the minimum separation where distance is periodic in x and y. For a fixed seed the result is reproducible.",
 ["inputs", "histories", "configurations"], "all sequences of scripted random draws up to a bound on small boxes, and all boxes of a size grid",
 "Untested; violations need atoms drawn in particular voxels (e.g. across the periodic seam next to a thin boundary voxel).",
 ["czone/generator/amorphous_algorithms.py", "czone/util/measure.py"],
 [("voxel neighbour search", "get_voxels, gen_p_substrate"), ("batched variant", "gen_p_substrate_batched, get_p_dist_batch")], observe=["returned coordinates"])

prop("C17", "Non-crystalline generators honour their settings and fill the region",
 "An amorphous generator fills the requested region, wherever it lies, with atoms of its element at its density and minimum separation, and volumes owning one can be populated and transformed like any other. With reuse enabled it returns its previous result (moved along by joint transformations since), otherwise it generates for the region requested; an empty-space generator supplies nothing anywhere.",
 ["inputs", "histories"], "all settings x regions, and all supply/reuse/setting histories up to the bound",
 "Amorphous and empty generators are untested, in particular in transformed volumes and under reuse.",
 ["czone/generator/generator.py", "czone/volume/volume.py"],
 [("settings to block algorithm", "AmorphousGenerator.supply_atoms"), ("empty supply", "NullGenerator.supply_atoms")],
 state=[("old_result", "last block", "AmorphousGenerator")], observe=["supply_atoms", "populated volumes and scenes"])

prop("C18", "Random split positions are always valid, and drawing them always ends",
 "For every count, separation and length, and every outcome of the random draws, the returned positions are the requested number of sorted integers, each at least the separation away from both ends and from every other position. If no such selection exists an error is raised; if one exists the draw can always finish, and every such selection can come out.",
 ["inputs", "histories"], "all (n,m,l) in a range x all random outcomes (restarts bounded)",
 "Invalid or never-ending draws depend on the sequence of random outcomes; a test sees one.",
 ["czone/util/misc.py"], [("rejection and restart", "get_N_splits")], observe=["return value, ValueError, termination"])

prop("C19", "Voxel neighbour lists match the grid and its boundary conditions",
 "For every grid size and every combination of periodic and open axes, the neighbours listed for each voxel are exactly the voxels at most one step away along each axis, wrapping around periodic axes and never across open ones.",
 ["inputs", "configurations"], "all grid sizes up to 5x5x5 x all 8 boundary combinations x all voxels",
 "Untested; edge and corner voxels of thin grids differ from the generic case.",
 ["czone/util/measure.py"], [("index shifts and masks", "get_voxel_grid")], observe=["returned neighbour lists"])

prop("C20", "Distances and radial distribution counts equal brute force",
 "The squared-distance function for any choice of periodic axes equals the minimum-image distance along periodic axes and the plain distance along others. The radial distribution counts equal, bin by bin, the histogram of all ordered distinct-pair distances below the cutoff (the period along a periodic axis being the extent of the coordinates), for every set of points and boundary combination, and the caller's coordinates are not modified.",
 ["inputs", "configurations"], "all boundary combinations x all small point sets on a lattice of positions x cutoffs",
 "Untested; double counting and missed voxels depend on the ratio of box to cutoff.",
 ["czone/util/measure.py"], [("distance closure", "get_sdist_fun"), ("voxel binned histogram", "calc_rdf")], observe=["returned values"])

prop("C21", "Post-generation edits touch only what they target",
 "Chemical substitution changes an atom's element only if it was one of the targets, to the paired substitute, with probability equal to the fraction (never at 0, always at 1), independently of the other pairs; positions are untouched and inputs are not modified. Sequences apply their parts in order, and a generator applies its post-transformation to every supply before straining.",
 ["inputs", "histories"], "all species lists up to the bound x target/substitute tables x all outcomes of the random draws",
 "Untested; chained substitutions (A->B, B->A) and draw boundaries need enumeration.",
 ["czone/transform/post.py", "czone/generator/generator.py"], [("substitution", "ChemicalSubstitution"), ("sequence", "PostSequence")], observe=["apply_function results", "Generator.supply_atoms"])

prop("C22", "The alpha-shape surface is the corners of its exposed faces",
 "For any point cloud in general position, the surface reported for a probe radius is exactly the set of corners of the exposed faces of the outermost cells of its Delaunay triangulation that are too small for the probe to enter: faces on the convex hull, or shared with a cell the probe can enter. A point all of whose cells are enclosed by other such cells is never reported. Indices are valid and unique, circumradii equal the distance from circumcentre to the vertices, and the cloud is not modified.",
 ["inputs"], "all small lattice point clouds (subsets of a grid, slabs, balls) x probe radii",
 "Untested; wrong only for cells with several exposed faces or isolated cells.",
 ["czone/surface/alpha_shape.py", "czone/surface/adsorbate.py"], [("exposed faces", "alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling"), ("circumradius", "tetrahedron_circumradii")], observe=["returned indices"])

prop("C23", "A placed adsorbate is bonded, rigid, outside and where it was allowed",
 "Whenever placement reports success, no atom of the adsorbate lies inside the host; in every case the bonding atom lies exactly one bond length, along the local outward surface normal, from a surface atom of the host that satisfies all the given filters, and the adsorbate is a rigid proper rotation of the input molecule which turns its chosen direction from global z onto that normal, with elements unchanged. The input molecule and host are not modified, and with a given seed the result is reproducible.",
 ["inputs", "configurations"], "all hosts x molecules x bonding atoms x filters x every choice of target atom",
 "Untested; the target atom is a random choice, so one run shows one outcome.",
 ["czone/surface/adsorbate.py", "czone/molecule/molecule.py"], [("placement", "add_adsorbate"), ("normal", "find_approximate_normal"), ("neighbours", "get_nearest_neighbors")], observe=["returned molecule, flag, debug indices"])

prop("C24", "FCC planar-defect prefabs build the requested stacking and nothing else",
 "For every admissible count, separation (of at least three layers), {111} variant, defect ratio and random outcome, the structure fills exactly the given volume with perfectly close-packed layers, contains exactly the requested number of planar defects, each a twin boundary (one mirrored layer) or an intrinsic stacking fault (a missing layer) on planes of the requested family, separated by at least the minimum separation. A ratio of 0 gives only twins and 1 only stacking faults; with any ratio in between each defect's kind is drawn on its own, so that every sequence of kinds is a possible outcome. No site is doubled and no two stacked layers coincide; the input volume and generator are not modified.",
 ["inputs", "histories"], "all random outcomes (defect kinds and plane positions) for small volumes x all {111} variants",
 "Untested and randomised: each run shows one of many defect arrangements.",
 ["czone/prefab/prefab.py", "czone/util/misc.py", "czone/volume/volume.py"], [("defect construction", "fccMixedTwinSF.build_object"), ("split choice", "get_N_splits")], observe=["populated MultiVolume"])

prop("C25", "Wurtzite stacking-fault prefabs build the requested faults and nothing else",
 "For every admissible count, separation, volume and random outcome, the structure fills exactly the given volume with perfect wurtzite bilayers and contains exactly the requested number of basal stacking faults, each a single cubic-stacked bilayer, in otherwise hexagonal stacking. No site is doubled or missing and no two adjacent bilayers coincide; the inputs are not modified.",
 ["inputs", "histories"], "all random outcomes for small volumes and counts",
 "Untested and randomised; parity of the chosen plane and alternation of the shift matter.",
 ["czone/prefab/prefab.py", "czone/util/misc.py"], [("fault construction", "wurtziteStackingFault.build_object")], observe=["populated MultiVolume"])

prop("C26", "Wulff constructions have the facets and size the energies dictate",
 "For every set of surface energies, a single-crystal Wulff (or Winterbottom) construction is the intersection of half-spaces for every symmetry-equivalent facet (plus the interface), each facet normal to its crystallographic direction in the generator's own frame and at a distance from the coordinate origin proportional to its energy, the volume being that of the requested number of atoms. The convenience shapes equal the construction for their documented energies, and populating gives the generator's sites in that shape.",
 ["inputs", "configurations"], "all energy tables over facet families and an energy alphabet x crystals x sizes",
 "Untested; each convenience constructor and facet family is a separate path.",
 ["czone/prefab/wulff.py"], [("facets to planes", "WulffBase.planes_from_wulff"), ("constructions", "WulffSingle")], observe=["Volume.alg_objects", "populated atoms"])

prop("C27", "Planes and vertices describe the same convex region",
 "Turning the convex hull of a point set into planes and back returns the vertices of that hull, and the planes' common interior is the hull, for every non-degenerate point set anywhere in space. For any set of planes the region finder returns the vertices of their common interior when it is bounded and non-empty, and otherwise an empty result with a status telling empty from unbounded, no matter which points represent the planes.",
 ["inputs"], "all plane sets drawn from an alphabet of half-spaces (sizes up to 7) x placements x representing points; all small lattice point sets",
 "The existing test uses random hulls near the origin; status depends on degenerate and far-away arrangements.",
 ["czone/volume/algebraic.py"], [("hull to planes", "convex_hull_to_planes"), ("half-space intersection", "get_bounding_box")], observe=["returned planes, vertices, status"])

prop("C28", "Files written from scenes and volumes contain exactly the displayed atoms",
 "Writing a populated scene, volume or molecule-bearing scene to a file produces that file, and reading it back gives the same atoms, elements and cell size, for every supported output format, including formats named explicitly and with user-supplied options. The simulation format carries the default Debye-Waller factor for each element unless the user supplies factors.",
 ["configurations", "inputs"], "all formats x option combinations x object kinds",
 "Untested; each format argument takes its own branch.",
 ["czone/scene/scene.py", "czone/volume/volume.py"], [("export", "Scene.to_file, BaseVolume.to_file")], observe=["files on disk read back with ASE"])

prop("C29", "Seeded operations are reproducible whatever else draws random numbers",
 "Every operation that accepts a seed returns the same result for the same arguments and seed, regardless of the state of the global random generator, of earlier or interleaved random operations, and of repetition; different components' draws do not influence each other.",
 ["histories", "schedules"], "all orders of pairs of seeded operations interleaved with perturbations of the global generator",
 "A test runs one order; hidden global draws only show under perturbation.",
 ["czone/generator/amorphous_algorithms.py", "czone/surface/adsorbate.py", "czone/surface/alpha_shape.py", "czone/util/misc.py", "czone/transform/post.py"], [("local generators", "np.random.default_rng(seed)")], observe=["returned values"])

prop("C30", "Scene views show every atom of the scene, in the right projection",
 "Every view of a scene or coordinate array draws each atom exactly once in each of its panels, at its own position, grouped by element, within the scene bounds, with the projection panels looking along the axes their titles state; viewing changes nothing in the scene.",
 ["inputs", "configurations"], "all view functions x scenes of up to the bound x viewing angles",
 "Visualisation has no tests; a view that drops an element class or swaps a projection still runs.",
 ["czone/viz/viz.py"], [("scatter per element", "simple_scene_view, simple_scene_view_with_rotate, simple_view_with_rotate")], observe=["figure artists"])

prop("C31", "Changing a setting is the same as building the object anew",
 "After any history of setting attributes to accepted or refused values, with the object used in between, every class with settings (surfaces, voxel, generators, transformations, strains, substitution, volumes, groups, scenes, molecules, defect prefabs, Wulff constructions) behaves exactly as one built anew with the values accepted last. A refused value changes nothing, and settings never given have the documented defaults.",
 ["histories", "configurations"], "all histories of set / refused set / use up to the bound, over all settings of every class",
 "Tests build an object and use it once; a stale derived value, or a setter that assigns before it validates, only shows after set-use-set orders.",
 ["czone/volume/algebraic.py", "czone/volume/voxel.py", "czone/volume/volume.py", "czone/generator/generator.py", "czone/transform/transform.py", "czone/transform/strain.py", "czone/transform/post.py", "czone/scene/scene.py", "czone/molecule/molecule.py", "czone/prefab/prefab.py", "czone/prefab/wulff.py"],
 [("attribute setters", "every @property setter"), ("derived values", "HStrain matrix / Wulff construction / Volume hull and triangulation / Voxel scaled bases")],
 state=[("settings", "values accepted last", "private attributes of each class"), ("derived values", "must follow the settings", "hull, triangulation, construction, normalised vectors")],
 observe=["every public query of the class", "getters"])

prop("C32", "An interrupted computation can simply be repeated",
 "When populating, copying, building a prefab, placing an adsorbate, measuring or writing is cut short by an exception at any point (inside the library or in a function or object the user supplied), the exception reaches the caller and the objects the computation was given are as they were before it. Repeating the computation then gives exactly the result of one that was never interrupted.",
 ["crash_points", "histories"], "all interruption points (every executed line of the library, every call of user-supplied code) of each computation, once and twice in a row",
 "A test never interrupts a computation; state temporarily altered and not restored, or a cache filled too early, only shows after a failure at one particular point.",
 ["czone/volume/volume.py", "czone/scene/scene.py", "czone/generator/generator.py", "czone/transform/strain.py", "czone/prefab/prefab.py", "czone/prefab/wulff.py", "czone/surface/adsorbate.py", "czone/molecule/molecule.py", "czone/surface/alpha_shape.py", "czone/util/measure.py"],
 [("results assigned only when complete", "populate_atoms / populate"), ("inputs copied before being worked on", "from_volume / from_generator / from_molecule / build_object / get_construction / add_adsorbate")],
 observe=["inputs after the failure", "result of the repetition"])

prop("C33", "A crystal built from a space group is the full orbit of its sites",
 "For every space group, given by number, by symbol or by the symbol of one of its settings, and every lattice compatible with it, a generator built from symmetric sites supplies exactly the orbit of every site under the operations of that group and setting, each position once and with its species, whether sites are general, special or outside the cell. A number given together with a symbol decides, as documented.",
 ["inputs", "configurations"], "all 230 numbers and all symbols and settings x site sets x ways of naming the group",
 "Tests build one or two cubic groups by symbol; a wrong setting or a symbol winning over the number leaves a plausible crystal of another structure.",
 ["czone/generator/generator.py"], [("space group choice and orbit", "Generator.from_spacegroup")], observe=["generator lattice, species, coordinates", "supplied atoms"])

prop("C34", "Constructors, copies and additions honour every documented option",
 "Every constructor and copying classmethod of the library (volumes, groups, generators, molecules, scenes, transformations) applies every documented option it is given, alone and together with the others, keeps what it is not told to change, and accepts each documented form of its inputs (one object, list or tuple; points, arrays or columns) with the same result.",
 ["configurations", "inputs"], "all subsets of options x base objects x accepted forms",
 "Tests pass one or two options at a time; an option dropped or swallowed by another yields an object that looks fine and behaves as if it had not been given.",
 ["czone/volume/volume.py", "czone/generator/generator.py", "czone/molecule/molecule.py", "czone/scene/scene.py", "czone/transform/transform.py", "czone/transform/post.py", "czone/transform/strain.py", "czone/volume/algebraic.py"],
 [("copies with options", "Volume.from_volume, MultiVolume.from_volume, Generator.from_generator, Molecule.from_molecule, BaseMolecule.from_ase_atoms"), ("additions", "add_generator, add_alg_object, add_points, add_volume, add_object, add_transform")],
 observe=["all public queries and populated atoms of the result"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    assert p["statement"].count(". ") <= 2, (p["id"], p["statement"].count(". "))
print(len(P))
