"""Writes /verif/known_findings.txt (reviewed by hand; never written by a check)."""
import os, subprocess
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = [("accept sphere centers given as 3x1", "C34", "centers of the documented 3x1 form were accepted but made the sphere unusable"),
 ("accept translations given as 3x1", "C34", "shifts of the accepted 3x1 form raised, or shifted three points wrongly"),
 ("keep members added to a group from an iterator", "C34", "members given as an iterator were silently dropped (sequences of transformations, substitutions, groups)"),
 ("let the space group number override", "C33", "a number given with a disagreeing symbol was ignored although documented to decide"),
 ("keep the setting named by a space group symbol", "C33", "a symbol naming a non-standard setting (origin, axes) was silently replaced by the standard one"),
 ("drop coinciding planes before", "C27", "planes given twice (or coinciding up to rounding) produced spurious vertices"),
 ("convert hulls with coplanar and collinear", "C27", "hulls with collinear points raised, coplanar facets gave nearly coinciding planes"),
 ("report regions without interior as empty", "C27", "flat regions were reported as regions for some representing points"),
 ("construct Winterbottom shapes for interfaces normal", "C26", "Winterbottom shapes on (0,0,1) and (0,0,-1) raised (NaN rotation)"),
 ("orient Wulff facets for structures in any", "C26", "facets of generators whose structure is not in the standard orientation were normal to irrational directions"),
 ("recompute Wulff shape when its parameters", "C26", "the first shape was returned after changing size, energies or generator"),
 ("size Winterbottom shapes with negative", "C26", "negative interface energies gave particles of the wrong size"),
 ("keep Miller indices when Wulff facets", "C26", "interfaces of generators set in another frame went to another plane of the family"),
 ("wurtzite stacking faults in registry", "C25", "second and later faults, and all faults in the mirror site setting, broke the bonds along the axis (atoms stacked on the wrong site)"),
 ("lattice vectors as columns", "C01", "non-orthogonal lattices were tiled over the wrong block of cells: sites missing"),
 ("fractional coordinates lie outside", "C01", "sites given outside the unit cell were missing near the edge of the region"),
 ("when generator is strained homogeneously", "C12", "strained crystal did not fill the requested region"),
 ("reject invalid strain modes", "C12", "invalid strain modes were accepted"),
 ("accept a fixed point as origin", "C12", "a fixed point as strain origin raised"),
 ("inhomogeneous strain fields usable", "C12", "IStrain could not be constructed or applied"),
 ("let reflections transform algebraic", "C04", "Reflection raised on every surface"),
 ("plane normals correctly under general", "C04", "plane normals transformed with M instead of its inverse transpose"),
 ("flags of individual transformations", "C09", "flags of members of a sequence ignored / applied to the whole sequence"),
 ("align collinear and antiparallel", "C10", "rot_vtv gave NaN or wrong matrix for collinear vectors"),
 ("rotation aligning two sets", "C10", "rot_align returned wrong matrix"),
 ("extrinsic zxz", "C10", "rot_zxz extrinsic order wrong"),
 ("angle between collinear vectors finite", "C10", "vangle NaN by rounding past 1"),
 ("project single points", "C11", "Plane.project_point failed for single points"),
 ("align surfaces face to face", "C11", "s2s_alignment wrong side / modified moving surface"),
 ("snap to the nearest plane", "C13", "snap_plane_near_point used wrong spacing/origin"),
 ("keep hull and triangulation", "C03", "stale triangulation after edits"),
 ("vertices of plane intersection", "C05", "bounding box of plane-bounded volume wrong"),
 ("include tolerance of surfaces", "C05", "atoms in the tolerance shell missing"),
 ("bound cylinders with axis", "C05", "cylinder along [1,1,1] had degenerate bounding box"),
 ("find convex regions anywhere", "C27", "vertices outside [0,inf) lost, unbounded not reported"),
 ("copy volumes without generators", "C34", "Volume.from_volume failed without generator / ignored options"),
 ("keep molecule origin on its atom", "C15", "origin jumped to another atom on removal"),
 ("molecule origin unchanged when", "C15", "rejected origin index altered origin"),
 ("copy matrices supplied", "C14", "transforms and molecules aliased caller's matrices"),
 ("periodic boundary of amorphous", "C16", "atoms too close across the periodic seam"),
 ("periodic boundary of batched", "C16", "atoms too close across the periodic seam (batched)"),
 ("requested density", "C17", "density setting ignored"),
 ("amorphous material in the requested", "C17", "block generated at the origin instead of the region"),
 ("filled with amorphous material or empty", "C17", "volumes with such generators could not be transformed"),
 ("reject splits", "C18", "infeasible request never ended"),
 ("without periodic boundaries", "C20", "get_sdist_fun returned None without periodic axes"),
 ("count every pair once", "C20", "pairs counted several times / missed"),
 ("report all corners", "C22", "corners of exposed faces missing"),
 ("find neighbors in full", "C23", "neighbour lookup failed for full alpha shape"),
 ("place adsorbates reproducibly", "C29", "add_adsorbate without sampling failed / used the global generator"),
 ("planar defects within spherical", "C24", "bounds of spherical volumes wrong away from the origin"),
 ("stack faults along the c-axis", "C25", "rotated wurtzite generators stacked along wrong axis"),
 ("write scenes to any requested", "C28", "explicit formats wrote nothing; supplied Debye-Waller factors ignored"),
 ("pass surface energies", "C26", "convenience constructors raised"),
 ("facet areas before", "C26", "get_areas raised before construction"),
 ("keep elements in primitive", "C26", "element lost in primitive structure"),
 ("orient facets of Wulff", "C26", "facets did not follow the generator's orientation"),
 ("never substitute atoms at zero", "C21", "an atom was substituted at fraction 0 when the draw was exactly 0"),
 ("have an empty intersection", "C05", "volume with empty interior raised when populated"),
]
log = [l.split(" ", 1) for l in subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()]
out, used = [], set()
for pat, pid, txt in M:
    h = [x for x in log if pat in x[1]]
    if not h:
        print("no commit for", pat); continue
    assert len(h) == 1, (pat, h)
    used.add(h[0][0]); out.append(f"fixed: property={pid} {h[0][0]} {txt}")
print("unlisted:", [x for x in log if x[0] not in used and x[1].startswith("fix")])
extra = os.path.join(V, "tools", "known_extra.txt")
if os.path.exists(extra):
    out += [l.rstrip() for l in open(extra) if l.strip()]
open(os.path.join(V, "known_findings.txt"), "w").write("\n".join(out) + "\n")
