"""Every cell x construction x origin x orientation x region is enumerated; the supplied atoms are compared with a brute
force tiling of the infinite crystal."""
import os
import numpy as np
from mc import env, ref, alpha
from czone.generator import Generator
from pymatgen.core import Lattice, Structure

PROPERTY = "C01"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["pymatgen's Lattice and Structure are correct (lattice matrix of given parameters, sites not wrapped)",
               "the region is the convex hull of the points supplied; sites outside it may be supplied too"]
CELLS = ["cub", "cscl", "hex", "tri", "rho", "out", "mono", "big", "needle", "fine"]
ORIGINS = [[0, 0, 0], [1.3, -.7, 2.1], [-13.05, 4.5, .01], [187.3, -240.6, 95.2]]
ORIENT = [None, ("rot", ref.rodrigues([1, 2, 3], .7)), ("left-handed", np.array([[0, 1, 0], [1, 0, 0], [0, 0, 1.]]))]
if True:
    ORIENT += [("rot90", ref.rodrigues([0, 0, 1], np.pi / 2)), ("shear", np.array(alpha.SHEAR))]


def regions():
    out = {}
    for name, c in dict(pos=(0.4, .3, .2), neg=(-11.3, -9.2, -10.1), mid=(-3.9, -2.6, -4.4), far=(40.2, -31.7, 22.9)).items():
        out["box-" + name] = alpha.prism((7.3, 6.1, 8.2), c)
    out["lattice-box"] = alpha.prism((6, 3, 9), (-3, 0, 0))
    out["lattice-box-neg"] = alpha.prism((3, 6, 3), (-6, -6, -9))
    out["thin"] = alpha.prism((9, .3, 5), (-4, 1.1, -2))
    out["tiny"] = alpha.prism((.2, .2, .2), (-.1, -.1, -.1))
    out["tilted"] = alpha.prism((5, 4, 9), (-2, 1, -5), ref.rodrigues([1, -1, .3], 1.1))
    out["tetra"] = np.array([[-4, -3, -2], [6, -1, 0], [0, 7, 1], [1, 1, 8.]])
    out["point"] = np.array([[0.0, 0, 0]])
    out["segment"] = np.array([[-6.0, 0, 0], [6, 0, 0]])
    out["square"] = np.array([[-4.0, -4, 0], [4, -4, 0], [4, 4, 0], [-4, 4, 0]])
    if THOROUGH:
        for i, c in enumerate(np.ndindex(3, 3, 3)):
            out[f"slide{i}"] = alpha.prism((5.2, 4.1, 6.3), np.array(c) * 1.7 - np.array([4, 3, 5]))
    return out


REG = regions()


def check_region(ch, gen, cry, name, pts):
    ch.op()
    p0 = pts.copy()
    coords, species = gen.supply_atoms(pts)
    ch.check((pts == p0).all(), "the region points were modified")
    lo, hi = pts.min(0) - 1e-6, pts.max(0) + 1e-6
    want, wz = cry.in_box(lo, hi)
    if name in ("tilted", "tetra"):
        m = ref.d_hull(want, pts) <= 1e-9
    else:
        m = np.all((want >= pts.min(0) - 1e-9) & (want <= pts.max(0) + 1e-9), axis=1)
    want, wz = want[m], wz[m]
    ch.outcome((len(want), len(coords)))
    coords, species = np.asarray(coords), np.asarray(species)
    ch.check(coords.ndim == 2 and coords.shape[1] == 3 and coords.shape[0] == species.shape[0], f"shapes {coords.shape} {species.shape}")
    # everything supplied is a site of the crystal, with its element
    s = cry.site_of(coords)
    ch.check((s >= 0).all(), lambda: f"supplied atom {coords[np.argmin(s)]} is not a site of the crystal")
    ch.check((np.asarray(cry.Z)[s] == species).all(), "element of a supplied atom is not that of its site")
    # nothing twice, nothing missing
    if len(want):
        d, i = ref.nearest(want, coords) if len(coords) else (np.full(len(want), np.inf), None)
        ch.check((d < ref.TOL).all(), lambda: f"site {want[np.argmax(d)]} of the region is missing ({int((d > ref.TOL).sum())} of {len(want)})")
    if len(coords) > 1:
        ch.check(ref.cKDTree(coords).query(coords, k=2)[0][:, 1].min() > ref.TOL, "a site is supplied twice")


def body(ch):
    cell = ch.choose("cell", CELLS_)
    origin = ch.choose("origin", ORIGINS)
    how = ch.choose("construction", ("origin argument", "origin set later"))
    orient = ch.choose("orientation", ORIENT)
    name = ch.choose("region", list(REG))
    if how == "origin argument":
        gen = cell.generator(origin=np.array(origin, float))
    else:
        gen = cell.generator()
        gen.origin = np.array(origin, float)
    cry = cell.crystal(origin)
    if orient is not None:
        # orientation given through the lattice of the structure itself
        B = orient[1] @ cry.B
        gen = Generator(structure=Structure(Lattice(B.T), cell.Z, cell.frac), origin=np.array(origin, float))
        cry = ref.Crystal(B, cell.frac, cell.Z, origin)
    check_region(ch, gen, cry, name, REG[name])


CELLS_ = alpha.cells(*CELLS)

SPG = {
    "fcc": (dict(Z=[79], coords=[[0, 0, 0]], cellDims=[4.08] * 3, cellAngs=[90] * 3), 225, "Fm-3m",
            [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0]], [79] * 4),
    "bcc": (dict(Z=[26], coords=[[0, 0, 0]], cellDims=[2.87] * 3, cellAngs=[90] * 3), 229, "Im-3m",
            [[0, 0, 0], [.5, .5, .5]], [26] * 2),
    "zincblende": (dict(Z=[31, 33], coords=[[0, 0, 0], [.25, .25, .25]], cellDims=[5.65] * 3, cellAngs=[90] * 3), 216, "F-43m",
                   [[0, 0, 0], [0, .5, .5], [.5, 0, .5], [.5, .5, 0], [.25, .25, .25], [.25, .75, .75], [.75, .25, .75], [.75, .75, .25]],
                   [31] * 4 + [33] * 4),
    "wurtzite": (dict(Z=[48, 16], coords=[[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, .375]], cellDims=[4.14, 4.14, 6.72], cellAngs=[90, 90, 120]), 186,
                 "P6_3mc", [[1 / 3, 2 / 3, 0], [2 / 3, 1 / 3, .5], [1 / 3, 2 / 3, .375], [2 / 3, 1 / 3, .875]], [48, 48, 16, 16]),
    "rutile": (dict(Z=[22, 8], coords=[[0, 0, 0], [.305, .305, 0]], cellDims=[4.594, 4.594, 2.959], cellAngs=[90] * 3), 136, "P4_2/mnm",
               [[0, 0, 0], [.5, .5, .5], [.305, .305, 0], [.695, .695, 0], [.195, .805, .5], [.805, .195, .5]], [22, 22, 8, 8, 8, 8]),
}


def body_spg(ch):
    name = ch.choose("space group crystal", list(SPG))
    by = ch.choose("given by", ("number", "symbol"))
    origin = ch.choose("origin", ORIGINS)
    kw, num, sym, frac, Z = SPG[name]
    gen = Generator.from_spacegroup(origin=np.array(origin, float), **kw, **(dict(sgn=num) if by == "number" else dict(sym=sym)))
    B = Lattice.from_parameters(*kw["cellDims"], *kw["cellAngs"]).matrix.T
    for reg in REG:
        ch.state((name, by, tuple(origin), reg))
        check_region(ch, gen, ref.Crystal(B, frac, Z, origin), reg, REG[reg])


def body_hist(ch):
    """attach structures and origins in any order, supply in between (settings persist across supplies)"""
    gen = Generator()
    cell, origin = None, None
    cs = alpha.cells("tri", "hex")
    for step in range(4):
        op = ch.choose(f"op{step}", ("structure tri", "structure hex", "origin A", "origin B", "supply"))
        if op.startswith("structure"):
            cell = cs[0] if op.endswith("tri") else cs[1]
            c = cell.crystal()
            gen.structure = Structure(Lattice(c.B.T), cell.Z, cell.frac)
        elif op.startswith("origin"):
            origin = [1.3, -.7, 2.1] if op.endswith("A") else [-9.1, .2, 5.0]
            gen.origin = np.array(origin)
        elif cell is None:
            ch.prune("nothing to supply")
        else:
            check_region(ch, gen, cell.crystal(origin or (0, 0, 0)), "box-mid", REG["box-mid"])
    if cell is None:
        ch.prune("no structure")
    check_region(ch, gen, cell.crystal(origin or (0, 0, 0)), "box-neg", REG["box-neg"])


SCALES = [1.5, [2., 1, .5], [-1., 1, 1]]


def body_voxel(ch):
    """a generator given a grid of its own: other bases, scale and origin than its structure's lattice"""
    from czone.volume.voxel import Voxel
    cell = ch.choose("cell", CELLS_[:8])
    B = ch.choose("bases", (np.diag([3.1, 2.2, 4.4]), np.array(alpha.SHEAR) * 3, ref.rodrigues([1, 2, 3], .7) * 2.5))
    sc = ch.choose("scale", [1] + SCALES)
    o = ch.choose("origin", ([0, 0, 0], [11.3, -4.7, 2.1]))
    how = ch.choose("given", ("at once", "scale later", "origin later"))
    gen = cell.generator()
    gen.voxel = Voxel(bases=B.copy(), scale=1 if how == "scale later" else sc, origin=np.zeros(3) if how == "origin later" else np.array(o, float))
    if how == "scale later":
        gen.voxel.scale = sc
    elif how == "origin later":
        gen.origin = np.array(o, float)
    cry = ref.Crystal(B * np.array(sc), cell.frac, cell.Z, o)
    for reg in ("box-mid", "lattice-box-neg", "tilted", "point"):
        ch.state((cell.name, str(B), str(sc), tuple(o), how, reg))
        check_region(ch, gen, cry, reg, REG[reg])


HARNESSES = {
    "own grid": dict(body=body_voxel, shard=3, bounds="8 cells x 3 bases x 4 scales x 2 origins x 3 ways x 4 regions"),
    "cells": dict(body=body, shard=3, bounds=f"{len(CELLS)} cells x {len(ORIGINS)} origins x 2 constructions x {len(ORIENT)} orientations x {len(REG)} regions"),
    "spacegroups": dict(body=body_spg, shard=2, bounds=f"{len(SPG)} crystals x 2 ways x {len(ORIGINS)} origins x {len(REG)} regions"),
    "histories": dict(body=body_hist, shard=2, bounds="all sequences of 4 structure/origin/supply operations"),
}
