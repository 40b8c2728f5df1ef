"""Every sequence of transformations (up to the depth) over the alphabet, with joint / basis-only flags, is applied to real
generators of every lattice; the crystal supplied for fixed regions is compared with the image of the original crystal."""
import os
import numpy as np
from mc import env, ref, alpha
from czone.transform import MultiTransform

PROPERTY = "C02"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["transformations are invertible; the region queried is fixed boxes, one around the image of the origin"]
DEPTH = 3
CELLS = alpha.cells("cscl", "tri", "out", "big", "needle") + (alpha.cells("hex", "rho") if THOROUGH else [])
ALPHA = alpha.T_ALL if THOROUGH else alpha.T_CORE
BOX = alpha.prism((5.3, 4.7, 6.1), (-2.2, -1.9, -3.4))


def compare(ch, gen, cry, what):
    for shift in (np.zeros(3), np.round(cry.o, 1)):
        box = BOX + shift
        ch.op()
        c, s = gen.supply_atoms(box.copy())
        c, s = np.asarray(c), np.asarray(s)
        lo, hi = box.min(0), box.max(0)
        want, wz = cry.in_box(lo, hi)
        strict = np.all((want > lo + 1e-6) & (want < hi - 1e-6), axis=1)
        m = np.all((c > lo - 1e-5) & (c < hi + 1e-5), axis=1)
        wantb, wzb = cry.in_box(lo - 1e-4, hi + 1e-4)
        inner = np.all((wantb > lo + 1e-6) & (wantb < hi - 1e-6), axis=1)
        r = ref.diff(c[m], s[m], wantb, wzb, optional=~inner)
        ch.check(r is None, lambda: f"{what}: {r}")
        ch.check((cry.site_of(c) >= 0).all(), f"{what}: supplied atoms are not sites of the transformed crystal")
        ch.outcome((len(c), np.round(cry.B, 6).tobytes(), np.round(cry.o, 6).tobytes()))
    ch.check(np.allclose(gen.origin, cry.o, atol=1e-8), lambda: f"{what}: origin {gen.origin} instead of {cry.o}")


def body(ch):
    n = ch.choose("length", range(1, DEPTH + 1))
    cell = ch.choose("cell", CELLS if n < 3 else CELLS[1:4:2])
    origin = ch.choose("origin", ([0, 0, 0], [1.1, -2.3, .6], [-210.5, 88.3, 140.2]) if n < 3 else ([0, 0, 0], [1.1, -2.3, .6]))
    via = ch.choose("via", ("in place", "copy constructor") if n < 3 else ("in place",))
    gen, cry = cell.generator(origin=np.array(origin, float)), cell.crystal(origin)
    ts = []
    for i in range(n):
        t = ch.choose(f"t{i}", alpha.T_ALL + alpha.T_EXTRA if n < 3 else ALPHA if THOROUGH else alpha.T_ALL[1:6])
        bo = ch.flag(f"basis_only{i}") if n < 3 else ch.choose(f"basis_only{i}", (False,) if i != 1 else (False, True))
        locked = ch.flag(f"locked{i}") if n == 1 else True
        ts.append(t.make(basis_only=bo, locked=locked))
        cry = cry.map(t.aff.M, t.aff.t, basis_only=bo)
    if via == "in place":
        for t in ts:
            gen.transform(t)
    else:
        src, gen = gen, gen.from_generator(transformation=ts)
        compare(ch, src, cell.crystal(origin), "original generator after copying")
    compare(ch, gen, cry, "after " + via)


def body_observe(ch):
    """supplying atoms between transformations must not disturb them"""
    cell = ch.choose("cell", CELLS[:2])
    gen, cry = cell.generator(), cell.crystal()
    for i in range(3):
        t = ch.choose(f"t{i}", ALPHA[:6])
        gen.transform(t.make())
        cry = cry.map(t.aff.M, t.aff.t)
        compare(ch, gen, cry, f"after step {i}")


def body_grid(ch):
    """a generator on a grid of its own (other bases, and a scale for the whole grid or for each of its vectors), transformed"""
    from czone.volume.voxel import Voxel
    cell = ch.choose("cell", CELLS[:2])
    B = ch.choose("bases", (np.diag([3.1, 2.2, 4.4]), ref.rodrigues([1, 2, 3], .7) @ (np.array(alpha.SHEAR) * 3)))
    sc = ch.choose("scale", (1.5, [2., 1, .5], [-1., 1, 1.25]))
    o = ch.choose("origin", ([0, 0, 0], [11.3, -4.7, 2.1]))
    via = ch.choose("via", ("in place", "copy constructor", "scaled later"))
    gen = cell.generator()
    gen.voxel = Voxel(bases=B.copy(), scale=1 if via == "scaled later" else sc, origin=np.array(o, float))
    cry = ref.Crystal(B * np.array(sc), cell.frac, cell.Z, o)
    src = cry
    ts = []
    for i in range(ch.choose("length", (1, 2))):
        t, bo = ch.choose(f"t{i}", alpha.T_ALL[:7] if THOROUGH or not i else alpha.T_ALL[1:6:2]), ch.flag(f"basis_only{i}")
        ts.append(t.make(basis_only=bo))
        cry = cry.map(t.aff.M, t.aff.t, basis_only=bo)
    if via == "copy constructor":
        old, gen = gen, gen.from_generator(transformation=ts)
        compare(ch, old, src, "original generator after copying")
    else:
        for t in ts:
            gen.transform(t)
    if via == "scaled later":
        gen.voxel.scale = sc
    compare(ch, gen, cry, "own grid, " + via)


HARNESSES = {
    "own grid": dict(body=body_grid, shard=4, bounds="2 cells x 2 bases x 3 scales x 2 origins x 3 ways x all sequences of 1..2 transformations x basis-only flags"),
    "sequences": dict(body=body, shard=5, bounds=f"all sequences of length 1..{DEPTH} over {len(alpha.T_ALL + alpha.T_EXTRA)} (length 3: {len(ALPHA) if THOROUGH else 5}) maps x flags x {len(CELLS)} lattices x 3 origins"),
    "observed": dict(body=body_observe, shard=3, bounds="all length-3 sequences over 6 maps with a supply after every step"),
}
