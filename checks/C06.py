"""All transformation sequences up to a length, each part joint or not, applied to every kind of volume and to nested groups by three
routes (one by one, as one sequence object, while copying).  Populated atoms are compared with brute force sites of the
moved (or unmoved) crystal in the moved boundary, and with the image of the atoms held before."""
import os
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf, RVol, RMulti
from czone.transform import MultiTransform
from czone.volume import MultiVolume

PROPERTY = "C06"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["sites within 1e-6 of a hull face or a fifth of the tolerance (at most 1e-4) of a surface's padded boundary may or may not be there",
               "spheres and cylinders are only moved rigidly"]
LEN = 3 if THOROUGH else 2
R = ref.rodrigues([1, 2, 3], .9)
TRI, CSCL, HEX = alpha.cells("tri", "cscl", "hex")


def v_points():
    return RVol(alpha.prism((7, 5, 6), (-2, -3, 1)), (), TRI.crystal([1, 0, -2])), [TRI.generator(origin=np.array([1., 0, -2]))]


def v_sphere():
    return RVol(None, [Surf("sphere", 4.1, [1, 2, -1]), Surf("plane", [1, -1, .5], [1.2, 1, -1])], CSCL.crystal()), [CSCL.generator()]


def v_planes():
    out = []
    for i, h in enumerate((3.2, 2.7, 3.9)):
        for s in (1, -1):
            n = R @ (np.eye(3)[i] * s)
            out.append(Surf("plane", n, np.array([1, 1, 1.]) + n * h, tol=.1 if i else None))
    return RVol(None, out, HEX.crystal([.2, .3, .4])), [HEX.generator(origin=np.array([.2, .3, .4]))]


def v_cyl():
    return RVol(None, [Surf("cylinder", [1, 2, -1], [0, 1, 0], 3.1, 6.3), Surf("plane", [0, .3, 1], [0, 1, 1.8])], CSCL.crystal([1, 1, 1])), [CSCL.generator(origin=np.array([1., 1, 1]))]


def v_mix():
    return RVol(alpha.prism((8, 5, 6), (-4, -2, -3), R), [Surf("sphere", 4.4, [.5, .5, 0])], TRI.crystal()), [TRI.generator()]


def v_nested():
    a = RVol(alpha.prism((6, 6, 4), (-3, -3, -2)), (), CSCL.crystal(), 1)
    b = RVol(None, [Surf("sphere", 3.2, [2.1, 0, 1.2])], TRI.crystal([.5, 0, 0]), 0)
    c = RVol(alpha.prism((4, 5, 6), (1, 1, -4), R), (), HEX.crystal(), 2)
    return RMulti([a, RMulti([b, c], 0)]), [CSCL.generator(), TRI.generator(origin=np.array([.5, 0, 0])), HEX.generator()]


def v_groups():
    """two nested groups and two members of equal priorities and alike"""
    a = RVol(alpha.prism((4, 4, 4), (-6, -3, -2)), (), CSCL.crystal(), 0)
    b = RVol(alpha.prism((4, 4, 4), (1, -3, -2)), (), CSCL.crystal(), 0)
    c = RVol(alpha.prism((4, 4, 4), (1, 2, -2)), (), TRI.crystal(), 0)
    return RMulti([RMulti([a], 0), RMulti([b, c], 0)]), [CSCL.generator(), CSCL.generator(), TRI.generator()]


def v_far():
    """far from the coordinate origin, in a crystal of large cells, with a wide tolerance"""
    c = alpha.Cell("big")
    o = np.array([150., -88, 31])
    return RVol(alpha.prism((14, 11, 12), (201, -303, 77), R), [Surf("plane", [2, 1, .3], [206, -300, 80], tol=.4)], c.crystal(o), 3), [c.generator(origin=o)]


KINDS = [v_far, v_points, v_sphere, v_planes, v_cyl, v_mix, v_nested, v_groups]
AFFINE_OK = {"v_points", "v_planes"}          # planes with a tolerance are only moved rigidly


def build(rv, gens):
    if isinstance(rv, RVol):
        return rv.build(gens.pop(0))
    return MultiVolume([build(m, gens) for m in rv.members], priority=rv.priority)


_memo = {}


def compare(ch, vol, rv, what):
    vol.populate_atoms()
    want, wz, opt = rv.sites()
    r = ref.diff(vol.atoms, vol.species, want, wz, optional=opt)
    ch.check(r is None, lambda: f"{what}: {r}")
    ch.outcome(np.round(np.sort(want, axis=0), 3).tobytes())
    return opt


def body(ch):
    kind = ch.choose("volume", KINDS)
    ts = alpha.T_ALL if kind.__name__ in AFFINE_OK else alpha.T_ISO
    if THOROUGH:
        ts = [t for t in ts if t in alpha.T_CORE or t is alpha.T_ALL[9]]
    else:
        ts = ts + (alpha.T_EXTRA if kind.__name__ in AFFINE_OK else alpha.T_ISO_EXTRA)
    opts = [(t, l) for t in ts for l in (True, False)]
    seq = [ch.choose(f"transform{i}", opts) for i in range(LEN)]
    route = ch.choose("route", ("one by one", "sequence", "copy"))
    rv, gens = kind()
    vol = build(rv, gens)
    vol.populate_atoms()
    before, bz = vol.atoms.copy(), np.array(vol.species)
    ob = rv.sites()[2].any()
    real = [t.make(locked=l) for t, l in seq]
    ch.op(LEN)
    if route == "one by one":
        for t in real:
            vol.transform(t)
        new = vol
    elif route == "sequence":
        vol.transform(MultiTransform(real))
        new = vol
    else:
        new = vol.from_volume(transformation=real)
    img = rv
    for t, l in seq:
        img = img.map(t.aff, joint=l)
    opt = compare(ch, new, img, route)
    if all(l for _, l in seq) and not ob and not opt.any():
        r = ref.diff(new.atoms, new.species, alpha.compose([t for t, _ in seq])(before), bz, tol=1e-4)
        ch.check(r is None, lambda: f"not the image of the atoms held before: {r}")
    if route == "copy":
        compare(ch, vol, rv, "original after copying")


def leaf(rv):
    return leaf(rv.members[0]) if isinstance(rv, RMulti) else rv


def body_repeat(ch):
    """populating between transformations must not matter"""
    kind = ch.choose("volume", KINDS)
    ts = [(t, l) for t in (alpha.T_ALL[0], alpha.T_ALL[2], alpha.T_ALL[3], alpha.T_ALL[6]) for l in (True, False)]
    if not THOROUGH:
        ts = [ts[i] for i in (0, 2, 3, 5, 6)]
    rv, gens = kind()
    vol = build(rv, gens)
    for i in range(3):
        t, l = ch.choose(f"transform{i}", ts)
        ch.op()
        vol.transform(t.make(locked=l))
        rv = rv.map(t.aff, joint=l)
        if ch.flag(f"populate{i}"):
            compare(ch, vol, rv, f"after {i + 1}")
            ch.visit((kind.__name__, np.round(leaf(rv).crystal.B if isinstance(rv, RMulti) else rv.crystal.B, 6).tobytes(),
                      np.round(leaf(rv).crystal.o if isinstance(rv, RMulti) else rv.crystal.o, 6).tobytes(), repr([(np.round(x.par[-1], 5).tolist()) for x in getattr(rv, "surfs", [])]),
                      np.round(leaf(rv).pts if isinstance(rv, RMulti) else rv.pts if rv.pts is not None else np.zeros(1), 5).tobytes()), 3 - i)
    compare(ch, vol, rv, "finally")


HARNESSES = {
    "sequences": dict(body=body, shard=3, bounds=f"{len(KINDS)} kinds of volumes x all sequences of {LEN} of up to {18 if THOROUGH else 40} (transformation, joint) x 3 routes"),
    "repopulated": dict(body=body_repeat, shard=3, bounds="8 kinds x all sequences of 3 of 5 (thorough: 8) (transformation, joint) with population after any of them"),
}
