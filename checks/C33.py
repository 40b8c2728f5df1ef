"""Every space group (all numbers, every symbol and setting pymatgen knows) x sets of symmetric sites: the generator built supplies
exactly the full orbit of every site, decided by applying the listed operations of the group directly."""
import os
import re
import numpy as np
from mc import env, ref
from mc import alpha as A
from pymatgen.core import Lattice
from pymatgen.symmetry.groups import SpaceGroup, sg_symbol_from_int_number
from czone.generator import Generator

PROPERTY = "C33"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["the operations listed by pymatgen for a setting are those of that setting; a symbol shared by several settings means the first one listed, a number the setting of its standard symbol",
               "lattices are ones pymatgen deems compatible with the group"]
T = list(SpaceGroup.SYMM_OPS)
HEX, RHO = ((4.1, 4.1, 6.7), (90, 90, 120)), ((5.2, 5.2, 5.2), (71, 71, 71))
LATTICES = [((4.3, 5.1, 6.2), (84, 97, 103)), ((4.3, 5.1, 6.2), (90, 104, 90)), ((4.3, 5.1, 6.2), (90, 90, 90)), ((4.3, 4.3, 6.2), (90, 90, 90)), HEX, RHO, ((4.7, 4.7, 4.7), (90, 90, 90))]
SITES = {"general": ([29], [[.113, .237, .351]]), "corner": ([29], [[0, 0, 0]]), "centre and general": ([29, 8], [[.5, .5, .5], [.07, .29, .41]]), "axes": ([29, 8, 30], [[.25, .25, .25], [0, 0, .31], [.2, .2, .2]]),
         "outside": ([11, 17], [[1.13, -.31, 2.4], [0, .5, -.5]]), "thirds": ([30, 8], [[1 / 3, 2 / 3, 0], [1 / 3, 2 / 3, .375]])}


def parse(op):
    M, t = np.zeros((3, 3)), np.zeros(3)
    for i, e in enumerate(op.replace(" ", "").split(",")):
        f = eval("lambda x,y,z:" + e, {})
        t[i] = f(0, 0, 0)
        M[i] = [f(1, 0, 0) - t[i], f(0, 1, 0) - t[i], f(0, 0, 1) - t[i]]
    return M, t


_ops = {}


def ops(i):
    """of a listed setting, or of a symbol pymatgen knows by its generators only"""
    if i not in _ops:
        l = [parse(o) for o in T[i]["symops"]] if isinstance(i, int) else [(o.rotation_matrix, o.translation_vector) for o in SpaceGroup(i).symmetry_ops]
        _ops[i] = (np.array([m for m, _ in l]), np.array([t for _, t in l]))
    return _ops[i]


def bare(s):
    return re.sub(" ", "", s)


def listed(sym):
    """index of the first setting of that symbol"""
    s = SpaceGroup.abbrev_sg_mapping.get(sym, SpaceGroup.full_sg_mapping.get(sym, sym))
    for i, e in enumerate(T):
        if s in (e["hermann_mauguin"], e["universal_h_m"]):
            return i
    return sym


def number(i):
    return T[i]["number"] if isinstance(i, int) else SpaceGroup(i).int_number


def orbit(i, f):
    M, t = ops(i)
    p = (M @ np.array(f, float) + t) % 1
    out = []
    for q in p:
        if not out or np.abs((np.array(out) - q + .5) % 1 - .5).max(1).min() > 1e-4:
            out.append(q)
    return np.array(out)


NUMBERS = {n: listed(sg_symbol_from_int_number(n)) for n in range(1, 231)}
SYMBOLS = {}
for e in T:
    for s in (e["universal_h_m"], e["hermann_mauguin"], bare(e["universal_h_m"])):
        if isinstance(listed(s), int):
            SYMBOLS.setdefault(s, listed(s))
for s in list(SpaceGroup.abbrev_sg_mapping) + list(SpaceGroup.full_sg_mapping):
    SYMBOLS.setdefault(s, listed(s))


def build(ch, i, sites, **kw):
    """with the first lattice that fits (of the shapes of the seven systems)"""
    Z, f = SITES[sites]
    n = number(i)
    first = [0] if n < 3 else [1, 2] if n < 16 else [2] if n < 75 else [3] if n < 143 else [5, 4] if n < 168 else [4] if n < 195 else [6]
    if (n - 1) % 7 == 3 and n < 143:
        first = [6]         # a lattice of higher symmetry does as well
    err = None
    for k in first:
        try:
            ch.op()
            return Generator.from_spacegroup(list(Z), np.array(f, float), *LATTICES[k], **kw), k
        except ValueError as e:
            err = e
            if "incompatible" not in str(e):
                raise
    ch.prune("no lattice fits: " + str(err)[:40])


REGION = A.prism((9.5, 6.1, 7.7), (-4.4, -2, -3.3))


def judge(ch, gen, i, k, sites, origin, what):
    Z, f = SITES[sites]
    F, S = [], []
    for z, p in zip(Z, f):
        o = orbit(i, p)
        F.append(o)
        S += [z] * len(o)
    F = np.vstack(F)
    got, gz = np.asarray(gen.coords, float) % 1, np.asarray(gen.species)
    ch.check(len(got) == len(F), lambda: f"{what}: {len(got)} sites in the cell instead of {len(F)}")
    for z in sorted(set(Z)):
        a, b = F[np.array(S) == z], got[gz == z]
        ch.check(len(a) == len(b), lambda: f"{what}: {len(b)} sites of element {z} instead of {len(a)}")
        d = np.abs((a[:, None] - b[None] + .5) % 1 - .5).max(-1)
        ch.check(d.min(1).max() < 1e-4 and d.min(0).max() < 1e-4, lambda: f"{what}: no site of element {z} at {a[int(np.argmax(d.min(1)))].round(4).tolist()}")
    B = Lattice.from_parameters(*LATTICES[k][0], *LATTICES[k][1]).matrix.T
    cry = ref.Crystal(B, F, S, origin)
    P, PZ = gen.supply_atoms(REGION.copy())
    lo, hi = REGION.min(0), REGION.max(0)
    m = np.all((P > lo + 1e-6) & (P < hi - 1e-6), axis=1)
    W, WZ = cry.in_box(lo - 1e-5, hi + 1e-5)
    r = ref.diff(P[m], np.asarray(PZ)[m], W, WZ, optional=~np.all((W > lo + 2e-6) & (W < hi - 2e-6), axis=1))
    ch.check(r is None, lambda: f"{what}: atoms in the region: {r}")
    ch.outcome((i, sites, len(F)))


def body(ch):
    by = ch.choose("given by", ("number", "symbol", "both"))
    sites = ch.choose("sites", list(SITES) if THOROUGH or by == "number" else ["general", "axes", "outside"])
    key = ch.choose("space group", list(NUMBERS) if by != "symbol" else list(SYMBOLS))
    i = (NUMBERS if by != "symbol" else SYMBOLS)[key]
    o = np.array([.3, -11.2, 5.7]) if (len(str(key)) + len(sites)) % 2 else np.zeros(3)
    kw = dict(sgn=key) if by == "number" else dict(sym=key) if by == "symbol" else dict(sgn=key, sym=sg_symbol_from_int_number((key * 7) % 230 + 1))
    if o.any():
        kw["origin"] = o.copy()
    gen, k = build(ch, i, sites, **kw)
    what = f"{kw}, sites {sites}"
    ch.check(np.allclose(gen.origin, o), lambda: f"{what}: origin {gen.origin}")
    judge(ch, gen, i, k, sites, o, what)
    ch.state((by, str(key), sites))


HARNESSES = {
    "groups": dict(body=body, shard=3, bounds=lambda t: f"all 230 numbers, all {len(SYMBOLS)} symbols (short, full and of {len(T)} settings) and all numbers with a disagreeing symbol, each with {len(SITES) if t == 'thorough' else '3 to 6'} sets of sites"),
}
