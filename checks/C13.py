"""All Miller indices in a cube x lattices x prior transformations x strains x points x modes; the returned plane is compared with the
family computed in the (strained) crystal's own coordinates."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha
from czone.volume import snap_plane_near_point, Plane
from czone.transform.strain import HStrain
from checks.C12 import strained, prior_crystal, do_prior, PRIOR

PROPERTY = "C13"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["points within 1e-6 of a member (floor, ceil) or of the middle between two members (nearest) may go either way"]
H = [h for h in itertools.product(range(-2, 3), repeat=3) if any(h)]
if THOROUGH:
    H += [h for h in itertools.product(range(-3, 4), repeat=3) if max(map(abs, h)) == 3]
G = (-7.31, -1.17, .43, 5.9)
PTS = [np.array(p) for p in itertools.product(G, (-6.2, .29, 3.77), (-9.4, -.61, 2.23))]
if not THOROUGH:
    PTS = PTS[::3]
ON = [(0, 0, 0), (1, 0, 0), (1, 2, -1), (-1, -1, 3), (.5, 0, 0), (0, .5, -.5)]
STRAINS = {"none": None, "crystal": (np.array([[1.1, .1, 0], [.1, .9, -.05], [0, -.05, 1.02]]), "crystal", "generator"),
           "standard about a point": (np.diag([.8, 1.1, 1.3]), "standard", np.array([3.1, -2, .7])),
           "sheared": (np.array([[1, .3, 0], [0, 1, 0], [.1, 0, 1]]), "crystal", np.array([1., 1, 1]))}
CELLS = ["cub", "tri", "hex", "rho", "mono"] if THOROUGH else ["cub", "tri", "hex"]
PRI = ["none", "translate", "rotate", "rotate basis", "reflect+shear", "invert"]


def body(ch):
    cell = alpha.Cell(ch.choose("cell", CELLS))
    prior = ch.choose("prior", PRI)
    strain = STRAINS[ch.choose("strain", list(STRAINS))]
    o = np.array(ch.choose("origin", ((0, 0, 0), (4.3, -11.9, 2.6))), float)
    kw = {} if strain is None else dict(strain_field=HStrain(matrix=strain[0], mode=strain[1], origin=strain[2]))
    g = cell.generator(origin=o.copy(), **kw)
    do_prior(g, prior)
    cr = prior_crystal(cell.crystal(o), prior)
    if strain is not None:
        cr = strained(cr, *strain)
    inv = np.linalg.inv(cr.B)
    pts = PTS + [cr.B @ np.array(u, float) + cr.o for u in ON]
    for h in H:
        hv = np.array(h, float)
        nrm = inv.T @ hv
        u = nrm / np.linalg.norm(nrm)
        for p in pts:
            x = float(hv @ inv @ (p - cr.o))
            for mode in ("nearest", "floor", "ceil", None):
                ch.op()
                q = p.copy()
                P = snap_plane_near_point(q, g, h) if mode is None else snap_plane_near_point(q, g, h, mode=mode)
                what = lambda: f"hkl={h} point={p.tolist()} mode={mode}"
                ch.check(isinstance(P, Plane), lambda: f"{what()}: returned {P}")
                ch.check(np.array_equal(q, p), lambda: f"{what()}: point modified")
                ch.check(np.abs(P.normal - u).max() < 1e-8, lambda: f"{what()}: normal {P.normal.tolist()} instead of {u.tolist()}")
                k = float(hv @ inv @ (P.point - cr.o))
                ch.check(abs(k - round(k)) < 1e-5, lambda: f"{what()}: plane at index {k}, not a member of the family")
                k = round(k)
                m = mode or "nearest"
                if m == "nearest":
                    ch.check(abs(k - x) <= .5 + 1e-5, lambda: f"{what()}: point at index {x}, nearest plane is not {k}")
                elif abs(x - round(x)) > 1e-6:
                    lo, hi = np.floor(x), np.ceil(x)
                    toward, away = (lo, hi) if x > 0 else (hi, lo)
                    want = toward if m == "floor" else away
                    ch.check(k == want, lambda: f"{what()}: point at index {x}, {m} should give {want}, got {k}")
                else:
                    ch.check(abs(k - x) <= 1 + 1e-5, lambda: f"{what()}: point on a plane sent {k - x} planes away")
    ch.outcome((np.round(nrm, 4).tobytes(), round(x, 4)))


def body_forms(ch):
    """lists, tuples, integer arrays; invalid modes"""
    cell = alpha.Cell(ch.choose("cell", CELLS))
    h = ch.choose("hkl", H)
    g = cell.generator(origin=np.array([1., 2, 3]))
    a = snap_plane_near_point(np.array([3.3, -2.2, 1.1]), g, h)
    for p in ([3.3, -2.2, 1.1], (3.3, -2.2, 1.1), np.array([[3.3, -2.2, 1.1]])):
        for hh in (list(h), np.array(h), tuple(h)):
            ch.op()
            b = snap_plane_near_point(p, g, hh)
            ch.check(np.allclose(a.normal, b.normal) and abs((a.point - b.point) @ a.normal) < 1e-9, f"form of arguments matters: {p!r} {hh!r}")
    for bad in ("round", "", "Nearest"):
        try:
            snap_plane_near_point(np.array([1., 2, 3]), g, h, mode=bad)
        except ValueError:
            continue
        ch.fail(f"invalid mode {bad!r} accepted")


HARNESSES = {
    "snap": dict(body=body, shard=3, watchdog=300, bounds=f"{len(CELLS)} cells x {len(PRI)} priors x {len(STRAINS)} strains x 2 origins x {len(H)} hkl x {len(PTS) + len(ON)} points x 4 modes"),
    "forms": dict(body=body_forms, shard=2, bounds=f"{len(CELLS)} cells x {len(H)} hkl x 9 argument forms"),
}
