"""All sets of up to seven half-spaces from an alphabet (boxes, cuts, touching, contradicting, flat and open arrangements) x places x
representing points x orders, and all small lattice point sets, against brute-force vertex enumeration."""
import os
import itertools
import numpy as np
from mc import env, ref
from mc import alpha as A
from czone.volume.algebraic import Plane, get_bounding_box, convex_hull_to_planes

PROPERTY = "C27"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["regions that are flat and open at once have no settled status: either of the two is accepted",
               "sets are non-degenerate when their hull has a volume; coordinates up to a thousand"]
H = [([1, 0, 0], 1), ([-1, 0, 0], 1), ([0, 1, 0], 1), ([0, -1, 0], 1), ([0, 0, 1], 1), ([0, 0, -1], 1), ([1, 1, 1], 1.2), ([-1, -1, -1], 1.2),
     ([1, 1, 0], .5), ([1, -1, 0], 0), ([-1, 1, 0], 0), ([0, 1, 2], 1), ([-1, 0, 1], .7), ([1, 0, 0], -1), ([1, 0, 0], -2), ([1, 1, 1], -4)]
H2 = [([1, 1, 1], 1), ([-1, -1, 1], 1), ([-1, 1, -1], 1), ([1, -1, -1], 1), ([-1, -1, -1], 1), ([1, 1, -1], 1), ([0, 0, 1], .9), ([0, 0, -1], .4),
      ([3, 1, 0], 1), ([-3, 1, 0], 1), ([0, -1, 0], 2), ([0, 2, 1], 0), ([0, 0, 1], -.4), ([0, 0, 1], -.39)]
ALPH = {"box": H, "octahedron": H2}
PLACES = [np.zeros(3), np.array([-700., -20.3, -55]), np.array([900., 44, -3.7])]
SCALES = [1., 13., .2]


def prep(al, place, scale):
    k = (al, place, scale)
    if k not in _prep:
        N = np.array([h for h, _ in ALPH[al]], float)
        D = np.array([d for _, d in ALPH[al]], float)
        L = np.linalg.norm(N, axis=1)
        _prep[k] = (N / L[:, None], D / L * SCALES[scale])
    return _prep[k]


_prep = {}
BOXN = np.vstack([np.eye(3), -np.eye(3)])
_tr = {}


def verts(N, D):
    if len(N) not in _tr:
        _tr[len(N)] = np.array(list(itertools.combinations(range(len(N)), 3)))
    t = _tr[len(N)]
    M = N[t]
    ok = np.abs(np.linalg.det(M)) > 1e-9
    if not ok.any():
        return np.empty((0, 3))
    V = np.linalg.solve(M[ok], D[t[ok]][..., None])[..., 0]
    return V[(V @ N.T <= D + 1e-9 * max(1, np.abs(D).max())).all(1)]


def truth(N, D):
    """('empty' | 'flat' | 'open' | 'flat open' | 'solid', vertices)"""
    L = 1000. * max(np.abs(D).max(), .1)
    V = verts(np.vstack([N, BOXN]), np.append(D, np.full(6, L)))
    if len(V) == 0:
        return "empty", None
    far = np.abs(V).max() > L * .99
    # full-dimensional if the vertices span space
    W = V - V.mean(0)
    thick = np.linalg.svd(W)[1]
    flat = len(V) < 4 or thick[2] < 1e-7 * max(np.abs(V).max() if not far else 1., 1e-3)
    if far:
        return ("flat open" if flat else "open"), None
    return ("flat", None) if flat else ("solid", V)


def represent(n, d, rep, i):
    """a point of the plane n.x = d"""
    u = np.linalg.svd(n[None])[2][1:]
    p = n * d
    return p if rep == 0 else p + u[0] * (40. + i) * (-1) ** i - u[1] * 77. if rep == 1 else p - u[0] * .3 * (i + 1) + u[1] * 5e2


def body_sets(ch):
    al = ch.choose("alphabet", list(ALPH))
    m = ch.choose("size", range(1, 8 if al == "box" or THOROUGH else 7))
    S = ch.choose("planes", list(itertools.combinations(range(len(ALPH[al])), m)))
    variants = list(itertools.product(range(3), range(3), range(3), (1, -1)))
    if not THOROUGH and m > 3:
        variants = variants[sum(S) * 7 % 11::{4: 11, 5: 23}.get(m, 54)]
    elif m > 5:
        variants = variants[sum(S) % 5::5]
    for place, scale, rep, order in variants:
        N, D = prep(al, place, scale)
        N, D = N[list(S)], D[list(S)]
        kind, V = truth(N, D)
        o = PLACES[place]
        P = [Plane(np.array(n) * (1 + .5 * (i % 3)), represent(n, d, rep, i) + o) for i, (n, d) in enumerate(zip(N, D))][::order]
        if order < 0 and rep:
            # the same half-space given twice, through another point
            P.append(Plane(N[0] * 2, represent(N[0], D[0], 3 - rep, 5) + o))
        keep = [(np.array(p.normal).copy(), np.array(p.point).copy()) for p in P]
        ch.op()
        W, status = get_bounding_box(P)
        what = f"{al} {S} at {o.tolist()} scale {SCALES[scale]} representation {rep} order {order} ({kind})"
        ch.check(all(np.array_equal(np.ravel(p.normal), np.ravel(a)) and np.array_equal(np.ravel(p.point), np.ravel(b)) for p, (a, b) in zip(P, keep)), f"{what}: planes modified")
        if kind == "solid":
            ch.check(status == 0, f"{what}: status {status}")
            W = np.asarray(W, float)
            tol = 1e-6 * (SCALES[scale] + 1) + 1e-9 * np.abs(o).max()
            ch.check(W.ndim == 2 and W.shape[1] == 3 and len(W) >= 4 and np.all(np.isfinite(W)), f"{what}: no vertices")
            ch.check(ref.nearest(V + o, W)[0].max() < tol, lambda: f"{what}: vertex {(V + o)[int(np.argmax(ref.nearest(V + o, W)[0]))].tolist()} not reported")
            ch.check(ref.nearest(W, V + o)[0].max() < tol, lambda: f"{what}: {W[int(np.argmax(ref.nearest(W, V + o)[0]))].tolist()} is no vertex")
        else:
            ok = {"empty": (2,), "flat": (2,), "open": (3,), "flat open": (2, 3)}[kind]
            ch.check(status in ok and np.shape(W) == (0, 3), f"{what}: status {status} with {len(W)} vertices")
        ch.outcome((kind, 0 if V is None else len(V)))
    ch.state((al, S))


# ------------------------------------------------------------------ polyhedra of many faces
def family(v):
    v = np.array(v, float)
    f = {tuple(np.round(v[list(p)] * s, 9) + 0.) for p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (2, 1, 0)) for s in itertools.product((1, -1), repeat=3)}
    f = np.array(sorted(f))
    return f / np.linalg.norm(f, axis=1)[:, None]


PHI = (1 + 5 ** .5) / 2
DODE = np.array([[0, s, t * PHI] for s in (1, -1) for t in (1, -1)])
DODE = np.vstack([DODE, DODE[:, [1, 2, 0]], DODE[:, [2, 0, 1]]]) / np.sqrt(1 + PHI ** 2)
FAM = {"axes": family([1, 0, 0]), "octa": family([1, 1, 1]), "rhombic": family([1, 1, 0]), "pyritohedral": DODE, "tall": family([2, 1, 0])[::2], "general": family([3, 2, 1])}
DIST = (None, 1., .93, .81, 1.17)
TURN = [np.eye(3), ref.rodrigues([1, -2, .4], 1.1)]


def body_poly(ch):
    ds, names = [], list(FAM)[: 6 if THOROUGH else 5]
    for f in names:
        ds.append(ch.choose(f, DIST if f != "general" else (None, 1.02)))
    if sum(d is not None for d in ds) > 3 or not any(d is not None for d in ds):
        ch.prune("too many")
    N = np.vstack([FAM[f] for f, d in zip(names, ds) if d is not None])
    D = np.concatenate([np.full(len(FAM[f]), d) for f, d in zip(names, ds) if d is not None])
    k = int(sum((d or 0) * 100 * (i + 1) for i, d in enumerate(ds)))
    for j in range(2):
        o, scale, R, rep, order = PLACES[(k + j) % 3], SCALES[k // 3 % 3], TURN[(k + j) % 2], (k + j) % 3, (1, -1)[k // 2 % 2]
        n, d = N @ R.T, D * scale
        kind, V = truth(n, d)
        P = [Plane(a * (1 + .5 * (i % 3)), represent(a, b, rep, i) + o) for i, (a, b) in enumerate(zip(n, d))][::order]
        ch.op()
        W, status = get_bounding_box(P)
        what = f"{dict(zip(names, ds))} {j}"
        if kind != "solid":
            ch.check(status == 3, f"{what}: open region, status {status}")
            continue
        ch.check(status == 0, f"{what}: status {status}")
        W, tol = np.asarray(W, float), 1e-6 * (scale + 1) + 1e-9 * np.abs(o).max()
        ch.check(ref.nearest(V + o, W)[0].max() < tol, lambda: f"{what}: vertex {(V + o)[int(np.argmax(ref.nearest(V + o, W)[0]))].tolist()} of {len(V)} not reported")
        ch.check(ref.nearest(W, V + o)[0].max() < tol, lambda: f"{what}: {W[int(np.argmax(ref.nearest(W, V + o)[0]))].tolist()} is no vertex")
        ch.outcome((len(N), len(V)))
    ch.state(tuple(ds))


# ------------------------------------------------------------------ coinciding planes
SHAPES = {"cube": (FAM["axes"], 1.), "octahedron": (FAM["octa"], 1.), "cut cube": (np.vstack([FAM["axes"], FAM["octa"]]), np.r_[np.full(6, 1.), np.full(8, 1.3)]),
          "skew": (np.array([[1, .2, 0], [-1, .1, .3], [0, 1, .1], [.2, -1, 0], [.1, 0, 1], [0, .3, -1]]), np.array([1., .9, 1.2, .8, 1, 1.1])), "tetrahedron": (FAM["octa"][[0, 3, 5, 6]], .7)}
COPIES = {"each twice in a row": lambda n: [i for i in range(n) for _ in (0, 1)], "each thrice in a row": lambda n: [i for i in range(n) for _ in (0, 1, 2)], "all, then all again": lambda n: [*range(n)] * 2,
          "there and back": lambda n: [*range(n), *range(n)[::-1]], "first one four times": lambda n: [0, 0, 0, *range(n)], "last one again": lambda n: [n - 1, *range(n), n - 1]}


def body_same(ch):
    """the same half-spaces given several times, through other points (coinciding up to rounding)"""
    s = ch.choose("shape", list(SHAPES))
    N, D = SHAPES[s]
    N, D = np.array(N, float), np.full(len(N), 1.) * D
    L = np.linalg.norm(N, axis=1)
    R = TURN[ch.choose("turned", (0, 1))]
    N, D = N @ R.T / L[:, None], D / L
    how = ch.choose("copies", list(COPIES))
    place, scale, reps = ch.choose("place", range(3)), ch.choose("scale", range(3)), ch.choose("points", (0, 1, 2, "own", "near"))
    o, D = PLACES[place], D * SCALES[scale]
    kind, V = truth(N, D)
    I = COPIES[how](len(N))
    wob = np.random.default_rng(7).normal(size=(len(I), 3)) * 3
    tilt = np.random.default_rng(8).normal(size=(len(I), 3)) * ch.choose("rounding of the normals", (0, 3e-15, 4e-14))
    P = []
    for j, i in enumerate(I):
        p = represent(N[i], D[i], (0, 1, 2)[(j + i) % 3] if reps == "own" else 0 if reps == "near" else reps, j)
        if reps == "near":
            p = p + wob[j] - N[i] * (N[i] @ wob[j])
        P.append(Plane((N[i] + tilt[j]) * (1 + j % 4 * .37), p + o))
    ch.op()
    W, status = get_bounding_box(P)
    what = f"{s}, {how}, {o.tolist()}"
    ch.check(kind == "solid" and status == 0, f"{what}: status {status}")
    W = np.asarray(W, float)
    tol = 1e-6 * (SCALES[scale] + 1) + 1e-9 * np.abs(o).max()
    ch.check(W.ndim == 2 and W.shape[1] == 3 and len(W) >= 4 and np.all(np.isfinite(W)), f"{what}: no vertices")
    ch.check(ref.nearest(V + o, W)[0].max() < tol, lambda: f"{what}: vertex {(V + o)[int(np.argmax(ref.nearest(V + o, W)[0]))].tolist()} not reported")
    ch.check(ref.nearest(W, V + o)[0].max() < tol, lambda: f"{what}: {W[int(np.argmax(ref.nearest(W, V + o)[0]))].tolist()} is no vertex")
    ch.state((s, how, place, scale))
    ch.outcome((s, len(V)))


# ------------------------------------------------------------------ hulls
GRIDS = {"3x2x2": np.array(list(itertools.product(range(3), range(2), range(2))), float), "star": np.array(
    [[0, 0, 0], [2, 0, 0], [-2, 0, 0], [0, 2, 0], [0, -2, 0], [0, 0, 2], [0, 0, -2], [1, 1, 1], [-1, -1, -1], [1, 1, 0], [1, -1, 1]], float)}
MAPS = {"plain": (np.eye(3), np.zeros(3)), "far, negative": (np.eye(3) * 2.3, np.array([-700., -20.3, -55])), "turned": (ref.rodrigues([1, 2, 3], .7) * 11, np.array([30., 44, -3.7])),
        "sheared, small": (np.array([[.2, .1, 0], [0, .25, .05], [0, 0, .3]]), np.array([5., -1, 2])), "left-handed, far": (np.diag([-4., 3, 5]), np.array([900., 500, 30]))}


def body_hull(ch):
    g = ch.choose("grid", list(GRIDS))
    m = ch.choose("size", (4, 5, 6, 7, 8) if THOROUGH else (4, 5, 6))
    S = ch.choose("points", list(itertools.combinations(range(len(GRIDS[g])), m)))
    P0 = GRIDS[g][list(S)]
    if np.linalg.matrix_rank(P0 - P0.mean(0)) < 3:
        ch.prune("flat")
    names = list(MAPS)
    if not THOROUGH and m > 4:
        names = [names[sum(S) % 5], names[(sum(S) * 3 + 1) % 5]]
    for mp in dict.fromkeys(names):
        M, t = MAPS[mp]
        P = P0 @ M.T + t
        size = np.abs(P - P.mean(0)).max()
        given = P.copy()
        ch.op(2)
        planes = convex_hull_to_planes(given)
        what = f"{g} {S} {mp}"
        ch.check(np.array_equal(given, P), f"{what}: points modified")
        Nr, Qr = ref.hull_planes(P - P.mean(0))
        Qr = Qr + Nr @ P.mean(0)
        for p in planes:
            n = np.ravel(p.normal) / np.linalg.norm(p.normal)
            e = np.abs(Nr - n).max(1) + np.abs(Qr - n @ np.ravel(p.point)) / size
            ch.check(e.min() < 1e-6, lambda: f"{what}: plane {np.round(n, 4).tolist()} through {np.ravel(p.point).tolist()} is no facet of the hull")
        have = np.array([np.ravel(p.normal) / np.linalg.norm(p.normal) for p in planes])
        ch.check(ref.nearest(Nr, have)[0].max() < 1e-6, lambda: f"{what}: facet {Nr[int(np.argmax(ref.nearest(Nr, have)[0]))].tolist()} has no plane")
        W, status = get_bounding_box(planes)
        # extreme points: on three facets of independent normals
        ext = [p for p in P if np.linalg.matrix_rank(Nr[np.abs(Nr @ p - Qr) < 1e-7 * size], tol=1e-6) == 3]
        ch.check(status == 0 and len(W) >= 4, f"{what}: status {status}")
        tol = 1e-6 * size + 1e-9 * np.abs(t).max()
        ch.check(ref.nearest(np.array(ext), W)[0].max() < tol, lambda: f"{what}: a corner is lost")
        ch.check(ref.nearest(W, np.array(ext))[0].max() < tol, lambda: f"{what}: {W[int(np.argmax(ref.nearest(W, np.array(ext))[0]))].tolist()} is no corner")
        # inside and outside
        q = np.vstack([P.mean(0) + s * (P - P.mean(0)) for s in (.0, .5, .97, 1.03, 2.)] + [(P[i] + P[j]) / 2 * 1.01 - .01 * P.mean(0) for i, j in itertools.combinations(range(m), 2)])
        ins = np.all([np.ravel(p.checkIfInterior(q)) for p in planes], axis=0)
        d = (q @ Nr.T - Qr).max(1)
        ch.check(np.all((d < 0) == ins, where=np.abs(d) > 1e-4 * size + 2e-5), lambda: f"{what}: inside decided wrongly")
        ch.outcome((g, len(ext), len(Nr)))
    ch.state((g, S))


HARNESSES = {
    "half-spaces": dict(body=body_sets, shard=3, bounds=lambda t: "two alphabets of 16 and 14 half-spaces, all subsets of up to 7 (6) x places x scales x representing points x orders" + (" (all 54 combinations up to 3 planes, a rotating selection beyond)" if t == "quick" else " (all combinations up to 5 planes)")),
    "polyhedra": dict(body=body_poly, shard=3, bounds=lambda t: f"all combinations of up to three of {5 if t == 'quick' else 6} families of 6 to 48 faces x {len(DIST) - 1} distances each, each in two of the places, scales, turns, representing points and orders"),
    "coinciding": dict(body=body_same, shard=3, bounds=f"{len(SHAPES)} shapes x 2 turns x {len(COPIES)} ways to repeat their planes x 3 places x 3 scales x 5 choices of representing points x normals exact or off by two magnitudes of rounding"),
    "hulls": dict(body=body_hull, shard=3, bounds=lambda t: f"all non-flat subsets of {'4 to 8' if t == 'thorough' else '4 to 6'} points of two lattices in 5 places and shapes"),
}
