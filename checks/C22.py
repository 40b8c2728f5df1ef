"""All sub-clouds of irregular point clouds x probe radii x both algorithms, against a brute-force Delaunay triangulation (all
4-subsets, empty circumspheres); all clusters of lattice atoms with every small set of vacancies, against the exposed-face rule
evaluated on the triangulation the algorithm reports; all tetrahedra of a grid for the circumradii."""
import os
import itertools
import numpy as np
from scipy.spatial import Delaunay
from mc import env
from czone.surface.alpha_shape import alpha_shape_alg_3D, alpha_shape_alg_3D_with_sampling, tetrahedron_circumradii

PROPERTY = "C22"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["clouds in general position: cut when the noise the algorithms add could change which circumspheres are empty, or which are smaller than the probe",
               "outermost cells: those with a face on the convex hull, or sharing a face with a cell on the hull which the probe can enter"]


def frac(i, k):
    return np.modf(abs(np.sin((i + 1) * 12.9898 + (k + 1) * 78.233)) * 43758.5453)[0]


def jitter(p, a):
    return p + a * np.array([[frac(i, k) - .5 for k in range(3)] for i in range(len(p))])


GRID = lambda a, b, c: np.array(list(itertools.product(range(a), range(b), range(c))), float)
CLOUDS = {"block": jitter(GRID(2, 2, 3) * 1.9, .7), "plate": jitter(GRID(3, 4, 1) * 1.9, 1.1), "rod": jitter(GRID(1, 2, 6) * 1.8, .8),
          "spread": jitter(np.array([[frac(3 * i + 7, k) for k in range(3)] for i in range(12)]) * 5, 0)}
ICO = np.array([[0, a, b * 1.618] for a in (1, -1) for b in (1, -1)], float)
ICO = np.vstack([ICO, ICO[:, [1, 2, 0]], ICO[:, [2, 0, 1]]]) * 1.45
CLOUDS["shell"] = jitter(ICO, .5)
CLOUDS["filled shell"] = jitter(np.vstack([ICO[:10], [[0, 0, 0], [.3, 1, 4.5]]]), .4)
if THOROUGH:
    for k, a in enumerate((.5, .9, 1.3)):
        CLOUDS[f"block {k}"] = jitter(np.vstack([np.zeros((3 * k, 3)), GRID(2, 2, 3) * 1.9]), a)[3 * k:]
RADII = (1.6, 2.1, 2.9, 6.)


def sphere(p):
    A = 2 * (p[1:] - p[0])
    b = ((p[1:] - p[0]) ** 2).sum(1)
    if abs(np.linalg.det(A)) < 1e-7:
        return None, np.inf
    c = np.linalg.solve(A, b)
    return c + p[0], np.linalg.norm(c)


_cells = {}


def delaunay(name, idx):
    """cells (as 4-subsets) with circumradius; None if undecided at the scale of the noise"""
    P = CLOUDS[name]
    idx = list(idx)
    out = []
    for q in itertools.combinations(idx, 4):
        k = (name, q)
        if k not in _cells:
            c, R = sphere(P[list(q)])
            t = P[list(q)]
            L = max(np.linalg.norm(a - b) for a, b in itertools.combinations(t, 2))
            _cells[k] = (R, None if c is None else np.linalg.norm(P - c, axis=1) - R, c is not None and 2e-4 * (2 + L ** 3 / abs(np.linalg.det(t[1:] - t[0]))))
        R, s, noise = _cells[k]
        if s is None:
            return None
        rest = [s[i] for i in idx if i not in q]
        m = min(rest, default=np.inf)
        if abs(m) < noise:
            return None
        if m > 0:
            out.append((q, R))
    return out


def surface(cells, radius):
    """corners of exposed faces of outermost small cells"""
    face = {}
    for i, (q, R) in enumerate(cells):
        for f in itertools.combinations(sorted(q), 3):
            face.setdefault(f, []).append(i)
    small = [R <= radius for _, R in cells]
    hull = [any(len(face[f]) == 1 for f in itertools.combinations(sorted(q), 3)) for q, _ in cells]
    out = set()
    for i, (q, R) in enumerate(cells):
        if not small[i]:
            continue
        fs = [(f, [j for j in face[f] if j != i]) for f in itertools.combinations(sorted(q), 3)]
        if hull[i] or any(o and hull[o[0]] and not small[o[0]] for _, o in fs):
            for f, o in fs:
                if not o or not small[o[0]]:
                    out |= set(f)
    return out


def run(ch, alg, pts, radius, **kw):
    given = pts.copy()
    ch.op()
    r = alg(given, radius, **kw)
    ch.check(np.array_equal(given, pts), "the cloud was modified")
    ind = r[0] if kw.get("return_alpha_shape") else r
    ind = [int(i) for i in ind]
    ch.check(len(set(ind)) == len(ind) and all(0 <= i < len(pts) for i in ind), lambda: f"indices not valid and unique: {ind}")
    return (ind, r[1]) if kw.get("return_alpha_shape") else ind


def body_sub(ch):
    name = ch.choose("cloud", list(CLOUDS))
    n = ch.choose("points", range(12, 4, -1))
    idx = ch.choose("subset", list(itertools.combinations(range(12), n)))
    P = CLOUDS[name][list(idx)]
    cells = delaunay(name, idx)
    if cells is None:
        ch.prune("not in general position")
    pos = {i: k for k, i in enumerate(idx)}
    for radius in RADII:
        if any(abs(R - radius) < .02 * radius for _, R in cells):
            continue
        want = {pos[i] for i in surface(cells, radius)}
        for alg, kw in ((alpha_shape_alg_3D, dict(rng=np.random.default_rng(n))), (alpha_shape_alg_3D, dict()),
                        (alpha_shape_alg_3D_with_sampling, dict(N_samples=2, seed=n)), (alpha_shape_alg_3D_with_sampling, dict(N_samples=1, std=1e-6, rng=np.random.default_rng(1)))):
            if alg is alpha_shape_alg_3D_with_sampling and any(flat(CLOUDS[name][list(q)]) for q, _ in cells):
                continue          # the radii of nearly flat cells follow the sampled noise
            got = set(run(ch, alg, P, radius, **kw))
            ch.check(got == want, lambda: f"{name} {list(idx)} radius {radius}: {alg.__name__} reports {sorted(got)} instead of {sorted(want)}")
        ch.outcome((name, tuple(sorted(want))))
    ch.state((name, idx))


def flat(q):
    v = abs(np.linalg.det(q[1:] - q[0]))
    return v < .05 * max(np.linalg.norm(a - b) for a, b in itertools.combinations(q, 2)) ** 2 * .5


# ------------------------------------------------------------------ lattice clusters (degenerate triangulations)
def fcc(r):
    g = GRID(5, 5, 5) - 2
    p = (g[:, None] + np.array([[0, 0, 0], [.5, .5, 0], [.5, 0, .5], [0, .5, .5]])).reshape(-1, 3) * 4.05
    return p[np.linalg.norm(p, axis=1) < r]


LATT = {"cubic 3x3x4": GRID(3, 3, 4) * 2.6, "fcc ball": fcc(6.5), "slab": np.vstack([GRID(4, 4, 1) * 2.7, GRID(4, 4, 1) * 2.7 + [1.35, 1.35, 1.9], GRID(4, 4, 1) * 2.7 + [0, 0, 3.8]])}


def rule(tri, radius, R=None):
    """the exposed-face rule on a reported triangulation; None if some radius is too close to the probe's"""
    P, S, N = tri.points, tri.simplices, tri.neighbors
    if R is None:
        R = circ(P, S)
        if (np.abs(R - radius) < 1e-5 * R).any():
            return None
    small, hull = R <= radius, (N < 0).any(1)
    out = set()
    for i in np.nonzero(small)[0]:
        if hull[i] or any(j >= 0 and hull[j] and not small[j] for j in N[i]):
            for k, j in enumerate(N[i]):
                if j < 0 or not small[j]:
                    out |= set(int(x) for x in np.delete(S[i], k))
    return out


def shape_parts(ch, d, radius, R=None):
    """the cells reported as surface and as full shape"""
    S, N = d["tri"].simplices, d["tri"].neighbors
    small, hull = (circ(d["tri"].points, S) if R is None else R) <= radius, (N < 0).any(1)
    surf = small & (hull | np.array([any(j >= 0 and hull[j] and not small[j] for j in n) for n in N]))
    got = np.asarray(d["surface_tris"])
    ch.check(got.dtype == bool and got.shape == (len(S),) and np.array_equal(got, surf), lambda: f"surface cells {np.nonzero(got)[0].tolist()} instead of {np.nonzero(surf)[0].tolist()} (radius {radius})")
    a = np.asarray(d["a_tris"])
    ch.check(a.ndim == 1 and a.dtype.kind in "iu" and len(set(a.tolist())) == len(a), lambda: f"cells of the shape are no list of indices: {a}")
    ch.check(set(np.nonzero(small)[0]) <= set(a.tolist()) and not set(np.nonzero(hull & ~small)[0]) & set(a.tolist()), lambda: f"cells of the shape {a.tolist()} (radius {radius}): small ones missing or outer ones that fail the probe included")


def body_latt(ch):
    name = ch.choose("cluster", list(LATT))
    P = LATT[name]
    nv = ch.choose("vacancies", (0, 1, 2, 3) if THOROUGH else (0, 1, 2))
    vac = ch.choose("missing", list(itertools.combinations(range(len(P) if nv < 2 else min(len(P), 24)), nv)))
    radius = ch.choose("radius", (2.0, 2.5, 3.1))
    seed = ch.choose("seed", (0, 1))
    Q = np.delete(P, list(vac), axis=0)
    got, d = run(ch, alpha_shape_alg_3D, Q, radius, rng=np.random.default_rng(seed), return_alpha_shape=True)
    tri = d["tri"]
    ch.check(tri.points.shape == Q.shape and np.abs(tri.points - Q).max() < 2e-3, "triangulation of another cloud")
    ref_tri = Delaunay(tri.points)
    ch.check({tuple(sorted(s)) for s in ref_tri.simplices} == {tuple(sorted(s)) for s in tri.simplices}, "not the Delaunay triangulation of the cloud")
    want = rule(tri, radius)
    if want is None:
        ch.prune("radius too close")
    ch.check(set(got) == want, lambda: f"{name} without {vac}, radius {radius}: missing {sorted(want - set(got))}, wrong {sorted(set(got) - want)}")
    shape_parts(ch, d, radius)
    again = run(ch, alpha_shape_alg_3D, Q, radius, rng=np.random.default_rng(seed))
    ch.check(set(again) == want, "depends on whether the shape is returned")
    if name == "fcc ball" and not nv and radius > 2.2:
        inner = {i for i, p in enumerate(Q) if np.linalg.norm(p) < 2.}
        for alg, kw in ((alpha_shape_alg_3D, dict()), (alpha_shape_alg_3D_with_sampling, dict(N_samples=20, seed=seed))):
            s = set(run(ch, alg, Q, radius, **kw))
            ch.check(not s & inner, f"{alg.__name__} reports deep interior atoms {s & inner}")
    ch.outcome((name, len(vac), radius, len(want)))


# ------------------------------------------------------------------ larger clouds, every probe radius that makes a difference
SHAPES = ("ball", "plate", "rod", "corner", "shell with a core", "two lumps")


def big_cloud(shape, n, k):
    u = np.array([[frac(5 * i + 11 * k + 2, c) for c in range(3)] for i in range(6 * n)]) - .5
    if shape == "ball":
        p = u[np.linalg.norm(u, axis=1) < .5][:n] * 12
    elif shape == "plate":
        p = u[:n] * [16, 14, 3]
    elif shape == "rod":
        p = u[:n] * [4, 4, 30]
    elif shape == "corner":
        p = u[(u.min(1) < -.2)][:n] * 13
    elif shape == "two lumps":
        p = u[:n] * 6 + np.where(np.arange(n) % 3 == 0, 11, 0)[:, None]
    else:
        v = u / np.linalg.norm(u, axis=1)[:, None]
        p = np.where((np.arange(6 * n) % 4 == 0)[:, None], u * 5, v * 7 + u)[:n]
    return p + [[0, 0, 0], [310., -90, 44]][k % 2]


_big = {}


def body_big(ch):
    shape = ch.choose("shape", SHAPES)
    n = ch.choose("points", (20, 45, 120) if not THOROUGH else (20, 33, 45, 70, 120, 200))
    k = ch.choose("variant", range(3) if not THOROUGH else range(6))
    which = ch.choose("algorithm", ("plain", "sampling"))
    P = big_cloud(shape, n, k)
    tri0 = Delaunay(P)
    R0 = np.sort(circ(P, tri0.simplices))
    cuts = np.unique(np.concatenate([[R0[0] * .5, R0[-1] * 2], (R0[1:] + R0[:-1]) / 2]))
    part = ch.choose("radii", range(4))
    done = 0
    for radius in cuts[part::4]:
        if which == "plain":
            got, d = run(ch, alpha_shape_alg_3D, P, radius, rng=np.random.default_rng(n), return_alpha_shape=True)
            margin = 1e-5
        else:
            got, d = run(ch, alpha_shape_alg_3D_with_sampling, P, radius, N_samples=2, std=1e-9, seed=k, return_alpha_shape=True)
            margin = None
        tri = d["tri"]
        ch.check(tri.points.shape == P.shape and np.abs(tri.points - P).max() < 2e-3, "triangulation of another cloud")
        R = circ(tri.points, tri.simplices)
        if margin is None:          # sensitivity of each radius to the noise
            X = tri.points[tri.simplices]
            L = np.linalg.norm(X[:, 1:] - X[:, :1], axis=2).max(1)
            margin = 2e-8 * (2 + L ** 3 / np.abs(np.linalg.det(X[:, 1:] - X[:, :1]))) * (1 + R / L)
        if (np.abs(R - radius) < margin * R).any():
            continue
        want = rule(tri, radius, R)
        shape_parts(ch, d, radius, R)
        done += 1
        ch.check(set(got) == want, lambda: f"{shape} of {n} ({k}), {which}, radius {radius}: missing {sorted(want - set(got))}, wrong {sorted(set(got) - want)}")
    if not done:
        ch.prune("a cell too flat")
    ch.outcome((shape, n, k, which, part, done))


def circ(P, S):
    X = P[S]
    A = 2 * (X[:, 1:] - X[:, :1])
    return np.linalg.norm(np.linalg.solve(A, ((X[:, 1:] - X[:, :1]) ** 2).sum(-1)[..., None])[..., 0], axis=1)


# ------------------------------------------------------------------ circumradii
TP = [np.array(p, float) for p in itertools.product((0, 1.3, -2.1), (0, .7, 2.2), (-.4, 1.1, 3.3))]


def body_radii(ch):
    a = ch.choose("first", range(len(TP)))
    b = ch.choose("second", range(len(TP)))
    shift = np.array(ch.choose("shift", ([0, 0, 0.], [103., -57, 12])))
    quads, want = [], []
    for c, d in itertools.combinations(range(len(TP)), 2):
        if len({a, b, c, d}) < 4:
            continue
        q = np.array([TP[i] for i in (a, b, c, d)]) + shift
        o, R = sphere(q)
        if o is None or abs(np.linalg.det(q[1:] - q[0])) < 1e-3:
            continue
        quads.append(q), want.append(R)
    if not quads:
        ch.prune()
    Q = np.array(quads)
    keep = Q.copy()
    ch.op(len(quads))
    got = np.asarray(tetrahedron_circumradii(Q))
    ch.check(got.shape == (len(Q),) and np.allclose(got, want, rtol=1e-6), lambda: f"circumradius {got[~np.isclose(got, want, rtol=1e-6)][:1]} of {quads[int(np.argmax(~np.isclose(got, want, rtol=1e-6)))].tolist()}")
    ch.check(np.array_equal(Q, keep), "tetrahedra modified")


HARNESSES = {
    "sub-clouds": dict(body=body_sub, shard=3, bounds=lambda t: f"{len(CLOUDS)} clouds of 12 points, all subsets of at least 5 points x {len(RADII)} radii x both algorithms with and without seed"),
    "clusters": dict(body=body_latt, shard=3, bounds=lambda t: f"{len(LATT)} clusters x all sets of up to {2 if t == 'quick' else 3} vacancies (two and more: among the first 24 atoms) x 3 radii x 2 seeds"),
    "thresholds": dict(body=body_big, shard=3, bounds=lambda t: f"{len(SHAPES)} shapes of cloud x {'20 to 120' if t == 'quick' else '20 to 200'} points x {3 if t == 'quick' else 6} variants x both algorithms x one probe radius between each two consecutive circumradii"),
    "circumradii": dict(body=body_radii, shard=2, bounds="all non-degenerate tetrahedra over a grid of 27 points, in two places"),
}
