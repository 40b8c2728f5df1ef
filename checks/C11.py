"""All pairs of planes over a grid of normals and positions x reference points: the returned map is compared with the closed form
(rigid, moving plane onto target with opposite normal, reference point above the projected target point)."""
import os
import itertools
import numpy as np
from mc import env, ref
from czone.transform import s2s_alignment, MultiTransform
from czone.volume import Plane, Volume, Sphere

PROPERTY = "C11"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["positions compared to 1e-7"]
NORM = [v for v in itertools.product((-1, 0, 1), repeat=3) if any(v)] + [(.3, -2, 1.1), (-.3, 2, -1.1), (1e-3, 0, 1), (0, 1e-9, -1)]
if THOROUGH:
    NORM += [v for v in itertools.product((-2, -1, 0, 1, 2), repeat=3) if max(map(abs, v)) == 2 and (v[0] + 3 * v[1] + 7 * v[2]) % 3 == 0]
POS = [(0, 0, 0), (1.5, -2, .7), (-11.3, 4.2, -8.8)]
REFP = [(0, 0, 0), (2, 3, -1.5), (-6.1, .4, 7.7)] + ([(1.5, -2, .7)] if THOROUGH else [])
rng = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [3, -2, 5], [-4, 1.5, 2.]])


def body(ch):
    mn, tn = np.array(ch.choose("moving normal", NORM), float), np.array(ch.choose("target normal", NORM), float)
    shape = ch.choose("point shape", ((3,), (1, 3)))
    for mp, tp in itertools.product(POS, POS):
        for a, b in itertools.product(REFP, REFP):
            one(ch, mn, mp, tn, tp, np.array(a, float).reshape(shape), np.array(b, float).reshape(shape))


def one(ch, mn, mp, tn, tp, a, b):
    ch.op()
    M, T = Plane(mn.copy(), np.array(mp, float)), Plane(tn.copy(), np.array(tp, float))
    um, ut = mn / np.linalg.norm(mn), tn / np.linalg.norm(tn)
    a0, b0 = a.copy(), b.copy()
    tr = s2s_alignment(M, T, a, b)
    what = lambda: f"moving n={mn.tolist()} p={mp}, target n={tn.tolist()} p={tp}, points {a0.tolist()} {b0.tolist()}"
    same = lambda P, n, p: np.allclose(P.normal, n, atol=1e-14) and np.array_equal(P.point, np.array(p, float))
    ch.check(same(M, um, mp) and same(T, ut, tp), lambda: f"{what()}: input plane altered")
    ch.check(np.array_equal(a, a0) and np.array_equal(b, b0), lambda: f"{what()}: input point altered")
    img = tr.applyTransformation(rng.copy())
    o = img[0]
    L = (img[1:4] - o).T
    ch.check(np.abs(L @ L.T - np.eye(3)).max() < 1e-8 and np.linalg.det(L) > 0, lambda: f"{what()}: not a proper rigid map")
    ch.check(np.allclose(img[4:], rng[4:] @ L.T + o, atol=1e-8), lambda: f"{what()}: not affine")
    n2, p2 = L @ um, L @ np.array(mp, float) + o
    ch.check(np.abs(n2 + ut).max() < 1e-7, lambda: f"{what()}: normals not anti-parallel, {n2} vs {ut}")
    ch.check(abs((p2 - tp) @ ut) < 1e-6, lambda: f"{what()}: moving surface ends {(p2 - tp) @ ut} from the target")
    s = (np.ravel(a0) - mp) @ um
    pb = np.ravel(b0) - ((np.ravel(b0) - tp) @ ut) * ut
    want = pb - s * ut
    got = L @ np.ravel(a0) + o
    ch.check(np.abs(got - want).max() < 1e-6, lambda: f"{what()}: reference point carried to {got}, nearest point of its offset plane is {want}")
    moved = tr.applyTransformation_alg(M.from_alg_object())
    ch.check(np.abs(moved.normal + ut).max() < 1e-7 and abs((moved.point - tp) @ ut) < 1e-6, lambda: f"{what()}: transformed surface does not coincide with target")
    ch.outcome(np.round(want, 4).tobytes())


def body_plane(ch):
    """distances and projections of one point and of many"""
    n = np.array(ch.choose("normal", NORM), float)
    p = np.array(ch.choose("point", POS), float)
    u = n / np.linalg.norm(n)
    P = Plane(n.copy(), p.copy())
    pts = np.array(list(itertools.product((-3.3, 0, 2.1), repeat=3)))
    ch.op(len(pts))
    s = (pts - p) @ u
    q = pts.copy()
    ch.check(np.allclose(P.sdist_from_plane(q), s, atol=1e-10), "signed distances")
    ch.check(np.allclose(P.dist_from_plane(q), np.abs(s), atol=1e-10), "distances")
    ch.check(np.allclose(P.project_point(q), pts - s[:, None] * u, atol=1e-10), "projections")
    ch.check(np.array_equal(q, pts) and np.array_equal(P.point, p), "inputs altered")
    for k, x in enumerate(pts):
        ch.check(abs(P.sdist_from_plane(x) - s[k]) < 1e-10 and np.allclose(P.project_point(x), x - s[k] * u, atol=1e-10), f"single point {x}")
    P.flip_orientation()
    ch.check(np.allclose(P.sdist_from_plane(pts), -s, atol=1e-10) and np.allclose(P.project_point(pts), pts - s[:, None] * u, atol=1e-10), "flipped plane")


HARNESSES = {
    "alignment": dict(body=body, shard=2, bounds=f"{len(NORM)}^2 normals x {len(POS)}^2 positions x {len(REFP)}^2 reference points x 2 shapes"),
    "planes": dict(body=body_plane, shard=2, bounds=f"{len(NORM)} normals x {len(POS)} points x 27 query points"),
}
