"""Exhaustive evaluation of the rotation builders over all ordered pairs of integer vectors in a cube (with perturbations towards
collinear and scalings), all axis-angle grids, all Euler angle grids, and all pairs of vector sets; compared with closed forms."""
import os
import itertools
import numpy as np
from mc import env, ref
from czone.transform import rot_v, rot_vtv, rot_align, rot_zxz, Rotation
from czone.util.misc import vangle

PROPERTY = "C10"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["zero vectors are outside the documented domain", "matrices are compared to 1e-7"]
N = 3 if THOROUGH else 2
VEC = [v for v in itertools.product(range(-N, N + 1), repeat=3) if any(v)]
SCALES = [(1, 1), (1e-4, 3e3), (7.3, .02)]
ANG = [k * np.pi / 12 for k in range(-24, 25)] + [1e-9, -1e-7, 1e-4, np.pi - 1e-9, 3.3333]


def proper(ch, R, what):
    R = np.asarray(R)
    ch.check(R.shape == (3, 3) and np.all(np.isfinite(R)), lambda: f"{what}: {R}")
    ch.check(np.abs(R @ R.T - np.eye(3)).max() < 1e-9, lambda: f"{what}: not orthogonal, off by {np.abs(R @ R.T - np.eye(3)).max()}")
    ch.check(abs(np.linalg.det(R) - 1) < 1e-9, lambda: f"{what}: determinant {np.linalg.det(R)}")


def vtv(ch, v, w, what):
    a, b = np.array(v), np.array(w)
    a0, b0 = a.copy(), b.copy()
    R = rot_vtv(a, b)
    ch.check(np.array_equal(a, a0) and np.array_equal(b, b0), f"{what}: arguments modified")
    proper(ch, R, what)
    x, y = np.ravel(a) / np.linalg.norm(a), np.ravel(b) / np.linalg.norm(b)
    ch.check(np.abs(R @ x - y).max() < 1e-7, lambda: f"{what}: direction missed by {np.abs(R @ x - y).max():.2e}")
    Rotation(matrix=R)


def body_vtv(ch):
    v = np.array(ch.choose("v", VEC))
    w = np.array(ch.choose("vt", VEC))
    ch.op(len(SCALES))
    for a, b in SCALES:
        vtv(ch, v * a, w * b, f"rot_vtv({v}*{a}, {w}*{b})")
    vtv(ch, v, w, f"integer vectors {v} {w}")
    th = np.arctan2(np.linalg.norm(np.cross(v, w)), v @ w)
    ch.outcome(round(float(th), 6))


PERT = [0, 1e-15, 1e-13, 1e-12, 1e-11, 1e-10, 1e-9, 1e-8, 3e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 1e-2]


def body_collinear(ch):
    v = np.array(ch.choose("v", VEC), float)
    s = ch.choose("sense", (1, -1))
    ch.op()
    for e in np.eye(3).tolist() + [[.3, -.5, .8]]:
        for p in PERT:
            for a in (1, 1 / 3, 911.7):
                w = s * a * (v / np.linalg.norm(v) + p * np.array(e))
                vtv(ch, v, w, f"rot_vtv({v}, {s}*{a}*(v+{p}*{e}))")
                vtv(ch, w[None], v[:, None], f"rot_vtv({s}*{a}*(v+{p}*{e}) as row, {v} as column)")
                for x, y in ((v, w), (w, v)):
                    t = vangle(x, y)
                    want = np.arctan2(np.linalg.norm(np.cross(x, y)), x @ y)
                    ch.check(np.isfinite(t) and 0 <= t <= np.pi and abs(t - want) < 1e-6, lambda: f"vangle({x}, {y}) = {t}, expected {want}")


def body_v(ch):
    v = np.array(ch.choose("axis", VEC))
    ch.op(len(ANG))
    for th in ANG:
        for k, shape in ((1, (3,)), (.01, (1, 3)), (250., (3, 1))):
            a = (v * k).reshape(shape)
            a0 = a.copy()
            R = rot_v(a, th)
            proper(ch, R, f"rot_v({v}*{k}, {th})")
            ch.check(np.array_equal(a, a0), "axis modified")
            ch.check(np.abs(R - ref.rodrigues(v, th)).max() < 1e-7, lambda: f"rot_v({v}*{k}, {th}) is not the right-handed rotation: {R.tolist()}")


EUL = [k * np.pi / 6 for k in range(-6, 7)] + [.1, 2.2, 4.4]


def body_zxz(ch):
    a, b = ch.choose("alpha", EUL), ch.choose("beta", EUL)
    ch.op(2 * len(EUL))
    z, x = [0, 0, 1], [1, 0, 0]
    r = ref.rodrigues
    for c in EUL:
        # intrinsic: Z(alpha) X'(beta) Z''(gamma) about the moving axes; extrinsic: gamma, beta, alpha about fixed axes
        want = r(z, a) @ r(x, b) @ r(z, c)
        ext = want.copy()        # fixed axes: first gamma about z, then beta about x, then alpha about z
        for conv, w in ((None, want), ("intrinsic", want), ("extrinsic", ext)):
            R = rot_zxz(a, b, c) if conv is None else rot_zxz(a, b, c, convention=conv)
            proper(ch, R, f"rot_zxz({a},{b},{c},{conv})")
            ch.check(np.abs(R - w).max() < 1e-7, lambda: f"rot_zxz({a},{b},{c},{conv}) differs from the documented product")
    for bad in ("Intrinsic", "", "xyz"):
        try:
            rot_zxz(a, b, .3, convention=bad)
        except ValueError:
            continue
        ch.fail(f"convention {bad!r} accepted")


SETS = [np.array(s, float) for s in (
    [[1, 0, 0], [0, 1, 0]], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [[1, 2, 3], [-1, 0, 1]], [[1, 1, 0], [1, -1, 0], [2, 0, 0]],
    [[.1, 0, .2], [5, 1, 0], [0, -3, 2], [1, 1, 1]], [[1, 0, 0], [1, 1e-2, 0]], [[0, 0, 2], [0, 3, 0]],
    [[1, 2, -1], [-1, -2, 1], [0, 1, 0]], [[3, 0, 0], [0, 0, -3], [0, 3, 0], [1, 1, 1], [-2, 1, 0]])]


def body_align(ch):
    s = ch.choose("set", range(len(SETS)))
    ax = np.array(ch.choose("axis", [v for v in VEC if max(map(abs, v)) <= 2]))
    ch.op(len(ANG))
    v = SETS[s]
    for th in ANG:
        R0 = ref.rodrigues(ax, th)
        w = v @ R0.T
        a, b = v.copy(), w.copy()
        R = rot_align(a, b)
        ch.check(np.array_equal(a, v) and np.array_equal(b, w), "arguments modified")
        proper(ch, R, f"rot_align set {s} turned about {ax} by {th}")
        ch.check(np.abs(v @ R.T - w).max() < 1e-6 * np.abs(v).max(), lambda: f"rot_align set {s}: targets missed by {np.abs(v @ R.T - w).max():.2e} (turned about {ax} by {th})")


def body_vangle(ch):
    dim = ch.choose("dim", (2, 3, 4))
    vs = VEC if dim == 3 else [v for v in itertools.product(range(-2, 3), repeat=2) if any(v)] if dim == 2 else \
        [v for v in itertools.product((-1, 0, 1), repeat=4) if any(v)]
    v = np.array(ch.choose("v", vs))
    ch.op(len(vs))
    for w in vs:
        w = np.array(w)
        for a, b in SCALES:
            t = vangle(v * a, w * b)
            c = (v @ w) / np.sqrt((v @ v) * (w @ w))
            ch.check(np.isfinite(t) and 0 <= t <= np.pi, lambda: f"vangle({v}*{a}, {w}*{b}) = {t}")
            ch.check(abs(np.cos(t) - c) < 1e-9, lambda: f"vangle({v}*{a}, {w}*{b}) = {t}, cosine should be {c}")


HARNESSES = {
    "vector to vector": dict(body=body_vtv, shard=2, bounds=f"all {len(VEC)}^2 ordered pairs of non-zero integer vectors with |component| <= {N} x 3 scalings + integer dtype"),
    "collinear": dict(body=body_collinear, shard=1, bounds=f"{len(VEC)} vectors x parallel/antiparallel x 4 directions x {len(PERT)} perturbations x 3 scales, both ways"),
    "axis angle": dict(body=body_v, shard=1, bounds=f"{len(VEC)} axes x {len(ANG)} angles x 3 shapes and lengths"),
    "euler": dict(body=body_zxz, shard=2, bounds=f"{len(EUL)}^3 angles x 3 conventions"),
    "sets": dict(body=body_align, shard=2, bounds=f"{len(SETS)} vector sets x axes x {len(ANG)} angles"),
    "angle": dict(body=body_vangle, shard=2, bounds="all ordered pairs in 2, 3 and 4 dimensions x 3 scalings"),
}
