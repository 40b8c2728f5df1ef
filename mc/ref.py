"""Reference models: crystals by brute force, affine maps, surfaces, set comparison.  No code of the package is used."""
import itertools
import numpy as np
from scipy.spatial import cKDTree

TOL = 1e-5


def params_to_matrix(dims, angs):
    """columns = lattice vectors; c along z, a in the xz plane (the convention of pymatgen's from_parameters)"""
    a, b, c = dims
    al, be, ga = np.radians(angs)
    va = np.array([a * np.sin(be), 0, a * np.cos(be)])
    vb_z = b * np.cos(al)
    val = (np.cos(al) * np.cos(be) - np.cos(ga)) / (np.sin(al) * np.sin(be))
    gs = np.arccos(np.clip(val, -1, 1))
    vb = np.array([-b * np.sin(al) * np.cos(gs), b * np.sin(al) * np.sin(gs), vb_z])
    vc = np.array([0, 0, c])
    return np.array([va, vb, vc]).T


class Crystal:
    """an infinite crystal: image of {B (u + f_k)} (u integer) under x -> x + o"""

    def __init__(self, B, frac, Z, o=(0, 0, 0)):
        self.B, self.frac, self.Z, self.o = np.array(B, float), np.atleast_2d(np.array(frac, float)), np.array(Z, float), np.array(o, float)

    def map(self, M, t, basis_only=False):
        M, t = np.array(M, float), np.array(t, float)
        o = self.o if basis_only else M @ self.o + t
        return Crystal(M @ self.B, self.frac, self.Z, o)

    def in_box(self, lo, hi):
        """all sites with lo <= x <= hi componentwise (padded), brute force over a generous block of cells"""
        lo, hi = np.asarray(lo, float), np.asarray(hi, float)
        corners = np.array(list(itertools.product(*zip(lo, hi))))
        inv = np.linalg.inv(self.B)
        u = (corners - self.o) @ inv.T
        f0, f1 = self.frac.min(0), self.frac.max(0)
        a = np.floor(u.min(0) - f1 - 1e-6).astype(int) - 1
        b = np.ceil(u.max(0) - f0 + 1e-6).astype(int) + 1
        g = np.array(list(itertools.product(*[range(x, y + 1) for x, y in zip(a, b)])), float)
        pos = (g[:, None, :] + self.frac[None, :, :]).reshape(-1, 3) @ self.B.T + self.o
        Z = np.tile(self.Z, len(g))
        m = np.all((pos >= lo - 1e-9) & (pos <= hi + 1e-9), axis=1)
        return pos[m], Z[m]

    def site_of(self, pos):
        """for every position: index of the basis site it is (or -1)"""
        u = (np.atleast_2d(pos) - self.o) @ np.linalg.inv(self.B).T
        out = np.full(len(u), -1)
        for k, f in enumerate(self.frac):
            d = u - f
            d = (d - np.round(d)) @ self.B.T
            out[np.linalg.norm(d, axis=1) < TOL] = k
        return out


class Aff:
    def __init__(self, M=np.eye(3), t=np.zeros(3)):
        self.M, self.t = np.array(M, float), np.array(t, float)

    @staticmethod
    def about(M, o=None):
        M = np.array(M, float)
        o = np.zeros(3) if o is None else np.array(o, float)
        return Aff(M, o - M @ o)

    def __call__(self, p):
        return np.asarray(p, float) @ self.M.T + self.t

    def then(self, g):
        return Aff(g.M @ self.M, g.M @ self.t + g.t)


def nearest(A, B):
    return cKDTree(B).query(A)


def diff(got, gotZ, want, wantZ, tol=TOL, optional=None):
    """None when the two sets of atoms are the same (positions within tol, elements equal, no duplicates);
    optional: positions that may or may not be there"""
    got, want = np.reshape(np.asarray(got, float), (-1, 3)), np.reshape(np.asarray(want, float), (-1, 3))
    gotZ, wantZ = np.asarray(gotZ, float).ravel(), np.asarray(wantZ, float).ravel()
    if len(got) != len(gotZ):
        return f"{len(got)} positions but {len(gotZ)} elements"
    if len(got) and not np.all(np.isfinite(got)):
        return "non-finite positions"
    if len(got) > 1:
        d = cKDTree(got).query(got, k=2)[0][:, 1]
        if d.min() < tol:
            return f"atom supplied twice at {np.round(got[int(np.argmin(d))], 4).tolist()}"
    if len(want):
        if len(got) == 0:
            if optional is None or not np.all(optional):
                return f"no atoms, expected {len(want)}"
        else:
            d, i = nearest(want, got)
            bad = d > tol
            if optional is not None:
                bad &= ~np.asarray(optional, bool)
            if bad.any():
                k = int(np.argmax(bad))
                return f"{int(bad.sum())} of {len(want)} expected atoms missing, e.g. {np.round(want[k], 4).tolist()} (got {len(got)})"
    if len(got):
        if len(want) == 0:
            return f"{len(got)} atoms where none expected, e.g. {np.round(got[0], 4).tolist()}"
        d, i = nearest(got, want)
        if (d > tol).any():
            k = int(np.argmax(d > tol))
            return f"{int((d > tol).sum())} unexpected atoms, e.g. {np.round(got[k], 4).tolist()} (expected {len(want)}, got {len(got)})"
        if (np.abs(gotZ - wantZ[i]) > 1e-6).any():
            k = int(np.argmax(np.abs(gotZ - wantZ[i]) > 1e-6))
            return f"element {gotZ[k]} instead of {wantZ[i][k]} at {np.round(got[k], 4).tolist()}"
    return None


# ---- signed depth of points with respect to surfaces: >0 outside, <0 inside (tolerance excluded)
def d_sphere(p, r, c):
    return np.linalg.norm(np.asarray(p) - c, axis=1) - r


def d_plane(p, n, q):
    n = np.asarray(n, float) / np.linalg.norm(n)
    return (np.asarray(p) - q) @ n


def d_cyl(p, ax, q, r, L):
    ax = np.asarray(ax, float) / np.linalg.norm(ax)
    w = np.asarray(p) - q
    h = w @ ax
    rad = np.linalg.norm(w - h[:, None] * ax, axis=1)
    return np.maximum(rad - r, np.abs(h) - L / 2)


def d_hull(p, pts):
    """max over supporting planes of the convex hull, found by brute force over triples (small point sets only)"""
    pts = np.asarray(pts, float)
    N, Q = hull_planes(pts)
    return np.max(np.asarray(p) @ N.T - Q, axis=1)


_cache = {}


def hull_planes(pts):
    k = pts.tobytes()
    if k in _cache:
        return _cache[k]
    planes = []
    c = pts.mean(0)
    scale = np.abs(pts - c).max()
    for i, j, l in itertools.combinations(range(len(pts)), 3):
        n = np.cross(pts[j] - pts[i], pts[l] - pts[i])
        nn = np.linalg.norm(n)
        if nn < 1e-9 * scale * scale:
            continue
        n = n / nn
        s = (pts - pts[i]) @ n
        if s.max() <= 1e-9 * scale:
            planes.append(np.append(n, n @ pts[i]))
        elif s.min() >= -1e-9 * scale:
            planes.append(np.append(-n, -n @ pts[i]))
    P = np.unique(np.round(np.array(planes), 9), axis=0)
    if len(_cache) > 2000:
        _cache.clear()
    _cache[k] = (P[:, :3], P[:, 3])
    return _cache[k]


def rodrigues(axis, th):
    a = np.asarray(axis, float)
    a = a / np.linalg.norm(a)
    K = np.array([[0, -a[2], a[1]], [a[2], 0, -a[0]], [-a[1], a[0], 0]])
    return np.eye(3) + np.sin(th) * K + (1 - np.cos(th)) * K @ K


def householder(n):
    n = np.asarray(n, float) / np.linalg.norm(n)
    return np.eye(3) - 2 * np.outer(n, n)
