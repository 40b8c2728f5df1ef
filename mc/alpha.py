"""Alphabets shared by the checks: crystals, transformations, surfaces (implementation object + reference side by side)."""
import itertools
import numpy as np
from mc import env  # noqa
from mc import ref
from pymatgen.core import Lattice, Structure
from czone.generator import Generator
from czone.transform import (Translation, Rotation, Reflection, Inversion, MatrixTransform, MultiTransform)
from czone.volume import Volume, MultiVolume, Plane, Sphere, Cylinder, makeRectPrism

# ------------------------------------------------------------------ crystals
CELLS = {
    "cub": ((3, 3, 3), (90, 90, 90), [[0, 0, 0]], [29]),
    "cscl": ((3.1, 3.1, 3.1), (90, 90, 90), [[0, 0, 0], [.5, .5, .5]], [55, 17]),
    "hex": ((3.2, 3.2, 5.2), (90, 90, 120), [[1 / 3, 2 / 3, .25], [2 / 3, 1 / 3, .75]], [12, 30]),
    "tri": ((3.1, 3.7, 4.3), (75, 82, 97), [[0.1, .2, .3], [.55, .65, .9], [.8, .05, .5]], [8, 22, 38]),
    "rho": ((3.3, 3.3, 3.3), (55, 55, 55), [[0, 0, 0]], [83]),
    "out": ((3.1, 3.7, 4.3), (75, 82, 97), [[-.3, .2, 1.4], [1.25, -1.6, .5]], [8, 22]),
    "fine": ((1.07, .93, 1.01), (90, 100, 83), [[.2, .1, .3]], [3]),
    "big": ((14.2, 11.7, 13.1), (80, 95, 103), [[.05, .15, .85], [.55, .35, .1], [-.2, .7, .45], [.9, .95, .62], [.333, .1234567, .25]], [92, 8, 1, 118, 8]),
    "needle": ((2.6, 2.9, 31.0), (90, 90, 105), [[0, 0, 0], [.4, .3, .481], [.1, .9, .77]], [30, 16, 7]),
    "mono": ((3.0, 5.5, 2.7), (90, 110, 90), [[0, 0, 0], [.5, .5, 0]], [14, 14]),
}


class Cell:
    def __init__(self, name):
        dims, angs, frac, Z = CELLS[name]
        self.name, self.dims, self.angs, self.frac, self.Z = name, dims, angs, np.array(frac, float), list(Z)

    def generator(self, **kw):
        return Generator.from_unit_cell(self.Z, self.frac, self.dims, self.angs, **kw)

    def crystal(self, origin=(0, 0, 0)):
        B = Lattice.from_parameters(*self.dims, *self.angs).matrix.T
        return ref.Crystal(B, self.frac, self.Z, origin)

    def __repr__(self):
        return f"cell:{self.name}"


def cells(*names):
    return [Cell(n) for n in names]


# ------------------------------------------------------------------ transformations
class T:
    """a transformation: make(locked=, basis_only=) builds the real object, aff is the reference map"""

    def __init__(self, name, make, M, o=None, t=None, iso=True):
        self.name, self._make, self.iso = name, make, iso
        self.lin = np.array(M, float)
        self.aff = ref.Aff.about(M, o)
        if t is not None:
            self.aff = self.aff.then(ref.Aff(np.eye(3), t))

    def make(self, **kw):
        return self._make(**kw)

    def __repr__(self):
        return self.name


def _rot(ax, th, o=None):
    M = ref.rodrigues(ax, th)
    return lambda **k: Rotation(matrix=M.copy(), origin=None if o is None else np.array(o, float), **k), M


def translation(v):
    return T(f"translate{tuple(v)}", lambda **k: Translation(np.array(v, float), **k), np.eye(3), None, v)


def rotation(ax, th, o=None):
    mk, M = _rot(ax, th, o)
    return T(f"rotate({ax},{round(th, 3)},about={o})", mk, M, o)


def reflection(n, p):
    return T(f"reflect(n={n},p={p})", lambda **k: Reflection(Plane(np.array(n, float), np.array(p, float)), **k), ref.householder(n), p)


def inversion(o=None):
    return T(f"invert(about={o})", lambda **k: Inversion(origin=None if o is None else np.array(o, float), **k), -np.eye(3), o)


def matrix(M, o=None, iso=False):
    return T(f"matrix({np.array(M).tolist()},about={o})",
             lambda **k: MatrixTransform(matrix=np.array(M, float), origin=None if o is None else np.array(o, float), **k), M, o, iso=iso)


SHEAR = [[1, .3, 0], [0, 1, 0], [.1, 0, 1.2]]
SWAP = [[0, 1, 0], [1, 0, 0], [0, 0, 1]]          # orthogonal, improper
T_ALL = [
    translation([1.3, -.7, 2.1]),
    rotation([0, 0, 1], np.pi / 2),
    rotation([1, 2, 3], .7, [2, -1, .5]),
    reflection([1, 1, 0], [1, 2, 0]),
    inversion(),
    matrix(SHEAR),
    inversion([1, 0, 2]),
    matrix(SHEAR, [.5, -1, 2]),
    reflection([0, 0, 1], [0, 0, 0]),
    matrix(SWAP, [1, 0, 0], iso=True),
    translation([-5.2, .4, .9]),
    rotation([1, -1, 0], -2.1, [-3, 0, 1]),
]
T_EXTRA = [                                        # far centres, tiny and straight angles, scalings, improper affine maps
    rotation([.3, -1, .2], 2.9, [150.5, -80.2, 40.7]),
    matrix([[-1.1, .2, 0], [0, .9, .3], [.1, 0, 1.05]], [3, 1, -2]),
    rotation([1, 0, 0], .01),
    rotation([0, 1, 1], np.pi, [-60, 0, 5]),
    matrix([[2, 0, 0], [0, .5, 0], [0, 0, 1.5]]),
    translation([320.4, -275.1, 0]),
    reflection([1, -2, .5], [-90, 40, 133]),
    inversion([70.3, -41, 202]),
]
T_ISO_EXTRA = [t for t in T_EXTRA if t.iso]
T_ISO = [t for t in T_ALL if t.iso]
T_CORE = T_ALL[:8]
T_ISO_CORE = [T_ALL[i] for i in (0, 2, 3, 6, 9)]


def compose(ts):
    a = ref.Aff()
    for t in ts:
        a = a.then(t.aff)
    return a


def flag_kw(locked=True, basis_only=False):
    return dict(locked=locked, basis_only=basis_only)


# ------------------------------------------------------------------ surfaces
class Surf:
    """kind, reference parameters; make() builds the real surface; depth(p) signed depth (tolerance excluded)"""

    def __init__(self, kind, *par, tol=None):
        self.kind, self.par, self.tol = kind, tuple(np.array(x, float) for x in par), 1e-5 if tol is None else tol
        self._tol = tol

    def make(self):
        kw = {} if self._tol is None else dict(tol=self._tol)
        p = [x.copy() for x in self.par]
        if self.kind == "sphere":
            return Sphere(radius=float(p[0]), center=p[1], **kw)
        if self.kind == "plane":
            return Plane(normal=p[0], point=p[1], **kw)
        return Cylinder(axis=p[0], point=p[1], radius=float(p[2]), length=float(p[3]), **kw)

    def depth(self, p):
        p = np.atleast_2d(p)
        if self.kind == "sphere":
            return ref.d_sphere(p, float(self.par[0]), self.par[1])
        if self.kind == "plane":
            return ref.d_plane(p, *self.par)
        return ref.d_cyl(p, self.par[0], self.par[1], float(self.par[2]), float(self.par[3]))

    def map(self, aff):
        """image under an affine map (isometry for spheres and cylinders)"""
        if self.kind == "sphere":
            return Surf("sphere", self.par[0], aff(self.par[1]), tol=self._tol)
        if self.kind == "plane":
            return Surf("plane", np.linalg.inv(aff.M).T @ self.par[0], aff(self.par[1]), tol=self._tol)
        return Surf("cylinder", aff.M @ self.par[0], aff(self.par[1]), self.par[2], self.par[3], tol=self._tol)

    def __repr__(self):
        return f"{self.kind}{[x.tolist() for x in self.par]}tol={self.tol}"


BOX = np.array(list(itertools.product([0, 1], repeat=3)), float)


def prism(size, corner=(0, 0, 0), R=None):
    p = BOX * np.array(size, float)
    if R is not None:
        p = (p - p.mean(0)) @ np.array(R).T + p.mean(0)
    return p + np.array(corner, float)


# ------------------------------------------------------------------ reference volumes
class RVol:
    """reference volume: hull points and surfaces, a crystal, a priority"""

    def __init__(self, pts=None, surfs=(), crystal=None, priority=0):
        self.pts = None if pts is None else np.array(pts, float)
        self.surfs, self.crystal, self.priority = list(surfs), crystal, priority

    def map(self, aff, joint=True):
        """isometries for spheres and cylinders"""
        c = self.crystal
        if joint and c is not None:
            c = c.map(aff.M, aff.t)
        return RVol(None if self.pts is None else aff(self.pts), [s.map(aff) for s in self.surfs], c, self.priority)

    def judge(self, p):
        """inside?, and is that beyond doubt (not within a margin of a boundary)?"""
        p = np.reshape(np.asarray(p, float), (-1, 3))
        ins, near, out = np.ones(len(p), bool), np.zeros(len(p), bool), np.zeros(len(p), bool)
        parts = [(ref.d_hull(p, self.pts), 0., 1e-6)] if self.pts is not None else []
        parts += [(s.depth(p), s.tol, min(s.tol * .2, 1e-4)) for s in self.surfs]
        for d, tol, m in parts:
            ins &= d < tol
            near |= np.abs(d - tol) <= m
            out |= d > tol + m
        return ins, ~near | out

    def aabb(self):
        lo, hi = np.full(3, -np.inf), np.full(3, np.inf)

        def cut(a, b):
            nonlocal lo, hi
            lo, hi = np.maximum(lo, a), np.minimum(hi, b)
        if self.pts is not None:
            cut(self.pts.min(0) - .01, self.pts.max(0) + .01)
        for s in self.surfs:
            if s.kind == "sphere":
                r = float(s.par[0]) + s.tol + .01
                cut(s.par[1] - r, s.par[1] + r)
            elif s.kind == "cylinder":
                r = np.hypot(float(s.par[2]), float(s.par[3]) / 2) + 2 * s.tol + .01
                cut(s.par[1] - r, s.par[1] + r)
        pl = [s for s in self.surfs if s.kind == "plane"]
        if len(pl) > 3:
            N = np.array([s.par[0] / np.linalg.norm(s.par[0]) for s in pl])
            D = np.array([n @ s.par[1] + s.tol for n, s in zip(N, pl)])
            V = halfspace_vertices(N, D)
            if V is not None and len(V):
                cut(V.min(0) - .01, V.max(0) + .01)
            else:               # empty, or unbounded?
                V = halfspace_vertices(np.vstack([N, np.eye(3), -np.eye(3)]), np.append(D, np.full(6, 1e4)))
                if V is None or not len(V):
                    return np.ones(3), np.zeros(3)
        return lo, hi

    def sites(self):
        """positions, elements, and mask of those that may or may not be there"""
        lo, hi = self.aabb()
        assert np.all(np.isfinite(lo) & np.isfinite(hi)), "unbounded reference volume"
        if np.any(lo > hi):
            return np.empty((0, 3)), np.empty(0), np.empty(0, bool)
        p, z = self.crystal.in_box(lo, hi)
        ins, sure = self.judge(p)
        keep = ins | ~sure
        return p[keep], z[keep], ~sure[keep]

    def build(self, gen, **kw):
        return Volume(points=None if self.pts is None else self.pts.copy(), alg_objects=[s.make() for s in self.surfs] or None,
                      generator=gen, priority=self.priority, **kw)


class RMulti:
    def __init__(self, members, priority=0):
        self.members, self.priority = list(members), priority

    def map(self, aff, joint=True):
        return RMulti([m.map(aff, joint) for m in self.members], self.priority)

    def judge(self, p):
        p = np.reshape(np.asarray(p, float), (-1, 3))
        ins, doubt, sure_in = np.zeros(len(p), bool), np.zeros(len(p), bool), np.zeros(len(p), bool)
        for m in self.members:
            i, s = m.judge(p)
            ins |= i
            doubt |= ~s
            sure_in |= i & s
        return ins, ~doubt | sure_in

    def sites(self):
        return resolve(self.members)


def resolve(objs, displaces=None, only=None):
    """atoms of each object not inside another object of lower or equal priority number"""
    P, Zs, Os = [], [], []
    for i, a in enumerate(objs):
        if only is not None and i != only:
            continue
        p, z, o = a.sites()
        keep, doubt = np.ones(len(p), bool), np.array(o, bool)
        for j, b in enumerate(objs):
            if i == j or b.priority > a.priority or (displaces is not None and not displaces[j]):
                continue
            ins, sure = b.judge(p)
            keep &= ~(ins & sure)
            doubt |= ~sure
        P.append(p[keep]), Zs.append(z[keep]), Os.append(doubt[keep])
    return np.vstack(P), np.hstack(Zs), np.hstack(Os)


def halfspace_vertices(N, D):
    """vertices of {x: N x <= D}, by brute force over triples; None if empty or unbounded directions are not excluded"""
    V = []
    for i, j, k in itertools.combinations(range(len(N)), 3):
        A = N[[i, j, k]]
        if abs(np.linalg.det(A)) < 1e-9:
            continue
        x = np.linalg.solve(A, D[[i, j, k]])
        if np.all(N @ x <= D + 1e-7):
            V.append(x)
    return np.array(V) if V else None


def check_atoms(ch, obj, rv, what):
    """obj populated: exactly the reference's atoms"""
    want, wz, opt = rv.sites()
    r = ref.diff(obj.atoms, obj.species, want, wz, optional=opt)
    ch.check(r is None, lambda: f"{what}: {r}")
    ch.outcome((len(want), np.round(np.sum(want), 3) if len(want) else 0))
    return len(want)
