"""Explicit-state exploration of edit histories of a volume against a reference interior (brute force hull planes and
closed-form surfaces).  Every edit is checked on a probe grid plus points planted around every boundary and tolerance."""
import os
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf
from czone.volume import Volume

PROPERTY = "C03"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["points closer than 1e-7 (hull) or a tenth of the tolerance (surfaces) to a boundary are not judged"]
G = np.linspace(-3.7, 7.3, 8)
GRID = np.array([[x, y, z] for x in G for y in G * .93 + .1 for z in G * 1.07 - .2])

P_TETRA = np.array([[0, 0, 0], [5, 0, 0], [0, 5, 0], [0, 0, 5.]])
P_CUBE = alpha.prism((4, 4, 4), (-1, -1, -1))
P_TILT = alpha.prism((5, 3, 4), (1, -2, 0), ref.rodrigues([1, 2, 3], .8))
P_FAR = np.array([[310, -205, 94], [322, -204, 95], [311, -190, 97], [316, -200, 108], [315, -203, 99.], [330, -199, 101]])
P_IN = np.array([[.5, .5, .5]])
P_OUT = np.array([[6, 6, 6.]])
P_TWO = np.array([[-3, 1, 1], [1, -3, 6.]])
SURFS = [Surf("sphere", 3.0, [1, 1, 1]), Surf("sphere", 2.5, [0, 0, 0], tol=.3), Surf("plane", [1, 1, 0], [1, 1, 1]),
         Surf("plane", [0, 0, -2], [0, 0, .5], tol=.2), Surf("cylinder", [1, 1, 1], [1, 1, 1], 1.5, 5.0),
         Surf("cylinder", [0, 1, 0], [0, 1, 2], 2.0, 3.0, tol=.25)]
OPS = [("add", P_OUT), ("add", P_IN), ("add", P_TWO), ("add1d", P_OUT[0] * -.5), ("set", P_TILT), ("set", P_TETRA),
       ("surf", SURFS[0]), ("surf", SURFS[2]), ("surf", SURFS[5]),
       ("T", alpha.T_ALL[0]), ("T", alpha.T_ALL[2]), ("T", alpha.T_ALL[3]),
       ("set", P_FAR), ("surf", Surf("sphere", 60.0, [-30, 40, -25.])), ("T", alpha.T_EXTRA[0]), ("T", alpha.T_EXTRA[5]),
       ("bad", "add wrong width"), ("bad", "set too few"), ("bad", "set wrong width"), ("bad", "add flat"), ("bad", "surf wrong type")]
if THOROUGH:
    OPS += [("T", alpha.T_EXTRA[3]), ("surf", Surf("cylinder", [3, -1, 2], [120, 33, -71], 9.0, 40.0)), ("surf", SURFS[1]), ("surf", SURFS[3]), ("surf", SURFS[4]), ("T", alpha.T_ALL[6]), ("set", P_CUBE), ("add", P_CUBE * 1.5),
            ("bad", "transform wrong type"), ("bad", "set coplanar")]


class Model:
    def __init__(self):
        self.pts, self.surfs = None, []

    def key(self):
        return (None if self.pts is None else np.round(self.pts, 6).tobytes(), tuple(sorted(repr((s.kind, [np.round(x, 6).tolist() for x in s.par], s.tol)) for s in self.surfs)))

    def judge(self, p):
        """inside mask, judged mask"""
        ins, ok = np.ones(len(p), bool), np.ones(len(p), bool)
        sure_out = np.zeros(len(p), bool)
        parts = []
        if self.pts is not None:
            d = ref.d_hull(p, self.pts)
            parts.append((d, 0.0, 1e-7))
        for s in self.surfs:
            parts.append((s.depth(p), s.tol, s.tol * .1))
        for d, tol, m in parts:
            ins &= d < tol
            sure_out |= d > tol + m
            ok &= np.abs(d - tol) > m
        return ins, ok | sure_out

    def probes(self):
        out = [GRID]
        c = [self.pts.mean(0)] if self.pts is not None else []
        c = np.array(c + [s.par[1] for s in self.surfs])
        if len(c) and np.abs(c).max() > 12:
            out += [GRID * f + x for x in np.unique(np.round(c, 1), axis=0) for f in (1., 2.5)]
        for s in self.surfs:
            # points on the surface moved by a fraction of its tolerance
            u = np.array([[1, 0, 0], [0, -1, 0], [.6, .5, -.62], [-.57, .6, .55], [0, 0, 1], [0.1, .2, -.97]])
            u /= np.linalg.norm(u, axis=1)[:, None]
            for f in (-2, -.5, .5, .8, 1.25, 2):
                if s.kind == "sphere":
                    out.append(s.par[1] + u * (float(s.par[0]) + f * s.tol))
                elif s.kind == "plane":
                    n = s.par[0] / np.linalg.norm(s.par[0])
                    out.append(s.par[1] + 3 * (u - np.outer(u @ n, n)) + f * s.tol * n)
                else:
                    ax = s.par[0] / np.linalg.norm(s.par[0])
                    w = u - np.outer(u @ ax, ax)
                    w = w[np.linalg.norm(w, axis=1) > .1]
                    w /= np.linalg.norm(w, axis=1)[:, None]
                    out.append(s.par[1] + w * (float(s.par[2]) + f * s.tol) + .3 * ax)
                    out.append(s.par[1] + w * .4 + ax * (float(s.par[3]) / 2 + f * s.tol))
                    out.append(s.par[1] + w * .4 - ax * (float(s.par[3]) / 2 + f * s.tol))
        if self.pts is not None:
            c = self.pts.mean(0)
            for f in (.999, .9, .5, 1.001, 1.1):
                out.append(c + (self.pts - c) * f)
            m = (self.pts[:, None] + self.pts[None]).reshape(-1, 3) / 2
            out += [c + (m - c) * .999, c + (m - c) * 1.001]
        return np.vstack(out)


def compare(ch, vol, mod, what):
    p = mod.probes()
    q = p.copy()
    got = np.asarray(vol.checkIfInterior(q))
    ch.check((q == p).all(), "query points were modified")
    ins, ok = mod.judge(p)
    ch.check(got.shape == ins.shape, f"{what}: shape {got.shape}")
    bad = (got.astype(bool) != ins) & ok
    ch.check(not bad.any(), lambda: f"{what}: point {p[np.argmax(bad)].tolist()} is {'inside' if ins[np.argmax(bad)] else 'outside'} but reported otherwise ({int(bad.sum())} points)")
    for k in (0, len(p) // 2, len(p) - 1):
        if ok[k]:
            one = np.asarray(vol.checkIfInterior(p[k])).ravel()
            ch.check(one.shape == (1,) and bool(one[0]) == ins[k], f"{what}: single point {p[k]} disagrees with batch")
    if mod.pts is None:
        ch.check(vol.points is None, "points appeared")
    else:
        ch.check(np.allclose(vol.points, mod.pts, atol=1e-9) if np.shape(vol.points) == mod.pts.shape else False, f"{what}: points differ")
        hv = vol.hull.points[vol.hull.vertices]
        ch.check(ref.cKDTree(vol.points).query(hv)[0].max() < 1e-9 and
                 abs(np.abs(ref.d_hull(hv, mod.pts)).max()) < 1e-6, f"{what}: hull does not describe the points")
        lo, hi = mod.pts.min(0), mod.pts.max(0)
        ch.check(np.allclose(hv.min(0), lo) and np.allclose(hv.max(0), hi), f"{what}: hull does not reach the extreme points")
    ch.check(len(vol.alg_objects) == len(mod.surfs), f"{what}: {len(vol.alg_objects)} surfaces instead of {len(mod.surfs)}")
    ch.outcome(np.packbits(ins).tobytes())


def apply(ch, vol, mod, op):
    kind, a = op
    ch.op()
    if kind == "add":
        vol.addPoints(a.copy())
        mod.pts = a.copy() if mod.pts is None else np.vstack([mod.pts, a])
    elif kind == "add1d":
        vol.addPoints(a.copy())
        mod.pts = np.vstack([mod.pts, a[None]])
    elif kind == "set":
        vol.points = a.copy()
        mod.pts = a.copy()
    elif kind == "surf":
        s = a.make()
        vol.add_alg_object(s)
        mod.surfs = mod.surfs + [a]
    elif kind == "T":
        vol.transform(a.make())
        mod.pts = None if mod.pts is None else a.aff(mod.pts)
        mod.surfs = [s.map(a.aff) for s in mod.surfs]
    else:
        try:
            if a == "add wrong width": vol.addPoints(np.ones((4, 2)))
            elif a == "set too few": vol.points = np.array([[0, 0, 0], [9, 9, 9.]])
            elif a == "set wrong width": vol.points = np.ones((5, 4))
            elif a == "add flat": vol.addPoints(np.ones((2, 2, 3)))
            elif a == "surf wrong type": vol.add_alg_object("sphere")
            elif a == "transform wrong type": vol.transform(np.eye(3))
            elif a == "set coplanar": vol.points = np.array([[0, 0, 0], [1, 0, 0], [0, 1, 0], [1, 1, 0], [2, 3, 0.]])
        except BaseException as e:
            if not isinstance(e, Exception):
                raise
        else:
            ch.fail(f"invalid edit accepted: {a}", key="accepted")


INIT = [("points tetra", P_TETRA, []), ("points cube", P_CUBE, []), ("empty", None, []), ("sphere", None, [SURFS[0]]),
        ("cube+sphere tol", P_CUBE, [SURFS[1]]), ("plane+cylinder", None, [SURFS[3], SURFS[4]])]


def body(ch):
    name, pts, sf = ch.choose("initial", INIT)
    vol = Volume(points=None if pts is None else pts.copy(), alg_objects=[s.make() for s in sf] or None)
    mod = Model()
    mod.pts, mod.surfs = None if pts is None else pts.copy(), list(sf)
    depth = 3
    compare(ch, vol, mod, "initially")
    for i in range(depth):
        op = ch.choose(f"op{i}", OPS)
        if mod.pts is None and (op[0] in ("add", "add1d") and (op[0] == "add1d" or len(op[1]) < 4)):
            # too few points to span a hull: must be rejected and leave the volume unchanged
            try:
                vol.addPoints(op[1].copy())
            except Exception:
                pass
            else:
                ch.fail("a hull of too few points was accepted")
        else:
            apply(ch, vol, mod, op)
        compare(ch, vol, mod, f"after {op[0]} {i}")
        if op[0] != "bad":
            ch.visit(mod.key(), depth - i)


def body_empty_surfaces(ch):
    """every pair and triple of surfaces, added in every order, each with its own tolerance"""
    vol, mod = Volume(), Model()
    for i in range(3):
        s = ch.choose(f"surface{i}", SURFS)
        vol.add_alg_object(s.make())
        mod.surfs = mod.surfs + [s]
        compare(ch, vol, mod, f"{i + 1} surfaces")


HARNESSES = {
    "histories": dict(body=body, shard=2, bounds=f"{len(INIT)} initial volumes x all histories of 3 edits over {len(OPS)} operations (7+ of them invalid), states merged"),
    "surfaces": dict(body=body_empty_surfaces, shard=2, bounds=f"all ordered triples of {len(SURFS)} surfaces"),
}
