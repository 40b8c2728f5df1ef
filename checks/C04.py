"""All surfaces x all transformation sequences up to the depth x ways of applying them, judged on probe points planted around
the surface (interior before <=> image interior after), and against closed-form images."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf
from czone.transform import MultiTransform

PROPERTY = "C04"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["points within 1.5 tolerances of a boundary are not judged under maps that are not isometries"]
SURFS = [Surf("sphere", 2.0, [1, -2, .5]), Surf("sphere", 1.3, [0, 0, 0], tol=.2), Surf("plane", [1, 2, -.5], [.5, 1, 2]),
         Surf("plane", [0, 0, -1], [0, 0, 0], tol=.1), Surf("plane", [1, 1, 1], [-4, 2, 1]), Surf("cylinder", [1, 2, 2], [1, 0, -1], 1.5, 4.0),
         Surf("cylinder", [0, 0, -3], [0, 0, 0], .8, 6.0, tol=.15), Surf("cylinder", [1, 1, 1], [2, 2, 2], 2.0, 1.0),
         Surf("sphere", 45.0, [210, -130.5, 77.7]), Surf("plane", [-30, 10, 4], [-170, 99, 250]), Surf("cylinder", [-5, 40, 3], [95, 180, -66], 3.0, 70.0)]
G = np.linspace(-4.3, 4.1, 7)
GRID = np.array(list(itertools.product(G, G, G)))
TALL, TISO = alpha.T_ALL + alpha.T_EXTRA, alpha.T_ISO + alpha.T_ISO_EXTRA
U = np.array([[1, 0, 0], [0, -1, 0], [.6, .5, -.62], [-.57, .6, .55], [0, .1, 1], [0.1, .2, -.97]])
U /= np.linalg.norm(U, axis=1)[:, None]


def probes(s):
    c = s.par[1]
    out = [GRID + c]
    if np.abs(c).max() > 20:
        out.append(GRID * 14 + c)
    for f in (-3, -.5, .5, 3):
        if s.kind == "sphere":
            out.append(c + U * (float(s.par[0]) + f * s.tol))
        elif s.kind == "plane":
            n = s.par[0] / np.linalg.norm(s.par[0])
            out.append(c + 3 * (U - np.outer(U @ n, n)) + f * s.tol * n)
        else:
            ax = s.par[0] / np.linalg.norm(s.par[0])
            w = U - np.outer(U @ ax, ax)
            w = w[np.linalg.norm(w, axis=1) > .1]
            w /= np.linalg.norm(w, axis=1)[:, None]
            for h in (-.3, .2):
                out.append(c + w * (float(s.par[2]) + f * s.tol) + h * ax)
            for sg in (-1, 1):
                out.append(c + w * .3 + sg * ax * (float(s.par[3]) / 2 + f * s.tol))
    return np.vstack(out)


def body(ch):
    n = ch.choose("length", (1, 2, 3) if not THOROUGH else (1, 2, 3, 4))
    s = ch.choose("surface", SURFS)
    al = (TALL if s.kind == "plane" else TISO) if n < (4 if THOROUGH else 3) else (alpha.T_ALL if s.kind == "plane" else alpha.T_ISO)
    if n == 4:
        al = al[:8]
    ts = [ch.choose(f"t{i}", al) for i in range(n)]
    way = ch.choose("applied", ("one by one", "sequence", "copying") if n < 3 else ("copying", "sequence"))
    flags = ch.choose("flags", ({}, dict(locked=False), dict(basis_only=True))) if n == 1 else {}
    aff = alpha.compose(ts)
    obj = s.make()
    p = probes(s)
    before = np.asarray(obj.checkIfInterior(p))
    real = [t.make(**flags) for t in ts]
    ch.op(n)
    if way == "one by one":
        new = obj
        for t in real:
            new = t.applyTransformation_alg(new)
    elif way == "sequence":
        new = MultiTransform(real).applyTransformation_alg(obj)
    else:
        new = obj.from_alg_object(transformation=real)
        ch.check((np.asarray(obj.checkIfInterior(p)) == before).all(), "copying altered the original surface")
        ch.check(new is not obj, "not a copy")
    q = aff(p)
    after = np.asarray(new.checkIfInterior(q))
    img = s.map(aff)
    iso = all(t.iso for t in ts)
    d0, d1 = s.depth(p), img.depth(q)
    m = .2 * s.tol if iso else 1.5 * s.tol
    if iso:
        judged = np.abs(d0 - s.tol) > m
    else:
        judged = (np.abs(d0) > m) & (np.abs(d1) > m)
    ins = d0 < s.tol
    ch.check((before == ins)[judged].all(), "interior wrong before the transformation")
    bad = (after != ins) & judged
    ch.check(not bad.any(), lambda: f"{int(bad.sum())} points change side, e.g. {p[np.argmax(bad)].tolist()} -> {q[np.argmax(bad)].tolist()} was {'inside' if ins[np.argmax(bad)] else 'outside'}")
    ch.check(abs(new.tol - s.tol) < 1e-12, f"tolerance {new.tol} instead of {s.tol}")
    if s.kind in ("sphere", "cylinder"):
        ch.check(abs(new.radius - float(s.par[0 if s.kind == "sphere" else 2])) < 1e-9, "radius changed")
    if s.kind == "cylinder":
        ch.check(abs(new.length - float(s.par[3])) < 1e-9, "length changed")
    ch.outcome(np.packbits(after).tobytes() + aff.M.tobytes())
    # one point at a time agrees with the batch
    k = int(np.argmax(judged))
    ch.check(bool(np.asarray(new.checkIfInterior(q[k:k + 1])).ravel()[0]) == ins[k], "single point disagrees with batch")


HARNESSES = {"surfaces": dict(body=body, shard=3, bounds=lambda t: f"{len(SURFS)} surfaces x all sequences of length 1..{3 if t == 'quick' else 4} over {len(TALL)} maps ({len(TISO)} isometries for spheres and cylinders; at the greatest length the first {len(alpha.T_ALL)} and {len(alpha.T_ISO)}, or 8) x 3 ways")}
