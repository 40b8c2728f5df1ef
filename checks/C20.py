"""All small point sets from lattices of positions x boundary combinations x cutoffs (from a fraction of the box to beyond it),
against brute force over all pairs."""
import os
import itertools
import numpy as np
from mc import env
from czone.util.measure import calc_rdf, get_sdist_fun

PROPERTY = "C20"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["distances are kept away from bin edges", "squared distances: both points lie in one period of the box", "for cutoffs that are no multiple of 0.1 the bin edges are only held to lie between multiples of 0.1 and even shares of the cutoff"]
BC = list(itertools.product((True, False), repeat=3))


def brute(A, B, dims, per):
    d = np.abs(A[:, None] - B[None])
    for k in range(3):
        if per[k]:
            d[..., k] = np.minimum(d[..., k], np.abs(dims[k] - d[..., k]))
    return np.sqrt((d ** 2).sum(-1))


def rdf(ch, p, cutoff, per, what, kw=True):
    p = np.array(p, float)
    keep = p.copy()
    n = int(round(cutoff / .1))
    dims = p.max(0) - p.min(0)
    D = brute(p, p, dims, per)[~np.eye(len(p), dtype=bool)]
    near = np.abs(D[D > 0] / .1 - np.round(D[D > 0] / .1))
    if len(near) and near.min() < 1e-6:
        ch.prune("distance on a bin edge")
    want = np.bincount((D[D < cutoff] / .1 + 1e-9).astype(int), minlength=n)[:n]
    ch.op()
    got = np.asarray(calc_rdf(p, cutoff=cutoff, px=per[0], py=per[1], pz=per[2]) if kw else calc_rdf(p, cutoff, *per))
    ch.check(got.shape == (n,), lambda: f"{what}: {got.shape} bins")
    if not np.allclose(got, want):
        k = int(np.argmax(np.abs(got - want) > 1e-6))
        ch.fail(f"{what}: {got[k]} pairs instead of {want[k]} between {k / 10:.1f} and {(k + 1) / 10:.1f} (total {got.sum()} instead of {want.sum()})")
    ch.check(np.array_equal(p, keep), what + ": the coordinates were modified")
    ch.outcome((len(p), want.tobytes()))


def rdf_any(ch, p, cutoff, per, what):
    """cutoffs that are no multiples of the bin width: nothing below the cutoff is lost, nothing beyond it counted"""
    p = np.array(p, float)
    dims = p.max(0) - p.min(0)
    D = np.sort(brute(p, p, dims, per)[~np.eye(len(p), dtype=bool)])
    if len(D) and np.abs(D - cutoff).min() < 1e-6:
        ch.prune("distance at the cutoff")
    ch.op()
    got = np.asarray(calc_rdf(p.copy(), cutoff, *per))
    total = int((D < cutoff).sum())
    ch.check(got.ndim == 1 and np.allclose(got, np.round(got)) and got.min() >= 0, what + ": no counts")
    ch.check(round(float(got.sum())) == total, lambda: f"{what}: {got.sum()} pairs instead of {total} below the cutoff")
    ch.check(abs(len(got) - cutoff / .1) <= 1, f"{what}: {len(got)} bins")
    n, c = len(got), np.cumsum(got)
    for k in range(1, n):
        e = sorted((k * .1, k * cutoff / n))
        ch.check((D < e[0] - 1e-9).sum() <= c[k - 1] <= (D < e[1] + 1e-9).sum(), lambda: f"{what}: {c[k - 1]} pairs in the first {k} bins")
    ch.outcome((len(p), got.tobytes()))


def body_any(ch):
    kind = ch.choose("cloud", ("corners", "lattice", "spread"))
    per = ch.choose("boundaries", BC)
    cut = ch.choose("cutoff", (1.04, .97, 2.55, 3.149, .86, 11.08, 6.66, np.pi) if not THOROUGH else (1.04, .97, 2.55, 3.149, .86, 11.08, 6.66, np.pi, 4.4444, 1.9999, 5.051, 30.02))
    dims = ch.choose("box", ((5.1, 6.2, 7.3), (2.1, 14.3, 3.7), (40.3, 6.1, 5.2)))
    rdf_any(ch, cloud(dims, kind) + (.37, -3.1, 8.8), cut, per, f"{kind} in {dims} periodic {per} cutoff {cut}")


# 1. subsets of a lattice of positions
GRID = [np.array([x, y, z]) for x in (0., 1.13, 4.57) for y in (0., 2.29) for z in (.3, 3.44)]
CUT = (.9, 2.2, 3.5, 7.) if not THOROUGH else (.1, .9, 1.3, 2.2, 3.5, 7.)


def body_sets(ch):
    k = ch.choose("points", (1, 2, 3, 4, 5) if THOROUGH else (1, 2, 3, 4))
    idx = ch.choose("subset", list(itertools.combinations(range(len(GRID)), k)))
    per, cut = ch.choose("boundaries", BC), ch.choose("cutoff", CUT)
    shift = ch.choose("shift", ((0, 0, 0), (-7.3, 12.9, -1.15)) if k < 4 or THOROUGH else ((-7.3, 12.9, -1.15),))
    p = np.array([GRID[i] for i in idx]) + shift
    rdf(ch, p, cut, per, f"{p.tolist()} periodic {per} cutoff {cut}")


# 2. boxes of several voxels: every box / cutoff ratio, points everywhere (also on voxel borders)
def cloud(dims, kind):
    dims = np.array(dims, float)
    if kind == "corners":
        c = np.array(list(itertools.product((0, .5, 1), repeat=3)))
    elif kind == "lattice":
        c = np.array(list(itertools.product((0, .19, .41, .63, .83, 1), (0, .37, .71, 1), (0, .29, .55, .9, 1))))
    else:
        i = np.arange(1, 61)[:, None]
        c = np.vstack([np.modf(i * np.array([[.754877666, .569840291, .430159709]]))[0], [[0, 0, 0], [1, 1, 1]]])
    return c * dims


def body_boxes(ch):
    R = (.6, 1.3, 2.4, 3.2, 4.1, 6.3) if THOROUGH else (.6, 1.3, 2.4, 3.2)
    cut = ch.choose("cutoff", (1.7, 2.6))
    dims = [cut * ch.choose(f"box/{a}", R) * f for a, f in zip("xyz", (1.0013, .9977, 1.0029))]
    per = ch.choose("boundaries", BC)
    kind = ch.choose("cloud", ("corners", "lattice", "spread"))
    p = cloud(dims, kind) + (.37, -3.1, 8.8)
    if kind == "corners" and cut > 2:
        p = np.vstack([p, p[3]])         # two atoms at the same place
    rdf(ch, p, cut, per, f"{kind} in {np.round(dims, 3).tolist()} periodic {per} cutoff {cut}", kw=False)


def body_flat(ch):
    """planes, lines and single points of atoms; default arguments"""
    axes = ch.choose("extended along", list(itertools.product((0, 1), repeat=3)))
    per = ch.choose("boundaries", BC)
    cut = ch.choose("cutoff", (1.1, 3.2, 20.))
    p = cloud((5.13, 6.07, 7.39), "spread") * np.array(axes) + 2
    p = p[:1] if not any(axes) else p
    rdf(ch, p, cut, per, f"flat {axes} periodic {per} cutoff {cut}")
    if cut == 20. and all(per):
        ch.check(np.allclose(calc_rdf(p), calc_rdf(p, 20., True, True, True)), "default arguments")


# 3. the distance function alone
PTS = np.array(list(itertools.product((0, .31, .5, .77, 1), (0, .12, .61), (.05, .52, .98))))


def body_sdist(ch):
    per = ch.choose("boundaries", BC)
    dims = np.array(ch.choose("box", ((4.2, 3.1, 5.7), (1., 20., 3.), (2, 2, 2))))
    form = ch.choose("form", (np.array, list, tuple))
    i = ch.choose("point", range(len(PTS)))
    f = get_sdist_fun(form(dims), *per) if any(per) or i % 2 else get_sdist_fun()
    A, B = PTS[[i]] * dims, PTS * dims
    a, b = A[:, :, None].copy(), B.T[None].copy()
    ch.op()
    got = np.asarray(f(a, b)).reshape(-1)
    ch.check(got.shape == (len(B),) and np.allclose(got, brute(A, B, dims, per)[0] ** 2, atol=1e-9), lambda: f"periodic {per} in {dims}: wrong distances from {A[0]}")
    ch.check(np.array_equal(a, A[:, :, None]) and np.array_equal(b, B.T[None]), "points were modified")
    back = np.asarray(f(B[:, :, None].copy(), A.T[None].copy())).reshape(-1)
    ch.check(np.allclose(back, got), "not symmetric")


HARNESSES = {
    "point sets": dict(body=body_sets, shard=2, bounds=f"all subsets of up to {5 if THOROUGH else 4} of {len(GRID)} positions x 8 boundary combinations x {len(CUT)} cutoffs x 2 shifts"),
    "boxes": dict(body=body_boxes, shard=4, bounds="all boxes of up to 4 voxels per axis x 8 boundary combinations x 3 clouds x 2 cutoffs"),
    "any cutoff": dict(body=body_any, shard=2, bounds="3 clouds x 8 boundary combinations x 3 boxes x 8 (12) cutoffs that are no multiples of the bin width"),
    "flat": dict(body=body_flat, shard=2, bounds="8 dimensionalities x 8 boundary combinations x 3 cutoffs"),
    "distance": dict(body=body_sdist, shard=2, bounds=f"8 boundary combinations x 3 boxes x 3 forms x all pairs of {len(PTS)} points"),
}
