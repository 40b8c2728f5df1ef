"""Every grid size x every boundary combination x every voxel, against the definition of a neighbour."""
import os
import itertools
import numpy as np
from mc import env
from czone.util.measure import get_voxel_grid

PROPERTY = "C19"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["a voxel counts among its own neighbours, as documented"]
S = range(1, 9 if THOROUGH else 7)


def expected(dim, per):
    out = []
    for z, y, x in itertools.product(*(range(d) for d in dim[::-1])):
        axes = []
        for c, d, p in zip((x, y, z), dim, per):
            axes.append({(c + s) % d for s in (-1, 0, 1)} if p else {c + s for s in (-1, 0, 1) if 0 <= c + s < d})
        out.append({a + dim[0] * (b + dim[1] * c) for a in axes[0] for b in axes[1] for c in axes[2]})
    return out


def body(ch):
    dim = tuple(ch.choose(f"size {a}", S) for a in "xyz")
    per = tuple(ch.choose(f"periodic {a}", (True, False)) for a in "xyz")
    form = ch.choose("form", (tuple, list, np.array))
    ch.op()
    got = get_voxel_grid(form(dim), *per) if sum(dim) % 2 else get_voxel_grid(form(dim), px=per[0], py=per[1], pz=per[2])
    want = expected(dim, per)
    ch.check(len(got) == len(want), lambda: f"{dim} {per}: {len(got)} voxels")
    for i, (g, w) in enumerate(zip(got, want)):
        g = [int(x) for x in g]
        ch.check(set(g) == w, lambda: f"{dim} periodic {per}: neighbours of voxel {i} are {sorted(g)} instead of {sorted(w)}")
        ch.state((dim, per, i))
    if per == (True, True, True):
        ch.check([set(map(int, g)) for g in get_voxel_grid(form(dim))] == want, f"{dim}: default boundaries are not periodic")
    ch.outcome((dim, per))


HARNESSES = {"grids": dict(body=body, shard=3, bounds=f"sizes {S.start}..{S.stop - 1} along each axis x 8 boundary combinations x 3 forms of the size argument, all voxels")}
