"""Both block algorithms under every outcome of their random draws: coordinates are drawn from finite alphabets that put atoms on
voxel borders, on the box border and just within / beyond the minimum separation directly and through the periodic borders; the
whole tree of draws is explored.  A second harness enumerates boxes x separations x densities x seeds with the real generator."""
import os
import numpy as np
from mc import env, rng
from czone.generator import gen_p_substrate, gen_p_substrate_batched

PROPERTY = "C16"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["batched algorithm: voxel_scale >= 1 (its voxels must not be thinner than the separation)", "executions needing more draws than the bound are cut (the algorithms may draw for ever when the density is infeasible)"]
E1 = float(np.nextafter(1, 0))


class Case:
    """box, separation, number of atoms, alphabets of the three relative coordinates, bound on drawn points"""

    def __init__(self, name, dims, sep, n, ux, uy, uz, draws, **kw):
        self.name, self.dims, self.sep, self.n, self.u, self.draws, self.kw = name, dims, sep, n, (ux, uy, uz), draws, kw

    @property
    def density(self):
        return self.n / float(np.prod(self.dims))

    def __repr__(self):
        return self.name


D = 3 if not THOROUGH else 4
SEQ = [
    # 6 x 5 x 7 box, separation 1.4: voxels of 1.5 x 1.67 x 1.4
    Case("wrap x", [6., 5., 7.], 1.4, 3, [0., .02, .22, .5, .78, E1], [.1, .35], [.4], D + 1),
    Case("wrap y", [6., 5., 7.], 1.4, 3, [.3], [0., .27, .29, .72, .74, E1], [.1, .29], D + 1),
    Case("open z", [6., 5., 7.], 1.4, 3, [.3, .45], [.5], [0., .19, .2, .21, .79, .81, E1], D + 1),
    Case("corners", [6., 5., 7.], 1.4, 2, [0., .1, .9, E1], [0., .15, .85, E1], [0., .15, .5, .9, E1] if THOROUGH else [0., .15, E1], 3),
    Case("one voxel", [1.5, 1.3, 2.], 1.4, 2, [0., .3, .5, .95], [.1, .6], [0., .35, .7, E1], 3),
    Case("two voxels", [3., 2.9, 3.1], 1.4, 3, [.02, .45, .51, .97], [.25, .75], [.1, .6, .95], D),
    Case("three voxels", [4.3, 4.4, 4.5], 1.4, 3, [.01, .3, .34, .66, .99], [.3, .97], [.32, .68], D),
    Case("tight", [10., 10., 3.], 1.4, 3, [0., .1, .2, .91, .99], [.5, .59], [.2, .65], D),
    Case("long", [20., 3., 3.], 1.4, 3, [0., .05, .069, .071, .93, .94, E1], [.5, .96], [.1, .5], D),
]
BAT = [
    Case("wrap x", [12., 9., 10.], 1.4, 3, [0., .01, .11, .24, .26, .9, E1], [.1, .22], [.4], 4, batch_size=2),
    Case("wrap y", [9., 12., 10.], 1.4, 3, [.3], [0., .11, .12, .25, .9, .88, E1], [.1, .23], 4, batch_size=2),
    Case("open z", [9., 10., 12.], 1.4, 3, [.3, .4], [.5], [0., .1, .24, .26, .95, E1], 4, batch_size=2),
    Case("corners", [9., 9., 9.], 1.4, 2, [0., .1, .9, E1], [0., .9, .95] if THOROUGH else [0., .95], [0., .3, .36, E1] if THOROUGH else [0., .36], 3, batch_size=3),
    Case("small", [3., 2.5, 3.5], 1.4, 2, [.02, .45, .97], [.1, .6, .95], [0., .35, .75], 3, batch_size=1),
    Case("batches of three", [6., 6., 6.], 1.4, 4, [.02, .49, .51, .97], [.25, .55], [.45, .55], 6 if THOROUGH else 3, batch_size=3),
    Case("thin voxels", [4.3, 4.4, 4.5], 1.4, 3, [.01, .32, .35, .66, .99], [.3, .97] if THOROUGH else [.3], [.32, .68], 4, batch_size=2, voxel_scale=1.),
    Case("thick voxels", [14., 14., 14.], 1.4, 3, [.05, .3, .34, .95, .99], [.3, .97] if THOROUGH else [.3], [.32, .68], 4, batch_size=2, voxel_scale=3.),
]


def judge(ch, c, dims, sep, n, what):
    c = np.asarray(c)
    dims = np.asarray(dims, float)
    ch.check(c.shape == (n, 3), lambda: f"{what}: {c.shape[0]} atoms instead of {n}")
    ch.check(np.isfinite(c).all() and (c >= 0).all() and (c <= dims).all(), lambda: f"{what}: atoms outside the box: {c.tolist()}")
    if n > 1:
        d = np.abs(c[:, None] - c[None])
        d[..., :2] = np.minimum(d[..., :2], dims[:2] - d[..., :2])
        d = np.sqrt((d ** 2).sum(-1)) + np.eye(n) * 1e9
        ch.check(d.min() >= sep - 1e-9, lambda: f"{what}: two atoms at distance {d.min():.6f} < {sep}: {c[list(np.unravel_index(np.argmin(d), d.shape))].tolist()}")


def scripted(ch, alg, case):
    u, count = case.u, [0]

    def real():
        k = count[0]
        count[0] += 1
        if k >= 3 * case.draws:
            ch.prune("draw bound")
        a = u[k % 3]
        return a[0] if len(a) == 1 else ch.choose(f"draw{k}", a)
    ch.op()
    with rng.script(rng.Ask(real=real)):
        c = alg(case.dims, min_dist=case.sep, density=case.density, **case.kw)
    judge(ch, c, case.dims, case.sep, case.n, f"{case.name}")
    ch.outcome((case.name, np.round(c, 6).tobytes()))


def body_seq(ch):
    case = ch.choose("case", SEQ)
    scripted(ch, gen_p_substrate, case)


def body_bat(ch):
    case = ch.choose("case", BAT)
    scripted(ch, gen_p_substrate_batched, case)


BOXES = [[4., 4, 4], [9.1, 3.2, 5.5], [3., 8, 2], [6.3, 6.1, 1.2], [2, 2, 12], [11.7, 10.3, 9.9]]
FILL = [0., .05, .2, .42]        # fraction of the volume: n * sep^3 / V


def body_seeds(ch):
    alg = ch.choose("algorithm", (gen_p_substrate, gen_p_substrate_batched))
    dims = ch.choose("box", BOXES)
    sep = ch.choose("separation", (.9, 1.4, 2.2))
    fill = ch.choose("fill", FILL)
    kw = {}
    if alg is gen_p_substrate_batched:
        kw = ch.choose("batches", (dict(), dict(batch_size=1), dict(batch_size=64, voxel_scale=1.)) + ((dict(batch_size=7, voxel_scale=1.5), dict(voxel_scale=4.)) if THOROUGH else ()))
    seed = ch.choose("seed", range(24 if THOROUGH else 6))
    V = float(np.prod(dims))
    n = int(fill * V / sep ** 3)
    dens = (n + .3) / V
    what = f"{alg.__name__}({dims}, {sep}, {dens:.4f}, seed={seed}, {kw})"
    ch.op(2)
    a = alg(list(dims), min_dist=sep, density=dens, seed=seed, **kw)
    judge(ch, a, dims, sep, n, what)
    np.random.rand(3)
    b = alg(np.array(dims), min_dist=sep, density=dens, seed=seed, **kw)
    ch.check(np.array_equal(a, b), f"{what} is not reproducible")
    ch.outcome((len(a), round(float(np.sum(a)), 4)))


HARNESSES = {
    "draws": dict(body=body_seq, shard=4, bounds=f"gen_p_substrate: {len(SEQ)} boxes, every sequence of up to 3-{D + 1} drawn points from their alphabets"),
    "draws, batched": dict(body=body_bat, shard=4, bounds=f"gen_p_substrate_batched: {len(BAT)} boxes, every sequence of up to 3-6 drawn points from their alphabets"),
    "seeds": dict(body=body_seeds, shard=4, watchdog=120, bounds="2 algorithms x 6 boxes x 3 separations x 4 densities x batch settings x all seeds below the bound"),
}
