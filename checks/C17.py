"""All histories of settings, supplies, transformations and copies of amorphous generators (alone and owned by volumes and groups)
and of empty-space generators, against a model that remembers the last result and moves it along."""
import os
import numpy as np
from mc import env, ref, alpha
from mc.alpha import Surf, RVol
from czone.generator import AmorphousGenerator, NullGenerator
from czone.transform import MultiTransform
from czone.volume import MultiVolume, Volume
from czone.scene import Scene

PROPERTY = "C17"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["the requested region is the axis-aligned box of the given vertices", "feasible densities (at most 0.45 atoms per cubed separation)",
               "settings are not changed while reuse is enabled (what the previous result then is, is not specified)"]
BOXES = {"unit": np.array([[0, 0, 0], [6., 5, 7]]), "far": np.array([[-31.5, 12.2, -8.4], [-26.3, 17.5, -3.2]]),
         "vertices": alpha.prism((4, 5, 3), (10, -20, 5), ref.rodrigues([1, 2, 3], .8)), "thin": np.array([[3, -9, 40.], [9.1, -2, 41.1], [5, -8, 40.5]])}
T = alpha.T_ALL
TS = [T[0], T[2], T[3]]


def judge_block(ch, c, z, box, sett, what):
    c, z = np.asarray(c), np.asarray(z)
    lo, hi = box.min(0), box.max(0)
    n = int(np.round(np.prod(hi - lo) * sett["density"]))
    ch.check(c.shape == (n, 3), lambda: f"{what}: {c.shape} atoms, {n} expected for density {sett['density']}")
    ch.check(z.shape == (n,) and (z == sett["species"]).all(), lambda: f"{what}: elements {set(z.tolist())} instead of {sett['species']}")
    ch.check(np.isfinite(c).all() and (c >= lo - 1e-9).all() and (c <= hi + 1e-9).all(), lambda: f"{what}: atoms outside the requested region")
    if n > 1:
        d = np.abs(c[:, None] - c[None])
        d[..., :2] = np.minimum(d[..., :2], (hi - lo)[:2] - d[..., :2])
        d = np.sqrt((d ** 2).sum(-1)) + np.eye(n) * 1e9
        ch.check(d.min() >= sett["min_dist"] - 1e-8, lambda: f"{what}: two atoms at {d.min()} < {sett['min_dist']}")


DEFAULT = dict(density=.1103075, min_dist=1.4, species=6)
OPS = [("supply", k) for k in BOXES] + [("move", t) for t in TS] + [("sequence", None), ("basis only", None), ("reuse", None), ("settings", dict(density=.06)),
                                                                   ("settings", dict(species=14, min_dist=1.55)), ("copy", None), ("copy moved", None), ("origin", None)]


class Model:
    def __init__(self, sett, origin):
        self.s, self.o, self.old, self.reuse = dict(sett), origin, None, False

    def move(self, aff):
        if self.o is not None:
            self.o = aff(self.o)
        if self.old is not None:
            self.old = (aff(self.old[0]), self.old[1])


def supply(ch, g, m, box, what):
    given = box.copy()
    c, z = g.supply_atoms(given)
    c, z = np.array(c), np.array(z)
    ch.check(np.array_equal(given, box), what + ": the region was modified")
    if m.reuse and m.old is not None:
        ch.check(c.shape == m.old[0].shape and np.allclose(c, m.old[0], atol=1e-8) and np.array_equal(z, m.old[1]), what + ": not the previous result")
    else:
        judge_block(ch, c, z, box, m.s, what)
    m.old = (c, z)
    ch.outcome((len(c), round(float(c.sum()), 3)))


def body(ch):
    sett, origin = ch.choose("built", ((dict(), None), (dict(density=.03, min_dist=2.1, species=8), [1., 2, 3]), (dict(), [[-4., 0, 2]])))
    g = AmorphousGenerator(origin=origin, **sett)
    m = Model({**DEFAULT, **sett}, None if origin is None else np.ravel(origin).astype(float))
    n = ch.choose("length", (4,) if THOROUGH else (3,))
    hist = []
    for i in range(n):
        k, a = OPS[ch.choose(f"op{i}", range(len(OPS)))]
        hist.append(f"{k} {a}" if a is not None else k)
        ch.op()
        if k == "supply":
            supply(ch, g, m, BOXES[a], f"after {hist}")
        elif k == "move":
            g.transform(a.make(locked=i % 2 == 0)), m.move(a.aff)
        elif k == "sequence":
            g.transform(MultiTransform([TS[1].make(), TS[0].make()])), m.move(alpha.compose([TS[1], TS[0]]))
        elif k == "basis only":
            g.transform(TS[1].make(basis_only=True))
        elif k == "reuse":
            m.reuse = not m.reuse
            g.use_old_result = m.reuse
        elif k == "settings":
            if m.reuse:
                ch.prune()
            m.s.update(a)
            for x, v in a.items():
                setattr(g, x, v)
        elif k == "copy":
            g = g.from_generator()
        elif k == "copy moved":
            g = g.from_generator(transformation=[TS[0].make(), TS[2].make()])
            m.move(alpha.compose([TS[0], TS[2]]))
        else:
            m.o = np.array([.5, .25, .125])
            g.origin = m.o.tolist()
    for i, b in enumerate(("far", "unit")):
        supply(ch, g, m, BOXES[b], f"{b} finally after {hist}")
    ch.check((g.origin is None) == (m.o is None) and (m.o is None or np.allclose(np.ravel(g.origin), m.o)), lambda: f"origin {g.origin} instead of {m.o} after {hist}")
    ch.check(g.species == m.s["species"] and g.density == m.s["density"] and g.min_dist == m.s["min_dist"], f"settings changed after {hist}")


# ---------------------------------------------------------------- owned by volumes
VOLS = {"prism": RVol(alpha.prism((9, 8, 10), (-3, 2, -4))), "tilted": RVol(alpha.prism((9, 8, 10), (20, -22, 14), ref.rodrigues([1, 2, 3], .8))),
        "ball": RVol(None, [Surf("sphere", 5.2, [-17.5, 8, 3])]), "rod": RVol(None, [Surf("cylinder", [1, 1, .5], [3, 3, -30.], 3.6, 12.)]),
        "half ball": RVol(None, [Surf("sphere", 6.2, [0, 0, 0]), Surf("plane", [1, 1, 0], [.5, 0, 0])])}
SIZE = {"prism": 720, "tilted": 720, "ball": 4 / 3 * np.pi * 5.2 ** 3, "rod": np.pi * 3.6 ** 2 * 12, "half ball": None}
VOPS = [("populate", None), ("joint", TS[1]), ("joint", TS[2]), ("boundary", TS[0]), ("sequence", None), ("reuse", None), ("copy", None), ("in a group", None)]


def judge_volume(ch, v, rv, sett, size, what):
    c, z = np.asarray(v.atoms), np.asarray(v.species)
    ch.check(c.shape == (len(z), 3) and (z == sett["species"]).all(), what + ": wrong elements")
    ins, sure = rv.judge(c)
    ch.check((ins | ~sure).all(), lambda: f"{what}: {int((~ins & sure).sum())} atoms outside the volume")
    if size:
        n = size * sett["density"]
        ch.check(abs(len(c) - n) < 5 * np.sqrt(n), lambda: f"{what}: {len(c)} atoms, about {n:.0f} expected")
    # no corner of the region left empty: probes deep inside, each with an atom nearby
    lo, hi = rv.aabb()
    g = np.stack(np.meshgrid(*[np.arange(a, b, 1.7) for a, b in zip(lo, hi)], indexing="ij"), -1).reshape(-1, 3)
    deep = np.ones(len(g), bool)
    for e in np.vstack([np.eye(3), -np.eye(3)]) * 1.6:
        deep &= rv.judge(g + e)[0]
    if deep.any():
        ch.check(len(c) and ref.nearest(g[deep], c)[0].max() < 4.0, lambda: f"{what}: part of the volume is not filled")


def body_vol(ch):
    name = ch.choose("volume", list(VOLS))
    rv = VOLS[name]
    g = AmorphousGenerator(density=.08, species=14, min_dist=1.5, origin=[0, 0, 0])
    sett = dict(density=.08, species=14)
    v = Volume(points=rv.pts, alg_objects=[s.make() for s in rv.surfs] or None, generator=g)
    top, reuse, old, hist = v, False, None, []
    ops = list(range(len(VOPS)))
    n = ch.choose("length", (1, 2, 3, 4) if THOROUGH else (1, 2, 3))

    def populate(what):
        nonlocal old
        top.populate_atoms()
        src = v.generator.old_result
        src = (np.array(src[0]), np.array(src[1]))
        if reuse and old is not None:
            ch.check(src[0].shape == old[0].shape and np.allclose(src[0], old[0], atol=1e-8), what + ": previous result not reused")
            want, sure = rv.judge(old[0])
            r = ref.diff(v.atoms, v.species, old[0][want | ~sure], old[1][want | ~sure], optional=~sure[want | ~sure])
            ch.check(r is None, lambda: f"{what}: {r}")
        else:
            judge_volume(ch, v, rv, sett, SIZE[name], what)
        if top is not v:
            ch.check(np.allclose(top.atoms, v.atoms), what + ": group differs from its member")
        old = src
        ch.outcome((name, len(v.atoms)))
    for i in range(n):
        k, t = VOPS[ch.choose(f"op{i}", ops)]
        hist.append(f"{k} {t}" if t is not None else k)
        ch.op()
        what = f"{name} after {hist}"
        if k == "populate":
            populate(what)
        elif k in ("joint", "boundary"):
            top.transform(t.make(locked=k == "joint"))
            rv = rv.map(t.aff)
            if k == "joint" and old is not None:
                old = (t.aff(old[0]), old[1])
        elif k == "sequence":
            top.transform(MultiTransform([TS[0].make(), TS[1].make()]))
            a = alpha.compose([TS[0], TS[1]])
            rv = rv.map(a)
            old = None if old is None else (a(old[0]), old[1])
        elif k == "reuse":
            reuse = not reuse
            v.generator.use_old_result = reuse
        elif k == "copy":
            top = top.from_volume()
            v = top if isinstance(top, Volume) else top.volumes[0]
        else:
            if top is not v:
                ch.prune()
            top = MultiVolume([v])
    populate(f"{name} finally after {hist}")


def body_null(ch):
    """empty space supplies nothing, however it is moved, owned and combined, and still displaces"""
    g = NullGenerator()
    i = ch.choose("transformation", (None,) + tuple(range(len(alpha.T_ALL))))
    how = ch.choose("how", ("supply", "copy", "volume", "copied volume", "group", "scene"))
    b = BOXES[ch.choose("box", list(BOXES))]
    t = None if i is None else alpha.T_ALL[i].make()
    ch.op()
    if how in ("supply", "copy"):
        if how == "copy":
            g = g.from_generator(transformation=[t] if t else [])
        elif t:
            g.transform(t)
        c, z = g.supply_atoms(b)
    else:
        v = Volume(points=alpha.prism((4, 4, 4), b.min(0)), generator=g)
        if how == "copied volume":
            v = v.from_volume(transformation=[t] if t else [])
        elif t:
            v.transform(t)
        if how in ("volume", "copied volume"):
            v.populate_atoms()
            c, z = v.atoms, v.species
        else:
            cell = alpha.Cell("cscl")
            o = RVol(alpha.prism((6, 6, 6), v.points.mean(0) - 3), (), cell.crystal(), 1)
            hole = RVol(v.points, (), None, 0)
            real = o.build(cell.generator())
            if how == "group":
                top = MultiVolume([real, v])
                top.populate_atoms()
                c, z = top.atoms, top.species
            else:
                top = Scene(objects=[v, real])
                with env.quiet():
                    top.populate()
                c, z = top.all_atoms, top.all_species
            want, wz, opt = o.sites()
            ins, sure = hole.judge(want)
            r = ref.diff(c, z, want[~ins | ~sure], wz[~ins | ~sure], optional=(opt | ~sure)[~ins | ~sure])
            ch.check(r is None, lambda: f"empty space in a {how}: {r}")
            return
    ch.check(np.shape(c) == (0, 3) and np.shape(z) == (0,), f"empty space supplied {np.shape(c)}")


HARNESSES = {
    "generator": dict(body=body, shard=4, bounds=lambda t: f"3 generators x all sequences of {3 if t == 'quick' else 4} of {len(OPS)} operations, two final supplies"),
    "volumes": dict(body=body_vol, shard=3, bounds=lambda t: f"{len(VOLS)} volumes x all sequences of up to {3 if t == 'quick' else 4} of {len(VOPS)} operations"),
    "empty space": dict(body=body_null, shard=2, bounds=f"{len(alpha.T_ALL) + 1} transformations x 6 owners x {len(BOXES)} places"),
}
