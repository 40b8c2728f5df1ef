"""All scenes of up to 4 overlapping objects (volumes, a group, molecules): every subset, every insertion order, every weak order
of priorities with two sets of values; and all edit/populate histories up to a depth.  Survivors of each object are compared
with the precedence rule evaluated on reference memberships."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha, pool
from czone.scene import Scene

PROPERTY = "C07"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["sites within 1e-6 of a hull face or a fifth of the tolerance (at most 1e-4) of a surface's padded boundary may or may not be there"]
ITS = pool.items()
TAB = pool.Table(ITS)
VALUES = {"dense": [0, 1, 2, 3], "sparse": [-3, 0, 3, 1000]}
SUBSETS = [s for n in (1, 2, 3) for s in itertools.combinations(range(6), n)] + \
          [s for s in itertools.combinations(range(6), 4) if THOROUGH or s in ((0, 1, 2, 3), (0, 1, 3, 4), (0, 2, 4, 5), (1, 2, 3, 4))]


def compare(ch, scene, objs, exp, what):
    """objs: real objects, exp: matching list of expected (positions, elements, optional)"""
    for ob, (p, z, o) in zip(objs, exp):
        idx = [k for k, x in enumerate(scene.objects) if x is ob]
        ch.check(len(idx) == 1, f"{what}: object appears {len(idx)} times in scene")
        got = scene.species_from_object(idx[0])
        tree = ref.cKDTree(ob.atoms) if len(ob.atoms) else None
        sp = np.asarray(ob.species)[tree.query(got)[1]] if len(got) else np.empty(0)
        r = ref.diff(got, sp, p, z, optional=o)
        ch.check(r is None, lambda: f"{what}: atoms contributed by one object: {r}")
    P, Z, O = np.vstack([e[0] for e in exp]), np.hstack([e[1] for e in exp]), np.hstack([e[2] for e in exp])
    a, s = scene.all_atoms, scene.all_species
    ch.check(len(a) == len(s), f"{what}: {len(a)} positions, {len(s)} elements")
    r = multidiff(a, s, P, Z, O)
    ch.check(r is None, lambda: f"{what}: {r}")
    e = scene.ase_atoms
    ch.check(np.array_equal(e.get_positions(), a) and np.array_equal(e.get_atomic_numbers(), s), f"{what}: view as ASE atoms differs")
    ch.check(np.allclose(e.cell.lengths(), scene.bounds[1] - scene.bounds[0]), f"{what}: cell {e.cell.lengths()}")
    ch.outcome((np.round(P.sum(0), 3).tobytes(), len(P)))


def multidiff(a, s, P, Z, O):
    """as ref.diff, but atoms of different objects may coincide: compared as multisets"""
    if len(P) > 1 and ref.cKDTree(P).query(P, k=2)[0][:, 1].min() < 1e-4:
        k = lambda p, z: sorted(map(tuple, np.round(np.c_[p, z], 4).tolist()))
        if not O.any() and k(a, s) != k(P, Z):
            return "multiset of atoms differs"
        return None
    return ref.diff(a, s, P, Z, optional=O)


def body(ch):
    sub = ch.choose("objects", SUBSETS)
    order = ch.choose("insertion order", list(itertools.permutations(range(len(sub)))))
    rank = ch.choose("priorities", pool.weak_orders(len(sub)))
    vals = VALUES[ch.choose("values", list(VALUES))]
    prio = [vals[r] for r in rank]
    objs = [ITS[i].build(p) for i, p in zip(sub, prio)]
    scene = Scene(bounds=np.array([[-10, -11, -12], [10, 11., 12]]), objects=[objs[i] for i in order])
    ch.op()
    scene.populate()
    compare(ch, scene, objs, TAB.expect(sub, prio), "populated")


def body_again(ch):
    """populating twice, in another scene first, or one object at a time changes nothing"""
    sub = ch.choose("objects", [s for s in SUBSETS if len(s) == 3])
    rank = ch.choose("priorities", pool.weak_orders(3))
    how = ch.choose("how", ("twice", "other scene first", "growing", "single object constructor", "objects populated before"))
    objs = [ITS[i].build(p) for i, p in zip(sub, rank)]
    if how == "other scene first":
        Scene(objects=objs[::-1][:2]).populate()
        s = Scene(objects=objs)
        s.populate()
    elif how == "twice":
        s = Scene(objects=objs)
        s.populate(), s.populate()
    elif how == "growing":
        s = Scene()
        for k, o in enumerate(objs):
            s.add_object(o)
            s.populate()
            compare(ch, s, objs[:k + 1], TAB.expect(sub[:k + 1], rank[:k + 1]), f"{k + 1} objects")
    elif how == "single object constructor":
        s = Scene(objects=objs[1])
        s.add_object(objs[0]), s.add_object(objs[2])
        s.populate()
    else:
        for o in objs:
            o.populate_atoms()
        s = Scene(objects=objs)
        s.populate()
    ch.op(2)
    compare(ch, s, objs, TAB.expect(sub, rank), how)


def expect(rvs, prio):
    """as Table.expect for moved objects"""
    out = []
    for x, a in enumerate(rvs):
        p, z, o = a.sites()
        keep, doubt = np.ones(len(p), bool), np.array(o, bool)
        for y, b in enumerate(rvs):
            if x != y and prio[y] <= prio[x]:
                i, s = b.judge(p)
                keep &= ~(i & s)
                doubt |= ~s
        out.append((p[keep], z[keep], doubt[keep]))
    return out


OPS = [("add", i) for i in range(6)] + [("prio", w, v) for w in ("first", "last") for v in (-1, 1, 2)] + \
      [("move", w, l) for w in ("first", "last") for l in (True, False)] + [("populate",)]


def body_hist(ch):
    start = ch.choose("start", ((0, 1), (2, 4), (3, 0, 5)))
    depth = 4 if THOROUGH else 3
    items = list(start)
    prio = [1] * len(items)
    rvs = [ITS[i].rv for i in items]
    objs = [ITS[i].build(1) for i in items]
    s = Scene(objects=list(objs))
    s.populate()
    log = []
    for k in range(depth):
        op = ch.choose(f"op{k}", OPS)
        ch.op()
        if op[0] == "add":
            if op[1] in items:
                ch.prune()
            items.append(op[1]), prio.append(0), rvs.append(ITS[op[1]].rv), objs.append(ITS[op[1]].build(0))
            s.add_object(objs[-1])
        elif op[0] == "prio":
            j = 0 if op[1] == "first" else -1
            if prio[j] == op[2]:
                ch.prune()
            objs[j].priority = op[2]
            prio[j] = op[2]
        elif op[0] == "move":
            j = 0 if op[1] == "first" else -1
            if ITS[items[j]].name.endswith("molecule") and not op[2]:
                ch.prune()
            t = alpha.T_ISO[1]
            objs[j].transform(t.make(locked=op[2]))
            rvs[j] = rvs[j].map(t.aff, joint=op[2])
        else:
            s.populate()
            compare(ch, s, objs, expect(rvs, prio), f"populated after {k} edits")
        log.append(op)
        ch.visit((tuple(items), tuple(prio), tuple(sorted(x for x in log if x[0] == "move" and True)) if not any(x[0] == "add" for x in log) else tuple(log), log.count(("populate",)) > 0), depth - k)
    s.populate()
    compare(ch, s, objs, expect(rvs, prio), "finally")


HARNESSES = {
    "precedence": dict(body=body, shard=3, bounds=f"{len(SUBSETS)} sets of 1-4 of 6 objects x all insertion orders x all weak orders x 2 value sets"),
    "populations": dict(body=body_again, shard=2, bounds="all triples x all weak orders x 5 ways to build and populate"),
    "histories": dict(body=body_hist, shard=2, bounds=f"3 starts x all histories of {4 if THOROUGH else 3} of {len(OPS)} edits and populations"),
}
