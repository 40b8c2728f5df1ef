"""All groups of up to 4 overlapping members, nested in every bracketing, in every order and every weak order of priorities;
membership on a probe set and populated atoms compared with the union / precedence rule; plus edit histories of groups."""
import os
import itertools
import numpy as np
from mc import env, ref, alpha, pool
from mc.alpha import RVol, RMulti, Surf
from czone.volume import MultiVolume
from checks.C07 import multidiff, expect

PROPERTY = "C08"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["sites within 1e-6 of a hull face or a fifth of the tolerance (at most 1e-4) of a surface's padded boundary may or may not be there"]
ITS = pool.items()[:4]
cscl = alpha.Cell("cscl")
ITS.append(pool.Item("slab", RVol(alpha.prism((7, 7, 2.3), (-3.4, -3.6, .6)), [Surf("plane", [1, 1, 1], [1, 1, 1.])], cscl.crystal([.3, .2, .9])),
                     [cscl.generator(origin=np.array([.3, .2, .9]))]))
TAB = pool.Table(ITS)
g = np.linspace(-4.6, 5.1, 9)
PROBE = np.array([[x, y * .97 + .05, z * 1.03 - .1] for x in g for y in g for z in g])
JUDGE = [i.rv.judge(PROBE) for i in ITS]
BRACKETS = {2: ["ab", "a(b)"], 3: ["abc", "a(bc)", "(ab)c", "(a)(bc)", "((ab)c)"], 4: ["abcd", "(ab)(cd)", "a(b(cd))", "(abc)d", "a(bc)d"]}
SUBS = [s for n in (1, 2, 3) for s in itertools.combinations(range(5), n)] + ([s for s in itertools.combinations(range(5), 4)] if THOROUGH else [(0, 1, 2, 3), (0, 1, 3, 4)])


DENSE, SIGNED = (-1, 2, 5, 8), {2: (-1, 1), 3: (-1, 0, 1), 4: (-300, -1, 1, 300)}


def parse(text, names):
    """bracketing -> nested tuples of positions"""
    stack, k = [[]], 0
    for c in text:
        if c == "(":
            stack.append([])
        elif c == ")":
            x = stack.pop()
            stack[-1].append(tuple(x))
        else:
            stack[-1].append(k)
            k += 1
    return tuple(stack[0])


def check_interior(ch, mv, rv_ins_sure, what):
    got = np.asarray(mv.checkIfInterior(PROBE.copy())).astype(bool)
    ins, sure = rv_ins_sure
    bad = (got != ins) & sure
    ch.check(not bad.any(), lambda: f"{what}: {PROBE[np.argmax(bad)].tolist()} is {'inside' if ins[np.argmax(bad)] else 'outside'} the union, reported otherwise")
    for k in (364, 0, 363):
        one = np.ravel(mv.checkIfInterior(PROBE[k].copy()))
        ch.check(one.shape == (1,) and (bool(one[0]) == ins[k] or not sure[k]), f"{what}: single point {PROBE[k].tolist()}: {one.tolist()}")


def union(js):
    ins = np.any([j[0] for j in js], axis=0)
    sure = np.all([j[1] for j in js], axis=0) | np.any([j[0] & j[1] for j in js], axis=0)
    return ins, sure


def body(ch):
    """flat groups: all orders x weak orders"""
    sub = ch.choose("members", SUBS)
    n = len(sub)
    order = ch.choose("order", list(itertools.permutations(range(n))))
    rank = ch.choose("priorities", pool.weak_orders(n))
    vals = ch.choose("values", (DENSE, SIGNED[n])) if n > 1 else DENSE
    prio = [vals[r] for r in rank]
    how = ch.choose("built", ("constructor", "one by one") if n > 1 else ("constructor",))
    vols = [ITS[i].build(p) for i, p in zip(sub, prio)]
    if how == "constructor":
        mv = MultiVolume([vols[i] for i in order])
    else:
        mv = MultiVolume(vols[order[0]:order[0] + 1], priority=4)
        for i in order[1:]:
            mv.add_volume(vols[i])
    ch.op(2)
    check_interior(ch, mv, union([JUDGE[i] for i in sub]), "before populating")
    mv.populate_atoms()
    exp = TAB.expect(sub, prio)
    P, Z, O = np.vstack([e[0] for e in exp]), np.hstack([e[1] for e in exp]), np.hstack([e[2] for e in exp])
    ch.check(len(mv.atoms) == len(mv.species), "positions and elements not paired")
    r = multidiff(mv.atoms, mv.species, P, Z, O)
    ch.check(r is None, lambda: f"populated: {r}")
    check_interior(ch, mv, union([JUDGE[i] for i in sub]), "after populating")
    e = mv.ase_atoms
    ch.check(np.array_equal(e.get_positions(), mv.atoms) and np.array_equal(e.get_atomic_numbers(), mv.species), "view as ASE atoms differs")
    ch.outcome((len(P), np.round(P.sum(0), 3).tobytes()))


def body_nested(ch):
    n = ch.choose("n", (2, 3, 4) if THOROUGH else (2, 3))
    sub = ch.choose("members", [s for s in itertools.permutations(range(5), n) if THOROUGH and n < 4 or s[0] < s[-1]])
    shape = ch.choose("nesting", [b for b in BRACKETS[n] if "(" in b])
    tree = parse(shape, n)
    prio = ch.choose("priorities", [p for p in pool.weak_orders(n)])
    gp = ch.choose("group priority", (0, 1, 2, -1))

    def make(t, top):
        if isinstance(t, tuple):
            ms = [make(x, False) for x in t]
            p = 0 if top else gp
            return MultiVolume([m[0] for m in ms], priority=p), RMulti([m[1] for m in ms], p)
        it = ITS[sub[t]]
        return it.build(prio[t]), WithPrio(it.rv, prio[t])
    mv, rv = make(tree, True)
    ch.op()
    mv.populate_atoms()
    p, z, o = rv.sites()
    r = multidiff(mv.atoms, mv.species, p, z, o)
    ch.check(r is None, lambda: f"nested group populated: {r}")
    check_interior(ch, mv, union([JUDGE[i] for i in sub]), "nested group")
    ch.outcome((len(p), np.round(p.sum(0), 3).tobytes()))


class WithPrio:
    _s = {}

    def __init__(self, rv, priority):
        self.rv, self.priority = rv, priority

    def sites(self):
        k = id(self.rv)
        if k not in self._s:
            self._s[k] = self.rv.sites()
        return self._s[k]

    def judge(self, p):
        return self.rv.judge(p)


EDITS = ["add slab 0", "add rod 1", "add nested 2", "prio first 2", "prio last 0", "prio last -2", "move group", "move member", "populate", "copy"]


def body_hist(ch):
    start = ch.choose("start", ((0, 1), (2, 3)))
    depth = 4 if THOROUGH else 3
    prio, rvs, vols = [1, 1], [ITS[i].rv for i in start], [ITS[i].build(1) for i in start]
    mv = MultiVolume(list(vols))
    for k in range(depth):
        e = ch.choose(f"edit{k}", EDITS)
        ch.op()
        if e.startswith("add"):
            which, p = e.split()[1:]
            if which == "nested":
                v = MultiVolume([ITS[2].build(1)], priority=int(p))
                rv = ITS[2].rv
            else:
                it = ITS[4 if which == "slab" else 3]
                v, rv = it.build(int(p)), it.rv
            mv.add_volume(v)
            vols.append(v), rvs.append(rv), prio.append(int(p))
        elif e.startswith("prio"):
            j = 0 if "first" in e else -1
            vols[j].priority = prio[j] = int(e.split()[-1])
        elif e == "move group":
            t = alpha.T_ISO[1]
            mv.transform(t.make())
            rvs = [r.map(t.aff) for r in rvs]
        elif e == "move member":
            t = alpha.T_ISO[0]
            vols[0].transform(t.make(locked=False))
            rvs[0] = rvs[0].map(t.aff, joint=False)
        elif e == "copy":
            mv = mv.from_volume()
            ch.check(len(mv.volumes) == len(vols), "copy has another number of members")
            order = match(mv, vols, rvs, ch)
            vols = order
        else:
            mv.populate_atoms()
            final(ch, mv, rvs, prio, f"populated after {k} edits")
    mv.populate_atoms()
    final(ch, mv, rvs, prio, "finally")


def match(mv, vols, rvs, ch):
    """members of a copy in the order of the model (identified by their interior)"""
    out = []
    left = list(mv.volumes)
    for v, r in zip(vols, rvs):
        ins, sure = r.judge(PROBE)
        c = [x for x in left if x.priority == v.priority and not ((np.asarray(x.checkIfInterior(PROBE)) != ins) & sure).any()]
        ch.check(len(c) > 0, "no member of the copy has the interior and priority of an original member")
        out.append(c[0])
        left.remove(c[0])
    return out


def final(ch, mv, rvs, prio, what):
    exp = expect(rvs, prio)
    P, Z, O = np.vstack([e[0] for e in exp]), np.hstack([e[1] for e in exp]), np.hstack([e[2] for e in exp])
    r = multidiff(mv.atoms, mv.species, P, Z, O)
    ch.check(r is None, lambda: f"{what}: {r}")
    check_interior(ch, mv, union([r.judge(PROBE) for r in rvs]), what)
    ch.outcome((len(P), np.round(P.sum(0), 3).tobytes()))


HARNESSES = {
    "flat": dict(body=body, shard=3, bounds=f"{len(SUBS)} sets of 1-4 of 5 members x all orders x all weak orders x 2 sets of priority values x 2 ways to build"),
    "nested": dict(body=body_nested, shard=3, bounds="2-3 (4) of 5 members x nestings x all weak orders x 4 group priorities"),
    "histories": dict(body=body_hist, shard=2, bounds=f"2 groups x all histories of {4 if THOROUGH else 3} of {len(EDITS)} edits and populations"),
}
