"""A pool of mutually overlapping objects (real builder + reference) with precomputed membership tables."""
import itertools
import numpy as np
from mc import ref, alpha
from mc.alpha import Surf, RVol, RMulti, Cell
from czone.volume import MultiVolume
from czone.molecule import Molecule

R = ref.rodrigues([1, 2, 3], .9)


class RMol:
    def __init__(self, Z, pos, priority=0):
        self.Z, self.pos, self.priority = np.array(Z, float), np.array(pos, float), priority

    def sites(self):
        return self.pos, self.Z, np.zeros(len(self.pos), bool)

    def judge(self, p):
        return np.zeros(len(p), bool), np.ones(len(p), bool)

    def map(self, aff, joint=True):
        return RMol(self.Z, aff(self.pos), self.priority)


class Item:
    def __init__(self, name, rv, gens):
        self.name, self.rv, self.gens = name, rv, gens

    def build(self, priority=0):
        g = list(self.gens)
        return _build(self.rv, g, priority)

    def __repr__(self):
        return self.name


def _build(rv, gens, priority):
    if isinstance(rv, RMol):
        m = Molecule(rv.Z.astype(int), rv.pos)
        m.priority = priority
        m.print_warnings = False
        return m
    if isinstance(rv, RVol):
        old, rv.priority = rv.priority, priority
        v = rv.build(gens.pop(0))
        rv.priority = old
        return v
    return MultiVolume([_build(m, gens, m.priority) for m in rv.members], priority=priority)


def items():
    cscl, tri, hexa, cub = alpha.cells("cscl", "tri", "hex", "cub")
    out = [
        Item("ball", RVol(None, [Surf("sphere", 4.0, [.3, 0, 0])], cscl.crystal()), [cscl.generator()]),
        Item("block", RVol(alpha.prism((6, 5, 7), (-.5, -1, -2), R), (), tri.crystal([.4, 0, .1])), [tri.generator(origin=np.array([.4, 0, .1]))]),
        Item("pair", RMulti([RVol(None, [Surf("sphere", 2.7, [-1.6, 1, 1])], hexa.crystal(), 1),
                             RVol(alpha.prism((4.2, 4.2, 4.2), (-3.05, -2.95, -3.1)), (), cub.crystal([.2, .1, .3]), 0)]),
             [hexa.generator(), cub.generator(origin=np.array([.2, .1, .3]))]),
        Item("rod", RVol(None, [Surf("cylinder", [1, 1, .3], [0, .4, .3], 2.3, 9.1), Surf("plane", [0, 0, 1], [0, 0, 2.05])], cub.crystal([.7, .9, 1])),
             [cub.generator(origin=np.array([.7, .9, 1]))]),
    ]
    g = np.array([[x, y, z] for x in (-2.2, .35, 2.9) for y in (-1.4, 1.1) for z in (-2.6, .2, 2.4)])
    out.append(Item("molecule", RMol(np.arange(1, len(g) + 1), g + .07), []))
    out.append(Item("other molecule", RMol(np.arange(40, 40 + 6), g[::3] * .8 + .13), []))
    return out


class Table:
    """sites of each item and who contains them"""

    def __init__(self, its):
        self.its = its
        self.sites = [i.rv.sites() for i in its]
        self.ins, self.sure = {}, {}
        for a, b in itertools.permutations(range(len(its)), 2):
            self.ins[a, b], self.sure[a, b] = its[b].rv.judge(self.sites[a][0])

    def expect(self, members, prio):
        """members: item indices, prio: their priorities -> list of (positions, elements, optional) per member"""
        out = []
        for x, a in enumerate(members):
            p, z, o = self.sites[a]
            keep, doubt = np.ones(len(p), bool), np.array(o, bool)
            for y, b in enumerate(members):
                if x == y or prio[y] > prio[x]:
                    continue
                keep &= ~(self.ins[a, b] & self.sure[a, b])
                doubt |= ~self.sure[a, b]
            out.append((p[keep], z[keep], doubt[keep]))
        return out


def weak_orders(n):
    """all weak orders as canonical rank vectors"""
    out = []
    for r in itertools.product(range(n), repeat=n):
        if set(r) == set(range(max(r) + 1)):
            out.append(r)
    return out
