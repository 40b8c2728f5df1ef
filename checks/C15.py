"""Every history (to the depth) of molecule edits - transformations, position and element updates, removals, origin and orientation
settings, copies, and every kind of edit that must be refused - run on real molecules next to a plain list of atoms."""
import os
import warnings
import numpy as np
from mc import env, ref, alpha
from ase import Atoms
from pymatgen.core.structure import Molecule as PmgMolecule, IMolecule
from czone.molecule import Molecule
from czone.transform import MultiTransform

PROPERTY = "C15"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["an atom index i is valid for -N < i < N (the range the code documents by its checks); the atom count changes only by removal"]
warnings.filterwarnings("ignore")
TS = [alpha.T_ALL[i] for i in (0, 2, 3)]
POS = np.array([[0, 0, 0], [1.1, 0, .2], [0, 1.5, 0], [.3, -.4, 2.]])
SPEC = [8, 1, 6, 14]
RM = ref.rodrigues([1, 1, 0], .6)


class Model:
    def __init__(self, pos, Z, origin):
        """origin: ("atom", tag) or ("point", xyz)"""
        self.pos, self.Z, self.tags = [np.array(p, float) for p in pos], list(Z), list(range(len(Z)))
        self.kind, self.o, self.R = origin[0], origin[1], np.eye(3)
        self.priority = 0

    def copy(self):
        m = Model(self.pos, self.Z, (self.kind, self.o))
        m.tags, m.R, m.priority = list(self.tags), self.R, self.priority
        return m

    @property
    def n(self):
        return len(self.Z)

    def origin(self):
        return self.pos[self.tags.index(self.o)] if self.kind == "atom" else self.o

    def tracked(self):
        return self.tags.index(self.o) if self.kind == "atom" else None

    def transform(self, aff, with_origin=True):
        self.pos = list(aff(np.array(self.pos))) if self.n else []
        if with_origin and self.kind == "point":
            self.o = aff(self.o)

    def remove(self, idx, new=None):
        gone = {i % self.n for i in idx}
        if new is not None:
            self.kind, self.o = "atom", self.tags[new % self.n]
        keep = [i for i in range(self.n) if i not in gone]
        self.pos, self.Z, self.tags = ([x[i] for i in keep] for x in (self.pos, self.Z, self.tags))


def matches(ch, m, r, what):
    a, z = np.asarray(m.atoms), np.asarray(m.species)
    ch.check(a.shape == (r.n, 3) and z.shape == (r.n,), lambda: f"{what}: shapes {a.shape} {z.shape} for {r.n} atoms")
    ch.check(np.allclose(a, np.array(r.pos).reshape(-1, 3), atol=1e-9), lambda: f"{what}: positions {a.tolist()} instead of {np.array(r.pos).tolist()}")
    ch.check(list(z) == r.Z, lambda: f"{what}: elements {list(z)} instead of {r.Z}")
    ch.check(np.allclose(np.asarray(m.origin), r.origin(), atol=1e-9), lambda: f"{what}: origin {m.origin} instead of {r.origin()} (set on {r.kind})")
    ch.check(np.allclose(m.orientation, r.R, atol=1e-12) and m.priority == r.priority, f"{what}: orientation or priority changed")
    if r.n:
        v = m.ase_atoms
        ch.check(np.allclose(v.get_positions(), a) and list(v.get_atomic_numbers()) == r.Z, f"{what}: the ASE view differs")


# ------------------------------------------------------------ operations: (name, enabled(r), real(m), model(r) or None when it must be refused)
def shifted(n):
    return np.arange(3. * n).reshape(n, 3) * .37 - 1


def operations():
    O = []

    def add(name, real, model, when=lambda r: True):
        O.append((name, when, real, model))
    for t in TS:
        add(f"transform {t}", lambda m, r, t=t: m.transform(t.make()), lambda r, t=t: r.transform(t.aff))
    t = TS[1]
    add("transform, origin kept", lambda m, r: m.transform(t.make(), transform_origin=False), lambda r: r.transform(t.aff, False))
    add("transform by sequence", lambda m, r: m.transform(MultiTransform([TS[2].make(), TS[0].make(locked=False)])),
        lambda r: r.transform(alpha.compose([TS[2], TS[0]])))
    add("positions", lambda m, r: m.update_positions(shifted(r.n)), lambda r: setattr(r, "pos", list(shifted(r.n))))
    add("positions from list", lambda m, r: m.update_positions((shifted(r.n)[::-1] + .5).tolist()), lambda r: setattr(r, "pos", list(shifted(r.n)[::-1] + .5)))
    add("positions, two coincide", lambda m, r: m.update_positions(shifted(r.n) * (np.arange(r.n) > 1)[:, None]), lambda r: setattr(r, "pos", list(shifted(r.n) * (np.arange(r.n) > 1)[:, None])))
    add("elements", lambda m, r: m.update_species(list(range(20, 20 + r.n))), lambda r: setattr(r, "Z", list(range(20, 20 + r.n))))
    add("elements as floats", lambda m, r: m.update_species(np.arange(30., 30 + r.n)[:, None]), lambda r: setattr(r, "Z", list(range(30, 30 + r.n))))
    add("all atoms", lambda m, r: m.set_atoms(list(range(3, 3 + r.n)), shifted(r.n) * 2),
        lambda r: (setattr(r, "Z", list(range(3, 3 + r.n))), setattr(r, "pos", list(shifted(r.n) * 2))))

    def rem(name, idx, new=None, when=lambda r: True):
        """enabled by `when`; refused iff the tracked atom or the new origin would go, or an index is out of range"""
        ix = idx if callable(idx) else lambda r: idx

        def model(r):
            i = [int(k) for k in ix(r)]
            if any(not -r.n <= k < r.n for k in i):
                return False
            gone = {k % r.n for k in i}
            if new is not None:
                if not -r.n < new < r.n or new % r.n in gone:
                    return False
            elif r.kind == "atom" and r.tracked() in gone:
                return False
            r.remove(i, new)
        add(f"remove {name}", lambda m, r: m.remove_atoms(ix(r)) if new is None else m.remove_atoms(ix(r), new_origin_idx=new), model,
            lambda r: r.n > 1 and when(r))
    rem("first", [0])
    rem("last", [-1])
    rem("second as array", np.array([1]))
    rem("none", lambda r: np.zeros(0, int))
    rem("two, unsorted and repeated", [2, 0, 2], when=lambda r: r.n > 2)
    rem("first, origin on second", [0], 1)
    rem("second, origin on last", [1], -1)
    rem("last, origin on last", [-1], -1)
    rem("beyond the end", lambda r: [0, r.n])
    rem("first, origin beyond the end", [0], 9)
    for i in (0, 1, -1):
        add(f"origin on atom {i}", lambda m, r, i=i: m.set_origin(idx=i), lambda r, i=i: (setattr(r, "kind", "atom"), setattr(r, "o", r.tags[i])),
            lambda r, i=i: -r.n < i < r.n)
    add("origin on atom 1 (numpy int)", lambda m, r: m.set_origin(idx=np.int64(1)), lambda r: (setattr(r, "kind", "atom"), setattr(r, "o", r.tags[1])), lambda r: r.n > 1)
    for p in ([1., -2, .5], [[0, 0, 0]]):
        add(f"origin at {p}", lambda m, r, p=p: m.set_origin(point=p), lambda r, p=p: (setattr(r, "kind", "point"), setattr(r, "o", np.ravel(p).astype(float))))
    add("orientation", lambda m, r: setattr(m, "orientation", RM.copy()), lambda r: setattr(r, "R", RM))
    add("orientation reset", lambda m, r: m.reset_orientation(), lambda r: setattr(r, "R", np.eye(3)))
    add("priority", lambda m, r: setattr(m, "priority", 3), lambda r: setattr(r, "priority", 3))
    # edits which must be refused
    no = lambda r: False
    bad = lambda name, real: add("refused: " + name, lambda m, r: real(m, r), no)
    bad("positions of one atom more", lambda m, r: m.update_positions(shifted(r.n + 1)))
    bad("positions in two dimensions", lambda m, r: m.update_positions(np.zeros((r.n, 2))))
    bad("one element more", lambda m, r: m.update_species([1] * (r.n + 1)))
    bad("elements that are no numbers", lambda m, r: m.update_species(["x"] * r.n))
    bad("atoms and elements of different number", lambda m, r: m.set_atoms([5] * (r.n + 1), shifted(r.n)))
    bad("atoms in two dimensions", lambda m, r: m.set_atoms([5] * r.n, [[1, 2]] * r.n if (2 * r.n) % 3 else [[1, 2, 3, 4]] * r.n))
    bad("new origin that is no integer", lambda m, r: m.remove_atoms([0], new_origin_idx=1.0))
    bad("origin on atom beyond the end", lambda m, r: m.set_origin(idx=r.n))
    bad("origin on atom before the start", lambda m, r: m.set_origin(idx=-r.n - 1))
    bad("origin on atom 0.5", lambda m, r: m.set_origin(idx=.5))
    bad("origin at a point in two dimensions", lambda m, r: m.set_origin(point=[1, 2]))
    bad("orientation of two dimensions", lambda m, r: setattr(m, "orientation", np.eye(2)))
    bad("orientation that reflects", lambda m, r: setattr(m, "orientation", np.diag([1., 1, -1])))
    bad("orientation that shears", lambda m, r: setattr(m, "orientation", np.array([[1, 1, 0], [0, 1, 0], [0, 0, 1.]])))
    bad("priority that is no integer", lambda m, r: setattr(m, "priority", 1.5))
    bad("transformation that is none", lambda m, r: m.transform(np.eye(3)))
    return O


OPS = operations()
GOOD = [o for o in OPS if not o[0].startswith("refused")]
SOURCES = ["default", "lists", "origin on atom", "origin at point", "ase", "pymatgen", "single atom", "coincident"]
CPOS = np.array([[5., 0, 0], [1.1, 0, .2], [1.1, 0, .2], [300., -200, .5], [5., 0, 0]])


def start(ch):
    src = ch.choose("source", SOURCES)
    ch.src = src
    p, Z = POS.copy(), list(SPEC)
    zero = ("point", np.zeros(3))
    if src == "default":
        return Molecule(np.array(Z), p), Model(POS, Z, zero)
    if src == "lists":
        return Molecule(Z, POS.ravel().tolist(), origin=[.5, 0, 1], orientation=RM), _with_R(Model(POS, Z, ("point", np.array([.5, 0, 1]))))
    if src == "origin on atom":
        return Molecule(Z, p, origin=2), Model(POS, Z, ("atom", 2))
    if src == "origin at point":
        return Molecule(Z, p, origin=np.array([[1., 2, 3]])), Model(POS, Z, ("point", np.array([1., 2, 3])))
    if src == "ase":
        return Molecule.from_ase_atoms(Atoms(numbers=Z, positions=p)), Model(POS, Z, zero)
    if src == "pymatgen":
        return Molecule.from_pmg_molecule(PmgMolecule(Z, p)), Model(POS, Z, zero)
    if src == "coincident":
        return Molecule([9, 8, 1, 9, 3], CPOS.copy(), origin=1), Model(CPOS, [9, 8, 1, 9, 3], ("atom", 1))
    return Molecule([7], [[1., 2, 3]], origin=0), Model([[1., 2, 3]], [7], ("atom", 0))


def _with_R(r):
    r.R = RM
    return r


def act(ch, m, r, op, what):
    name, when, real, model = op
    if not when(r):
        ch.prune("not enabled")
    old = r.copy()
    ok = model(r) is not False
    if not ok:
        r.__dict__.update(old.__dict__)
    ch.op()
    try:
        real(m, old)
        raised = None
    except Exception as e:
        raised = e
    if ok and raised is not None:
        ch.fail(f"{what}: valid edit raised {type(raised).__name__}: {raised}")
    if not ok and raised is None:
        ch.fail(f"{what}: an edit that must be refused was accepted")
    matches(ch, m, r, what)


def body(ch):
    m, r = start(ch)
    m.print_warnings = False
    matches(ch, m, r, "after construction")
    n = ch.choose("length", (1, 2, 3, 4) if THOROUGH else (1, 2, 3) if ch.src in ("origin on atom", "origin at point") else (1, 2))
    hist, left = [], None
    for i in range(n):
        # a refused edit leaves the state: only worth it as first or last step
        ops = OPS if i == n - 1 or i == 0 and n < 4 else GOOD
        k = ch.choose(f"edit{i}", range(len(ops)))
        hist.append(ops[k][0])
        act(ch, m, r, ops[k], " > ".join(hist))
    ch.outcome((round(float(np.sum(m.atoms)), 5), tuple(np.asarray(m.species)), tuple(np.round(r.origin(), 6)), r.kind))


def body_copy(ch):
    """copies (with transformations) carry on independently and exactly as the original would"""
    m, r = start(ch)
    m.print_warnings = False
    i = ch.choose("before", range(len(GOOD)))
    act(ch, m, r, GOOD[i], GOOD[i][0])
    how = ch.choose("copy", ("plain", "one", "two"))
    ts = dict(plain=[], one=[TS[1]], two=[TS[0], TS[2]])[how]
    ch.op()
    c = m.from_molecule() if how == "plain" else m.from_molecule(transformation=[t.make() for t in ts])
    rc = r.copy()
    for t in ts:
        rc.transform(t.aff)
    matches(ch, c, rc, f"copy ({how}) after {GOOD[i][0]}")
    j = ch.choose("edit of copy", range(len(OPS)))
    act(ch, c, rc, OPS[j], f"{GOOD[i][0]} > copy > {OPS[j][0]}")
    matches(ch, m, r, f"original after {OPS[j][0]} of its copy")
    if THOROUGH:
        k = ch.choose("edit of original", range(len(GOOD)))
        act(ch, m, r, GOOD[k], f"original: {GOOD[i][0]} > copied > {GOOD[k][0]}")
        matches(ch, c, rc, "copy after edit of its original")


def body_reject(ch):
    """sources which cannot make a molecule"""
    bad = [lambda: Molecule([1, 2], [[0, 0, 0]]), lambda: Molecule([1], [[0, 0]]), lambda: Molecule([1], [[0, 0, 0]], origin=3), lambda: Molecule.from_ase_atoms([1]),
           lambda: Molecule.from_pmg_molecule("H2"), lambda: Molecule([1], [[0, 0, 0]], orientation=np.diag([1., -1, 1])), lambda: Molecule([1], [[0, 0, 0]], origin=[1, 2])]
    k = ch.choose("construction", range(len(bad)))
    ch.op()
    try:
        bad[k]()
    except Exception:
        return
    ch.fail(f"construction {k} should have been refused")


HARNESSES = {
    "history": dict(body=body, shard=3, bounds=lambda t: f"{len(SOURCES)} sources x all histories of up to {'3 (2 for five sources)' if t == 'quick' else 4} of {len(OPS)} edits (refused ones last, or first)"),
    "copies": dict(body=body_copy, shard=3, bounds=f"{len(SOURCES)} sources x {len(GOOD)} edits x 3 copies x {len(OPS)} edits"),
    "constructors": dict(body=body_reject, shard=1, bounds="7 constructions that must be refused"),
}
