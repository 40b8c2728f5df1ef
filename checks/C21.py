"""Chemical substitution under every outcome of its random draws: the complete tree of draws over a uniform alphabet is explored, so
that the exact distribution over resulting element lists is known and compared with the stated one.  Sequences, arbitrary functions
and generators with post-transformations are explored over all compositions."""
import os
import itertools
from fractions import Fraction
import numpy as np
from mc import env, rng, ref, alpha
from czone.transform import ChemicalSubstitution, ArbitraryPostTransform, PostSequence, HStrain, IStrain
from czone.volume import Volume, MultiVolume

PROPERTY = "C21"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["a target is listed once", "draws are uniform in [0, 1)"]
E1 = float(np.nextafter(1, 0))
TABLES = [([1], [2]), ([1, 2], [2, 1]), ([1, 2], [2, 3]), ([3], [1]), ([1, 2, 3], [3, 1, 2]), ([2, 1], [9, 9]), ([], []), ([1], [1])]


def tree(run, m):
    """all outcomes of run() whose draws are uniform over m values: {outcome: probability}"""
    out, prefix = {}, []
    n = 0
    while prefix is not None:
        path = []

        def real():
            k = len(path)
            path.append(prefix[k] if k < len(prefix) else 0)
            return (path[-1] + .5) / m
        with rng.script(rng.Ask(real=real)):
            r = run()
        n += 1
        out[r] = out.get(r, 0) + Fraction(1, m ** len(path))
        while path and path[-1] == m - 1:
            path.pop()
        prefix = path[:-1] + [path[-1] + 1] if path else None
    return out, n


def body_dist(ch):
    """exact distribution over results"""
    table = ch.choose("table", TABLES)
    k = ch.choose("atoms", range(1, 4))
    sp = tuple(ch.choose(f"element{i}", (1, 2, 3, 7)) for i in range(k))
    m, fr = ch.choose("fraction", ((2, Fraction(1, 2)), (2, Fraction(0)), (2, Fraction(1)), (3, Fraction(1, 3)), (3, Fraction(2, 3))))
    if m ** (k * len(table[0])) > (1000 if THOROUGH else 270):
        ch.prune("tree too large")
    t = ChemicalSubstitution(list(table[0]), list(table[1]), float(fr))
    p = np.arange(3. * k).reshape(k, 3)

    def run():
        pts, s = p.copy(), np.array(sp, float)
        a, b = t.apply_function(pts, s)
        ch.check(np.array_equal(a, p), "positions changed")
        ch.check(np.array_equal(pts, p) and tuple(s) == sp, "inputs were modified")
        return tuple(int(x) for x in b)
    got, n = tree(run, m)
    ch.op(n)
    sub = dict(zip(*table))
    want = {}
    for hit in itertools.product((True, False), repeat=k):
        r, q = [], Fraction(1)
        for h, s in zip(hit, sp):
            if s in sub:
                q *= fr if h else 1 - fr
                r.append(sub[s] if h else s)
            else:
                q *= Fraction(1, 2)
                r.append(s)
        want[tuple(r)] = want.get(tuple(r), 0) + q
    want = {r: q for r, q in want.items() if q}
    ch.check(got == want, lambda: f"{table} at {fr} on {sp}: results {({r: str(q) for r, q in got.items()})} instead of {({r: str(q) for r, q in want.items()})}")
    ch.outcome((table.__repr__(), sp, str(fr)))


def body_edges(ch):
    """fractions 0 and 1 with draws at the ends of their range; seeds"""
    table = ch.choose("table", TABLES)
    frac = ch.choose("fraction", (0, 0., 1, 1., .5))
    u = ch.choose("draws", (0., 5e-324, 1e-17, .5 - 1e-16, .5 + 1e-15, E1))
    dt = ch.choose("dtype", (int, float, np.int32))
    sp = np.array([1, 2, 3, 1, 7, 2, 1], dt)
    keep, pts = sp.copy(), np.random.rand(7, 3)
    kp = pts.copy()
    t = ChemicalSubstitution(list(table[0]), list(table[1]), frac)
    ch.op()
    with rng.script(rng.Ask(real=lambda: u)):
        a, b = t.apply_function(pts, sp)
    sub = dict(zip(*table))
    hit = u < frac
    want = [sub.get(int(s), int(s)) if hit else int(s) for s in keep]
    ch.check(list(map(int, b)) == want, lambda: f"{table} at {frac}, draws {u}: {list(b)} instead of {want}")
    ch.check(np.array_equal(a, kp) and np.array_equal(pts, kp) and np.array_equal(sp, keep), "positions or inputs were modified")
    r = [np.array(t.apply_function(pts, sp, seed=5)[1]) for _ in range(2)]
    ch.check(np.array_equal(*r), "same seed, other elements")
    big = np.tile([1, 2, 3, 7], 600)
    c = np.asarray(t.apply_function(np.zeros((2400, 3)), big, seed=ch.choose("seed", (0, 1, 2)))[1])
    for s in (1, 2, 3, 7):
        n, q = (c[big == s] != s).sum(), frac if sub.get(s, s) != s else 0
        ch.check(abs(n - 600 * q) <= (0 if q in (0, 1) else 6 * np.sqrt(600 * q * (1 - q))), lambda: f"{table} at {frac}: {n} of 600 atoms of element {s} substituted")
        ch.check(set(c[big == s].tolist()) <= {s, sub.get(s, s)}, "wrong substitute")


# ------------------------------------------------------------------ sequences and generators
def _shift(p, s):
    return p + np.array([.25, 0, 0]), s


def _drop(p, s):
    return p[s != 17], s[s != 17]


def _double(p, s):
    return p, s * 2


def _crop(p, s):
    m = p[:, 0] > 0.05
    return p[m], s[m]


PARTS = {"substitute": (lambda: ChemicalSubstitution([55, 8], [17, 9], 1.), lambda p, s: (p, np.where(s == 55, 17, np.where(s == 8, 9, s)))),
         "swap": (lambda: ChemicalSubstitution([55, 17], [17, 55], 1.0), lambda p, s: (p, np.where(s == 55, 17, np.where(s == 17, 55, s)))),
         "never": (lambda: ChemicalSubstitution([55, 17, 8], [1, 1, 1], 0.0), lambda p, s: (p, s)),
         "drop": (lambda: ArbitraryPostTransform(_drop), _drop), "double": (lambda: ArbitraryPostTransform(_double), _double),
         "shift": (lambda: ArbitraryPostTransform(_shift), _shift), "crop": (lambda: ArbitraryPostTransform(_crop), _crop)}


def chosen(ch, maxlen):
    names = []
    for i in range(ch.choose("parts", range(1, maxlen + 1))):
        names.append(ch.choose(f"part{i}", list(PARTS)))
    return names


def build(names, form):
    parts = [PARTS[n][0]() for n in names]
    if form == "list":
        return PostSequence(parts)
    if form == "one by one":
        s = PostSequence(None)
        for p in parts:
            s.add_transform(p)
        return s
    if form == "nested":
        return PostSequence([parts[0], PostSequence(parts[1:])])
    s = PostSequence([])
    s.add_transform(tuple(parts))
    return s


def expect(names, p, s):
    for n in names:
        p, s = PARTS[n][1](p, s)
    return p, s


def body_seq(ch):
    names = chosen(ch, 4 if THOROUGH else 3)
    form = ch.choose("form", ("list", "one by one", "nested", "tuple"))
    t = build(names, form)
    p, s = np.arange(24.).reshape(8, 3) * .1 - .6, np.array([55, 17, 8, 55, 17, 34, 110, 9])
    for i in range(2):
        a, b = p.copy(), s.copy()
        ch.op()
        c, d = t.apply_function(a, b)
        wp, ws = expect(names, p, s)
        ch.check(np.shape(c) == wp.shape and np.allclose(c, wp) and np.array_equal(d, ws), lambda: f"{names} ({form}): {d} instead of {ws}")
        ch.check(np.array_equal(a, p) and np.array_equal(b, s), f"{names}: inputs modified")
    ch.outcome(tuple(names))


BOX = alpha.prism((6.1, 7.2, 5.3), (-3.03, -2.2, -1.1))


def body_gen(ch):
    """every supply of a generator: post-transformation, then strain; through volumes, copies and transformations as well"""
    cell = ch.choose("cell", alpha.cells("cscl", "tri"))
    names = chosen(ch, 2)
    strain = ch.choose("strain", ("none", "homogeneous", "custom"))
    via = ch.choose("via", ("supply", "copy", "moved", "volume", "copied volume"))
    g = cell.generator()
    M = np.array([1.04, .97, 1.02])
    if strain == "homogeneous":
        g.strain_field = HStrain(matrix=M.copy(), mode="standard", origin=np.array([.1, .2, .3]))
    elif strain == "custom":
        g.strain_field = IStrain(fun=lambda p: p + .05 * np.sin(p[:, ::-1]), mode="standard", origin=np.array([.1, .2, .3]))
    g.post_transform = build(names, "list") if len(names) > 1 else PARTS[names[0]][0]()
    cry = cell.crystal()
    if via == "copy":
        g = g.from_generator()
    elif via == "moved":
        t = alpha.T_ALL[2]
        g.transform(t.make())
        cry = cry.map(t.aff.M, t.aff.t)
    o = np.array([.1, .2, .3])
    st = {"none": lambda p: p, "homogeneous": lambda p: (p - o) * M + o, "custom": lambda p: (p - o) + .05 * np.sin((p - o)[:, ::-1]) + o}[strain]
    lo, hi = BOX.min(0), BOX.max(0)
    P, Z = cry.in_box(lo - 3, hi + 3)
    wp, ws = expect(names, P, Z)
    wp = st(wp)
    for i in range(2):
        ch.op()
        if via in ("volume", "copied volume"):
            v = Volume(points=BOX, generator=g)
            if via == "copied volume":
                v = v.from_volume()
            v.populate_atoms()
            c, s = v.atoms, v.species
        else:
            c, s = g.supply_atoms(BOX)
        c, s = np.asarray(c), np.asarray(s)
        m = np.all((c > lo + .8) & (c < hi - .8), axis=1)
        w = np.all((wp > lo + .8) & (wp < hi - .8), axis=1)
        near = np.all((wp > lo + .8 - 1e-5) & (wp < hi - .8 + 1e-5), axis=1)
        r = ref.diff(c[m], s[m], wp[near], ws[near], optional=~w[near])
        ch.check(r is None, lambda: f"{cell} {names} strain {strain} via {via}: {r}")
        ch.check(w.any() or names.count("drop") + names.count("crop") > 0, "vacuous")
        d, k = ref.nearest(c, wp) if len(c) else (np.zeros(0), None)
        if len(c) and strain != "custom":
            far = np.all((c > lo - 2) & (c < hi + 2), axis=1)
            ch.check((d[far] < 1e-5).all(), f"{names}: atoms which are no sites")
    ch.outcome((tuple(names), strain, len(c)))


HARNESSES = {
    "distribution": dict(body=body_dist, shard=3, bounds=f"{len(TABLES)} tables x all lists of up to 3 of 4 elements x 5 fractions, complete tree of draws each"),
    "edges": dict(body=body_edges, shard=3, bounds=f"{len(TABLES)} tables x 5 fractions x 6 draws at the ends and around the fraction x 3 dtypes"),
    "sequences": dict(body=body_seq, shard=3, bounds=lambda t: f"all sequences of up to {3 if t == 'quick' else 4} of {len(PARTS)} parts x 4 ways of building them, applied twice"),
    "generators": dict(body=body_gen, shard=3, bounds=f"2 cells x all sequences of up to 2 of {len(PARTS)} parts x 3 strains x 5 ways to supply, twice"),
}
