"""All combinations of strain tensor / form / mode / origin with lattices, regions and prior transformations: supplied atoms are
compared with the strained reference crystal (itself a crystal for homogeneous strain), and with mapped sites for custom
strain functions; plus histories of supplying, transforming and editing a (shared) strain, and strained volumes."""
import os
import numpy as np
from mc import env, ref, alpha
from mc.alpha import RVol, Surf
from czone.transform.strain import HStrain, IStrain

PROPERTY = "C12"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["tensor entries act on row vectors of (fractional or Cartesian) coordinates, as documented by the implementation's form",
               "for custom strain functions only coverage of the unstrained region is promised"]
TENSORS = {
    "none": (None, np.eye(3)),
    "diag3": ([1.03, .98, 1.01], np.diag([1.03, .98, 1.01])),
    "compress": ([.55, .8, .7], np.diag([.55, .8, .7])),
    "expand list9": ([1.6, 0, 0, 0, 1.2, 0, 0, 0, 1.4], np.diag([1.6, 1.2, 1.4])),
    "voigt": ([1.02, .97, 1.1, .05, -.12, .21], np.array([[1.02, .21, -.12], [.21, .97, .05], [-.12, .05, 1.1]])),
    "shear 3x3": (np.array([[1, .4, 0], [0, 1, -.3], [0, 0, 1]]), np.array([[1, .4, 0], [0, 1, -.3], [0, 0, 1]])),
    "asym9": ([1.1, .2, -.1, 0, .9, .3, .15, 0, 1], np.array([[1.1, .2, -.1], [0, .9, .3], [.15, 0, 1]])),
    "row 1x6": (np.array([[.9, 1.2, 1, .3, 0, -.2]]), np.array([[.9, -.2, 0], [-.2, 1.2, .3], [0, .3, 1]])),
    "int diag": (np.array([1, 2, 1]), np.diag([1., 2, 1])),
}
ORIGINS = {"generator": "generator", "point": np.array([2.1, -1.4, .6]), "list point": [-5, 0, 3.], "far point": np.array([137.3, -81.2, 260.4]), "zero": (0., 0, 0)}
REGIONS = {"box": alpha.prism((6, 5, 7), (-2, -3, -1)), "far": alpha.prism((5, 5, 4), (-17, 11, -23)),
           "tetra": np.array([[0, 0, 0], [6, 1, 0], [1, 7, 2], [-2, 0, 6.]]), "thin": alpha.prism((9, .8, 3), (3, 4, -9))}
TS, FAR = alpha.T_ALL + alpha.T_EXTRA, len(alpha.T_ALL)
PRIOR = {"none": [], "translate": [(0, {})], "rotate": [(2, {})], "rotate basis": [(2, dict(basis_only=True))],
         "reflect+shear": [(3, {}), (7, {})], "invert": [(6, {})], "far": [(FAR + 5, {}), (2, {})], "far turn": [(1, {}), (FAR, {})], "scale": [(FAR + 4, {}), (4, {})]}
NAMES = ["cub", "tri", "hex"] + (["cscl", "out", "rho", "mono"] if THOROUGH else ["out"])


def prior_crystal(cr, prior):
    for i, kw in PRIOR[prior]:
        a = TS[i].aff
        cr = cr.map(a.M, a.t, basis_only=kw.get("basis_only", False))
    return cr


def do_prior(g, prior):
    for i, kw in PRIOR[prior]:
        g.transform(TS[i].make(**kw))


def strained(cr, S, mode, origin):
    """the strained crystal: x -> o + (x - o) S in Cartesian, or in fractional coordinates of the current bases"""
    o = cr.o if isinstance(origin, str) else np.array(origin, float)
    L = cr.B @ S.T @ np.linalg.inv(cr.B) if mode == "crystal" else S.T
    return cr.map(L, o - L @ o)


def check(ch, g, sc, region, what):
    p, z = g.supply_atoms(region.copy())
    z = np.asarray(z)
    ch.check(len(p) == len(z), f"{what}: positions and elements not paired")
    ch.check(np.all(np.isfinite(p)), f"{what}: non-finite positions")
    # every supplied atom is a strained site of its element, once
    s = sc.site_of(p)
    ch.check((s >= 0).all(), lambda: f"{what}: {int((s < 0).sum())} supplied atoms are no strained sites, e.g. {p[np.argmax(s < 0)].tolist()}")
    ch.check(np.allclose(sc.Z[s], z), f"{what}: elements of sites changed")
    if len(p) > 1:
        d = ref.cKDTree(p).query(p, k=2)[0][:, 1]
        ch.check(d.min() > 1e-6, f"{what}: site supplied twice")
    # every strained site in the region is supplied
    w, wz = sc.in_box(region.min(0), region.max(0))
    if len(region) == 4:
        w = w[ref.d_hull(w, region) < -1e-7]
    if len(w):
        ch.check(len(p) > 0, f"{what}: nothing supplied")
        d = ref.cKDTree(p).query(w)[0]
        ch.check(d.max() < ref.TOL, lambda: f"{what}: {int((d > ref.TOL).sum())} of {len(w)} strained sites in the region missing, e.g. {w[np.argmax(d)].tolist()}")
    ch.outcome((len(w), np.round(w.sum(0), 2).tobytes()))


def body(ch):
    name = ch.choose("cell", NAMES)
    form, S = TENSORS[ch.choose("tensor", list(TENSORS))]
    mode = ch.choose("mode", ("crystal", "standard"))
    origin = ORIGINS[ch.choose("strain origin", list(ORIGINS) if THOROUGH else ["generator", "point", "list point", "far point"])]
    prior = ch.choose("prior", list(PRIOR))
    when = ch.choose("strain set", ("constructor", "before", "after"))
    cell = alpha.Cell(name)
    o = np.array([1.2, -.7, 3.3])
    hs = HStrain(matrix=form, origin=origin, mode=mode)
    if when == "constructor":
        g = cell.generator(origin=o.copy(), strain_field=hs)
    else:
        g = cell.generator(origin=o.copy())
    if when == "before":
        g.strain_field = hs
    do_prior(g, prior)
    if when == "after":
        g.strain_field = hs
    cr = prior_crystal(cell.crystal(o), prior)
    sc = strained(cr, S, mode, origin)
    for r in REGIONS if THOROUGH else ("box", "far", "tetra"):
        ch.op()
        check(ch, g, sc, REGIONS[r], r)
    ch.check(np.allclose(g.origin, cr.o), "origin of the generator changed by supplying")


def fun_std(x, k=.03, **kw):
    return x + k * np.c_[x[:, 1] ** 2, np.sin(x[:, 2]), x[:, 0]]


def fun_cry(x, basis=None, k=.02, **kw):
    c = x @ basis.T
    return x + k * np.c_[np.cos(c[:, 2]), x[:, 0], x[:, 1] * 0]


def body_custom(ch):
    name = ch.choose("cell", NAMES)
    mode = ch.choose("mode", ("crystal", "standard", "default", "none"))
    origin = ORIGINS[ch.choose("strain origin", list(ORIGINS))]
    prior = ch.choose("prior", list(PRIOR))
    k = ch.choose("k", (None, .05))
    region = REGIONS[ch.choose("region", list(REGIONS))]
    kw = {} if k is None else dict(k=k)
    fun = None if mode == "none" else fun_std if mode == "standard" else fun_cry
    ist = IStrain(fun=fun, origin=origin, **kw) if mode in ("default", "none") else IStrain(fun=fun, origin=origin, mode=mode, **kw)
    cell = alpha.Cell(name)
    o = np.array([1.2, -.7, 3.3])
    g = cell.generator(origin=o.copy())
    g.strain_field = ist
    do_prior(g, prior)
    cr = prior_crystal(cell.crystal(o), prior)
    so = cr.o if isinstance(origin, str) else np.array(origin, float)

    def f(x):
        if mode == "none":
            return x
        if mode == "standard":
            return fun_std(x - so, **kw) + so
        return fun_cry((x - so) @ np.linalg.inv(cr.B).T, basis=cr.B, **kw) @ cr.B.T + so
    ch.op()
    p, z = g.supply_atoms(region.copy())
    z = np.asarray(z)
    w, wz = cr.in_box(region.min(0), region.max(0))
    if len(region) == 4:
        m = ref.d_hull(w, region) < -1e-7
        w, wz = w[m], wz[m]
    fw = f(w)
    if len(w):
        t = ref.cKDTree(p)
        d, i = t.query(fw)
        ch.check(d.max() < ref.TOL, lambda: f"{int((d > ref.TOL).sum())} of {len(w)} sites of the region missing after custom strain")
        ch.check(np.allclose(z[i], wz), "elements changed")
    # everything supplied is a strained site: the unstrained generator supplies the sites themselves
    big, bz = cr.in_box(region.min(0) - 30, region.max(0) + 30)
    d, i = ref.cKDTree(f(big)).query(p)
    ch.check(d.max() < ref.TOL and np.allclose(bz[i], z), "supplied atoms are no images of sites")
    if len(p) > 1:
        ch.check(ref.cKDTree(p).query(p, k=2)[0][:, 1].min() > 1e-6, "site supplied twice")
    ch.outcome((len(w), np.round(fw.sum(0), 2).tobytes()))


EDITS = ["supply a", "supply b", "move a", "turn a", "move b", "matrix", "mode", "origin point", "new strain a", "volume"]


def body_hist(ch):
    """one strain object carried by two generators; every supply reflects the current state"""
    S, mode, origin = TENSORS["voigt"][1], "crystal", "generator"
    hs = HStrain(matrix=TENSORS["voigt"][0])
    ca, cb = alpha.Cell("tri"), alpha.Cell("hex")
    a, b = ca.generator(origin=np.array([1., 2, 3])), cb.generator()
    a.strain_field = hs
    b.strain_field = hs
    ra, rb = ca.crystal([1, 2, 3]), cb.crystal()
    own = None
    depth = 4 if THOROUGH else 3
    for i in range(depth):
        e = ch.choose(f"edit{i}", EDITS)
        ch.op()
        if e == "supply a":
            check(ch, a, strained(ra, *(own or (S, mode, origin))), REGIONS["box"], f"a after {i} edits")
        elif e == "supply b":
            check(ch, b, strained(rb, S, mode, origin), REGIONS["tetra"], f"b after {i} edits")
        elif e in ("move a", "turn a"):
            t = alpha.T_ALL[0 if e == "move a" else 2]
            a.transform(t.make())
            ra = ra.map(t.aff.M, t.aff.t)
        elif e == "move b":
            t = alpha.T_ALL[3]
            b.transform(t.make())
            rb = rb.map(t.aff.M, t.aff.t)
        elif e == "matrix":
            S = TENSORS["compress"][1]
            hs.matrix = TENSORS["compress"][0]
        elif e == "mode":
            mode = "standard"
            hs.mode = "standard"
        elif e == "origin point":
            origin = np.array([3., 1, -2])
            hs.origin_type = "global"
            hs.origin = origin.copy()
        elif e == "new strain a":
            own = (TENSORS["asym9"][1], "standard", "generator")
            a.strain_field = HStrain(matrix=TENSORS["asym9"][0], mode="standard")
        else:
            rv = RVol(None, [Surf("sphere", 4.2, [1, 0, -1])], strained(ra, *(own or (S, mode, origin))))
            v = rv.build(a)
            v.populate_atoms()
            alpha.check_atoms(ch, v, rv, f"strained volume after {i} edits")
    check(ch, a, strained(ra, *(own or (S, mode, origin))), REGIONS["far"], "a finally")
    check(ch, b, strained(rb, S, mode, origin), REGIONS["far"], "b finally")


def body_volume(ch):
    """volumes filled with strained crystals, moved jointly or not"""
    form, S = TENSORS[ch.choose("tensor", list(TENSORS))]
    mode = ch.choose("mode", ("crystal", "standard"))
    origin = ORIGINS[ch.choose("strain origin", ("generator", "point"))]
    t = ch.choose("transform", (None,) + tuple(alpha.T_ISO))
    joint = ch.choose("joint", (True, False))
    if t is None and not joint:
        ch.prune()
    cell = alpha.Cell("tri")
    g = cell.generator(origin=np.array([.4, .2, -.1]), strain_field=HStrain(matrix=form, origin=origin, mode=mode))
    base = RVol(alpha.prism((7, 6, 6), (-3, -3, -2)), [Surf("sphere", 4.0, [.2, 0, .5])], cell.crystal([.4, .2, -.1]))
    v = base.build(g)
    if t is not None:
        v.transform(t.make(locked=joint))
        base = base.map(t.aff, joint=joint)
    base.crystal = strained(base.crystal, S, mode, origin)
    ch.op()
    v.populate_atoms()
    alpha.check_atoms(ch, v, base, "strained volume")


def body_reject(ch):
    bad = ch.choose("invalid", ("mode", "mode None", "matrix 4", "matrix 2x2", "origin 2", "fun shape"))
    hs = HStrain(matrix=[1.1, 1, 1])
    try:
        if bad == "mode": HStrain(mode="crystalline")
        elif bad == "mode None": hs.mode = None
        elif bad == "matrix 4": hs.matrix = [1, 2, 3, 4]
        elif bad == "matrix 2x2": hs.matrix = np.eye(2)
        elif bad == "origin 2": hs.origin = np.array([1., 2])
        elif bad == "fun shape": IStrain(fun=lambda x, **k: x[:, :2])
    except Exception:
        pass
    else:
        ch.fail(f"invalid setting accepted: {bad}")
    ch.check(hs.mode == "crystal" and np.allclose(hs.matrix, np.diag([1.1, 1, 1])), "rejected setting changed the strain")


HARNESSES = {
    "homogeneous": dict(body=body, shard=3, bounds=f"{len(NAMES)} cells x {len(TENSORS)} tensors x 2 modes x {len(ORIGINS)} origins x {len(PRIOR)} priors x 3 orders x 3-4 regions"),
    "custom": dict(body=body_custom, shard=3, bounds=f"{len(NAMES)} cells x 4 functions/modes x {len(ORIGINS)} origins x {len(PRIOR)} priors x 2 options x {len(REGIONS)} regions"),
    "histories": dict(body=body_hist, shard=2, bounds=f"all histories of {4 if THOROUGH else 3} of {len(EDITS)} edits/supplies of two generators sharing a strain"),
    "volumes": dict(body=body_volume, shard=2, bounds=f"{len(TENSORS)} tensors x 2 modes x 2 origins x {len(alpha.T_ISO) + 1} transforms x joint"),
    "rejected": dict(body=body_reject, shard=1, bounds="6 invalid settings"),
}
