"""All combinations of output format and options, file naming, object and history of edits between writes: every file is read back
and compared with the independently resolved reference atoms and cell."""
import io
import os
import shutil
import tempfile
import pathlib
import itertools
import numpy as np
import ase.io
from mc import env, ref
from mc import alpha as A, pool
from mc.alpha import RVol, Surf, RMulti
from czone.scene import Scene

PROPERTY = "C28"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["files are read back with ASE's own readers; formats whose reader needs more than the file (lammps-data, mustem) are left out",
               "formats written in fractional coordinates may wrap atoms into the cell", "coordinates are compared to the precision of the format"]
DW = .1 ** 2 * 8 * np.pi ** 2


class F:
    """format, write options, tolerance, has the file the cell?, are positions modulo the cell?, extension naming the format"""

    def __init__(self, fmt, tol=1e-6, cell=True, mod=False, ext=None, kw=None, rkw=None, needs_cell=True, dw=False, text=True):
        self.fmt, self.tol, self.cell, self.mod, self.ext, self.kw, self.rkw = fmt, tol, cell, mod, ext, kw or {}, rkw or {}
        self.needs_cell, self.dw, self.text = needs_cell, dw, text
        self.name = fmt + ("" if not kw else " " + ",".join(f"{k}={v}" for k, v in kw.items()))

    def __repr__(self):
        return self.name


FULL = {"C": 1.3, "O": .2, "Na": .7, "Cl": .05, "Ti": .33}   # extended to every element below
FORMATS = [
    F("prismatic", 1e-4, dw=True),
    F("prismatic", 1e-4, dw="user", kw=dict(debye_waller_factors="user")),
    F("prismatic", 1e-4, dw="user array", kw=dict(debye_waller_factors="user array")),
    F("prismatic", 1e-4, dw=True, kw=dict(comments="some title")),
    F("xyz", 1e-6, cell=False, needs_cell=False),
    F("xyz", 6e-4, cell=False, needs_cell=False, kw=dict(comment="hello", fmt="%10.3f")),
    F("extxyz", 1e-6, ext="xyz", needs_cell=False),
    F("extxyz", 1e-6, ext="extxyz", needs_cell=False, kw=dict(columns=["symbols", "positions"])),
    F("extxyz", 1e-6, needs_cell=False, kw=dict(plain=True), cell=False),
    F("vasp", 1e-6, ext="vasp"),
    F("vasp", 1e-6, kw=dict(direct=True)),
    F("vasp", 1e-6, kw=dict(sort=True, vasp5=True)),
    F("vasp", 1e-6, ext="poscar", kw=dict(direct=True, wrap=True), mod=True),
    F("cif", 1e-3, ext="cif", mod=True),
    F("cif", 1e-3, kw=dict(wrap=False), mod=True),
    F("json", 1e-9, ext="json", needs_cell=False),
    F("traj", 1e-9, ext="traj", needs_cell=False, text=False),
    F("proteindatabank", 6e-4, ext="pdb", cell=False, needs_cell=False),
    F("aims", 1e-6, ext="in", cell=False, needs_cell=False),
    F("gen", 1e-6, ext="gen", cell=False, needs_cell=False),
    F("xsf", 1e-6, ext="xsf", cell=False, needs_cell=False),
    F("cfg", 1e-5, ext="cfg", mod=True),
    F("res", 1e-4, ext="res", mod=True),
    F("castep-cell", 1e-5, ext="cell"),
    F("abinit-in", 1e-6),
    F("eon", 1e-6),
    F("v-sim", 1e-5, ext="ascii"),
    F("turbomole", 1e-6, cell=False, needs_cell=False),
    F("nwchem-in", 1e-5, ext="nwi", cell=False, needs_cell=False),
    F("dmol-car", 1e-5, ext="car", cell=False, needs_cell=False),
]


# ------------------------------------------------------------------ objects
def molecule(Z, P, priority=0):
    return pool.RMol(Z, P, priority)


MOLP = np.array([[5.1, 4.3, 8.2], [6.2, 4.9, 8.4], [4.2, 5.6, 7.9], [5.3, 6.3, 8.8], [15.7, -2.2, 3.3]])


class Obj:
    def __init__(self, name, parts, bounds, kind="scene"):
        """parts: (reference, generator names)"""
        self.name, self.parts, self.bounds, self.kind = name, parts, np.array(bounds, float), kind

    def __repr__(self):
        return self.name


def build(rv, gens):
    return pool._build(rv, list(gens), rv.priority)


def refs():
    c = {n: A.Cell(n) for n in ("cub", "hex", "cscl", "tri")}

    def vol(name, pts=None, surfs=(), pr=0):
        return RVol(pts, surfs, c[name].crystal(), pr), [c[name].generator()]
    slab, ball, corner = vol("cscl", A.prism((9.1, 8.3, 5.2), (.7, .9, 1.1)), pr=1), vol("hex", None, [Surf("sphere", 4.2, [5, 5, 6.5])], 0), vol("tri", A.prism((5, 5.1, 5.2), (-2.3, 6.2, 3.1)), pr=2)
    mol = (molecule([8, 6, 1, 79, 17], MOLP, 0), [])
    multi = (RMulti([slab[0], ball[0]], 1), slab[1] + ball[1])
    b = [[0, 0, 0], [17.3, 15.9, 14.7]]
    return [
        Obj("one crystal", [slab], b),
        Obj("overlapping volumes", [slab, ball, corner], [[-3.1, -1.7, -2.2], [21.3, 19.9, 16.7]]),
        Obj("molecule on crystal", [mol, slab], b),
        Obj("molecule alone", [mol], [[-2, -7, 0], [18.5, 13.3, 12.1]]),
        Obj("multivolume and molecule", [multi, mol], b),
        Obj("hidden object", [slab, vol("cub", None, [Surf("sphere", 2., [5.2, 5, 3.6])], 3)], b),
        Obj("volume", [ball], b, "volume"),
        Obj("multivolume", [multi], b, "volume"),
    ]


OBJS = refs()
_sites = {}


def sites(o, parts):
    if o.kind == "volume":
        return parts[0].sites()
    return A.resolve(parts)


class Dir:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="c28_")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def options(f, zs):
    kw = dict(f.kw)
    user = None
    d = kw.get("debye_waller_factors")
    if d == "user":
        user = {ase.data.chemical_symbols[int(z)]: .01 * int(z) + .003 for z in set(zs.tolist())}
        kw["debye_waller_factors"] = dict(user)
    elif d == "user array":
        user = {ase.data.chemical_symbols[int(z)]: .02 * int(z) + .001 for z in set(zs.tolist())}
        kw["debye_waller_factors"] = np.array([user[ase.data.chemical_symbols[int(z)]] for z in zs])
    return kw, user


def compare(ch, f, o, atoms, want, wz, opt, bounds, what, user):
    pos, num = np.array(atoms.positions), np.array(atoms.numbers)
    L = None if bounds is None else bounds[1] - bounds[0]
    ch.check(len(num) == len(pos), f"{what}: elements and positions of the file do not pair up")
    tol = max(f.tol * 2, 1e-6)
    if o.kind == "scene" and f.cell:
        ch.check(np.allclose(np.array(atoms.cell), np.diag(L), atol=max(1e-3 if f.tol > 1e-5 else 1e-4, f.tol)), lambda: f"{what}: cell {np.array(atoms.cell).tolist()} in file instead of {L.tolist()}")
    if f.mod:
        w = np.mod(want, L)
        tree = ref.cKDTree(np.mod(w, L), boxsize=L)
        if len(tree.query_pairs(.05)):
            ch.prune("atoms coincide modulo the cell")
        q = np.mod(np.mod(pos, L), L)
        d, i = tree.query(q)
        ch.check(len(q) == 0 or d.max() < tol * 2, lambda: f"{what}: {int((d > 2 * tol).sum())} atoms of the file are not in the scene, e.g. {pos[int(np.argmax(d))].tolist()}")
        ch.check(np.array_equal(wz[i], num), f"{what}: elements of atoms changed in file")
        cnt = np.bincount(i, minlength=len(w))
        ch.check(np.all((cnt == 1) | (opt & (cnt == 0))), lambda: f"{what}: {int((cnt == 0).sum())} atoms missing from file and {int((cnt > 1).sum())} repeated")
    else:
        r = ref.diff(pos, num, want, wz, tol=tol * 2, optional=opt)
        ch.check(r is None, lambda: f"{what}: file differs: {r}")
    if f.dw:
        dw = atoms.get_array("debye_waller_factors")
        exp = np.array([DW if user is None else user[ase.data.chemical_symbols[z]] for z in num])
        ch.check(np.allclose(dw, exp, atol=2e-4), lambda: f"{what}: Debye-Waller factors {sorted(set(zip(num.tolist(), np.round(dw, 5).tolist())))} in file")
    ch.outcome((f.name, len(pos), np.round(pos.sum(0), 2).tobytes()))


def write_read(ch, f, naming, o, obj, d, k, what, want, wz, opt, bounds):
    base = f"f{k}"
    kw, user = options(f, np.asarray(obj.all_species if o.kind == "scene" else obj.species))
    read = dict(f.rkw)
    if naming == "explicit":
        path = target = os.path.join(d, base + ".out")
        kw["format"] = f.fmt
    elif naming == "path object":
        target = pathlib.Path(d) / (base + ".dat")
        path, kw["format"] = str(target), f.fmt
    elif naming == "extension of another":
        path = target = os.path.join(d, base + (".cif" if f.ext != "cif" else ".xyz"))
        kw["format"] = f.fmt
    elif naming == "by extension":
        path = target = os.path.join(d, base + "." + f.ext)
    elif naming == "compressed":
        path = target = os.path.join(d, base + "." + f.ext + ".gz")
    else:
        target, path, kw["format"] = io.StringIO(), None, f.fmt
    keep = {a: (dict(b) if isinstance(b, dict) else np.array(b) if isinstance(b, (list, np.ndarray)) else b) for a, b in kw.items()}
    before = state(obj, o)
    ch.op()
    obj.to_file(target, **kw)
    ch.check(same(before, state(obj, o)), f"{what}: writing changed the object")
    ch.check(all(np.array_equal(kw[a], keep[a]) if isinstance(keep[a], np.ndarray) else kw[a] == keep[a] for a in keep), f"{what}: options changed")
    if path is None:
        src = io.StringIO(target.getvalue())
        ch.check(len(target.getvalue()) > 0, f"{what}: nothing written")
    else:
        ch.check(os.path.isfile(path), f"{what}: no file {os.path.basename(path)} but {sorted(os.listdir(d))}")
        src = path
    frames = ase.io.read(src, index=":", format=f.fmt, **read)
    ch.check(len(frames) == 1, f"{what}: {len(frames)} images in file")
    compare(ch, f, o, frames[0], want, wz, opt, bounds, what, user)


def state(obj, o):
    if o.kind == "scene":
        return [np.array(obj.bounds)] + [np.array(x) for ob in obj.objects for x in (ob.atoms, ob.species, ob.priority)] + [np.array(obj.all_atoms), np.array(obj.all_species)]
    return [np.array(obj.atoms), np.array(obj.species), np.array(obj.priority)]


def same(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y) for x, y in zip(a, b))


EDITS = ["none", "translate object", "rescale bounds", "add object", "priority"]
NAMINGS = ["explicit", "by extension", "path object", "extension of another", "compressed", "stream"]


def applicable(f, naming, o):
    if naming in ("by extension", "compressed") and (f.ext is None or f.fmt in ("poscar", "aims") or f.ext == "in" or f.ext == "poscar"):
        return False
    if naming == "compressed" and not f.text:
        return False
    if naming == "stream" and f.fmt not in ("prismatic", "xyz", "extxyz", "vasp"):
        return False
    if naming == "compressed" and f.fmt not in ("extxyz", "cif", "vasp"):
        return False
    if f.dw and naming == "by extension":
        return False
    return o.kind == "scene" or not f.needs_cell


def edit(ch, e, o, obj, parts, real, bounds):
    if e == "translate object":
        t = A.translation(np.array([.31, -1.2, .77]))
        real[0].transform(t.make())
        parts = [parts[0].map(t.aff)] + parts[1:]
    elif e == "rescale bounds":
        bounds = bounds * [[1.], [1.1]] + np.array([[-.5, 0, .2], [2.7, .3, 1.9]])
        obj.bounds = bounds.copy()
    elif e == "add object":
        rv = RVol(None, [Surf("sphere", 3.1, [9.2, 4.4, 7.3])], A.Cell("cub").crystal(), 0)
        new = build(rv, [A.Cell("cub").generator()])
        obj.add_object(new)
        parts, real = parts + [rv], real + [new]
    elif e == "priority":
        real[0].priority = 5
        parts[0].priority = 5
    return parts, real, bounds


def body(ch):
    oi = ch.choose("object", range(len(OBJS)))
    o = OBJS[oi]
    f = ch.choose("format", FORMATS)
    naming = ch.choose("named", [n for n in NAMINGS if applicable(f, n, o)] or [None])
    if naming is None:
        ch.prune("format needs a cell")
    es = EDITS if o.kind == "scene" else EDITS[:2]
    depth = 3 if THOROUGH else 2
    hist = ch.choose("edits", [h for n in range(depth + 1) for h in itertools.product(es[1:], repeat=n)] if naming in ("explicit", "by extension") or THOROUGH else [(), es[1:2]])
    same_file = ch.flag("same file again") if hist else False
    o2 = refs()[oi]
    parts, real = [p for p, _ in o2.parts], [build(p, g) for p, g in o2.parts]
    bounds = o.bounds
    if o.kind == "scene":
        obj = Scene(bounds=bounds.copy(), objects=list(real))
    else:
        obj = real[0]
    with Dir() as d:
        for k, e in enumerate(("none",) + tuple(hist)):
            if o.kind != "scene" and e == "translate object":
                t = A.translation(np.array([.31, -1.2, .77]))
                obj.transform(t.make())
                parts = [parts[0].map(t.aff)]
            elif o.kind == "scene":
                parts, real, bounds = edit(ch, e, o, obj, parts, real, bounds)
            obj.populate() if o.kind == "scene" else obj.populate_atoms()
            want, wz, opt = sites(o, parts)
            what = f"{o.name}, {f.name} {naming}, after {hist[:k]}"
            write_read(ch, f, naming, o, obj, d, 0 if same_file else k, what, want, wz, opt, bounds)
    ch.state((o.name, f.name, naming, hist))


def body_append(ch):
    """several objects appended to one file, and formats chosen one after another"""
    f = ch.choose("format", [x for x in FORMATS if x.fmt in ("xyz", "extxyz") and not x.kw])
    seq = ch.choose("objects", list(itertools.permutations(range(len(OBJS)), 2)) + ([] if not THOROUGH else list(itertools.permutations(range(len(OBJS)), 3))))
    made = refs()
    with Dir() as d:
        path = os.path.join(d, "all.out")
        exp = []
        for i in seq:
            o = made[i]
            real = [build(p, g) for p, g in o.parts]
            obj = Scene(bounds=o.bounds.copy(), objects=real) if o.kind == "scene" else real[0]
            obj.populate() if o.kind == "scene" else obj.populate_atoms()
            ch.op()
            obj.to_file(path, format=f.fmt, append=True)
            exp.append((o, *sites(o, [p for p, _ in o.parts])))
        frames = ase.io.read(path, index=":", format=f.fmt)
        ch.check(len(frames) == len(seq), f"{len(frames)} images in a file {len(seq)} objects were appended to")
        for a, (o, w, z, opt) in zip(frames, exp):
            compare(ch, f, o, a, w, z, opt, o.bounds, f"{o.name} appended as {f.fmt}", None)
    ch.state((f.name, seq))


ALL_DW = [F("prismatic", 1e-4, dw=True), F("prismatic", 1e-5, dw="user", kw=dict(debye_waller_factors="user"))]


def body_elements(ch):
    """molecules of every element pair: symbols and factors of each"""
    z = ch.choose("element", range(1, 104))
    others = ch.choose("others", [(), (1,), (z % 103 + 1, 79)])
    f = ch.choose("format", ALL_DW + [x for x in FORMATS if x.fmt in ("xyz", "vasp", "json", "extxyz", "cif") and not x.kw])
    order = ch.choose("order", (1, -1))
    zs = ([z] + [y for y in others if y != z])[::order]
    pos = np.array([[1.2, 2.3, 3.4], [4.4, 1.1, 2.2], [6.1, 5.2, 4.4], [2.7, 6.1, 1.8]])
    zz = (zs + [z])
    rv = pool.RMol(zz, pos[:len(zz)])
    o = Obj("elements", [(rv, [])], [[0, 0, 0], [8.1, 9.2, 7.3]])
    s = Scene(bounds=o.bounds, objects=[build(rv, [])])
    s.populate()
    with Dir() as d:
        write_read(ch, f, "explicit", o, s, d, 0, f"elements {zz} as {f.name}", *rv.sites(), o.bounds)
    ch.state((zz, f.name))


HARNESSES = {
    "formats": dict(body=body, shard=3, bounds=f"{len(OBJS)} objects x {len(FORMATS)} formats with options x namings x histories of up to 2 (thorough 3) edits between writes, to the same or another file"),
    "append": dict(body=body_append, shard=2, bounds="ordered pairs (thorough also triples) of objects appended to one file x 2 formats"),
    "elements": dict(body=body_elements, shard=1, bounds="103 elements x companions x orders x 7 formats"),
}
TECHNIQUE = "explicit-state enumeration of format x option x naming x object x edit history on the real code, files read back against an independent reference model"
LEVEL_NOTE = "every combination within the bounds; formats limited to those whose ASE reader needs only the file"
