"""All views x scenes and coordinate arrays x viewing angles x edits between views (and slider moves of the widgets): the artists of every
panel are compared with the independently resolved reference atoms, panel projections are computed from the axes' own projection."""
import os
import itertools
import numpy as np
import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from mpl_toolkits.mplot3d import proj3d
from mc import env, ref
from mc import alpha as A, pool
from mc.alpha import RVol, Surf, RMulti
from czone.scene import Scene
from czone import viz

PROPERTY = "C30"
THOROUGH = os.environ.get("VERIF_TIER") == "thorough"
ASSUMPTIONS = ["panels are matplotlib 3D axes told apart by their titles; the artists of a panel, not its pixels, are what is drawn",
               "grouped by element: one group of markers (collection or colour) per element of the scene"]
PANELS = {"XY projection": 2, "XZ projection": 1, "YZ projection": 0}


def artists(ax):
    """groups of drawn positions of one panel"""
    out = []
    for c in ax.collections:
        if not hasattr(c, "_offsets3d") or not c.get_visible():
            continue
        p = np.array([np.ma.getdata(x) for x in c._offsets3d], float).T.reshape(-1, 3)
        m = np.array([np.ma.getmaskarray(np.ma.asarray(x)) for x in c._offsets3d]).T.reshape(-1, 3).any(1)
        p = p[~m]
        fc = np.asarray(getattr(c, "_facecolor3d", c.get_facecolor()))
        if len(fc) == len(p) and len(p) > 1 and len(np.unique(np.round(fc[:, :3], 6), axis=0)) > 1:
            u, k = np.unique(np.round(fc[:, :3], 6), axis=0, return_inverse=True)
            out += [p[np.ravel(k) == i] for i in range(len(u))]
        elif len(p):
            out.append(p)
    for l in ax.lines:
        if hasattr(l, "_verts3d") and l.get_visible() and l.get_marker() not in (None, "None", "", " "):
            out.append(np.array(l._verts3d, float).T)
    return out


def looks_along(ax, k, what, ch):
    """moves along axis k at the centre of view do not move the image; moves along the others do"""
    lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()])
    c, h = lim.mean(1), (lim[:, 1] - lim[:, 0]) * .01
    M = ax.get_proj()
    x0 = np.array(proj3d.proj_transform(*c, M)[:2], float)
    d = np.array([np.array(proj3d.proj_transform(*(c + np.eye(3)[i] * h[i]), M)[:2], float) - x0 for i in range(3)])
    L = np.linalg.norm(d, axis=1)
    o = [i for i in range(3) if i != k]
    ch.check(L[k] < 1e-6 and min(L[o]) > 1e-6, f"{what}: does not look along {'xyz'[k]}: unit moves shift the image by {np.round(L, 8).tolist()}")
    # the image is upright: one of the axes is horizontal, the other vertical
    ch.check(abs(d[o[0], 1]) < 1e-6 * 1 + 1e-3 * L[o[0]] and abs(d[o[1], 0]) < 1e-6 + 1e-3 * L[o[1]], f"{what}: axes {d.tolist()} not upright")


def panels(fig):
    return {ax.get_title(): ax for ax in fig.axes if hasattr(ax, "get_zlim")}


def inspect(ch, fig, want, wz, opt, bounds, azim, elev, what, grouped=True):
    P = panels(fig)
    ch.check(set(PANELS) < set(P) and len(P) == len(PANELS) + 1, lambda: f"{what}: panels {sorted(P)}")
    for t, ax in P.items():
        w = f"{what}, panel {t!r}"
        G = artists(ax)
        got = np.vstack(G) if G else np.empty((0, 3))
        if grouped:
            lab = np.hstack([np.full(len(g), i) for i, g in enumerate(G)]) if G else np.empty(0)
            # every group is of one element and every element is one group
            r = ref.diff(got, np.ones(len(got)), want, np.ones(len(want)), optional=opt)
            ch.check(r is None, lambda: f"{w}: {r}")
            if len(want) and len(got):
                d, i = ref.cKDTree(want).query(got)
                el = wz[i]
                pairs = set(zip(lab.tolist(), el.tolist()))
                ch.check(len(pairs) == len(set(lab.tolist())) == len(set(el.tolist())), lambda: f"{w}: groups and elements do not correspond: {sorted(pairs)}")
        else:
            r = ref.diff(got, np.ones(len(got)), want, np.ones(len(want)), optional=opt)
            ch.check(r is None, lambda: f"{w}: {r}")
        lim = np.array([ax.get_xlim(), ax.get_ylim(), ax.get_zlim()]).T
        if bounds is not None:
            ch.check(np.allclose(lim, bounds), lambda: f"{w}: shows {lim.tolist()} and not the bounds {bounds.tolist()}")
        elif len(want):
            lo, hi = lim.min(0), lim.max(0)
            ch.check(np.all(want >= lo - 1e-9) and np.all(want <= hi + 1e-9), f"{w}: points outside the axes limits {lim.tolist()}")
        if t in PANELS:
            looks_along(ax, PANELS[t], w, ch)
        else:
            ch.check(np.isclose((ax.azim - azim + 180) % 360, 180) and np.isclose(ax.elev, elev), f"{w}: seen from {ax.azim}, {ax.elev} and not {azim}, {elev}")
        ch.outcome((t, len(got), len(G)))


# ------------------------------------------------------------------ scenes
MOLP = np.array([[5.1, 4.3, 8.2], [6.2, 4.9, 8.4], [4.2, 5.6, 7.9], [5.3, 6.3, 8.8], [15.7, -2.2, 3.3], [2.5, 2.5, 2.5]])


def scenes():
    def vol(name, pts=None, surfs=(), pr=0):
        return RVol(pts, surfs, A.Cell(name).crystal(), pr), [A.Cell(name).generator()]
    slab, ball, corner = vol("cscl", A.prism((9.1, 8.3, 5.2), (.7, .9, 1.1)), pr=1), vol("hex", None, [Surf("sphere", 4.2, [5, 5, 6.5])], 0), vol("tri", A.prism((5, 5.1, 5.2), (-2.3, 6.2, 3.1)), pr=2)
    b = [[0, 0, 0], [17.3, 15.9, 14.7]]
    return {
        "one crystal": ([slab], b),
        "overlapping": ([slab, ball, corner], [[-3.1, -1.7, -2.2], [21.3, 19.9, 16.7]]),
        "molecule on crystal": ([(pool.RMol([8, 6, 1, 79, 17, 8], MOLP, 0), []), slab], b),
        "molecule": ([(pool.RMol([8, 8, 1, 79, 1, 6], MOLP, 0), [])], [[-40., -7, 2], [18.5, 130.3, 12.1]]),
        "single atom": ([(pool.RMol([26], MOLP[:1], 0), [])], b),
        "many elements": ([(pool.RMol(np.arange(1, 19), A.prism((1, 1, 1))[:6].repeat(3, 0) * 4 + np.arange(18)[:, None] * .3, 0), [])], b),
        "hidden object": ([slab, vol("cub", None, [Surf("sphere", 2., [5.2, 5, 3.6])], 3)], [[2, 2, 2], [5, 5.5, 6]]),
        "multivolume": ([(RMulti([slab[0], ball[0]], 1), slab[1] + ball[1]), corner], [[-3.1, -1.7, -2.2], [21.3, 19.9, 16.7]]),
    }


VIEWS = {"simple_scene_view": viz.simple_scene_view, "simple_scene_view_with_rotate": viz.simple_scene_view_with_rotate}
ANGLES = [None, (0, 0), (137.5, -42), (-180, 90), (30, 91.5), (720.25, -13)]
EDITS = ["translate object", "rescale bounds", "add object", "drop priority", "clear order"]


def snap(s):
    return [np.array(s.bounds)] + [np.array(x) for ob in s.objects for x in (ob.atoms, ob.species, ob.priority)] + [np.array(s.all_atoms), np.array(s.all_species)], [id(o) for o in s.objects]


def same(a, b):
    return a[1] == b[1] and len(a[0]) == len(b[0]) and all(np.array_equal(x, y) for x, y in zip(a[0], b[0]))


def call(ch, f, data, ang):
    before = set(plt.get_fignums())
    ch.op()
    if ang is None:
        f(data)
    else:
        f(data, azim=ang[0], elev=ang[1])
    new = sorted(set(plt.get_fignums()) - before)
    ch.check(len(new) == 1, f"{len(new)} figures opened by one view")
    return plt.figure(new[0])


def body(ch):
    name = ch.choose("scene", list(scenes()))
    seq = ch.choose("views", list(itertools.product(VIEWS, repeat=1)) + list(itertools.product(VIEWS, repeat=2)))
    ang = ch.choose("angles", ANGLES if len(seq) == 1 else ANGLES[len(name) % 2::2])
    ang2 = ANGLES[(ANGLES.index(ang) + 2) % len(ANGLES)]
    edits = ch.choose("edits", [()] + [(e,) for e in EDITS] + (list(itertools.permutations(EDITS, 2)) if THOROUGH else [])) if len(seq) > 1 else ch.choose("edits", [()])
    draw = len(seq) == 1 and ang in (None, (30, 91.5))
    plt.close("all")
    parts, bounds = scenes()[name]
    rv, real = [p for p, _ in parts], [pool._build(p, list(g), p.priority) for p, g in parts]
    bounds = np.array(bounds, float)
    s = Scene(bounds=bounds.copy(), objects=list(real))
    s.populate()
    for k, v in enumerate(seq):
        if k:
            for e in edits:
                if e == "translate object":
                    t = A.translation(np.array([.31, -1.2, .77]))
                    real[0].transform(t.make())
                    rv[0] = rv[0].map(t.aff)
                elif e == "rescale bounds":
                    bounds = bounds * [[1.], [1.1]] + np.array([[-.5, 0, .2], [2.7, .3, 1.9]])
                    s.bounds = bounds.copy()
                elif e == "add object":
                    r = RVol(None, [Surf("sphere", 3.1, [9.2, 4.4, 7.3])], A.Cell("cub").crystal(), 0)
                    rv, real = rv + [r], real + [pool._build(r, [A.Cell("cub").generator()], 0)]
                    s.add_object(real[-1])
                elif e == "drop priority":
                    real[0].priority = rv[0].priority = 5
                elif e == "clear order":
                    plt.close("all")
            s.populate()
        want, wz, opt = A.resolve(rv)
        keep = snap(s)
        a = ang if k == 0 else ang2
        fig = call(ch, VIEWS[v], s, a)
        ch.check(same(keep, snap(s)), f"{v} changed the scene")
        what = f"{v} of {name} after {edits if k else ()} at {a}"
        inspect(ch, fig, want, wz, opt, bounds, *(a or (-60, 30)), what)
        if draw:
            fig.canvas.draw()
            ch.check(same(keep, snap(s)), f"{v}: drawing changed the scene")
            inspect(ch, fig, want, wz, opt, bounds, *(a or (-60, 30)), what + ", drawn")
    plt.close("all")
    ch.state((name, seq, ang, edits))


# ------------------------------------------------------------------ coordinate arrays
GRID = np.array(list(itertools.product((0., 3.7), (-21.5, 4), (100.25, 101))))


def body_array(ch):
    m = ch.choose("size", range(1, 9) if THOROUGH else (1, 2, 3, 4, 8))
    S = ch.choose("points", list(itertools.combinations(range(8), m)))
    ang = ch.choose("angles", ANGLES if THOROUGH else ANGLES[:3])
    kind = ch.choose("array", ("float", "int", "strided", "extra column"))
    if not THOROUGH and (sum(S) + ANGLES.index(ang)) % 4 != ("float", "int", "strided", "extra column").index(kind) and m not in (1, 8):
        ch.prune("variant of this set covered at another angle")
    plt.close("all")
    data = GRID[list(S)]
    if kind == "int":
        data = data.astype(int)
    elif kind == "strided":
        data = np.vstack([data, data + 5])[::-1][len(data):]
    elif kind == "extra column":
        data = np.c_[data, np.arange(len(data)) * 1000.]
    keep = data.copy()
    want = np.array(data[:, :3], float)
    fig = call(ch, viz.simple_view_with_rotate, data, ang)
    ch.check(np.array_equal(keep, data), "viewing changed the array")
    inspect(ch, fig, want, np.ones(len(want)), np.zeros(len(want), bool), None, *(ang or (-60, 30)), f"{kind} array of {len(S)} points at {ang}", grouped=False)
    plt.close("all")
    ch.state((S, ang, kind))


# ------------------------------------------------------------------ widgets
def body_widget(ch):
    kind = ch.choose("widget", ("scene", "array"))
    name = ch.choose("scene", list(scenes()) if kind == "scene" else ["grid"])
    moves = ch.choose("slider moves", [m for n in range(3 if not THOROUGH else 4) for m in itertools.product((("azim", 45.5), ("elev", -20.), ("azim", -180.), ("elev", 90.)), repeat=n)])
    plt.close("all")
    if not hasattr(viz, "interact"):
        ch.prune("no ipywidgets")
    if kind == "scene":
        parts, bounds = scenes()[name]
        rv, real = [p for p, _ in parts], [pool._build(p, list(g), p.priority) for p, g in parts]
        s = Scene(bounds=np.array(bounds, float), objects=list(real))
        s.populate()
        keep = snap(s)
        want, wz, opt = A.resolve(rv)
        bounds = np.array(bounds, float)
    else:
        s, want, bounds = GRID.copy(), GRID, None
        wz, opt = np.ones(8), np.zeros(8, bool)
    with env.quiet():
        f = (viz.simple_scene_widget if kind == "scene" else viz.simple_view_widget)(s)
    ch.op()
    cur = {"azim": -60., "elev": 30.}
    sliders = {}
    for c in f.widget.children:
        d = str(getattr(c, "description", "")).lower()
        if d.startswith("azim"):
            sliders["azim"] = c
        elif d.startswith("elev"):
            sliders["elev"] = c
    ch.check(len(sliders) == 2, f"sliders {sorted(sliders)}")

    def look(what):
        figs = plt.get_fignums()
        ch.check(len(figs) > 0, f"{what}: nothing shown")
        inspect(ch, plt.figure(figs[-1]), want, wz, opt, bounds, cur["azim"], cur["elev"], what, grouped=kind == "scene")
    look(f"{kind} widget")
    for i, (k, v) in enumerate(moves):
        moved = cur[k] != v
        cur[k] = v
        ch.op()
        with env.quiet():
            sliders[k].value = v
        look(f"{kind} widget after {moves[:i + 1]}")
    if kind == "scene":
        ch.check(same(keep, snap(s)), "widget changed the scene")
    else:
        ch.check(np.array_equal(s, GRID), "widget changed the array")
    plt.close("all")
    ch.state((kind, name, moves))


HARNESSES = {
    "scenes": dict(body=body, shard=3, bounds="8 scenes x single and paired views x 6 (pairs: 3) viewing angles x edits (thorough: ordered pairs of edits) and re-population between views"),
    "arrays": dict(body=body_array, shard=2, bounds="all subsets of size 1-4 and 8 (thorough: all) of an 8 point grid x angles x array layouts"),
    "widgets": dict(body=body_widget, shard=3, bounds="8 scenes and an array x all sequences of up to 2 (thorough 3) slider moves"),
}
TECHNIQUE = "explicit-state enumeration of view x scene x angle x edit history on the real code, figure artists compared with an independent reference model"
LEVEL_NOTE = "every combination within the bounds; panels are read from matplotlib's artists and projection matrices"
