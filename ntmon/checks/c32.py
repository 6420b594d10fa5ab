import json
import math
import os
import re
import tempfile
import webbrowser

import matplotlib
import matplotlib.pyplot as plt
import networkx as nx
import numpy as np

import netomaton as ntm

from .. import draw, gen
from ..core import Section

PROP = "C32"
QUICK_SCALE = 2
RULE = ("random evolutions and activity tables (non-square shapes, any slice, odd labels order, negative and real values), networks and "
        "series; the figures, registered animations and drawn graphs themselves are read back; distinct by data and call")
NEED = {"lists": ["rows"], "grids": ["images", "annotations"], "multiple": ["figures"], "animations": ["frames", "wraps"],
        "lines": ["series", "frames"], "networks": ["drawn", "frames"], "phase": ["points"], "tours": ["tours"], "degrees": ["bars"],
        "numbers": ["binarized", "binomials"], "hexes": ["hexes", "frames", "geometry"], "pages": ["pages", "self-loops"]}
ASSUMPTIONS = ["labels of one trajectory can be ordered", "hexagonal grids have an even number of rows for their geometry"]


def value(rng, kind):
    return {"int": lambda: rng.randint(0, 9), "neg": lambda: rng.randint(-50, 50), "float": lambda: rng.uniform(-2, 2),
            "bool": lambda: rng.choice([0, 1])}[kind]()


def trajectory(rng, n, T, kind, compression=False):
    """an evolution whose values are known in advance; labels are not added in order"""
    labs = gen.labels(rng, n, rng.choice(["int", "sparse", "tuple", "str"]))
    rows = [{l: value(rng, kind) for l in labs} for _ in range(T)]
    net = ntm.Network()
    for l in labs:
        net.add_node(l)
        net.add_edge(l, l)
    traj = ntm.evolve(net, initial_conditions=dict(rows[0]), activity_rule=lambda ctx: rows[ctx.timestep][ctx.node_label],
                      timesteps=T, compression=compression)
    return traj, [[r[l] for l in sorted(labs)] for r in rows]


def data(rng, n, T, kind=None):
    """(argument, rows): a trajectory, a list of lists or an array"""
    kind = kind or rng.choice(["int", "neg", "float", "bool"])
    form = rng.choice(["trajectory", "compressed", "list", "array"])
    if form in ("trajectory", "compressed"):
        return trajectory(rng, n, T, kind, form == "compressed")
    rows = [[value(rng, kind) for _ in range(n)] for _ in range(T)]
    return (rows if form == "list" else np.array(rows)), rows


def lists(case):
    rng = case.rng
    n, T = gen.wide(rng, 1, 12), gen.steps(rng, 1, 8)
    traj, rows = trajectory(rng, n, T, rng.choice(["int", "float"]), rng.random() < 0.3)
    got = ntm.get_activities_over_time_as_list(traj)
    case.eq(got, rows, "rows-in-label-and-time-order", "%d nodes, %d timesteps" % (n, T))
    case.event("rows", T)
    case.state(repr(rows))


def one_axes(case, rec):
    figs = rec.figs()
    case.eq(len(figs), 1, "one-figure", "figures")
    return figs[0].axes[0]


def same_array(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool((a == b).all())


def grids(case):
    rng = case.rng
    shape = rng.choice([None, (rng.randint(1, 6), rng.randint(1, 6))])
    long = case.idx % 8 == 7
    if long and case.idx % 24 != 7:
        shape = (rng.randint(1, 4), rng.randint(1, 4))
    n = shape[0] * shape[1] if shape else rng.randint(1, 12)
    T = gen.steps(rng, 1, 8, 60) if not long else rng.randint(110, 300)
    arg, rows = data(rng, n, T)
    kw = {}
    sl = -1
    if shape:
        kw["shape"] = rng.choice([tuple, list])(shape)
        if long or rng.random() < 0.6:
            sl = rng.choice([0, -1, T - 1, -T, rng.randrange(T)]) if not long else rng.choice([T - 2, rng.randrange(T), rng.randrange(T), -rng.randint(1, T)])
            kw["slice"] = sl
        want = np.array(rows[sl]).reshape(shape)
    else:
        want = np.array(rows)
    title = rng.choice([None, "a title", "x"])
    if title is not None:
        kw["title"] = title
    if rng.random() < 0.4:
        kw["colormap"] = rng.choice(["viridis", "Greys", "jet"])
    if rng.random() < 0.4:
        kw["vmin"], kw["vmax"] = rng.choice([(-1, 1), (0, 20), (0, 0.5)])
    ann = None
    if rng.random() < 0.4:
        ann = [[rng.choice([None, "q%d" % (i * 100 + j), 7, 0, 0.0, False, -1.5, (), "", "0"]) for j in range(want.shape[1])] for i in range(want.shape[0])]
        kw["node_annotations"] = ann
    if rng.random() < 0.3:
        kw["show_grid"] = True
    fn = ntm.plot_activities
    if not isinstance(arg[0], ntm.State) and rng.random() < 0.5:
        fn = ntm.plot_grid
    what = "%s of %d nodes %d timesteps %r" % (fn.__name__, n, T, {k: v for k, v in kw.items() if k != "node_annotations"})
    with draw.watching() as rec:
        fn(arg, **kw)
        case.eq(rec.shows, 1, "shown", what)
        ax = one_axes(case, rec)
        ims = ax.get_images()
        case.eq(len(ims), 1, "one-image", what)
        got = np.asarray(ims[0].get_array())
        case.check(same_array(got, want), "image-is-the-data", "%s: %r, expected %r", what, got, want)
        case.eq(ims[0].get_cmap().name, kw.get("colormap", "Greys"), "colormap", what)
        lo, hi = ims[0].get_clim()
        case.eq((lo, hi), (kw.get("vmin", want.min()), kw.get("vmax", want.max())), "colour-range", what)
        case.eq(ax.get_title(), title or "", "title", what)
        case.eq(ims[0].get_interpolation(), "none", "not-smoothed", what)
        case.event("images")
        if ann is not None:
            got = {(round(t.get_position()[1]), round(t.get_position()[0])): t.get_text() for t in ax.texts}
            case.eq(len(ax.texts), want.size, "annotation-per-cell", what)
            exp = {(i, j): ("" if a is None else str(a)) for i, r in enumerate(ann) for j, a in enumerate(r)}
            case.eq({k: ("" if v == "None" else v) for k, v in got.items()}, exp, "annotations-in-place", what)
            case.event("annotations", len(exp))
        else:
            case.eq(len(ax.texts), 0, "no-annotations", what)
        if kw.get("show_grid"):
            case.eq((list(ax.get_xticks()), list(ax.get_yticks())),
                    ([j - 0.5 for j in range(want.shape[1] + 1)], [i - 0.5 for i in range(want.shape[0] + 1)]), "grid-between-cells", what)
    case.raises(lambda: ntm.plot_activities([]), "nothing-refused", "no activities")
    case.state(repr(rows), repr(kw))
    case.sample(what)


def multiple(case):
    rng = case.rng
    m = rng.randint(1, 4)
    shape = rng.choice([None, (rng.randint(1, 5), rng.randint(1, 5))])
    tables = []
    for _ in range(m):
        n, T = (shape[0] * shape[1] if shape else rng.randint(1, 8)), rng.randint(1, 6)
        tables.append([[value(rng, "neg") for _ in range(n)] for _ in range(T)])
    sl = rng.choice([-1, 0])
    kw = {}
    if shape:
        kw = {"shape": shape, "slice": sl} if sl == 0 or rng.random() < 0.5 else {"shape": shape}
    if rng.random() < 0.4:
        kw["colormap"] = rng.choice(["viridis", "Greys", "jet"])
    titles = ["t%d" % i for i in range(m)] if rng.random() < 0.5 else None
    if titles:
        kw["titles"] = titles
    if rng.random() < 0.3:
        kw["vmin"], kw["vmax"] = 0, 5
    with draw.watching() as rec:
        ntm.plot_grid_multiple(tables, **kw)
        case.eq(rec.shows, 1, "shown", "plot_grid_multiple")
        figs = rec.figs()
        case.eq(len(figs), m, "figure-per-evolution", "plot_grid_multiple")
        for i, f in enumerate(figs):
            want = np.array(tables[i][sl]).reshape(shape) if shape else np.array(tables[i])
            ims = [im for ax in f.axes for im in ax.get_images()]
            case.check(len(ims) == 1 and same_array(ims[0].get_array(), want), "image-is-the-data", "figure %d", i)
            case.eq(f.axes[0].get_title(), titles[i] if titles else "", "title", "figure %d" % i)
            case.eq(ims[0].get_clim(), (0, 5) if "vmin" in kw else (want.min(), want.max()), "colour-range", "figure %d" % i)
            case.eq(ims[0].get_cmap().name, kw.get("colormap", "Greys"), "colormap", "figure %d" % i)
            case.eq(ims[0].get_interpolation(), "none", "not-smoothed", "figure %d" % i)
            case.event("figures")
    case.state(repr(tables), repr(kw))


def animations(case):
    rng = case.rng
    mode = rng.choice(["2d", "2d", "1d"]) if case.idx % 30 != 11 else "1d"
    T = gen.steps(rng, 1, 7, 60)
    if mode == "2d":
        shape = (rng.randint(1, 5), rng.randint(1, 5))
        arg, rows = data(rng, shape[0] * shape[1], T)
        want = [np.array(r).reshape(shape) for r in rows]
    else:
        n = rng.randint(1, 8)
        if case.idx % 30 == 11:
            n, T = rng.randint(1, 2), rng.randint(520, 640)
        shape = (n,)
        arg, rows = data(rng, n, T)
        want = [np.array([rows[s] if s <= t else [0] * n for s in range(T)]) for t in range(T)]
    kw = {"shape": shape}
    stamp = rng.random() < 0.5
    if stamp:
        kw["with_timestep"] = True
    if rng.random() < 0.5:
        kw["title"] = "start"
    if rng.random() < 0.3:
        kw["vmin"], kw["vmax"] = -3, 4
    if rng.random() < 0.3:
        kw["show_grid"] = True
    if rng.random() < 0.2:
        kw["show_margin"] = False
        if rng.random() < 0.5:
            kw["scale"] = 0.9
    if rng.random() < 0.4:
        kw["colormap"] = rng.choice(["viridis", "Greys", "jet"])
    blit = rng.choice([None, None, True, False])
    if blit is not None:
        kw["blit"] = blit
    save = rng.random() < 0.2
    if save:
        kw["save"] = True
    what = "animate_activities of %d timesteps %r" % (T, kw)
    with draw.watching() as rec:
        ntm.animate_activities(arg, **kw)
        case.eq((rec.shows, len(rec.animations), len(rec.saves)), (1, 1, int(save)), "animated", what)
        ani = rec.animations[0]
        ax = ani.rec_fig.axes[0]
        ims = ax.get_images()
        case.check(len(ims) == 1 and same_array(ims[0].get_array(), want[0]), "first-frame", "%s: %r", what, want[0])
        case.eq(ax.get_title(), kw.get("title", ""), "title", what)
        if "vmin" in kw:
            case.eq(ims[0].get_clim(), (-3, 4), "colour-range", what)
        case.eq(ims[0].get_cmap().name, kw.get("colormap", "Greys"), "colormap", what)
        high, wide = want[0].shape
        seen = [c for c in ax.collections if np.any(np.asarray(c.get_linewidths()) > 0)]
        if kw.get("show_grid"):
            case.eq((list(ax.get_xticks()), list(ax.get_yticks())),
                    ([j - 0.5 for j in range(wide + 1)], [i - 0.5 for i in range(high + 1)]), "grid-between-cells", what)
            segs = {tuple(sorted(map(tuple, np.asarray(v, dtype=float)))) for c in seen for v in c.get_segments()}
            case.eq(segs, {((j - 0.5, -0.5), (j - 0.5, high - 0.5)) for j in range(wide + 1)} |
                    {((-0.5, i - 0.5), (wide - 0.5, i - 0.5)) for i in range(high + 1)}, "grid-between-cells", what)
        else:
            case.eq(len(seen), 0, "no-grid-unasked", what)
        if not kw.get("show_margin", True):
            size = ani.rec_fig.get_size_inches()
            case.check(np.allclose(size, (wide * kw.get("scale", 0.6), high * kw.get("scale", 0.6))), "no-margin", "%s: %r", what, size)
            at = ani.rec_fig.subplotpars
            case.eq((at.left, at.bottom, at.right, at.top), (0, 0, 1, 1), "no-margin", what)
        case.eq(len(draw.frames(ani, 3 * T + 3)) if ani.rec_kw.get("frames") is not None else ani._save_count, T, "saved-frames", what)
        for k in range(1, 2 * T + 2):
            drawn = ani.rec_func(k - 1)
            t = k % T
            if ani.rec_blit:
                # only what is handed back is redrawn
                case.check(any(v is ims[0] for v in drawn), "frames-redrawn", "%s: %r", what, drawn)
                if stamp:
                    case.check(any(getattr(v, "get_text", str)() == "timestep: %d" % (t + 1) for v in drawn), "frames-redrawn", "%s: %r", what, drawn)
            case.check(same_array(ims[0].get_array(), want[t]), "frames-in-time-order", "%s: update %d shows %r, expected timestep %d: %r",
                       what, k, np.asarray(ims[0].get_array()), t, want[t])
            if stamp:
                case.eq(ax.get_title(), "timestep: %d" % (t + 1), "timestep-shown", "%s update %d" % (what, k))
            case.event("frames")
            if t == 0:
                case.event("wraps")
    if mode == "1d":
        case.raises(lambda: ntm.animate_activities(arg, shape=(shape[0] + 1,)), "shape-refused", what)
    case.raises(lambda: ntm.animate_activities(arg, shape=(1, 1, shape[0])), "shape-refused", what)
    plt.close("all")
    case.raises(lambda: ntm.animate_activities([]), "nothing-refused", what)
    case.state(repr(rows), repr(kw))


def lines(case):
    rng = case.rng
    n = rng.randint(2, 9)
    x = sorted(rng.uniform(-5, 5) for _ in range(n)) if rng.random() < 0.5 else list(range(n))
    m = rng.choice([0, 1, 2, 3, 4, 5, 6, 9])     # 0: a single series not in a list
    ys = [[rng.uniform(-3, 3) for _ in range(n)] for _ in range(max(m, 1))]
    if rng.random() < 0.3:
        ys = [np.array(y) for y in ys]
    y = ys if m else ys[0]
    kw = {}
    twin = m >= 2 and rng.random() < 0.5
    if twin:
        kw["twinx"] = True
    if rng.random() < 0.6:
        kw["color"] = rng.choice(["r", rng.choice([list, tuple])("rgbkcmyrg")[:max(m, 1)]])
    if rng.random() < 0.6:
        kw["label"] = rng.choice(["one", rng.choice([list, tuple])("abcdefghi")[:max(m, 1)]])
        if rng.random() < 0.5:
            kw["legend"] = rng.choice([{"title": "L0"}, [{"title": "L0"}, {"title": "L1"}]])
    if rng.random() < 0.5:
        kw["xlabel"] = "the x"
    if rng.random() < 0.5:
        kw["ylabel"] = rng.choice(["the y", ["y0", "y1"]])
    if rng.random() < 0.5:
        kw["xlim"] = (-1, 4)
    if rng.random() < 0.3:
        kw["ylim"] = rng.choice([[(-2, 2), (-4, 4)], (-3, 2)])
    if rng.random() < 0.5:
        kw["title"] = "T"
    if rng.random() < 0.2:
        kw["tight_layout"] = {"rect": (0.2, 0.1, 0.9, 0.8)}
    what = "plot1D of %d series %r" % (m, kw)
    with draw.watching() as rec:
        ntm.plot1D(x, y, **kw)
        case.eq(rec.shows, 1, "shown", what)
        axs = rec.figs()[0].axes
        case.eq(len(axs), 2 if twin else 1, "axes", what)
        got = [None] * len(ys)
        for a, ax in enumerate(axs):
            for k, l in enumerate(ax.lines):
                i = a + 2 * k if twin else k
                case.check(i < len(ys), "number-of-series", "%s: too many", what)
                got[i] = l
        case.check(all(g is not None for g in got), "number-of-series", "%s: %r", what, got)
        for i, l in enumerate(got):
            case.check(list(l.get_xdata()) == list(x) and list(l.get_ydata()) == list(ys[i]), "series-is-the-data", "%s: series %d", what, i)
            if "color" in kw:
                c = kw["color"] if isinstance(kw["color"], str) else kw["color"][i]
                case.eq(l.get_color(), c, "series-colour", "%s: series %d" % (what, i))
            if "label" in kw:
                c = kw["label"] if isinstance(kw["label"], str) else kw["label"][i]
                case.eq(l.get_label(), c, "series-label", "%s: series %d" % (what, i))
            case.event("series")
        def one(v, a):      # the entry for an axis: given once, or a list with the one of each axis
            return v[a] if isinstance(v, list) else v
        for a, ax in enumerate(axs):
            if "xlim" in kw:
                case.eq(ax.get_xlim(), (-1.0, 4.0), "limits", what)
            if "xlabel" in kw:
                case.eq(axs[0].get_xlabel(), "the x", "x-label", what)
            if twin or len(ys) == 1 or not isinstance(kw.get("ylabel"), list):
                case.eq(ax.get_ylabel(), one(kw.get("ylabel", ""), a), "y-label", what)
            if "ylabel" in kw and isinstance(kw.get("color"), str):
                case.eq(ax.yaxis.label.get_color(), kw["color"], "y-label-colour", what)
            if "ylim" in kw and (twin or len(ys) == 1 or not isinstance(kw["ylim"], list)):
                case.eq(ax.get_ylim(), tuple(map(float, one(kw["ylim"], a))), "limits", what)
            if "legend" in kw:
                leg = ax.get_legend()
                case.check(leg is not None, "legend", "%s", what)
                case.eq([t.get_text() for t in leg.get_texts()], [l.get_label() for l in ax.lines], "legend", what)
                if twin or len(ys) == 1 or not isinstance(kw["legend"], list):
                    case.eq(leg.get_title().get_text(), one(kw["legend"], a)["title"], "legend", what)
            else:
                case.check(ax.get_legend() is None, "legend", "%s", what)
        if "tight_layout" in kw:
            at = axs[0].get_position()
            case.check(at.x0 > 0.2 and at.y0 > 0.1 and at.x1 < 0.9 + 1e-9 and at.y1 < 0.8 + 1e-9, "tight-layout", "%s: %r", what, at)
        if "title" in kw:
            case.check("T" in [ax.get_title() for ax in axs], "title", "%s", what)
    case.raises(lambda: ntm.plot1D(x, [ys[0]], twinx=True), "twin-needs-two", "one series")
    plt.close("all")
    # an animated line
    T = gen.steps(rng, 1, 5, 40)
    arg, rows = data(rng, n, T, "float")
    with draw.watching() as rec:
        ntm.animate_plot1D(x, arg, save=rng.random() < 0.2)
        case.eq((rec.shows, len(rec.animations)), (1, 1), "animated", "animate_plot1D")
        ani = rec.animations[0]
        ln = ani.rec_fig.axes[0].lines
        case.eq(len(ln), 1, "one-line", "animate_plot1D")
        case.check(list(ln[0].get_ydata()) == list(rows[0]), "first-frame", "animate_plot1D")
        fr = draw.frames(ani, 3 * T)
        case.eq(len(fr), T, "frames", "animate_plot1D")
        for t, f in enumerate(fr):
            drawn = ani.rec_func(f)
            if ani.rec_blit:
                case.check(any(v is ln[0] for v in drawn), "frames-redrawn", "animate_plot1D: %r", drawn)
            case.check(list(ln[0].get_xdata()) == list(x) and list(ln[0].get_ydata()) == list(rows[t]), "frames-in-time-order",
                       "animate_plot1D frame %d", t)
            case.event("frames")
    case.state(repr(x), repr([list(v) for v in ys]), repr(kw))


def edge_counts(edges):
    c = {}
    for e in edges:
        c[(e[0], e[1])] = c.get((e[0], e[1]), 0) + 1
    return c


def judge_drawn(case, rec, k, nodes, edges, pos, color, what, size, layout):
    case.eq(len(rec.nodes), k + 1, "drawn-once", what)
    G, p, a, kw = rec.nodes[k]
    case.eq(set(G.nodes), set(nodes), "nodes-drawn", what)
    case.eq(edge_counts(G.edges), edge_counts(edges), "edges-drawn", what)
    case.check(G.is_directed(), "directed", what)
    case.check(set(nodes) <= set(p), "every-node-placed", "%s: %r", what, p)
    if pos is not None:
        case.eq({v: tuple(p[v]) for v in nodes}, {v: tuple(pos[v]) for v in nodes}, "given-layout", what)
    if color is not None:
        got = kw.get("node_color", a[2] if len(a) > 2 else None)
        case.eq(got, color, "given-colour", what)
    case.eq(kw.get("node_size"), size, "given-size", what)
    at = {v: tuple(map(float, p[v])) for v in nodes}
    if layout == "shell" and len(nodes) > 1:
        radii = [math.hypot(*v) for v in at.values()]
        case.check(max(radii) - min(radii) < 1e-6 and min(radii) > 1e-6, "shell-layout", "%s: %r", what, at)
        apart = sorted(math.atan2(y, x) for x, y in at.values())
        gaps = [b - a for a, b in zip(apart, apart[1:])]
        case.check(not gaps or max(gaps) - min(gaps) < 1e-5, "shell-layout", "%s: %r", what, at)
    elif layout in ("kamada-kawai", "planar") and nodes:
        want = (nx.kamada_kawai_layout if layout == "kamada-kawai" else nx.planar_layout)(G)
        case.check(all(np.allclose(want[v], at[v], atol=1e-6) for v in nodes), "%s-layout" % layout, "%s: %r, expected %r", what, at, want)
    case.event("drawn")


def networks(case):
    rng = case.rng
    net, ref, labs = gen.network(rng, 6, kind=rng.choice(["int", "str", "sparse"]))
    pos = {l: (rng.random(), rng.random()) for l in labs}
    layout = rng.choice(["shell", "spring", pos])
    nodes, edges = list(ref.nodes), [(e[0], e[1]) for e in ref.edges]
    labels = rng.random() < 0.5
    with draw.watching() as rec:
        ntm.plot_network(net, layout=layout, with_labels=labels, node_color="#ff0000", node_size=55)
        case.eq(rec.shows, 1, "shown", "plot_network")
        judge_drawn(case, rec, 0, nodes, edges, pos if layout is pos else None, "#ff0000", "plot_network %r" % (layout,), 55, layout)
        case.eq(len(rec.labels), int(labels), "labels-when-asked", "plot_network")
    case.raises(lambda: ntm.plot_network(net, layout="unheard of"), "layout-refused", "plot_network")
    plt.close("all")
    # animation over an evolution of the topology
    T = gen.steps(rng, 1, 5, 40)
    nets = [gen.network(rng, 5, kind="int") for _ in range(T)]
    traj = [ntm.State(activities={0: 1}, network=v[0], compression=rng.random() < 0.3) for v in nets]
    # frames are shown in order; per-frame layouts and colours follow the frame
    pos = [{l: (rng.random(), rng.random()) for l in v[2]} for v in nets]
    whole = {l: (rng.random(), rng.random()) for l in range(max([10] + [len(v[2]) for v in nets]))}
    layout = rng.choice(["shell", "spring", "kamada-kawai", "planar", whole, pos, tuple(pos)])
    if layout == "planar" and not all(nx.check_planarity(nx.Graph([e[:2] for e in v[1].edges]))[0] for v in nets):
        layout = "shell"
    arrows = rng.random() < 0.7
    size = rng.choice([None, 44])
    more = {} if size is None else {"node_size": size}
    color = rng.choice(["b", {i: rng.choice(["r", "g", "y"]) for i in range(T)}])
    stamp = rng.random() < 0.5
    show = rng.random() < 0.8
    with draw.watching() as rec:
        ani = ntm.animate_network(traj, layout=layout, node_color=color, with_timestep=stamp, show=show, with_labels=labels,
                                  save=rng.random() < 0.2, with_arrows=arrows, **more)
        case.eq((rec.shows, len(rec.animations)), (int(show), 1), "animated", "animate_network")
        case.check(ani is rec.animations[0], "animation-returned", "animate_network")
        fr = draw.frames(ani, 3 * T)
        case.eq(len(fr), T, "frames", "animate_network")
        for t, f in enumerate(fr):
            ani.rec_func(f)
            ref = nets[t][1]
            p = pos[t] if isinstance(layout, (list, tuple)) else layout if layout is whole else None
            c = color[t] if isinstance(color, dict) else color
            judge_drawn(case, rec, t, list(ref.nodes), [(e[0], e[1]) for e in ref.edges], p, c, "animate_network frame %d" % t,
                        size or 30, layout)
            case.eq(len(rec.labels), (t + 1) * labels, "labels-when-asked", "animate_network frame %d" % t)
            case.check(all(v[3].get("arrows") is arrows for v in rec.edges[-1:]), "arrows-when-asked", "animate_network frame %d", t)
            if stamp:
                case.eq(ani.rec_fig.axes[0].get_title(), "timestep: %d" % (t + 1), "timestep-shown", "frame %d" % t)
            case.event("frames")
    case.state(repr(edges), repr(layout)[:200], T)


def tours(case):
    """the tour of a travelling salesman: its points in their places, and the closed tour between them"""
    rng = case.rng
    m = rng.randint(3, 9)
    pts = [(rng.uniform(-3, 3), rng.uniform(-3, 3)) for _ in range(m)]
    net = ntm.HopfieldTankTSPNet(list(pts))
    perm = list(range(m))
    rng.shuffle(perm)
    mat = [[float(perm[k] == i) for k in range(m)] for i in range(m)]
    G, pos, _ = net.get_tour_graph(pts, mat)
    what = "plot_tour of %r through %r" % (perm, pts)
    with draw.watching() as rec:
        net.plot_tour(G, pos)
        case.eq((rec.shows, len(rec.nodes)), (1, 1), "shown", what)
        D, p, _, _ = rec.nodes[0]
        case.eq(set(D.nodes), set(range(m)), "nodes-drawn", what)
        case.eq({k: tuple(map(float, p[k])) for k in range(m)}, dict(enumerate(pts)), "given-layout", what)
        drawn = {frozenset(e[:2]) for E in rec.edges for e in (E[0].edges if E[3].get("edgelist") is None else E[3]["edgelist"])}
        case.eq(drawn, {frozenset((perm[k], perm[(k + 1) % m])) for k in range(m)}, "edges-drawn", what)
        ax = rec.figs()[0].axes[0]
        case.check(any(sorted(c) == sorted(pts) for c in draw.points(ax)), "given-layout", "%s: %r", what, draw.points(ax))
    case.event("tours")
    case.state(pts, perm)


def phase(case):
    rng = case.rng
    m = rng.choice([0, 1, 3])
    n = rng.randint(3, 30) if case.idx % 12 else rng.randint(1050, 2500)
    series = [[rng.choice([rng.random(), 0.25, 0.5]) for _ in range(n)] for _ in range(max(1, m))]
    if rng.random() < 0.3:
        series = [np.array(s) for s in series]
    k = rng.choice([2, n, rng.randint(2, n), n]) if n < 1000 else n - rng.randint(1, 40)
    kw = {}
    if rng.random() < 0.5:
        kw = {"xlabel": "a", "ylabel": "b", "xlim": (0, 2), "ylim": (-1, 3), "title": "P"}
    with draw.watching() as rec:
        ntm.poincare_plot(series if m else series[0], k, **kw)
        case.eq(rec.shows, 1, "shown", "poincare_plot")
        ax = one_axes(case, rec)
        got = draw.points(ax)
        want = []
        for s in series:
            tail = list(s)[-k:]
            want.append([(float(tail[i]), float(tail[i + 1])) for i in range(len(tail) - 1)])
        case.eq([sorted(g) for g in got], [sorted(w) for w in want], "successive-pairs", "poincare_plot of the last %d of %d" % (k, n))
        hues = [tuple(c.get_facecolor()[0]) for c in ax.collections]
        case.eq(len(set(hues)), len(want), "series-told-apart", "poincare_plot: colours %r" % (hues,))
        case.event("points", sum(map(len, want)))
        if kw:
            case.eq((ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim(), ax.get_title()),
                    ("a", "b", (0.0, 2.0), (-1.0, 3.0), "P"), "decorations", "poincare_plot")
    xs = [rng.uniform(0, 4) for _ in range(rng.randint(1, 6))]
    trs = [[rng.choice([rng.random(), 0.1, 0.2]) for _ in range(n)] for _ in xs]
    k = rng.randint(1, n)
    with draw.watching() as rec:
        ntm.bifurcation_plot(xs, trs, timesteps=k, **({"xlabel": "r", "ylabel": "x", "title": "B"} if kw else {}))
        case.eq(rec.shows, 1, "shown", "bifurcation_plot")
        ax = one_axes(case, rec)
        got = sorted(set(p for c in draw.points(ax) for p in c))
        want = sorted(set((float(x), float(v)) for x, t in zip(xs, trs) for v in t[-k:]))
        case.eq(got, want, "values-of-the-last-timesteps", "bifurcation_plot of the last %d of %d" % (k, n))
        case.event("points", len(want))
        if kw:
            case.eq((ax.get_xlabel(), ax.get_ylabel(), ax.get_title()), ("r", "x", "B"), "decorations", "bifurcation_plot")
    case.state(repr([list(s) for s in series]), k)


def degrees(case):
    rng = case.rng
    net, ref, labs = gen.network(rng, 12)
    mode = rng.choice(["", "in_degree", "out_degree"])
    if case.idx % 50 == 7:      # a hub
        a, b = (labs[0], labs[-1]) if rng.random() < 0.5 else (labs[-1], labs[0])
        for k in range(rng.randint(1001, 1300)):
            net.add_edge(a, b)
            ref.add_edge(a, b)
    deg = {"": lambda v: ref.in_degree(v) + ref.out_degree(v), "in_degree": ref.in_degree, "out_degree": ref.out_degree}[mode]
    ds = [deg(v) for v in ref.nodes]
    kw = {mode: True} if mode else {}
    eq = rng.random() < 0.5
    if eq:
        kw["equation"] = lambda d: 1 / (d * d)
        kw["equation_text"] = "law"
    if rng.random() < 0.5:
        kw["title"] = "D"
    what = "plot_degree_distribution %s of degrees %r" % (mode, ds)
    with draw.watching() as rec:
        ntm.plot_degree_distribution(net, **kw)
        case.eq(rec.shows, 1, "shown", what)
        axs = rec.figs()[0].axes
        bars = {round(p.get_x() + p.get_width() / 2): p.get_height() for p in axs[0].patches}
        want = {d: ds.count(d) for d in range(1, max(ds) + 1)}
        case.eq(bars, want, "degree-counts", what)
        case.eq((axs[0].get_xlabel(), axs[0].get_ylabel()), ("Node degree", "Frequency"), "labels", what)
        case.event("bars", len(bars))
        if eq:
            case.eq(draw.lines(axs[1]), [([float(d) for d in want], [1 / (d * d) for d in want])], "equation-plotted", what)
            case.eq([t.get_text() for t in axs[1].texts], ["law"], "equation-text", what)
            case.eq(axs[1].get_ylabel(), "Probability", "labels", what)
        if "title" in kw:
            case.check("D" in [a.get_title() for a in axs], "title", "%s", what)
    case.state(repr(sorted(ds)), mode)


def numbers(case):
    rng = case.rng
    xs = [rng.choice([0, 1, rng.randint(0, 40), rng.randint(0, 2 ** 40), rng.getrandbits(rng.choice([53, 60, 64, 90]))])
          for _ in range(rng.randint(1, 12))]
    arg = [[rng.choice([v, v, float(v) if v < 2 ** 40 else v])] for v in xs]
    got = ntm.binarize_for_plotting(arg)
    w = max(max(v.bit_length(), 1) for v in xs)
    want = [[(v >> (w - 1 - i)) & 1 for i in range(w)] for v in xs]
    case.eq(np.asarray(got).tolist(), want, "binary-digits", "binarize_for_plotting(%r)" % (arg,))
    case.event("binarized", len(xs))
    for _ in range(10):
        n = rng.choice([0, 1, rng.randint(0, 30), rng.randint(0, 300)])
        r = rng.choice([0, n, n + 1, rng.randint(0, n + 2)])
        case.eq(ntm.ncr(n, r), math.comb(n, r), "binomial", "ncr(%d, %d)" % (n, r))
        case.check(type(ntm.ncr(n, r)) is int, "binomial", "ncr(%d, %d) is not an int", n, r)
        case.event("binomials")
    for bad in ((-1, 0), (3, -1), (2.5, 1), (3, 1.0), ("3", 1), (None, 1)):
        case.raises(lambda: ntm.ncr(*bad), "binomial-refused", "ncr%r" % (bad,))
    case.state(repr(xs))


def tiling(case, p, kw, what):
    """the hexagon about a centre fills its share of the grid: pointed at the top, touching its neighbours"""
    v = p.get_patch_transform().transform(p.get_path().vertices)[:6] - np.asarray(p.xy)
    case.check(len(v) == 6 and np.allclose(sorted(np.hypot(v[:, 0], v[:, 1])), 1) and abs(v[:, 1].max() - 1) < 1e-9
               and abs(v[:, 0].max() - math.sqrt(3) / 2) < 1e-9, "hexes-tile", "%s: %r", what, v)
    if "edgecolor" in kw:
        case.eq(tuple(p.get_edgecolor()), matplotlib.colors.to_rgba(kw["edgecolor"]), "edge-colour", what)


def hexes(case):
    rng = case.rng
    rows, cols = rng.choice([2, 4, 6, 3, 5]), rng.randint(1, 6)
    T = rng.randint(1, 4)
    late = case.idx % 20 == 17
    if late:
        rows, cols, T = 2, 2, rng.randint(110, 300)
    traj, table = trajectory(rng, rows * cols, T, rng.choice(["int", "float", "neg"]))
    kw = {}
    sl = -1
    if rng.random() < 0.5:
        sl = rng.choice([0, -1, T - 1]) if not late else rng.randrange(-T, T)
        kw["slice"] = sl
    if rng.random() < 0.4:
        kw["vmin"], kw["vmax"] = rng.choice([(-60, 60), (0, 60), (-60, 0), (0.5, 7)])
    if rng.random() < 0.5:
        kw["title"] = "H"
    if rng.random() < 0.5:
        kw["colormap"] = "viridis"
    if rng.random() < 0.3:
        kw["edgecolor"] = rng.choice(["red", "black"])
    what = "hexes of %dx%d %r" % (rows, cols, kw)
    grid = np.array(table[sl]).reshape((rows, cols))
    with draw.watching() as rec:
        ntm.plot_hex_grid(traj, shape=(rows, cols), **kw)
        case.eq(rec.shows, 1, "shown", what)
        ax = one_axes(case, rec)
        case.eq(len(ax.patches), rows * cols, "hex-per-cell", what)
        lo, hi = kw.get("vmin", grid.min()), kw.get("vmax", grid.max())
        sm = matplotlib.cm.ScalarMappable(norm=matplotlib.colors.Normalize(vmin=lo, vmax=hi), cmap=plt.get_cmap(kw.get("colormap", "Greys")))
        at = {}
        for p in ax.patches:
            x, y = p.xy
            r = round(y / 1.5)
            at.setdefault(r, []).append((float(x), tuple(map(float, p.get_facecolor()))))
        case.eq(sorted(at), list(range(rows)), "hex-rows", what)
        xs = {}
        for r in range(rows):
            line = sorted(at[r])
            case.eq(len(line), cols, "hexes-in-row", what)
            for c, (x, fc) in enumerate(line):
                want = tuple(map(float, sm.to_rgba(grid[r][c])))
                case.check(np.allclose(fc, want, atol=1e-9), "hex-colour", "%s: cell (%d, %d) of %r is %r, expected %r", what, r, c, grid.tolist(), fc, want)
                xs[(r, c)] = x
            case.check(all(abs(b[0] - a[0] - math.sqrt(3)) < 1e-9 for a, b in zip(line, line[1:])), "hex-spacing", "%s: row %d %r", what, r, line)
        for r in range(1, rows):
            case.check(abs(abs(xs[(r, 0)] - xs[(r - 1, 0)]) - math.sqrt(3) / 2) < 1e-9, "rows-staggered", "%s: row %d", what, r)
        case.check(ax.yaxis_inverted(), "first-row-on-top", "%s", what)
        case.eq(ax.get_title(), kw.get("title", ""), "title", what)
        for p in ax.patches:
            tiling(case, p, kw, what)
        case.event("hexes", rows * cols)
        if rows % 2 == 0 and rows >= 4 and cols >= 3:
            # cells next to each other in the hexagonal topology are next to each other in the drawing, away from the borders
            net = ntm.topology.cellular_automaton2d(rows, cols, r=1, neighbourhood="Hex")
            for r in range(1, rows - 1):
                for c in range(1, cols - 1):
                    near = set()
                    for rr in range(rows):
                        for cc in range(cols):
                            if math.hypot(xs[(r, c)] - xs[(rr, cc)], 1.5 * (r - rr)) < math.sqrt(3) + 1e-6:
                                near.add(rr * cols + cc)
                    case.eq(set(net.in_edges(r * cols + c)), near, "drawn-neighbours-are-neighbours", "%s: cell (%d, %d)" % (what, r, c))
                    case.event("geometry")
    with draw.watching() as rec:
        kw.pop("slice", None)
        ntm.animate_hex(traj, shape=(rows, cols), save=rng.random() < 0.2, **kw)
        case.eq((rec.shows, len(rec.animations)), (1, 1), "animated", what)
        ani = rec.animations[0]
        ax = ani.rec_fig.axes[0]
        coll = [c for c in ax.collections if len(c.get_paths()) == rows * cols]
        case.check(len(coll) >= 1, "hex-per-cell", "%s: %r", what, ax.collections)
        case.eq(ani._save_count, T, "saved-frames", what)
        for c in coll:
            if "edgecolor" in kw:
                case.check(all(tuple(v) == matplotlib.colors.to_rgba(kw["edgecolor"]) for v in c.get_edgecolor()), "edge-colour", "%s", what)
        mids = [[tuple(np.round(w.vertices[:6].mean(axis=0), 9)) for w in c.get_paths()] for c in coll]
        case.check(any(set(m) == {(round(xs[k], 9), round(1.5 * k[0], 9)) for k in xs} for m in mids), "hexes-in-place", "%s: %r", what, mids)
        for k in range(1, 2 * T + 1 if not late else T + 3):
            drawn = ani.rec_func(k - 1)
            if ani.rec_blit:
                case.check(any(c is v for v in drawn for c in coll), "frames-redrawn", "%s: %r", what, drawn)
            want = [float(v) for v in table[k % T]]
            case.check(any(c.get_array() is not None and list(map(float, c.get_array())) == want for c in coll), "frames-in-time-order",
                       "%s: update %d", what, k)
            for c in coll:
                if c.get_array() is not None:
                    case.eq(c.get_cmap().name, kw.get("colormap", "Greys"), "colormap", what)
                    if "vmin" in kw:
                        case.eq(c.get_clim(), (kw["vmin"], kw["vmax"]), "colour-range", what)
            case.event("frames")
        case.check(ax.yaxis_inverted(), "first-row-on-top", "%s", what)
        case.eq(ax.get_title(), kw.get("title", ""), "title", what)
    case.state(repr(table), repr(kw))


def parse(js):
    """list of objects of a JavaScript literal with unquoted keys"""
    return json.loads(re.sub(r'("(?:[^"\\]|\\.)*")|(\w+):', lambda m: m.group(1) or '"%s":' % m.group(2), js))


def pages(case):
    rng = case.rng
    labs = rng.sample(range(40), rng.randint(1, 6))
    if rng.random() < 0.3:
        labs = rng.choice([["n%d" % i for i in labs], ['"%d" \\ {x: %d}' % (i, i) for i in labs], [str(i) for i in labs], ["é %d'" % i for i in labs]])
        case.event("string-labels")
    elif rng.random() < 0.3:
        labs = rng.choice([[(i, i % 3) for i in labs], [-i for i in labs], [i + 0.5 for i in labs], [frozenset([i]) for i in labs],
                           [True, False, None][:len(labs)]])
        case.event("odd-labels")
    config = [tuple(rng.choice(labs) for _ in range(rng.choice([1, 2, 3, 4, rng.randint(5, 12)]))) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.4:
        config += [(labs[0], labs[0])] * rng.randint(1, 3)
    G = ntm.vis.vis_utils.configuration_to_nx(config) if hasattr(ntm.vis, "vis_utils") else ntm.vis.configuration_to_nx(config)
    want = edge_counts([(a, b) for rel in config for a, b in zip(rel, rel[1:])])
    case.eq(set(G.nodes), {v for rel in config for v in rel}, "configuration-nodes", "%r" % config)
    case.eq(edge_counts(G.edges), want, "configuration-edges", "%r" % config)
    html = ntm.vis.get_html(G)
    m1 = re.search(r"nodes\s*=\s*new vis\.DataSet\((\[.*?\])\);", html, re.S)
    m2 = re.search(r"edges\s*=\s*new vis\.DataSet\((\[.*?\])\);", html, re.S)
    case.check(m1 and m2, "page-has-data", "%r", html[:200])
    nodes, edges = parse(m1.group(1)), parse(m2.group(1))
    # labels that are neither numbers nor strings are shown as text
    shown = lambda v: v if type(v) in (int, float, str) else str(v)
    case.eq(sorted((n["id"] for n in nodes), key=repr), sorted(map(shown, G.nodes), key=repr), "page-nodes", "%r" % config)
    case.check(all(n["id"] == n["label"] for n in nodes), "page-labels", "%r", nodes)
    case.eq(edge_counts([(e["from"], e["to"]) for e in edges]), edge_counts([(shown(a), shown(b)) for rel in config for a, b in zip(rel, rel[1:])]),
            "page-edges", "%r" % config)
    case.check(all(e["arrows"] == "to" for e in edges), "page-arrows", "%r", edges)
    loops = {}
    for e in edges:
        if e["from"] == e["to"]:
            loops.setdefault(e["from"], []).append(e["selfReferenceSize"])
            case.event("self-loops")
        else:
            case.check("selfReferenceSize" not in e, "page-loops", "%r", e)
    for v, sizes in loops.items():
        case.eq(len(set(sizes)), len(sizes), "page-loops-apart", "self-loops of %r: %r" % (v, sizes))
    case.event("pages")
    # the file that is shown
    opened = []
    old = webbrowser.open
    webbrowser.open = lambda *a, **k: opened.append(a)
    try:
        with tempfile.TemporaryDirectory(dir=os.environ.get("NTMON_SCRATCH")) as d:
            name = os.path.join(d, "page.html")
            nb = rng.random() < 0.5
            ntm.vis.show_network(G, name=name, is_notebook=nb)
            with open(name) as f:
                case.eq(f.read(), html, "page-written", "show_network")
            case.eq(len(opened), 0 if nb else 1, "page-opened", "show_network(is_notebook=%r)" % nb)
            if not nb:
                case.check(os.path.realpath(name) in opened[0][0], "page-opened", "%r", opened)
    finally:
        webbrowser.open = old
    a, b = rng.randint(1, 7), rng.randint(1, 7)
    pos = ntm.vis.lattice_pos(a, b)
    case.eq(pos, {i * b + j: (i, j) for i in range(a) for j in range(b)}, "lattice-positions", "lattice_pos(%d, %d)" % (a, b))
    # nodes that are neighbours in the lattice are next to each other
    lat = ntm.topology.lattice(dim=(1, b, a)) if a > 1 and b > 1 else None
    if lat is not None:
        for i, j, _ in lat.edges:
            (x, y), (u, v) = pos[i], pos[j]
            case.eq(abs(x - u) + abs(y - v), 1, "lattice-neighbours-adjacent", "%d, %d of %dx%d" % (i, j, a, b))
    case.state(repr(config))


SECTIONS = [Section("lists", lists, 150, 3000), Section("grids", grids, 100, 1000), Section("multiple", multiple, 24, 200),
            Section("animations", animations, 60, 600), Section("lines", lines, 40, 400), Section("networks", networks, 40, 300),
            Section("tours", tours, 16, 200), Section("phase", phase, 40, 400), Section("degrees", degrees, 50, 500), Section("numbers", numbers, 200, 4000),
            Section("hexes", hexes, 32, 300), Section("pages", pages, 150, 2000)]
