"""Observation of the drawing layer: figures as they stand, animations as they are registered, networks as they are drawn."""
import contextlib

import matplotlib
matplotlib.use("Agg")
import matplotlib.animation as animation
import matplotlib.pyplot as plt
import networkx as nx
import networkx.drawing.nx_pylab as nx_pylab
import numpy as np


class Recorder:
    def __init__(self):
        self.animations = []    # FuncAnimation objects with .rec_func, .rec_fig
        self.saves = []
        self.shows = 0
        self.nodes = []         # (G, pos, kwargs)
        self.edges = []
        self.labels = []
        self.figures = []

    def figs(self):
        return [plt.figure(k) for k in plt.get_fignums()]


@contextlib.contextmanager
def watching():
    """hooks on the classes and functions of the drawing libraries themselves, so that it does not matter how they are imported"""
    rec = Recorder()
    plt.close("all")
    old_init, old_save, old_show = animation.FuncAnimation.__init__, animation.Animation.save, plt.show
    old_del = getattr(animation.Animation, "__del__", None)

    def init(self, fig, func, *a, **k):
        rec_blit = k.get("blit")
        if "blit" in k:     # blitting renders frames at once when there is no screen; here the monitors drive the frames
            k["blit"] = False
        old_init(self, fig, func, *a, **k)
        self.rec_blit = rec_blit
        self.rec_func, self.rec_fig, self.rec_kw = func, fig, k
        self._draw_was_started = True       # no warning that it was never rendered
        rec.animations.append(self)

    def save(self, filename, *a, **k):
        rec.saves.append((str(filename), k))

    def show(*a, **k):
        rec.shows += 1

    olds = {}

    def hook(name, store):
        fn = getattr(nx_pylab, name)
        olds[name] = fn

        def wrapper(G, pos, *a, **k):
            store.append((G, dict(pos), a, k))
            return fn(G, pos, *a, **k)
        setattr(nx_pylab, name, wrapper)
        if getattr(nx, name, None) is fn:
            setattr(nx, name, wrapper)
    # networkx.draw of the installed version looks for an attribute that the installed matplotlib no longer has when it makes its
    # axes; the stand-in gives it the axes and lets it draw
    real_draw, real_top = nx_pylab.draw, nx.draw

    def stand_in(G, pos=None, ax=None, **k):
        if ax is None:
            ax = plt.gca()
        ax.set_axis_off()
        k.setdefault("with_labels", "labels" in k)
        nx_pylab.draw_networkx(G, pos=pos, ax=ax, **k)
    try:
        nx_pylab.draw = nx.draw = stand_in
        animation.FuncAnimation.__init__ = init
        animation.Animation.save = save
        plt.show = show
        hook("draw_networkx_nodes", rec.nodes)
        hook("draw_networkx_edges", rec.edges)
        hook("draw_networkx_labels", rec.labels)
        yield rec
    finally:
        nx_pylab.draw, nx.draw = real_draw, real_top
        animation.FuncAnimation.__init__, animation.Animation.save, plt.show = old_init, old_save, old_show
        for name, fn in olds.items():
            w = getattr(nx_pylab, name)
            setattr(nx_pylab, name, fn)
            if getattr(nx, name, None) is w:
                setattr(nx, name, fn)
        plt.close("all")


def frames(ani, limit=None):
    """the frames an animation goes through"""
    out = []
    for f in ani.new_frame_seq():
        out.append(f)
        if limit is not None and len(out) >= limit:
            break
    return out


def lines(ax):
    return [(list(map(float, l.get_xdata())), list(map(float, l.get_ydata()))) for l in ax.lines]


def images(ax):
    return [np.asarray(im.get_array()) for im in ax.get_images()]


def points(ax):
    """offsets of the scatter collections of an axes, in drawing order"""
    return [[tuple(map(float, p)) for p in np.asarray(c.get_offsets())] for c in ax.collections]
