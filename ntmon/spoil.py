"""altering what came out of a call: whatever a caller may do with results that are theirs"""
import networkx as nx
import numpy as np

import netomaton as ntm


def spoil(x, seen=None):
    """alters everything that can be altered of something that came out: what a caller may do with what is theirs"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return 0
    seen.add(id(x))
    n = 0
    try:
        if isinstance(x, dict):
            for k in list(x):
                n += spoil(x[k], seen)
                x[k] = "spoilt"
            x["spoilt"] = "spoilt"
            return n + 1
        if isinstance(x, list):
            for v in x:
                n += spoil(v, seen)
            x.reverse()
            x.append("spoilt")
            x[0] = "spoilt"
            return n + 1
        if isinstance(x, (set, tuple)):
            for v in x:
                n += spoil(v, seen)
            if isinstance(x, set):
                x.clear()
            return n
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                for v in x.ravel():
                    n += spoil(v, seen)
            x.fill(77)
            return n + 1
        if isinstance(x, ntm.Network):
            for node in list(x.nodes):
                for i in list(x.in_edges(node)):
                    x.update_edge(i, node, weight="spoilt")
                x.add_edge(node, "spoilt", weight=5)
                x.add_node(node, spoilt=True)
            for node in list(x.nodes)[:1]:
                x.remove_node(node)
            x.rotation_system = None
            return 1
        if isinstance(x, ntm.State):
            return spoil(x.network, seen) + spoil(x.activities, seen)
        if isinstance(x, nx.Graph):
            for _, d in x.nodes(data=True):
                d["spoilt"] = 1
            for _, _, d in x.edges(data=True):
                d["weight"] = 55
            x.graph["name"] = "spoilt"
            x.clear()
            return 1
        if isinstance(x, (Whole, Many)):
            return sum(spoil(v, seen) for v in x.parts)
    except (ValueError, TypeError):     # not for altering
        pass
    return n


class Whole:
    """a machine seen through its public attributes: everything it hands out"""

    def __init__(self, m):
        self.parts = []
        for k in dir(type(m)):
            if not k.startswith("_") and isinstance(getattr(type(m), k), property):
                self.parts.append(getattr(m, k))
        self.parts += [v for k, v in vars(m).items() if not k.startswith("_")]

    def __repr__(self):
        return "whole of %d" % len(self.parts)


class Many:
    """what was handed over on the way: altered, but not compared"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return "many"


def spoilt_before(case, fn, chance=0.5):
    """fn() -- after the result of an earlier, equal call was altered in every place"""
    if case.rng.random() < chance:
        if spoil(fn()):
            case.event("altered-before")
    return fn()
