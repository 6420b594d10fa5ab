"""Reference models and boundary observations. Everything here reads netomaton objects through their public API only."""
import copy
import zlib

import numpy as np

RESERVED = ("in", "out", "incoming", "outgoing")


def norm(v):
    """what the library documents itself to store for a numeric-library scalar"""
    return v.item() if isinstance(v, np.generic) else v


def h(*parts):
    """a deterministic 32 bit hash of what a rule saw"""
    return zlib.crc32(repr(parts).encode())


def same(a, b):
    """equal values of equal types, recursively (NaN equal to NaN)"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a.keys(), b.keys())) and \
            all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return a == b


class RefNet:
    """A plain multigraph: ordered node table and a list of edges. Independent of netomaton's own bookkeeping."""
    def __init__(self):
        self.nodes = {}      # label -> attrs
        self.edges = []      # [i, j, attrs] in order of insertion

    def add_node(self, n, **attr):
        self.nodes.setdefault(n, {}).update(attr)

    def add_edge(self, i, j, **attr):
        self.nodes.setdefault(i, {})
        self.nodes.setdefault(j, {})
        self.edges.append([i, j, dict(attr)])

    def add_edge_bidir(self, i, j, **attr):
        self.add_edge(i, j, **attr)
        self.add_edge(j, i, **attr)

    def remove_edge(self, i, j):
        self.edges = [e for e in self.edges if not (e[0] == i and e[1] == j)]

    def remove_node(self, n):
        self.edges = [e for e in self.edges if e[0] != n and e[1] != n]
        del self.nodes[n]

    def update_edge(self, i, j, indices=None, **attr):
        es = [e for e in self.edges if e[0] == i and e[1] == j]
        for k in (range(len(es)) if indices is None else indices):
            es[k][2].update(attr)

    def has_edge(self, i, j):
        return any(e[0] == i and e[1] == j for e in self.edges)

    def in_edges(self, n):
        r = {}
        for i, j, a in self.edges:
            if j == n:
                r.setdefault(i, []).append(a)
        return r

    def out_degree(self, n):
        return sum(1 for e in self.edges if e[0] == n)

    def in_degree(self, n):
        return sum(1 for e in self.edges if e[1] == n)

    def copy(self):
        r = RefNet()
        r.nodes = copy.deepcopy(self.nodes)
        r.edges = copy.deepcopy(self.edges)
        return r

    def dump(self):
        ine = {n: {} for n in self.nodes}
        for i, j, a in self.edges:
            ine[j].setdefault(i, []).append(dict(a))
        return {"nodes": list(self.nodes), "in": ine, "attrs": {n: dict(a) for n, a in self.nodes.items()}}

    @staticmethod
    def from_dump(d):
        r = RefNet()
        r.nodes = {n: copy.deepcopy(d["attrs"][n]) for n in d["nodes"]}
        r.edges = [[i, j, copy.deepcopy(a)] for j in d["nodes"] for i, aa in d["in"][j].items() for a in aa]
        return r


def net_dump(net):
    """deep snapshot of a Network through its public API"""
    nodes = list(net.nodes)
    return {"nodes": nodes,
            "in": {n: {i: [copy.deepcopy(dict(a)) for a in aa] for i, aa in net.in_edges(n).items()} for n in nodes},
            "attrs": {n: {k: copy.deepcopy(v) for k, v in net[n].items() if k not in RESERVED} for n in nodes}}


def rot_dump(net):
    r = net.rotation_system
    return None if r is None else {k: tuple(v) for k, v in r.items()}


def same_net(a, b, strict=False):
    """node set, node attributes, and for each ordered pair the list of parallel edges with attributes"""
    if set(a["nodes"]) != set(b["nodes"]) or len(a["nodes"]) != len(b["nodes"]):
        return False
    if strict:
        return same(sorted_dump(a), sorted_dump(b))
    return a["in"] == b["in"] and a["attrs"] == b["attrs"]


def sorted_dump(d):
    ns = sorted(d["nodes"], key=repr)
    return {"nodes": ns, "in": {n: dict(sorted(d["in"][n].items(), key=lambda x: repr(x[0]))) for n in ns},
            "attrs": {n: dict(sorted(d["attrs"][n].items())) for n in ns}}


def net_diff(a, b):
    out = []
    if set(a["nodes"]) != set(b["nodes"]):
        out.append("nodes %s vs %s" % (a["nodes"], b["nodes"]))
    for n in a["nodes"]:
        if n in b["in"] and a["in"][n] != b["in"][n]:
            out.append("in-edges of %r: %r vs %r" % (n, a["in"][n], b["in"][n]))
        if n in b["attrs"] and a["attrs"][n] != b["attrs"][n]:
            out.append("attrs of %r: %r vs %r" % (n, a["attrs"][n], b["attrs"][n]))
    return "; ".join(out)[:800] or "type or order difference"


def invariants(net):
    """internal consistency of a Network as its queries report it; returns a description of the first problem or None"""
    nodes = list(net.nodes)
    if len(net) != len(nodes) or len(set(nodes)) != len(nodes):
        return "len %d but nodes %r" % (len(net), nodes)
    ns = set(nodes)
    ind = dict.fromkeys(nodes, 0)
    outd = dict.fromkeys(nodes, 0)
    count = {}
    for j in nodes:
        for i, aa in net.in_edges(j).items():
            if i not in ns:
                return "in-edge of %r from %r which is not a node" % (j, i)
            if len(aa) == 0:
                return "empty connection %r->%r" % (i, j)
            ind[j] += len(aa)
            outd[i] += len(aa)
            count[(i, j)] = len(aa)
            if not net.has_edge(i, j):
                return "has_edge(%r,%r) is false for a listed edge" % (i, j)
    ec = {}
    for i, j, a in net.edges:
        ec[(i, j)] = ec.get((i, j), 0) + 1
    if ec != count:
        return "edges lists %r, in-edges %r" % (ec, count)
    for n in nodes:
        if net.in_degree(n) != ind[n]:
            return "in_degree(%r)=%r but %d incoming edges" % (n, net.in_degree(n), ind[n])
        if net.out_degree(n) != outd[n]:
            return "out_degree(%r)=%r but %d outgoing edges" % (n, net.out_degree(n), outd[n])
        if net.degree(n) != ind[n] + outd[n]:
            return "degree(%r)=%r but %d edge ends" % (n, net.degree(n), ind[n] + outd[n])
    return None
