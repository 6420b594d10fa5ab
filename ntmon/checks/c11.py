import copy
import pickle

import networkx as nx
import numpy as np

import netomaton as ntm

from .. import gen
from ..core import Section
from ..model import RefNet, invariants, net_diff, net_dump, same, same_net, sorted_dump
from .c08 import key, npvalue, value
from .c10 import apply, compare, rand_op

PROP = "C11"
RULE = ("networks reached by random editing histories with rich labels and attribute values, converted by every route and "
        "compared with a plain edge list, then edited on either side to expose sharing; distinct by content")
NEED = {"copies": ["copies"], "networkx": ["conversions"], "matrix": ["conversions"]}


def rich(case, plain=False):
    """(network, reference) reached by a history; labels and attributes of every supported type"""
    rng = case.rng
    if plain:
        labs = gen.labels(rng, rng.randint(1, 7), rng.choice(["int", "str", "sparse", "tuple"]))
    else:
        labs = []
        for _ in range(rng.randint(1, 6)):
            k = key(rng)
            if k not in labs:
                labs.append(k)
    net, ref = ntm.Network(), RefNet()
    for _ in range(rng.randint(0, 25)):
        op, args, kw = rand_op(rng, labs, ref)
        if not plain and op in ("add_edge", "add_node") and rng.random() < 0.5:
            kw = {"v%d" % rng.randint(0, 2): value(rng)}
        apply(net, ref, op, args, kw)
    return net, ref, labs


def nan_free(v):
    return v == v


def copies(case):
    rng = case.rng
    net, ref, labs = rich(case)
    if rng.random() < 0.3 and len(ref.nodes):
        n = rng.choice(list(ref.nodes))
        v, w = npvalue(rng, rng.choice([3, True, 2.5]))
        net.add_edge(n, n, np=v)
        ref.add_edge(n, n, np=w)
        net.add_node(n, np=v)
        ref.add_node(n, np=w)
    want = ref.dump()
    route = rng.choice(["copy", "pack", "copycopy", "state"])
    c = {"copy": lambda: net.copy(), "pack": lambda: ntm.Network.decompress(net.compress()),
         "copycopy": lambda: net.copy().copy(),
         "state": lambda: ntm.State(network=net, compression=True).network if len(net) else net.copy()}[route]()
    got = net_dump(c)
    case.check(same_net(got, want, strict=True), "copy-equal", lambda: "%s: %s" % (route, net_diff(got, want)))
    case.eq(list(map(repr, got["nodes"])), list(map(repr, net.nodes)), "copy-node-order", route)
    for j in want["in"]:
        case.eq(list(map(repr, c.in_edges(j))), list(map(repr, net.in_edges(j))), "copy-edge-order", route)
    bad = invariants(c)
    case.check(bad is None, "copy-consistent", lambda: "%s: %s" % (route, bad))
    case.check(all(c.in_degree(n) == ref.in_degree(n) and c.out_degree(n) == ref.out_degree(n) for n in ref.nodes),
               "copy-degrees", route)
    # a network goes on changing between its copies
    for _ in range(rng.choice([0, 0, 1, 3])):
        for _ in range(rng.choice([1, 1, 2])):
            if ref.edges and rng.random() < 0.5:    # no more and no fewer nodes and edges
                i, j, _a = rng.choice(ref.edges)
                op, args, kw = rng.choice([("update_edge", (i, j), {"weight": rng.randrange(1000)}), ("add_node", (i,), {"size": rng.randrange(1000)}),
                                           ("remove_edge", (i, j), {})])
                apply(net, ref, op, args, kw)
                if op == "remove_edge":
                    apply(net, ref, "add_edge", (j, i), dict(_a))
            else:
                apply(net, ref, *rand_op(rng, labs, ref))
        want = ref.dump()
        c = {"copy": lambda: net.copy(), "pack": lambda: ntm.Network.decompress(net.compress()), "copycopy": lambda: net.copy().copy(),
             "state": lambda: ntm.State(network=net, compression=True).network if len(net) else net.copy()}[route]()
        got = net_dump(c)
        case.check(same_net(got, want, strict=True), "copy-equal", lambda: "%s after an edit: %s" % (route, net_diff(got, want)))
        case.event("copied-again")
        if rng.random() < 0.3:
            kept = sorted(repr(e) for e in net.to_networkx().edges(data=True))
            case.eq(kept, sorted(repr((i, j, a)) for i, j, a in ref.edges), "to-networkx", "edges after an edit")
    # independence: edit either side, the other stays
    a, b = (net, c) if rng.random() < 0.5 else (c, net)
    keep = net_dump(b)
    for n in list(a.nodes):
        if a.degree(n):
            for i, aa in a.in_edges(n).items():
                for at in aa:
                    for v in at.values():
                        if isinstance(v, list):
                            v.append("edit")
                        elif isinstance(v, dict):
                            v["edit"] = 1
                    at["edit"] = True
        a.add_node(n, edit=1)
    for _ in range(4):
        r = RefNet.from_dump(net_dump(a))
        op, args, kw = rand_op(rng, labs, r)
        if op == "del":
            del a[args[0]]
        else:
            getattr(a, op)(*args, **kw)
    now = net_dump(b)
    case.check(repr(sorted_dump(now)) == repr(sorted_dump(keep)), "copy-independent", lambda: "%s: editing one side changed the other: %s" %
               (route, net_diff(now, keep)))
    case.event("copies")
    case.state(repr(want))
    case.sample(repr(want)[:300])


def large(case):
    """networks of hundreds and thousands of nodes, copied, and then edited on either side"""
    rng = case.rng
    n = [150, 450, 900, 1300, 2600, 300, 4200, 520][case.idx % 8] + rng.randint(0, 90)
    labs = ["n%d" % i for i in range(n)] if rng.random() < 0.5 else list(range(n))
    rng.shuffle(labs)
    net, ref = ntm.Network(), RefNet()
    for i, l in enumerate(labs):
        apply(net, ref, "add_node", (l,), {"c": [i]} if i % 3 == 0 else {})
    hub = labs[0]
    for i, l in enumerate(labs):
        apply(net, ref, "add_edge", (l, labs[(i + 1) % n]), {"w": i, "v": [i]} if i % 2 else {})
        if rng.random() < 0.5:
            apply(net, ref, "add_edge", (hub, l), {})
        if rng.random() < 0.5:
            apply(net, ref, "add_edge", (l, rng.choice(labs)), {"d": {"k": i}})
    want = ref.dump()
    route = ["copy", "pack", "copy", "networkx", "copycopy", "copy", "copy"][case.idx % 7]
    c = {"copy": lambda: net.copy(), "pack": lambda: ntm.Network.decompress(net.compress()), "copycopy": lambda: net.copy().copy(),
         "networkx": lambda: ntm.Network.from_networkx(net.to_networkx())}[route]()
    case.check(same_net(net_dump(c), want, strict=route != "networkx"), "copy-equal", lambda: "%s of %d nodes: %s" % (route, n, net_diff(net_dump(c), want)))
    bad = invariants(c)
    case.check(bad is None, "copy-consistent", lambda: "%s of %d nodes: %s" % (route, n, bad))
    a, b = (net, c) if rng.random() < 0.5 else (c, net)
    rb = RefNet.from_dump(net_dump(b))
    touched = []
    for k in range(6):
        i, j = rng.choice(labs), rng.choice(labs)
        touched.append(i)
        try:
            if k % 3 == 0:
                a.add_edge(i, j, late=k)
            elif k % 3 == 1:
                a.add_node(("late", k), late=[k])
                a.add_edge(("late", k), j)
            else:
                a.remove_node(labs[-k])
        except KeyError:
            case.event("gone")      # the node went in an earlier turn
    if route != "networkx":
        case.check(same_net(net_dump(b), want, strict=True), "copy-independent", lambda: "%s of %d nodes: %s" % (route, n, net_diff(net_dump(b), want)))
    for side, name in ((a, "edited"), (b, "other")):
        bad = invariants(side)
        case.check(bad is None, "copy-consistent", lambda: "%s side, %s of %d nodes after edits: %s" % (name, route, n, bad))
    # the other side is edited in the same places
    for x in dict.fromkeys(touched):
        b.remove_node(x)
        rb.remove_node(x)
    case.check(same_net(net_dump(b), rb.dump()), "copy-independent", lambda: "%s of %d nodes, both sides edited: %s" % (
        route, n, net_diff(net_dump(b), rb.dump())))
    bad = invariants(b)
    case.check(bad is None, "copy-independent", lambda: "%s of %d nodes, both sides edited: %s" % (route, n, bad))
    case.check(all(b.in_degree(x) == rb.in_degree(x) and b.out_degree(x) == rb.out_degree(x) for x in rb.nodes), "copy-degrees", route)
    case.event("large-copies")
    case.state(route, n, len(want["nodes"]), len(ref.edges))


def networkx(case):
    rng = case.rng
    net, ref, labs = rich(case, plain=rng.random() < 0.7)
    ref.nodes.pop(None, None) if False else None
    if None in ref.nodes:
        return
    want = ref.dump()
    G = net.to_networkx()
    case.check(isinstance(G, nx.MultiDiGraph), "to-networkx", "type %s" % type(G))
    case.eq(set(G.nodes), set(ref.nodes), "to-networkx", "nodes")
    case.check(all(dict(G.nodes[n]) == ref.nodes[n] or repr(dict(G.nodes[n])) == repr(ref.nodes[n]) for n in ref.nodes),
               "to-networkx", "node attributes %r" % dict(G.nodes(data=True)))
    case.eq(sorted(repr(e) for e in G.edges(data=True)), sorted(repr((i, j, a)) for i, j, a in ref.edges), "to-networkx", "edges")
    keep = net_dump(net)
    back = ntm.Network.from_networkx(G)
    got = net_dump(back)
    case.check(same_net(got, want, strict=False) or repr(sorted_dump(got)) == repr(sorted_dump(want)), "networkx-round-trip",
               lambda: net_diff(got, want))
    bad = invariants(back)
    case.check(bad is None, "networkx-round-trip", lambda: str(bad))
    case.check(all(back.in_degree(n) == ref.in_degree(n) and back.out_degree(n) == ref.out_degree(n) for n in ref.nodes),
               "networkx-round-trip", "degrees")
    # editing the graph or the result leaves the network alone
    for n in list(back.nodes)[:2]:
        back.add_edge(n, n, e=1)
        G.add_edge(n, "zz", e=1)
        G.nodes[n]["edit"] = 1
    for i, j, a in back.edges:
        a["edit"] = 1
    for n in list(back.nodes):
        for i in list(back.in_edges(n)):
            back.update_edge(i, n, edit=2)
    for i, j, d in G.edges(data=True):
        d["edit"] = 1
    case.check(repr(sorted_dump(net_dump(net))) == repr(sorted_dump(keep)), "networkx-independent",
               lambda: "editing the converted graph changed the network: " + net_diff(net_dump(net), keep))
    case.event("conversions")
    case.state(repr(want))
    # from a library graph: directed, multi or simple
    H = rng.choice([nx.DiGraph, nx.MultiDiGraph])()
    for n in labs:
        if n is not None:
            H.add_node(n, **({"c": 1} if rng.random() < 0.5 else {}))
    ns = list(H.nodes)
    for _ in range(rng.randint(0, 10)):
        if ns:
            H.add_edge(rng.choice(ns), rng.choice(ns), **gen.attr(rng))
    if rng.random() < 0.4:
        # names of the parameters of the library's own methods, and names that are not text
        for *_, d in H.edges(data=True):
            if rng.random() < 0.4:
                d[rng.choice(["i", "j", "self", "key", "indices", 5, (1, 2)])] = rng.choice([0, 1, "a", None])
        for _, d in H.nodes(data=True):
            if rng.random() < 0.4:
                d[rng.choice(["node_label", "self", "i", 5])] = rng.choice([0, 1, "a", None])
    k = ntm.Network.from_networkx(H)
    case.eq(sorted(repr(e) for e in k.edges), sorted(repr(e) for e in H.edges(data=True)), "from-networkx", "edges")
    case.eq({repr(n): {a: v for a, v in k[n].items() if a not in ("in", "out", "incoming", "outgoing")} for n in k.nodes},
            {repr(n): dict(d) for n, d in H.nodes(data=True)}, "from-networkx", "nodes")
    H2 = k.to_networkx()
    case.eq(sorted(repr(e) for e in H2.edges(data=True)), sorted(repr(e) for e in H.edges(data=True)), "from-networkx", "there and back")


def matrix(case):
    rng = case.rng
    labs = gen.labels(rng, rng.randint(1, 7))
    ops = [("add_node", (l,), {}) for l in labs]
    wname = rng.choice(["weight", "weight", "w", "strength"])
    ws = [1, 2, 0.5, -3, 0, 7]
    for _ in range(rng.randint(0, 18)):
        ops.append(("add_edge", (rng.choice(labs), rng.choice(labs)), {wname: rng.choice(ws)} if rng.random() < 0.7 else
                    ({"other": 5} if rng.random() < 0.5 else {})))
    net, ref = gen.build(ops)
    order = list(net.nodes)
    nodelist = None
    if rng.random() < 0.6:
        order = list(order)
        rng.shuffle(order)
        nodelist = list(order)
    kw = {} if wname == "weight" and rng.random() < 0.5 else {"weight": wname}
    if rng.random() < 0.15:
        kw = {"weight": None}  # every edge counts as one
    before = net_dump(net)
    M = net.to_adjacency_matrix(nodelist=nodelist, **kw)
    N = net.to_adjacency_matrix(nodelist=nodelist, sum_multiedges=False, **kw)
    pos = {l: i for i, l in enumerate(order)}
    sums = [[0] * len(labs) for _ in labs]
    allw = {}
    for i, j, a in ref.edges:
        w = a.get(kw.get("weight", "weight"), 1)
        sums[pos[i]][pos[j]] += w
        allw.setdefault((pos[i], pos[j]), []).append(w)
    case.eq([list(r) for r in M], sums, "adjacency-matrix", "summed matrix, order %r" % (order,))
    for i in range(len(labs)):
        for j in range(len(labs)):
            case.check(N[i][j] in allw.get((i, j), [0]), "adjacency-matrix", lambda: "unsummed entry %r,%r is %r, edges weigh %r" %
                       (order[i], order[j], N[i][j], allw.get((i, j))))
    case.check(same_net(net_dump(net), before), "matrix-independent", "conversion changed the network")
    # and back: a matrix gives the weighted simple digraph on its row numbers
    back = ntm.topology.from_adjacency_matrix(rng.choice([lambda: M, lambda: np.array(M), lambda: tuple(map(tuple, M))])())
    case.eq(sorted(map(int, back.nodes)), list(range(len(labs))), "matrix-round-trip", "nodes of %r" % (M,))
    case.eq(sorted((i, j, a.get("weight")) for i, j, a in back.edges),
            sorted((i, j, sums[i][j]) for i in range(len(labs)) for j in range(len(labs)) if sums[i][j] != 0),
            "matrix-round-trip", "edges")
    case.eq([list(r) for r in back.to_adjacency_matrix(nodelist=list(range(len(labs))))], sums, "matrix-round-trip", "matrix")
    case.event("conversions")
    case.state(sums, order == list(net.nodes))
    case.sample("%d nodes %d edges order %r" % (len(labs), len(ref.edges), order[:5]))


SECTIONS = [Section("copies", copies, 3600, 60000), Section("networkx", networkx, 2000, 30000), Section("large", large, 14, 150), Section("matrix", matrix, 2000, 30000)]
