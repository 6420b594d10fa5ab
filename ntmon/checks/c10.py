import copy
import itertools

import netomaton as ntm

from .. import gen
from ..core import Section
from ..model import RefNet, invariants, net_diff, net_dump, same_net

PROP = "C10"
RULE = ("random histories of all editing operations over a small label pool (so edges repeat, loop, vanish and come back), every "
        "query compared with a plain edge list after every operation; plus all histories of length <=4 over 2 labels; distinct "
        "by operation history")
NEED = {"histories": ["ops", "op:remove_node", "op:remove_edge", "op:update_edge", "op:del", "parallel-removed"],
        "exhaustive": ["ops"], "libcalls": ["ops"], "large": ["op:remove_node", "op:remove_edge"]}


def compare(case, net, ref, trail, few=None):
    what = lambda: "after %s" % (trail[-6:],)
    d = ref.dump()
    case.check(list(net.nodes) == d["nodes"] or set(net.nodes) == set(d["nodes"]) and len(net.nodes) == len(d["nodes"]),
               "nodes", lambda: "%s: nodes %r, expected %r" % (what(), list(net.nodes), d["nodes"]))
    case.eq(len(net), len(d["nodes"]), "len", what())
    got = net_dump(net)
    case.check(same_net(got, d), "edges-and-attributes", lambda: "%s: %s" % (what(), net_diff(got, d)))
    edges = sorted(map(repr, net.edges))
    case.eq(edges, sorted(repr((i, j, a)) for i, j, a in ref.edges), "edges-iteration", what())
    tin = tout = 0
    dd = net.to_dict()
    case.eq(set(dd), set(d["nodes"]), "dict-view", what())
    for n in d["nodes"]:
        i, o = ref.in_degree(n), ref.out_degree(n)
        tin += net.in_degree(n)
        tout += net.out_degree(n)
        case.check(net.in_degree(n) == i, "in-degree", lambda: "%s: in_degree(%r)=%r, expected %d" % (what(), n, net.in_degree(n), i))
        case.check(net.out_degree(n) == o, "out-degree", lambda: "%s: out_degree(%r)=%r, expected %d" % (what(), n, net.out_degree(n), o))
        case.check(net.degree(n) == i + o, "degree", lambda: "%s: degree(%r)=%r, expected %d" % (what(), n, net.degree(n), i + o))
        case.check(sorted(map(repr, dd[n]["outgoing"])) == sorted(repr(e[1]) for e in ref.edges if e[0] == n), "dict-view",
                   lambda: "%s: outgoing of %r is %r" % (what(), n, dd[n]["outgoing"]))
        case.check(dd[n]["in"] == i and dd[n]["out"] == o and net[n]["incoming"] == d["in"][n], "dict-view",
                   lambda: "%s: entry of %r is %r" % (what(), n, dd[n]))
    case.check(tin == tout == len(ref.edges), "degree-sum", lambda: "%s: %d in, %d out, %d edges" % (what(), tin, tout, len(ref.edges)))
    pool = (list(d["nodes"]) if few is None else [n for n in few if n in d["nodes"]]) + ["absent"]
    for i in pool:
        for j in pool:
            e = [a for x, y, a in ref.edges if x == i and y == j]
            case.check(net.has_edge(i, j) == bool(e), "has-edge", lambda: "%s: has_edge(%r,%r)=%r" % (what(), i, j, net.has_edge(i, j)))
            if e:
                case.check(list(net.edge(i, j)) == e, "edge", lambda: "%s: edge(%r,%r)=%r" % (what(), i, j, net.edge(i, j)))


def apply(net, ref, op, args, kw):
    if op == "del":
        del net[args[0]]
        ref.remove_node(*args)
    else:
        getattr(net, op)(*args, **kw)
        getattr(ref, op)(*args, **copy.deepcopy(kw))


def rand_op(rng, labs, ref):
    r = rng.random()
    ex = list(ref.nodes)
    i, j = rng.choice(labs), rng.choice(labs)
    if r < 0.34:
        return "add_edge", (i, j), gen.attr(rng, True)
    if r < 0.44:
        return "add_edge_bidir", (i, j), gen.attr(rng)
    if r < 0.52:
        return "add_node", (i,), gen.attr_node(rng) if rng.random() < 0.5 else {}
    if r < 0.62 and ref.edges:
        e = rng.choice(ref.edges)
        k = sum(1 for x in ref.edges if x[0] == e[0] and x[1] == e[1])
        kw = gen.attr(rng) or {"weight": 9}
        if rng.random() < 0.2:      # also by a value that stands for nothing
            kw[rng.choice(["weight", "label", "data"])] = rng.choice([None, 0, "", False, [], {}])
        if rng.random() < 0.5:
            kw["indices"] = rng.sample(range(-k, k), rng.randint(0, 2 * k)) if rng.random() < 0.3 else \
                rng.choice([list, tuple, set])(rng.sample(range(k), rng.randint(0, k)))
        return "update_edge", (e[0], e[1]), kw
    if r < 0.78 and ref.edges:
        e = rng.choice(ref.edges)
        return "remove_edge", (e[0], e[1]), {}
    if r < 0.9 and ex:
        return rng.choice(["remove_node", "del"]), (rng.choice(ex),), {}
    return "add_edge", (i, i), gen.attr(rng)


def histories(case):
    rng = case.rng
    labs = gen.labels(rng, rng.randint(1, 6))
    if rng.random() < 0.3 and labs == list(range(len(labs))):
        net, ref = ntm.Network(n=len(labs)), RefNet()
        for l in labs:
            ref.add_node(l)
    else:
        net, ref = ntm.Network(), RefNet()
    trail = []
    for _ in range(rng.randint(1, 60 if case.deep else 30)):
        op, args, kw = rand_op(rng, labs, ref)
        if op == "remove_edge" and sum(1 for e in ref.edges if (e[0], e[1]) == args) > 1:
            case.event("parallel-removed")
        trail.append((op, args, kw))
        apply(net, ref, op, args, kw)
        case.event("ops")
        case.event("op:" + op)
        compare(case, net, ref, trail)
        if rng.random() < 0.15:
            # refused operations leave everything as it was
            missing = [(a, b) for a in labs for b in labs if not ref.has_edge(a, b)]
            if missing:
                a, b = rng.choice(missing)
                case.raises(lambda: net.update_edge(a, b, weight=1), "update-missing-refused", "update_edge(%r,%r)" % (a, b))
                case.raises(lambda: net.remove_edge(a, b), "remove-missing-refused", "remove_edge(%r,%r)" % (a, b))
            case.raises(lambda: net.remove_node("absent"), "remove-missing-refused", "remove_node")
            compare(case, net, ref, trail + ["refused"])
            case.event("refused-ops")
    # equality: the same history gives an equal network, any further change an unequal one
    other = ntm.Network(n=len(labs)) if trail and len(net) and False else None
    again, ref2 = ntm.Network(), RefNet()
    for n in ref.nodes:
        again.add_node(n, **copy.deepcopy(ref.nodes[n]))
    src = list(net.edges)
    for i, j, a in src:
        again.add_edge(i, j, **copy.deepcopy(a))
    copyof = ntm.Network()
    for n in ref.nodes:
        copyof.add_node(n, **copy.deepcopy(ref.nodes[n]))
    for i, j, a in src:
        copyof.add_edge(i, j, **copy.deepcopy(a))
    case.check(again == copyof, "equality", "equal histories, unequal networks")
    op, args, kw = rng.choice([("add_edge", (labs[0], labs[-1]), {"q": 1}), ("add_node", ("extra",), {})] +
                              ([("remove_edge", tuple(src[0][:2]), {}), ("update_edge", tuple(src[0][:2]), {"q": 5})] if src else []) +
                              ([("remove_node", (list(ref.nodes)[0],), {}),
                                ("add_node", (rng.choice(list(ref.nodes)),), {rng.choice(["zz", "colour"]): "other"})] * 2
                               if ref.nodes else []))
    getattr(copyof, op)(*args, **kw)
    case.check(not (again == copyof), "equality", "networks equal although one had %s%r" % (op, args))
    case.state(trail)
    case.sample(trail[:6])


def large(case):
    """many nodes, hubs with many edges both ways, many parallel edges; then whole parts of it are taken away again"""
    rng = case.rng
    n = rng.randint(40, 130)
    labs = gen.labels(rng, n)
    net, ref = ntm.Network(), RefNet()
    hubs = rng.sample(labs, rng.randint(1, 3))
    ops = []
    for l in labs:
        for hub in hubs:
            r = rng.random()
            if r < 0.8:
                ops.append(("add_edge", (hub, l), gen.attr(rng)))
            if r > 0.3:
                ops.append(("add_edge", (l, hub), gen.attr(rng)))
        if rng.random() < 0.2:
            ops.append(("add_edge_bidir", (l, rng.choice(labs)), gen.attr(rng)))
    i, j = rng.choice(labs), rng.choice(labs)
    ops += [("add_edge", (i, j), {"weight": k}) for k in range(rng.choice([0, 0, 40, 70]))]
    rng.shuffle(ops)
    for op, args, kw in ops:
        apply(net, ref, op, args, kw)
    case.event("ops", len(ops))
    trail = ["%d nodes, %d edges, hubs %r" % (n, len(ops), hubs)]
    few = hubs + [i, j] + rng.sample(labs, 4)
    compare(case, net, ref, trail, few)
    for _ in range(rng.randint(1, 4)):
        ex = list(ref.nodes)
        r = rng.random()
        if r < 0.35:
            todo = [(rng.choice(["remove_node", "del"]), (rng.choice([l for l in hubs if l in ref.nodes] or ex),), {})]
        elif r < 0.5:
            todo = [("remove_node", (l,), {}) for l in rng.sample(ex, len(ex) // 3)]
        elif r < 0.7:
            es = [e for e in ref.edges if e[0] in hubs or e[1] in hubs]
            todo = [("remove_edge", (e[0], e[1]), {}) for e in rng.sample(es, len(es) // 2)]
        elif r < 0.85 and ref.edges:
            e = rng.choice([e for e in ref.edges if (e[0], e[1]) == (i, j)] or list(ref.edges))
            todo = [("update_edge", (e[0], e[1]), {"weight": 999})]
        else:
            todo = [("add_edge", (rng.choice(labs), rng.choice(hubs)), gen.attr(rng)) for _ in range(30)]
        for op, args, kw in todo:
            if op == "remove_edge" and not ref.has_edge(*args):
                continue
            apply(net, ref, op, args, kw)
            case.event("ops")
            case.event("op:" + op)
        trail.append("%s x%d" % (todo[0][0] if todo else "nothing", len(todo)))
        compare(case, net, ref, trail, few)
        if not ref.nodes:
            break
    case.state(repr(hubs), n, trail)


ALPHABET = [("add_edge", (0, 1), {}), ("add_edge", (1, 0), {"w": 1}), ("add_edge", (0, 0), {}), ("add_edge_bidir", (0, 1), {"w": 2}),
            ("remove_edge", (0, 1), {}), ("remove_edge", (0, 0), {}), ("remove_node", (0,), {}), ("remove_node", (1,), {}),
            ("update_edge", (0, 1), {"w": 3}), ("add_node", (0,), {"c": 1})]


def exhaustive(case):
    """all histories that start with the idx-th pair of operations, up to length 4 (5 when thorough)"""
    first = [ALPHABET[case.idx // len(ALPHABET)], ALPHABET[case.idx % len(ALPHABET)]]
    for n in range(0, 4 if case.deep else 3):
        for rest in itertools.product(ALPHABET, repeat=n):
            net, ref = ntm.Network(2), RefNet()
            ref.add_node(0)
            ref.add_node(1)
            trail = []
            ok = True
            for op, args, kw in first + list(rest):
                valid = {"remove_edge": lambda: ref.has_edge(*args), "update_edge": lambda: ref.has_edge(*args),
                         "remove_node": lambda: args[0] in ref.nodes}.get(op, lambda: True)()
                if not valid:
                    ok = False
                    break
                trail.append((op, args, kw))
                apply(net, ref, op, args, kw)
            if ok:
                compare(case, net, ref, trail)
                case.event("ops", len(trail))
                case.state(trail)


def libcalls(case):
    """networks edited by the library itself stay consistent: constructors and evolutions with node changes"""
    from .c09 import build_case
    rng = case.rng
    t = ntm.topology
    n = rng.randint(3, 9)
    net = rng.choice([lambda: t.cellular_automaton(n), lambda: t.cellular_automaton2d(3, n, neighbourhood=rng.choice(["Moore", "von Neumann"])),
                      lambda: t.lattice((1, 2, n), periodic=rng.random() < 0.5), lambda: t.complete(n), lambda: t.disconnected(n),
                      lambda: t.bipartite(["a", "b"], [1, 2, n]), lambda: t.watts_strogatz_graph(n + 2, 2, 0.5, seed=n),
                      lambda: ntm.SubstitutionSystem(["0"] * n, {"0": "0"}).network,
                      lambda: ntm.HeadCentricTuringMachine([0], {}, 0, 0, max_timesteps=2).network])()
    bad = invariants(net)
    case.check(bad is None, "consistent", lambda: "constructor: " + str(bad))
    ref = RefNet.from_dump(net_dump(net))
    trail = ["constructed"]
    labs = list(net.nodes)
    for _ in range(6):
        op, args, kw = rand_op(rng, labs, ref)
        trail.append((op, args, kw))
        apply(net, ref, op, args, kw)
        compare(case, net, ref, trail)
        case.event("ops")
    evo = build_case(case)
    evo.pn = True
    for s in evo.run():
        bad = invariants(s.network)
        case.check(bad is None, "consistent", lambda: "evolved network: " + str(bad))
    case.state(trail, evo.describe)


SECTIONS = [Section("histories", histories, 1800, 36000), Section("exhaustive", exhaustive, 100, 100, exhaustive=True),
            Section("libcalls", libcalls, 450, 9000), Section("large", large, 60, 1500)]
