from collections import Counter

import netomaton as ntm

from ..company import amid
from ..core import Section

PROP = "C24"
RULE = ("random configurations of 1 to 40 relations (unary, binary, longer, repeated nodes and relations) with random rules; every "
        "step's configuration judged against the previous one by a matcher of its own; distinct by configuration and rule")
NEED = {"round_trip": ["relations", "many"], "single": ["rewritten"], "groups": ["rewritten", "kept"], "near": ["rewritten", "kept"],
        "again": ["rewritten", "other-network"], "extinct": ["extinct", "rewritten"]}
ASSUMPTIONS = ["nodes are non-negative integers"]


def relation(rng, nodes, arities):
    return tuple(rng.choice(nodes) for _ in range(rng.choice(arities)))


def config(rng, most=40, arities=None):
    nodes = rng.choice([list(range(1, rng.randint(2, 12))), [0, 1, 2], [5, 100, 7], list(range(1, 30))])
    arities = arities or rng.choice([[2], [2, 2, 3], [1, 2], [1, 2, 3, 4], [3]])
    return [relation(rng, nodes, arities) for _ in range(rng.choice([1, 2, 5, 9, 10, 11, 12, rng.randint(1, most)]))]


def round_trip(case):
    rng = case.rng
    c = config(rng, 130 if case.deep else 60)
    if case.idx % 100 == 99:
        c = [relation(rng, range(40), [1, 2, 3]) for _ in range(rng.randint(1000, 2500))]
    given = [rng.choice([tuple, list])(r) for r in c]
    model = ntm.WolframPhysicsModel(given, {"in": [("x", "y")], "out": [("x", "y")]})
    case.eq([tuple(r) for r in ntm.WolframPhysicsModel.network_to_config(model.network)], c, "round-trip", "configuration")
    case.eq(set(model.network.nodes), {n for r in c for n in r}, "nodes", "network of %r" % (c,))
    case.eq([tuple(r) for r in ntm.WolframPhysicsModel.network_to_config(model.network.copy())], c, "round-trip", "after a copy")
    case.eq([tuple(r) for r in given], c, "argument-kept", "configuration handed in")
    case.event("relations", len(c))
    case.event("many", len(c) > 9)
    case.state(c)
    case.sample(repr(c)[:300])


def bind(patterns, rels):
    """the binding under which these relations are the left side, or None"""
    b = {}
    for p, r in zip(patterns, rels):
        if len(p) != len(r):
            return None
        for s, n in zip(p, r):
            if b.setdefault(s, n) != n:
                return None
    return b


def greedy(left, rels):
    """documented scan: for every pattern in turn the first fitting relation; until a scan comes to nothing"""
    rels = list(rels)
    groups, aside = [], []
    while True:
        b, part, found = {}, [], False
        for p in left:
            found = False
            for k, r in enumerate(rels):
                nb = dict(b)
                if len(p) == len(r) and all(nb.setdefault(s, n) == n for s, n in zip(p, r)):
                    b = nb
                    part.append(rels.pop(k))
                    found = True
                    break
        if len(part) == len(left):
            groups.append((part, b))
        else:
            aside.extend(part)
        if not found:
            return groups, rels, aside


def judge_step(case, left, right, before, after, what):
    """soundness against the property's text, with fresh nodes named by their first appearance"""
    groups, rest, aside = greedy(left, before)
    old_nodes = {n for r in before for n in r}
    stay = rest + aside
    added = after[len(stay):]
    case.eq(Counter(after[:len(stay)]), Counter(stay), "others-stay", "%s: %r -> %r" % (what, before, after))
    case.eq(len(added), len(groups) * len(right), "number-added", "%s: %r -> %r" % (what, before, after))
    fresh = {}
    used = set()
    for g, (part, b) in enumerate(groups):
        case.check(bind(left, part) is not None, "model", "")
        loc = dict(b)
        for p, r in zip(right, added[g * len(right):(g + 1) * len(right)]):
            case.eq(len(r), len(p), "right-side", what)
            for s, n in zip(p, r):
                if s not in loc:
                    case.check(n not in old_nodes and n not in used, "fresh-node", lambda: "%s: %r -> %r, node %r for %r" %
                               (what, before, after, n, s))
                    loc[s] = n
                    used.add(n)
                case.eq(n, loc[s], "right-side", "%s: symbol %s in %r of %r -> %r" % (what, s, r, before, after))
    case.event("rewritten", len(groups))
    case.event("kept", len(stay))
    case.state(what, before, after)
    return groups


def run(case, c, left, right, T):
    rng = case.rng
    rules = {"in": [rng.choice([tuple, list])(p) for p in left], "out": [rng.choice([tuple, list])(p) for p in right]}
    model = ntm.WolframPhysicsModel(c, rules)
    traj = ntm.evolve(model.network, topology_rule=amid(case, "WolframPhysicsModel", model.topology_rule), timesteps=T + 1, compression=rng.random() < 0.2)
    got = [[tuple(r) for r in x] for x in model.to_configurations(traj)]
    case.eq(got[0], c, "initial", "configuration")
    case.eq(len(got), T + 1, "length", "")
    for a, b in zip(got, got[1:]):
        judge_step(case, left, right, a, b, "%s -> %s" % (left, right))
    return got


SYMS = "xyzuvw"


def single(case):
    """one relation on the left: every fitting relation is rewritten"""
    rng = case.rng
    k = rng.choice([1, 2, 2, 3, 4])
    left = [tuple(rng.choice(SYMS[:rng.randint(1, k)]) for _ in range(k))]
    right = [tuple(rng.choice(SYMS[:4]) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(1, 3))]
    c = config(rng, 15)
    got = run(case, c, left, right, rng.randint(1, 4) if len(right) < 3 else 2)
    for a, b in zip(got, got[1:]):
        fit = sum(bind(left, [r]) is not None for r in a)
        stay = [r for r in a if bind(left, [r]) is None]
        case.eq(b[:len(stay)], stay, "all-matches-rewritten", "%s: %r -> %r" % (left, a, b))
        case.eq(len(b), len(stay) + fit * len(right), "all-matches-rewritten", "%s: %r -> %r" % (left, a, b))


def groups(case):
    rng = case.rng
    style = rng.random()
    if style < 0.3:
        left = [("x", "y"), ("x", "z")]
    elif style < 0.5:
        left = [("x", "y"), ("y", "z")]
    else:
        left = [tuple(rng.choice(SYMS[:4]) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(2, 3))]
    right = [tuple(rng.choice(SYMS) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(1, 4))]
    c = config(rng, 15, rng.choice([[len(left[0]), len(left[1])], [1, 2, 3]]))
    run(case, c, left, right, rng.randint(1, 4))
    case.sample("%s -> %s from %r" % (left, right, c[:6]))


def near(case):
    """long patterns with repeated symbols, relations that fit or fail in one place only"""
    rng = case.rng
    left = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.randint(3, 7)
        p = [rng.choice(SYMS[:rng.randint(2, 5)]) for _ in range(k)]
        if rng.random() < 0.7:
            p[-1] = p[rng.randrange(k - 1)]
        left.append(tuple(p))
    right = [tuple(rng.choice(SYMS[:5]) for _ in range(rng.randint(2, 5))) for _ in range(rng.randint(1, 2))]
    if rng.random() < 0.7:
        right.append(rng.choice(left))
    nodes = list(range(1, rng.randint(4, 14)))
    c = []
    shared = {s: rng.choice(nodes) for s in SYMS}
    for _ in range(rng.randint(2, 8)):
        b = dict(shared) if len(left) > 1 and rng.random() < 0.6 else {s: rng.choice(nodes) for s in SYMS}
        r = [b[s] for s in rng.choice(left)]
        if rng.random() < 0.5:
            r[rng.choice([-1, -1, rng.randrange(len(r))])] = rng.choice(nodes)
        c.append(tuple(r))
    rng.shuffle(c)
    run(case, c, left, right, rng.randint(1, 3))


def again(case):
    """a model evolved more than once: from where it began, from its last state, from relations that are not its own"""
    rng = case.rng
    left = [tuple(rng.choice(SYMS[:3]) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.choice([1, 1, 2]))]
    right = [tuple(rng.choice(SYMS) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(1, 3))]
    rules = {"in": left, "out": right}
    arities = [len(p) for p in left] + [2]
    c = config(rng, 8, arities)
    model = ntm.WolframPhysicsModel(c, rules)
    first = model.network
    T = rng.randint(1, 3)
    runs = []
    traj = None
    for k in range(rng.randint(2, 4)):
        kind = rng.choice(["first", "first", "last", "other", "model"]) if k else "first"
        if kind == "first":
            net, start = first, c
        elif kind == "last":
            net, start = traj[-1].network, runs[-1][-1]
        elif kind == "model":       # the network the model says it is at
            net = model.network
            start = [tuple(r) for r in model.network_to_config(net)]
        else:
            start = [tuple(n + rng.choice([0, 60, 1000]) for n in r) for r in config(rng, 8, arities)]
            net = ntm.WolframPhysicsModel(start, rules).network
            case.event("other-network")
        if len(start) > 200:
            continue
        traj = ntm.evolve(net, topology_rule=model.topology_rule, timesteps=T + 1)
        got = [[tuple(r) for r in x] for x in model.to_configurations(traj)]
        case.eq(got[0], start, "initial", "run %d, %s" % (k, kind))
        for a, b in zip(got, got[1:]):
            judge_step(case, left, right, a, b, "run %d (%s) %s -> %s" % (k, kind, left, right))
        if kind == "first" and k:
            case.eq(got, runs[0], "same-run-again", "%s -> %s from %r, run %d" % (left, right, c, k))
        runs.append(got)


def extinct(case):
    """rules that leave fewer relations, to the last one"""
    rng = case.rng
    left = [tuple(rng.choice(SYMS[:3]) for _ in range(rng.choice([1, 2, 2, 3]))) for _ in range(rng.choice([1, 1, 2, 3]))]
    right = [] if rng.random() < 0.7 else [tuple(rng.choice(SYMS[:4]) for _ in range(rng.choice([1, 2])))]
    c = [tuple(rng.choice([1, 2, 3, 9]) for _ in rng.choice(left)) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.3:
        c += config(rng, 4)
    got = run(case, c, left, right, rng.randint(2, 4))
    case.event("extinct", sum(not x for x in got))


SECTIONS = [Section("round_trip", round_trip, 500, 10000), Section("single", single, 300, 6000), Section("groups", groups, 500, 10000),
            Section("near", near, 500, 10000), Section("again", again, 300, 6000), Section("extinct", extinct, 200, 4000)]
