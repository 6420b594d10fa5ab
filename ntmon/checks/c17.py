import itertools

import netomaton as ntm
from netomaton import rules

from .. import gen
from ..core import Section
from ..model import RefNet, h, net_dump
from ..trace import AF, SY, TF

PROP = "C17"
RULE = ("pairs of evolutions: one node changed, nodes relabelled and reordered, or the grid shifted; compared state by state; "
        "distinct by network, initial state and change")
NEED = {"locality": ["compared", "influence"], "relabel": ["compared"], "relabel_topology": ["compared"], "shift_ring": ["compared"],
        "shift_torus": ["compared"], "isolated_part": ["compared"], "large": ["compared"]}


def multiset_rule(salt, k):
    """depends on the node's own activity and on the multiset of (neighbour activity, edge attributes), not on labels"""
    def rule(ctx):
        nb = sorted((repr(a), sorted(repr(sorted(e.items())) for e in ctx.connection_states[i]))
                    for i, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities))
        return h(salt, ctx.current_activity, nb, ctx.timestep, repr(ctx.input),
                 repr(ctx.past_activity_of(ctx.node_label)) if ctx.past_activities else 0) % k
    return rule


def acts(traj):
    return [s.activities for s in traj]


def options(rng, T, labs, k):
    kw = {}
    if rng.random() < 0.3:
        kw["input"] = [rng.choice([0, 1, 2.5, "x"]) if False else rng.choice([0, 1, 2.5]) for _ in range(T)]
    else:
        kw["timesteps"] = T + 1
    if rng.random() < 0.3:
        kw["compression"] = True
    if rng.random() < 0.3:
        kw["update_order"] = rng.choice([AF, TF, SY])
    return kw


def locality(case):
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=14 if case.deep else 10, isolated=rng.random() < 0.7, density=rng.choice([3, 6, 10, 14])) \
        if case.idx % 80 != 79 else gen.hub_network(rng)
    labs = list(net.nodes)
    k = rng.choice([2, 5, 10 ** 6, 10 ** 6])
    rule = gen.hash_rule(rng.getrandbits(30), k) if rng.random() < 0.5 else multiset_rule(rng.getrandbits(30), k)
    T = gen.steps(rng, 1, 6)
    kw = options(rng, T, labs, k)
    if rng.random() < 0.3:
        psalt = rng.getrandbits(20)
        kw["perturbation"] = lambda p: h(psalt, repr(p.node_label), p.timestep, p.node_activity) % k \
            if h(psalt, repr(p.node_label)) % 2 else p.node_activity
    init = {l: rng.randrange(k) for l in labs}
    a = acts(ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, **kw))
    who = rng.choice(labs)
    init2 = dict(init)
    init2[who] = (init[who] + 1) % k
    b = acts(ntm.evolve(net, initial_conditions=init2, activity_rule=rule, **kw))
    reach = {who}
    out = {}
    for i, j, _ in ref.edges:
        out.setdefault(i, set()).add(j)
    for t in range(len(a)):
        diff = {l for l in labs if a[t][l] != b[t][l]}
        case.check(diff <= reach, "light-cone", lambda: "changing %r altered %r at step %d, reachable are %r (edges %r)" %
                   (who, diff - reach, t, reach, [(i, j) for i, j, _ in ref.edges]))
        case.event("compared", len(labs))
        case.event("influence", len(diff - {who}))
        reach |= set().union(*[out.get(l, set()) for l in reach])
    case.state(sorted(map(repr, labs)), len(ref.edges), repr(who), repr(a[-1]))
    case.sample("%d nodes %d edges, changed %r, %d steps" % (len(labs), len(ref.edges), who, T))


def relabelled(rng, ref, kind=None):
    """an isomorphic network: new labels, nodes and edges put in in another order"""
    old = list(ref.nodes)
    new = gen.labels(rng, len(old))
    m = dict(zip(old, new))
    order = old[:]
    rng.shuffle(order)
    net = ntm.Network()
    for l in order:
        net.add_node(m[l], **ref.nodes[l])
    es = list(ref.edges)
    rng.shuffle(es)
    for i, j, at in es:
        net.add_edge(m[i], m[j], **at)
    return net, m, order


def relabel(case):
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=12 if case.deep else 8, isolated=rng.random() < 0.7) if case.idx % 80 != 79 else gen.hub_network(rng)
    labs = list(net.nodes)
    k = rng.choice([2, 3, 10 ** 6])
    memo = rng.random() < 0.3
    salt = rng.getrandbits(30)
    if memo:
        rule = lambda ctx: h(salt, sorted(ctx.neighbourhood_activities)) % k
    else:
        rule = multiset_rule(salt, k)
    T = gen.steps(rng, 1, 6)
    kw = options(rng, T, labs, k)
    kw["memoize"] = memo
    past = None
    init = {l: rng.randrange(k) for l in labs}
    net2, m, order = relabelled(rng, ref)
    kw2 = dict(kw)
    if rng.random() < 0.3:
        past = [{l: rng.randrange(k) for l in labs} for _ in range(rng.randint(1, 3))]
        kw["past_conditions"] = past
        kw2["past_conditions"] = [{m[l]: p[l] for l in order} for p in past]
    a = acts(ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, **kw))
    b = acts(ntm.evolve(net2, initial_conditions={m[l]: init[l] for l in order}, activity_rule=rule, **kw2))
    case.eq(len(b), len(a), "isomorphic", "number of states")
    for t in range(len(a)):
        case.eq(b[t], {m[l]: a[t][l] for l in labs}, "isomorphic", "relabelled evolution at step %d" % t)
        case.event("compared", len(labs))
    case.state(repr(init), len(ref.edges), k, repr(a[-1]))


def relabel_topology(case):
    """with an equivariant topology rule, nodes removed by their own activity and new links between nodes of given activities"""
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=8)
    labs = list(net.nodes)
    k = 12
    rule = multiset_rule(rng.getrandbits(30), k)
    salt = rng.getrandbits(30)

    def topo(ctx):
        n = ctx.network
        ns = list(n.nodes)
        for i in ns:
            for j in ns:
                x = h(salt, ctx.timestep, ctx.activities[i], ctx.activities[j], n.has_edge(i, j)) % 9
                if x == 0:
                    n.add_edge(i, j, weight=ctx.timestep)
                elif x == 1 and n.has_edge(i, j):
                    n.remove_edge(i, j)
                elif x == 2 and n.has_edge(i, j):
                    n.update_edge(i, j, weight=ctx.activities[i])
        return n
    init = {l: rng.randrange(k) for l in labs}
    net2, m, order = relabelled(rng, ref)
    kw = {"timesteps": rng.randint(2, 6), "topology_rule": topo, "update_order": rng.choice([AF, TF, SY]), "activity_rule": rule}
    ta = ntm.evolve(net, initial_conditions=dict(init), **kw)
    tb = ntm.evolve(net2, initial_conditions={m[l]: init[l] for l in order}, **kw)
    for t, (x, y) in enumerate(zip(ta, tb)):
        case.eq(y.activities, {m[l]: v for l, v in x.activities.items()}, "isomorphic", "activities at step %d" % t)
        case.eq(sorted(repr((i, j, sorted(e.items()))) for i, j, e in y.network.edges),
                sorted(repr((m[i], m[j], sorted(e.items()))) for i, j, e in x.network.edges), "isomorphic", "network at step %d" % t)
        case.event("compared", len(labs))
    case.state(repr(init), repr(ta[-1].activities), kw["update_order"].name)


def shift_ring(case):
    rng = case.rng
    r = rng.choice([1, 1, 2, 3])
    n = rng.randint(2 * r + 1, 30)
    k = rng.choice([2, 3, 1000])
    salt = rng.getrandbits(30)
    which = rng.choice(["hash", "nks", "totalistic", "table"])
    if which == "hash":
        rule = lambda ctx: h(salt, tuple(ctx.neighbourhood_activities), ctx.timestep) % k
    elif which == "nks":
        k, r = 2, 1
        rule = rules.nks_ca_rule(rng.randrange(256))
    elif which == "totalistic":
        k = 3
        rule = rules.totalistic_ca(3, rng.randrange(3 ** ((2 * r + 1) * 2 + 1)))
    else:
        k, r = 3, 1
        rule = ntm.table_rule(ntm.random_rule_table(k, r, lambda_val=0.6)[0])
    net = ntm.topology.cellular_automaton(n, r)
    x = [rng.randrange(k) for _ in range(n)]
    s = rng.randrange(n)
    T = gen.steps(rng, 1, 10)
    kw = {"timesteps": T + 1, "activity_rule": rule, "memoize": which != "hash" and rng.random() < 0.3}
    a = ntm.utils.get_activities_over_time_as_list(ntm.evolve(net, initial_conditions=x, **kw))
    b = ntm.utils.get_activities_over_time_as_list(ntm.evolve(net, initial_conditions=x[s:] + x[:s], **kw))
    for t in range(T + 1):
        case.eq(list(b[t]), list(a[t])[s:] + list(a[t])[:s], "shift", "%s ring n=%d r=%d shifted by %d, step %d" % (which, n, r, s, t))
        case.event("compared", n)
    case.state(which, n, r, s, x)


def large(case):
    """a thousand nodes and more: shifted rings and tori, and influence no further than one neighbourhood per step"""
    rng = case.rng
    if rng.random() < 0.6:
        n, r = rng.choice([700, 1000, 1030]), rng.choice([1, 2])
        net = ntm.topology.cellular_automaton(n, r)
        shift = lambda v, s: v[s:] + v[:s]
        far = lambda i, j: (min((i - j) % n, (j - i) % n) + r - 1) // r
        s = rng.randrange(1, n)
    else:
        rows, cols = rng.choice([(20, 52), (40, 26)])
        n = rows * cols
        net = ntm.topology.cellular_automaton2d(rows, cols)
        s = rng.randrange(1, rows)
        shift = lambda v, s: v[s * cols:] + v[:s * cols]
        far = lambda i, j: max(min((i // cols - j // cols) % rows, (j // cols - i // cols) % rows), min((i - j) % cols, (j - i) % cols))
    salt = rng.getrandbits(30)
    rule = lambda ctx: h(salt, tuple(ctx.neighbourhood_activities), ctx.timestep) % 1000
    x = [rng.randrange(1000) for _ in range(n)]
    T = 3
    # (on a torus the order of a cell's neighbours is not the same everywhere)
    if net.rotation_system is not None and len(next(iter(net.rotation_system.values()))) == 9:
        rule = lambda ctx: h(salt, sorted(ctx.neighbourhood_activities), ctx.current_activity, ctx.timestep) % 1000
    go = lambda v: [[st.activities[i] for i in range(n)] for st in ntm.evolve(net, initial_conditions=list(v), activity_rule=rule, timesteps=T + 1)]
    a, b = go(x), go(shift(x, s))
    who = rng.randrange(n)
    y = list(x)
    y[who] += 1
    c = go(y)
    for t in range(T + 1):
        case.eq(b[t], shift(a[t], s), "shift", "%d cells shifted by %d, step %d" % (n, s, t))
        out = [i for i in range(n) if a[t][i] != c[t][i] and far(i, who) > t]
        case.check(not out, "light-cone", "changing %d of %d altered %r at step %d", who, n, out[:9], t)
        case.event("compared", n)
    case.state(n, s, x[:20])


def shift_torus(case):
    rng = case.rng
    rows, cols = rng.randint(3, 7), rng.randint(3, 7)
    kind = rng.choice(["Moore", "von Neumann", "Hex"])
    if kind == "Hex" and rows % 2:
        rows += 1
    r = 1 if kind == "Hex" else rng.choice([1, 1, 2])
    k = rng.choice([2, 3, 1000])
    which = rng.choice(["hash", "life", "wireworld", "majorityless"])
    salt = rng.getrandbits(30)
    if which == "life":
        kind, r, k, rule = "Moore", 1, 2, rules.game_of_life_rule
    elif which == "wireworld":
        kind, r, k, rule = "Moore", 1, 4, rules.wireworld_rule
    else:
        rule = lambda ctx: h(salt, sorted(ctx.neighbourhood_activities), ctx.current_activity, ctx.timestep) % k
    net = ntm.topology.cellular_automaton2d(rows, cols, r, kind, ordered=rng.random() < 0.6)
    n = rows * cols
    x = [rng.randrange(k) for _ in range(n)]
    sr, sc = rng.randrange(rows), rng.randrange(cols)
    if kind == "Hex":
        sr -= sr % 2

    def shift(v):
        return [v[(a + sr) % rows * cols + (b + sc) % cols] for a in range(rows) for b in range(cols)]
    T = gen.steps(rng, 1, 6)
    a = ntm.utils.get_activities_over_time_as_list(ntm.evolve(net, initial_conditions=x, activity_rule=rule, timesteps=T + 1))
    b = ntm.utils.get_activities_over_time_as_list(ntm.evolve(net, initial_conditions=shift(x), activity_rule=rule, timesteps=T + 1))
    for t in range(T + 1):
        case.eq(list(b[t]), shift(list(a[t])), "shift", "%s %s torus %dx%d r=%d by (%d,%d), step %d" % (which, kind, rows, cols, r, sr, sc, t))
        case.event("compared", n)
    case.state(which, kind, rows, cols, r, sr, sc, x)


def isolated_part(case):
    """two separate networks evolved as one evolve as they do alone"""
    rng = case.rng
    na, ra, la = gen.network(rng, nmax=5, kind="sparse")
    nb, rb, lb = gen.network(rng, nmax=5, kind="str")
    both = ntm.Network()
    items = [("n", n, at) for r in (ra, rb) for n, at in r.nodes.items()]
    for _, n, at in items:
        both.add_node(n, **at)
    es = ra.edges + rb.edges
    rng.shuffle(es)
    # parallel edges keep their order within one pair
    es.sort(key=lambda e: 0)
    for i, j, at in es:
        both.add_edge(i, j, **at)
    k = rng.choice([2, 1000])
    rule = multiset_rule(rng.getrandbits(30), k)
    T = gen.steps(rng, 1, 6)
    init = {l: rng.randrange(k) for l in list(ra.nodes) + list(rb.nodes)}
    kw = {"timesteps": T + 1, "activity_rule": rule}
    whole = acts(ntm.evolve(both, initial_conditions=dict(init), **kw))
    for net, ref in ((na, ra), (nb, rb)):
        part = acts(ntm.evolve(net, initial_conditions={l: init[l] for l in ref.nodes}, **kw))
        for t in range(T + 1):
            case.eq({l: whole[t][l] for l in ref.nodes}, part[t], "separate", "step %d" % t)
            case.event("compared", len(part[t]))
    case.state(repr(init), repr(whole[-1]))


SECTIONS = [Section("large", large, 4, 60), Section("locality", locality, 700, 15000), Section("relabel", relabel, 500, 12000),
            Section("relabel_topology", relabel_topology, 250, 6000), Section("shift_ring", shift_ring, 250, 6000),
            Section("shift_torus", shift_torus, 150, 4000), Section("isolated_part", isolated_part, 200, 5000)]
