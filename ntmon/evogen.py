"""Random evolutions for the trace-monitored properties."""
import collections

import numpy as np

import netomaton as ntm

from . import gen
from .model import h
from .trace import AF, SY, TF, Evo


def values(rng, kind=None):
    """a function from a 32 bit hash to an activity"""
    kind = kind or rng.choice(["int", "int", "small", "bit", "float", "str", "np", "tuple", "mixed", "zero", "deep"])
    salt = rng.random()

    def f(x):
        if kind == "int":
            return x
        if kind == "small":
            return x % 5
        if kind == "bit":
            return x % 2
        if kind == "float":
            return (x % 1000) / 7.0
        if kind == "str":
            return "v%d" % (x % 1000)
        if kind == "np":
            return [np.int64(x), np.float64(x / 3.0), np.int8(x % 100), np.bool_(x % 2), x][x % 5]
        if kind == "tuple":
            return (x % 3, x % 1000)
        if kind == "zero":
            return [0, 0, 0.0, False, 1][x % 5]
        if kind == "deep":      # values that can be changed in place, of any depth and size
            return [[x % 3, x], {"a": x % 5, "b": [x]}, 2 ** 70 + x, b"%d" % x, -x, [], {}, (x, [x % 2]), "\u00fc%d" % x, 1e300 * (x % 7)][x % 10]
        return [x, "s%d" % (x % 9), x / 3.0, None, True, (x % 4, 1), -1, 0, ""][x % 9]
    f.kind = kind
    return f


def rule_state(rng, val):
    """a rule: pure function of its context, history dependent, or producing globally unique tokens"""
    salt = rng.getrandbits(30)
    mode = rng.choice(["pure", "pure", "neigh", "counter", "token", "copyback"])
    count = [0]

    def rule(ctx):
        count[0] += 1
        if mode == "token":
            return "%s|%s#%d" % (ctx.timestep, ctx.node_label, count[0])
        if mode == "counter":
            return val(h(salt, count[0]))
        if mode == "copyback":
            if ctx.neighbourhood_activities:
                return ctx.neighbourhood_activities[h(salt, ctx.timestep, repr(ctx.node_label)) %
                                                    len(ctx.neighbourhood_activities)]
            return ctx.current_activity
        nb = sorted(zip(map(repr, ctx.neighbour_labels), map(repr, ctx.neighbourhood_activities)))
        return val(h(salt, nb, repr(ctx.current_activity) if mode == "pure" else 0,
                     repr(ctx.input), repr(dict(ctx.past_activities[0])) if ctx.past_activities else 0))
    rule.mode = mode
    return rule


def topo_rule(rng, kind=None, remove_nodes=False):
    salt = rng.getrandbits(30)
    kind = kind or rng.choice(["identity", "inplace", "inplace", "rebuild", "weights", "drop", "rotate"])
    calls = [0]
    if remove_nodes and rng.random() < 0.08:
        kind = "vanish"         # no node is left from some step on

    def f(ctx):
        calls[0] += 1
        net = ctx.network
        nodes = list(net.nodes)
        x = h(salt, ctx.timestep, sorted((repr(a), repr(b)) for a, b in ctx.activities.items()), len(nodes), calls[0])
        if kind == "identity" or not nodes:
            return net
        if kind == "vanish":
            return ntm.Network() if x % 3 == 0 else net
        i, j = nodes[x % len(nodes)], nodes[(x >> 8) % len(nodes)]
        if kind == "inplace":
            net.add_edge(i, j, weight=x % 7)
            if x % 3 == 0:
                net.add_edge_bidir(j, i, t=ctx.timestep)
            if x % 5 == 0:
                es = list(net.edges)
                if es:
                    a, b, _ = es[(x >> 16) % len(es)]
                    net.remove_edge(a, b)
            if remove_nodes and x % 4 == 0 and len(nodes) > 2:
                net.remove_node(i)
            return net
        if kind == "drop":
            es = list(net.edges)
            if es:
                a, b, _ = es[(x >> 16) % len(es)]
                net.remove_edge(a, b)
            return net
        if kind == "weights":
            for a, b, _ in list(net.edges):
                net.update_edge(a, b, weight=(x + h(repr(a), repr(b))) % 11)
            return net
        new = ntm.Network()
        for n in nodes:
            new.add_node(n)
        if kind == "rotate":
            # an equal network, in another rotation at every step
            for a, b, attrs in net.edges:
                new.add_edge(a, b, **attrs)
            rot = {}
            for n in nodes:
                ins = sorted(new.in_edges(n), key=lambda l: h(x, repr(n), repr(l)))
                rot[n] = tuple(ins)
            new.rotation_system = rot
            return new
        for k in range(x % (2 * len(nodes) + 1)):
            y = h(x, k)
            new.add_edge(nodes[y % len(nodes)], nodes[(y >> 9) % len(nodes)], weight=y % 5)
        return new
    f.kind = kind
    return f


def pert_rule(rng, val):
    salt = rng.getrandbits(30)
    mode = rng.choice(["some", "all", "node", "stateful", "identity", "type", "none"])
    calls = [0]

    def f(p):
        calls[0] += 1
        x = h(salt, repr(p.node_label), p.timestep, repr(p.node_activity), repr(p.input),
              calls[0] if mode == "stateful" else 0)
        if mode == "identity":
            return p.node_activity
        if mode == "none":
            return None if x % 3 else [False, 0, "", 0.0][x % 4]
        if mode == "type":
            return "P%d" % (x % 1000)
        if mode == "all" or x % 3 == 0 or (mode == "node" and h(salt, repr(p.node_label)) % 2):
            return val(x) if mode != "all" else x
        return p.node_activity
    return f


def inputs(rng, labs, steps, intlab):
    """an input list or function; per-node sequences only when labels can index them"""
    def item(k):
        r = rng.random()
        if intlab and r < 0.55:
            seq = [rng.choice([0, 1, -3, 2.5, "x", None, (1, 2)]) for _ in labs]
            if rng.random() < 0.25:      # any sequence will do
                return rng.choice([range(k, k + len(labs)), range(5, 5 - len(labs), -1), collections.deque(seq), collections.UserList(seq),
                                   "abcdefghijklmnopqrstuvwxyz"[:len(labs)] if len(labs) <= 26 else seq, bytes(i % 250 for i in range(len(labs)))])
            return rng.choice([seq, tuple(seq)])
        if r < 0.8:
            return rng.choice([0, False, 1, -2, 0.0, 3.5, k, {"a": k}, {}])
        return {l: k for l in labs}
    items = [item(k) for k in range(steps)]
    if rng.random() < 0.5:
        return items
    stop = steps

    def fn(t, activities, network):
        if t > stop:
            return None
        if rng_free and activities and len(activities) % 2 == 0:
            return h(t, sorted(map(repr, activities.values())), len(list(network.edges))) % 97
        return items[t - 1]
    rng_free = rng.random() < 0.5
    return fn


def evolution(case, topo=None, order=None, pert=None, past=None, inp=None, nmax=6, storage=False, rotation=None,
              maxsteps=None, kind=None, val=None):
    """each feature: True, False, or None for a random choice"""
    rng = case.rng
    nmax = nmax * 2 if case.deep and rng.random() < 0.3 else nmax
    flag = lambda x, p=0.35: (rng.random() < p) if x is None else x
    net, ref, labs = gen.network(rng, nmax=nmax, kind=kind, isolated=rng.random() < 0.8)
    n = len(labs)
    labs = list(net.nodes)
    intlab = set(labs) == set(range(len(labs)))
    val = val or values(rng)
    steps = gen.steps(rng, 0, maxsteps or (12 if case.deep else 6))
    init = {l: val(h("init", i, rng.random())) for i, l in enumerate(labs)}
    # a mapping of initial conditions is stored as given, a list is converted
    init_map = {k: (v.item() if isinstance(v, np.generic) else v) for k, v in init.items()}
    if intlab and rng.random() < 0.6:
        init_arg = [init[i] for i in range(len(labs))]
        if val.kind in ("int", "small", "bit", "float") and rng.random() < 0.4:
            init_arg = np.array(init_arg)
    else:
        init_arg = init_map
    use_topo = flag(topo)
    kw = {}
    if use_topo:
        kw["topo"] = topo_rule(rng, remove_nodes=rng.random() < 0.4)
        kw["order"] = order or rng.choice([AF, TF, SY])
        kw["copy_network"] = rng.random() < 0.7
        kw["inplace"] = kw["topo"].kind in ("inplace", "weights", "drop")
        if kw["order"] is SY and kw["inplace"]:
            kw["copy_network"] = True
    else:
        kw["order"] = order or rng.choice([AF, AF, TF, SY])
    if flag(pert):
        kw["pert"] = pert_rule(rng, val)
    if flag(past, 0.3):
        k = gen.wide(rng, 1, 4, 40)
        conds = []
        for a in range(k):
            c = {l: val(h("past", a, i, rng.random())) for i, l in enumerate(labs)}
            c = {l: (v.item() if isinstance(v, np.generic) else v) for l, v in c.items()}
            if intlab and rng.random() < 0.6:
                c = [c[i] for i in range(len(labs))]
                conds.append(np.array(c) if val.kind in ("small", "bit", "float") and rng.random() < 0.3 else c)
            else:
                conds.append(c)
        if rng.random() < 0.1:       # nothing, or not everything, is known of some state
            at = rng.choice([0, rng.randrange(k)])
            conds[at] = rng.choice([{}, {l: 1 for l in labs[:1]}])
        kw["past"] = conds if rng.random() < 0.8 else tuple(conds)
    if flag(inp):
        kw["input"] = inputs(rng, labs, steps, intlab)
        if rng.random() < 0.4:
            kw["timesteps"] = rng.choice([0, 1, steps + 3, 2])
    else:
        kw["timesteps"] = steps + 1
    if flag(rotation, 0.0) and not use_topo:
        # any order of any selection of nodes
        rot = {}
        for l in labs:
            ins = list(net.in_edges(l))
            rng.shuffle(ins)
            if rng.random() < 0.15:      # some left out, some named again, some that are no neighbours
                ins = rng.sample(labs, rng.randint(0, len(labs)))
                ins += [rng.choice(labs) for _ in range(rng.randint(0, 2))]
            rot[l] = tuple(ins) if rng.random() < 0.7 else list(ins)
        net.rotation_system = rot
    if flag(storage, 0.5):
        kw["compression"] = rng.random() < 0.5
        kw["pa"] = rng.random() < 0.5
        kw["pn"] = rng.random() < 0.5
    evo = Evo(net, init_arg, rule=rule_state(rng, val), **kw)
    evo.labs, evo.val = labs, val
    if rng.random() < 0.5:
        evo.forms = rng.randrange(4096)
    if isinstance(init_arg, dict) and rng.random() < 0.2:
        evo.init = rng.choice([collections.OrderedDict(init_arg), collections.defaultdict(lambda: "missing", init_arg)])
    evo.describe = "n=%d edges=%d labels=%s steps=%d order=%s topo=%s pert=%s past=%s input=%s rule=%s values=%s copy=%s" % (
        len(labs), len(ref.edges), labs[:4], steps, evo.order.name, use_topo and kw["topo"].kind, "pert" in kw,
        len(kw.get("past", [])), type(kw.get("input")).__name__, evo.rule.mode, val.kind, evo.copy_network)
    return evo
