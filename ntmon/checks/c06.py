import numpy as np

import netomaton as ntm

from .. import demos, evogen, gen
from ..core import Section
from ..model import h, net_dump, same_net
from ..trace import AF, SY, TF
from ._memo import memo_system

PROP = "C06"
RULE = ("pure rules over colliding alphabets (multisets without, tuples with a rotation system, or custom keys) run with and "
        "without memoization on irregular networks; distinct by final activities; also all 256 elementary rules and demos")
NEED = {"default_keys": ["memo-hits"], "custom_key": ["memo-hits"], "elementary": ["memo-hits"], "number_kinds": ["values"]}


def _acts(traj):
    return [s.activities for s in traj]


def number_kinds(case):
    """what rules return may be numpy's numbers: memoized or not, the states hold the same values of the same types"""
    rng = case.rng
    net, labs, rule, init, calls, pick, ordered = memo_system(case, alphabet=list(range(rng.choice([2, 3, 5]))))
    kind = rng.choice([np.int64, np.int8, np.float64, np.float32, np.bool_, float, bool])
    fn = lambda ctx: kind(rule(ctx))
    init = {l: kind(v) for l, v in init.items()}
    T = gen.steps(rng, 2, 7)
    kw = {"perturbation": lambda p: p.node_activity} if rng.random() < 0.2 else {}
    a, b = [_acts(ntm.evolve(net, initial_conditions=dict(init), activity_rule=fn, timesteps=T, memoize=memo, **kw)) for memo in (False, True)]
    case.eq(b, a, "memoized-states", "numbers of numpy")
    case.eq([[(k, type(v).__name__) for k, v in s.items()] for s in b], [[(k, type(v).__name__) for k, v in s.items()] for s in a],
            "memoized-states", "types of the values")
    case.event("values", sum(map(len, b)))
    case.state(ordered, T, repr(b[-1]))


def default_keys(case):
    rng = case.rng
    net, labs, rule, init, calls, pick, ordered = memo_system(case)
    T = gen.steps(rng, 1, 8)
    kw = {}
    salt = rng.getrandbits(20)
    if rng.random() < 0.3:
        kw["input"] = [rng.choice([0, 1, 2.5]) for _ in range(T)]
    else:
        kw["timesteps"] = T
    use_topo = rng.random() < 0.3
    if use_topo:
        def topo(ctx):
            # keeps the rotation system meaningful: reweights edges, or adds an edge when there is no rotation system
            n = ctx.network
            nodes = list(n.nodes)
            x = h(salt, ctx.timestep, sorted((repr(a), repr(b)) for a, b in ctx.activities.items()))
            if not ordered and nodes:
                n.add_edge(nodes[x % len(nodes)], nodes[(x >> 7) % len(nodes)])
            return n
        kw["topology_rule"] = topo
        kw["update_order"] = rng.choice([AF, TF, SY])
    if ordered and use_topo:
        kw["copy_network"] = False
    if rng.random() < 0.3:
        kw["compression"] = True
    out = []
    for memo in (False, True):
        del calls[:]
        traj = ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, memoize=memo, **kw)
        out.append((_acts(traj), [net_dump(s.network) for s in traj], list(calls)))
    case.eq(out[1][0], out[0][0], "memoized-states", "ordered=%s %s" % (ordered, kw))
    case.check(all(same_net(a, b) for a, b in zip(out[0][1], out[1][1])), "memoized-networks", "networks differ")
    c = out[1][2]
    if not use_topo:
        case.check(len(set(map(repr, c))) == len(c), "once-per-key", lambda: "rule consulted again for %r" %
                   [x for x in c if c.count(x) > 1][:3])
    case.event("memo-hits", len(out[0][2]) - len(c))
    case.event("rule-calls", len(c))
    # nothing is remembered between evolutions: the same again, and a different rule over the same network
    del calls[:]
    ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, memoize=True, **kw)
    case.eq(sorted(map(repr, calls)), sorted(map(repr, c)), "no-memory-between-runs", "second memoized evolution")
    salt2 = rng.getrandbits(20)
    if ordered:
        other = lambda ctx: pick(h(salt2, tuple(ctx.neighbourhood_activities)))
    else:
        other = lambda ctx: pick(h(salt2, sorted(map(repr, ctx.neighbourhood_activities))))
    a = _acts(ntm.evolve(net, initial_conditions=dict(init), activity_rule=other, memoize=True, **kw))
    b = _acts(ntm.evolve(net, initial_conditions=dict(init), activity_rule=other, **kw))
    case.eq(a, b, "no-memory-between-runs", "another rule after a memoized evolution")
    case.state(ordered, T, sorted(map(repr, out[0][0][-1].items())), len(c))
    case.sample("ordered=%s n=%d T=%d options=%s rule calls %d -> %d" % (ordered, len(labs), T, sorted(kw),
                                                                       len(out[0][2]), len(c)))


def custom_key(case):
    """user-supplied key: the rule may depend on anything the key captures (node, time, input, past, own state)"""
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=7)
    labs = list(net.nodes)
    salt = rng.getrandbits(30)
    what = rng.sample(["label", "time", "current", "input", "degree", "past"], rng.randint(1, 4))
    k = rng.choice([2, 3])
    past = None
    if "past" in what:
        past = [{l: rng.randrange(k) for l in labs}]

    def capture(ctx):
        return tuple({"label": ctx.node_label, "time": ctx.timestep, "current": ctx.current_activity, "input": ctx.input,
                      "degree": len(ctx.neighbour_labels),
                      "past": ctx.past_activity_of(ctx.node_label) if past else None}[w] for w in what)

    class Key(ntm.MemoizationKey):
        def to_key(self, ctx):
            return capture(ctx)
    calls = []

    def rule(ctx):
        calls.append(capture(ctx))
        return h(salt, repr(capture(ctx))) % k
    T = gen.steps(rng, 1, 8)
    kw = {"input": [rng.choice([0, 1]) for _ in range(T)]} if rng.random() < 0.5 else {"timesteps": T}
    if rng.random() < 0.3:
        net.rotation_system = {l: tuple(net.in_edges(l)) for l in labs}
    init = {l: rng.randrange(k) for l in labs}
    out = []
    mine = Key()
    for memo in (False, True):
        del calls[:]
        traj = ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, memoize=memo, past_conditions=past,
                          memoization_key=mine, **kw)
        out.append((_acts(traj), list(calls)))
    case.eq(out[1][0], out[0][0], "memoized-states", "custom key on %s" % what)
    c = out[1][1]
    case.eq(len(set(c)), len(c), "once-per-key", "rule calls per key, key on %s" % what)
    case.eq(set(c), set(out[0][1]), "once-per-key", "keys consulted")
    case.event("memo-hits", len(out[0][1]) - len(c))
    # the key object serves another rule, over the same network or another one
    salt = rng.getrandbits(30)
    net2 = net
    if rng.random() < 0.5:
        net2, _, more = gen.network(rng, nmax=7)
        init, past = {l: rng.randrange(k) for l in net2.nodes}, [{l: rng.randrange(k) for l in net2.nodes}] if past else None
    a, b = [_acts(ntm.evolve(net2, initial_conditions=dict(init), activity_rule=rule, memoize=memo, past_conditions=past, memoization_key=mine, **kw))
            for memo in (True, False)]
    case.eq(a, b, "no-memory-between-runs", "another rule with the same key object, key on %s" % what)
    case.state(what, T, sorted(map(repr, out[0][0][-1].items())))


def elementary(case):
    rng = case.rng
    r = case.idx % 256
    n = rng.randint(5, 40)
    net = ntm.topology.cellular_automaton(n, r=rng.choice([1, 1, 2]))
    init = [rng.randint(0, 1) for _ in range(n)]
    fn = rng.choice([ntm.rules.nks_ca_rule, ntm.rules.binary_ca_rule])(r)
    count = [0]

    def rule(ctx):
        count[0] += 1
        return fn(ctx)
    T = gen.steps(rng, 2, 20)
    a = _acts(ntm.evolve(net, initial_conditions=init, activity_rule=rule, timesteps=T))
    c0, count[0] = count[0], 0
    b = _acts(ntm.evolve(net, initial_conditions=init, activity_rule=rule, timesteps=T, memoize=True))
    case.eq(b, a, "memoized-states", "rule %d" % r)
    case.event("memo-hits", c0 - count[0])
    case.state(r, n, str(a[-1]))


def many_keys(case):
    """thousands of different neighbourhoods, all of which come again"""
    rng = case.rng
    n = [700, 2600, 5200, 11000, 1300, 4200, 66000, 17000][case.idx % 8] + rng.randint(0, 60)
    size = n * 2
    net = gen.build([("add_node", (i,), {}) for i in range(n)] + [("add_edge", ((i - 1) % n, i), {}) for i in range(n)])[0]
    mul, add = rng.choice([1, 3, 7, 11, 13]), rng.randrange(size)
    vals = rng.sample(range(size), n)
    count = [0]
    kw = {}
    if rng.random() < 0.3:
        net.rotation_system = {i: ((i - 1) % n,) for i in range(n)}
    if rng.random() < 0.3:
        class Key(ntm.MemoizationKey):
            def to_key(self, ctx):
                return ctx.neighbourhood_activities[0]
        kw["memoization_key"] = Key()

    def rule(ctx):
        count[0] += 1
        # most steps keep the values, so what comes again does so in full
        return ctx.neighbourhood_activities[0]

    def mixing(ctx):
        count[0] += 1
        return (ctx.neighbourhood_activities[0] * mul + add) % size
    fn = rng.choice([rule, mixing])
    T = 3 if n > 10000 else 5
    a = ntm.evolve(net, initial_conditions=vals, activity_rule=fn, timesteps=T, memoize=False)
    c0, count[0] = count[0], 0
    b = ntm.evolve(net, initial_conditions=vals, activity_rule=fn, timesteps=T, memoize=True, **kw)
    case.eq(len(a), len(b), "memoized-states", "length")
    for t in range(T):
        case.check(a[t].activities == b[t].activities, "memoized-states", lambda: "%d values, step %d: %s" % (
            n, t, [(i, a[t].activities[i], b[t].activities[i]) for i in range(n) if a[t].activities[i] != b[t].activities[i]][:3]))
    seen = {v for s in a[:-1] for v in s.activities.values()}
    case.eq(count[0], len(seen), "once-per-key", "rule calls for %d neighbourhoods" % len(seen))
    case.event("memo-hits", c0 - count[0])
    case.event("most-keys-%d" % (10 ** len(str(len(seen)))))
    case.state(n, mul, add, fn is rule)


def demo(case):
    """demos that ask for memoization, and the memoizable rest, with and without it"""
    def on_evolve(case, evo, memoize, key):
        if not memoize:
            evo.run()
            return
        import numpy as np
        a = [s.activities for s in evo.run()]
        kw = evo.kwargs()
        kw.update(memoize=True, memoization_key=key)
        b = [s.activities for s in ntm.evolve(**kw)]
        case.eq(b, a, "memoized-states", "demo")
        case.event("memoized-demos")
    demos.run_demo(case, demos.THOROUGH[case.idx], ["C06"], on_evolve)


SECTIONS = [Section("default_keys", default_keys, 2100, 45000), Section("custom_key", custom_key, 1200, 24000),
            Section("number_kinds", number_kinds, 300, 6000),
            Section("many_keys", many_keys, 8, 120), Section("elementary", elementary, 256, 1024),
            Section("demos", demo, 0, len(demos.THOROUGH), timeout=100)]
