import copy

import numpy as np

import netomaton as ntm

from .. import evogen, gen
from ..core import Section
from ..model import h, net_diff, net_dump, same, same_net
from ..trace import AF, SY, TF, as_map, judge

PROP = "C07"
RULE = ("random evolutions with in-place editing topology rules, node additions/removals and all options; inputs snapshotted "
        "before and compared after; every state snapshotted when first observable and compared at the end; distinct by final state")
NEED = {"random": ["inputs-compared", "traces"], "edits": ["post-edits"], "nested": ["values-edited"]}


def random_(case):
    rng = case.rng
    evo = evogen.evolution(case, storage=None, rotation=rng.random() < 0.25)
    evo.copy_network = True
    evo.inplace = False
    before = (net_dump(evo.net), repr(evo.net.rotation_system), copy.deepcopy(evo.init), copy.deepcopy(evo.past),
              None if callable(evo.input) else copy.deepcopy(evo.input))
    evo.run()
    case.check(same_net(net_dump(evo.net), before[0]), "network-untouched",
               lambda: "the caller's network changed: " + net_diff(net_dump(evo.net), before[0]))
    case.eq(repr(evo.net.rotation_system), before[1], "network-untouched", "rotation system")
    case.check(list(map(repr, as_map(evo.init).items())) == list(map(repr, as_map(before[2]).items())) and
               type(evo.init) is type(before[2]), "initial-conditions-untouched", "%r was %r" % (evo.init, before[2]))
    case.check(repr(evo.past) == repr(before[3]), "past-conditions-untouched", "%r was %r" % (evo.past, before[3]))
    if not callable(evo.input):
        case.check(repr(evo.input) == repr(before[4]), "input-untouched", "%r was %r" % (evo.input, before[4]))
    case.event("inputs-compared")
    judge(case, evo, ["C07"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())))
    case.sample(evo.describe)


def nodes(case):
    """rules adding and removing nodes never edit the caller's network or an earlier state"""
    from .c09 import build_case
    evo = build_case(case)
    evo.copy_network = True
    evo.inplace = False
    before = net_dump(evo.net)
    init = copy.deepcopy(evo.init)
    evo.run()
    case.check(same_net(net_dump(evo.net), before), "network-untouched",
               lambda: "the caller's network changed: " + net_diff(net_dump(evo.net), before))
    case.check(repr(evo.init) == repr(init), "initial-conditions-untouched", "%r was %r" % (evo.init, init))
    case.event("inputs-compared")
    judge(case, evo, ["C07"])
    case.state(evo.describe, len(evo.traj))


def no_copy_without_rule(case):
    """even with copy_network=False nothing is edited when no topology rule is given, or when it edits nothing"""
    evo = evogen.evolution(case, topo=False, storage=None)
    evo.copy_network = False
    before = net_dump(evo.net)
    evo.run()
    case.check(same_net(net_dump(evo.net), before), "network-untouched", "network changed")
    judge(case, evo, ["C07"])
    case.event("inputs-compared")
    case.state(evo.describe)


def edits(case):
    """editing one recorded state's network afterwards shows in no other state whose network differs in time, and not in the
    caller's network, when a topology rule produced it"""
    rng = case.rng
    evo = evogen.evolution(case, topo=True, maxsteps=6)
    evo.topo = evogen.topo_rule(rng, rng.choice(["inplace", "weights", "rebuild", "drop"]))
    evo.copy_network, evo.inplace, evo.pn = True, False, True
    evo.compression = rng.random() < 0.3
    traj = evo.run()
    dumps = [net_dump(s.network) for s in traj]
    caller = net_dump(evo.net)
    order = list(range(1, len(traj)))
    rng.shuffle(order)
    for i in order[:3]:
        net = traj[i].network
        ns = list(net.nodes)
        net.add_node("zz-new", mark=[1])
        net.add_edge("zz-new", ns[0], w=1)
        for a, b, _ in list(net.edges):
            net.update_edge(a, b, edited=True)
        if len(ns) > 1:
            net.remove_node(ns[-1])
        for k in range(len(traj)):
            if k != i:
                d = net_dump(traj[k].network)
                if k in edited:
                    continue
                case.check(same_net(d, dumps[k]), "states-independent",
                           lambda: "editing state %d's network changed state %d: %s" % (i, k, net_diff(d, dumps[k])))
        case.check(same_net(net_dump(evo.net), caller), "states-independent", "editing a state changed the caller's network")
        edited.add(i)
        case.event("post-edits")
    edited.clear()
    case.state(evo.describe, order)


edited = set()


def online(case):
    """states are compared at every later step while the evolution runs, not only at the end"""
    rng = case.rng
    evo = evogen.evolution(case, topo=True, inp=False, pert=None, past=None, maxsteps=6)
    evo.copy_network, evo.inplace = True, False
    held = []        # (timestep, live activities mapping, snapshot)
    nets = []
    orig = evo.rule
    otopo = evo.topo

    def recheck(t):
        for t0, live, snap in held:
            case.check(dict(live) == snap, "history-immutable", lambda: "at step %d the activities of step %d became %r, were %r" %
                       (t, t0, dict(live), snap))
        for t0, live, snap in nets:
            case.check(same_net(net_dump(live), snap), "history-immutable",
                       lambda: "at step %d the network returned at step %d changed: %s" % (t, t0, net_diff(net_dump(live), snap)))
        case.event("online-rechecks", len(held) + len(nets))

    def rule(ctx):
        if not held or held[-1][0] != ctx.timestep:
            recheck(ctx.timestep)
            held.append((ctx.timestep, ctx.activities, dict(ctx.activities)))
        return orig(ctx)

    def topo(ctx):
        recheck(ctx.timestep)
        r = otopo(ctx)
        nets.append((ctx.timestep, r, net_dump(r)))
        return r
    evo.rule, evo.topo = rule, topo
    evo.rule.mode = orig.mode
    evo.topo.kind = otopo.kind
    if otopo.kind == "identity":
        evo.topo.kind = "identity"
    evo.run()
    recheck("end")
    case.state(evo.describe, len(held))


def nested(case):
    """topology rules that change the values in edge attributes in place: lists, dictionaries, at any depth"""
    rng = case.rng
    net, ref, labs = gen.network(rng)
    labs = list(net.nodes)
    fresh = lambda: rng.choice([[1, [2]], {"a": [1], "b": {"c": 0}}, [], {}, [{}, [[]]]])
    pairs = []
    for _ in range(rng.randint(1, 5)):
        a, b = rng.choice(labs), rng.choice(labs)
        net.add_edge(a, b, data=fresh(), more=[fresh()])
        pairs.append((a, b))

    def edit(v, x):
        if isinstance(v, list):
            deeper = [i for i in v if isinstance(i, (list, dict))]
            edit(deeper[0], x) if deeper and x % 3 else v.append(x)
        else:
            deeper = [i for i in v.values() if isinstance(i, (list, dict))]
            edit(deeper[0], x) if deeper and x % 3 else v.update({"t%d" % (x % 5): x})
    seen = []
    salt = rng.getrandbits(20)

    def topo(ctx):
        for a, b in pairs:
            for k, e in enumerate(ctx.network.edge(a, b)):
                for name in ("data", "more"):
                    if name in e:
                        edit(e[name], h(salt, ctx.timestep, k, name) % 1000)
                        case.event("values-edited")
        if ctx.timestep % 3 == 2 and rng.random() < 0.5:
            ctx.network.add_edge(rng.choice(labs), rng.choice(labs), w=1)
        seen.append(copy.deepcopy(net_dump(ctx.network)))
        return ctx.network
    start = copy.deepcopy(net_dump(net))
    init = {l: k for k, l in enumerate(labs)}
    order = rng.choice([AF, TF, SY])
    T = gen.steps(rng, 2, 6)
    traj = ntm.evolve(net, initial_conditions=init, activity_rule=lambda ctx: ctx.current_activity, topology_rule=topo, timesteps=T,
                      update_order=order, compression=rng.random() < 0.3)
    what = "nested attributes edited in place on %r, %d timesteps, %s" % (pairs, T, order)
    case.check(same_net(net_dump(net), start), "network-untouched", lambda: what + ": " + net_diff(net_dump(net), start))
    for t, want in enumerate([start] + seen):
        got = net_dump(traj[t].network)
        case.check(same_net(got, want), "history-immutable", lambda: "%s: state %d: %s" % (what, t, net_diff(got, want)))
    case.event("inputs-compared")
    case.state(what, repr(seen[-1:]))


SECTIONS = [Section("nested", nested, 500, 8000), Section("random", random_, 2400, 36000), Section("nodes", nodes, 1200, 18000),
            Section("no_copy_without_rule", no_copy_without_rule, 600, 9000), Section("edits", edits, 1000, 15000),
            Section("online", online, 1000, 15000)]
