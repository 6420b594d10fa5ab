import collections
import itertools

import netomaton as ntm

from .. import evogen, gen
from ..core import Section
from ..model import h, net_dump, rot_dump
from ..trace import AF, SY, TF, judge

PROP = "C12"
RULE = ("random networks with arbitrary rotation systems (orders, selections, with or without the node, tuples or lists); every "
        "context's neighbour order observed over whole evolutions; invalid systems offered; distinct by rotation system and result")
NEED = {"evolve": ["contexts"], "validation": ["refusals"], "copies": ["copies"], "with_topology": ["contexts"],
        "topology_copy": ["contexts"]}


class Mine(dict):
    """a dictionary of the user's own"""


def rotations(rng, net, labs):
    rot = {}
    for l in labs:
        ins = list(net.in_edges(l))
        mode = rng.random()
        if mode < 0.6:
            seq = ins[:]
            rng.shuffle(seq)
        elif mode < 0.8:
            seq = rng.sample(labs, rng.randint(0, len(labs)))
            if seq and rng.random() < 0.5:      # neighbours named more than once, as on a torus of two rows
                seq += [rng.choice(seq) for _ in range(rng.randint(1, 3))]
                rng.shuffle(seq)
        else:
            seq = [x for x in ins if x != l]
            rng.shuffle(seq)
            if rng.random() < 0.5:
                seq.append(l)
        rot[l] = rng.choice([tuple, list])(seq)
    return rng.choice([dict, dict, dict, collections.OrderedDict, Mine])(rot)


def evolve(case):
    rng = case.rng
    evo = evogen.evolution(case, topo=False, storage=None)
    rot = rotations(rng, evo.net, evo.labs)
    evo.net.rotation_system = rot
    case.eq(rot_dump(evo.net), {k: tuple(v) for k, v in rot.items()}, "set", "rotation system as set")
    evo.run()
    judge(case, evo, ["C12"])
    case.eq(rot_dump(evo.net), {k: tuple(v) for k, v in rot.items()}, "kept", "rotation system after evolving")
    for i, s in enumerate(evo.traj):
        if s.network is not None and not evo.compression:
            case.eq(rot_dump(s.network), {k: tuple(v) for k, v in rot.items()}, "kept", "rotation system of state %d" % i)
        elif s.network is not None:
            r = rot_dump(s.network)
            if r is None:
                case.known("compressed-state-drops-rotation", "compressed state %d has no rotation system" % i)
            else:
                case.eq(r, {k: tuple(v) for k, v in rot.items()}, "kept", "rotation system of compressed state %d" % i)
    case.state(evo.describe, rot)
    case.sample("rotation %r" % (rot,))


def with_topology(case):
    """the system stays in force when a topology rule returns the same network (not copied) or sets it on what it returns"""
    rng = case.rng
    evo = evogen.evolution(case, topo=True)
    rot = rotations(rng, evo.net, evo.labs)
    evo.net.rotation_system = rot
    style = rng.choice(["same", "set", "change"])
    labs = evo.labs

    def topo(ctx):
        net = ctx.network
        if style == "same":
            return net
        if style == "set":
            net.rotation_system = rot
        else:
            net.rotation_system = {l: tuple(sorted(net.in_edges(l), key=lambda x: h(ctx.timestep, repr(x), repr(l)))) for l in labs}
        return net
    evo.topo = topo
    evo.copy_network = style != "same"
    evo.inplace = False
    if style == "change" and evo.order is SY:
        evo.copy_network = True
    evo.run()
    judge(case, evo, ["C12"])
    case.state(evo.describe, rot, style)


def topology_copy(case):
    """copy_network=True with a topology rule that keeps the network: the order should stay (listed finding: it is lost)"""
    rng = case.rng
    evo = evogen.evolution(case, topo=True, maxsteps=5)
    rot = {k: tuple(v) for k, v in rotations(rng, evo.net, evo.labs).items()}
    evo.net.rotation_system = rot
    evo.topo = lambda ctx: ctx.network
    evo.copy_network, evo.inplace = True, False
    evo.pert = None
    evo.run()
    lost_from = 1 if evo.order is TF else 2      # the first step computed on a copy
    for e in evo.mon.ev:
        if e["k"] != "act":
            continue
        case.event("contexts")
        n, t = e["n"], e["t"]
        if list(e["nl"]) == list(rot[n]):
            case.event("order-kept")
            continue
        case.check(t >= lost_from and list(e["nl"]) == list(evo.net0["in"][n]), "rotation-order",
                   lambda: "node %r at step %d sees %r, rotation system says %r" % (n, t, e["nl"], rot[n]))
        case.known("topology-rule-copy-drops-rotation", "node %r step %d sees %r instead of %r" % (n, t, e["nl"], rot[n]))
    case.state(evo.describe, rot)


def copies(case):
    rng = case.rng
    net, ref, labs = gen.network(rng)
    labs = list(net.nodes)
    rot = rotations(rng, net, labs)
    net.rotation_system = rot
    want = {k: tuple(v) for k, v in rot.items()}
    for route, c in (("copy", net.copy()), ("compress", ntm.Network.decompress(net.compress()))):
        r = rot_dump(c)
        if r is None:
            case.known("copy-drops-rotation", "%s() has no rotation system" % route)
        else:
            case.eq(r, want, "copied-rotation", "rotation system of the %s" % route)
        case.event("copies")
    case.eq(rot_dump(net), want, "kept", "original after copying")
    st = ntm.State(activities={l: 0 for l in labs}, network=net)
    case.eq(rot_dump(st.network), want, "kept", "rotation system in a plain state")
    case.state(rot)


def validation(case):
    rng = case.rng
    net, ref, labs = gen.network(rng)
    labs = list(net.nodes)
    case.check(ntm.Network().rotation_system is None and net.rotation_system is None, "initially-none", "")
    good = rotations(rng, net, labs)
    if rng.random() < 0.7:
        net.rotation_system = good
    before = rot_dump(net)
    bad = {k: list(v) for k, v in rotations(rng, net, labs).items()}
    where = rng.choice(["key", "value", "removed", "only", "stale", "stale"])
    stranger = rng.choice(["stranger", -999, ("no", "node")])
    if where == "key":
        bad[stranger] = [labs[0]]
    elif where == "value":
        l = rng.choice(labs)
        bad[l].insert(rng.randint(0, len(bad[l])), stranger)
    elif where == "only":
        bad = {stranger: []}
    elif where == "stale":
        # the system in force names a node that has been removed since: a new one may not
        extra = rng.choice([rng.choice(labs), "gone"]) if len(labs) > 1 else "gone"
        if extra == "gone":
            net.add_edge(extra, labs[0])
            labs = labs + [extra]
            net.rotation_system = rotations(rng, net, labs)
        net.remove_node(extra)
        labs = [l for l in labs if l != extra]
        before = rot_dump(net)
        bad = {k: list(v) for k, v in rotations(rng, net, labs).items()}
        bad[rng.choice(labs)].append(extra)
    else:
        extra = "gone"
        net.add_edge(extra, labs[0])
        net.remove_node(extra)
        bad[labs[0]].append(extra)

    def set_():
        net.rotation_system = bad
        return net.rotation_system
    case.raises(set_, "invalid-refused", "rotation system %r on nodes %r" % (bad, labs))
    case.eq(rot_dump(net), before, "previous-kept", "after a refused rotation system")
    case.event("refusals")
    good2 = rotations(rng, net, labs)
    net.rotation_system = good2
    case.eq(rot_dump(net), {k: tuple(v) for k, v in good2.items()}, "set", "replaced rotation system")
    case.state(bad, where)


SECTIONS = [Section("evolve", evolve, 1800, 36000), Section("with_topology", with_topology, 1200, 24000),
            Section("topology_copy", topology_copy, 450, 9000), Section("copies", copies, 600, 9000),
            Section("validation", validation, 900, 15000)]
