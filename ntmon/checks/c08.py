import copy

import numpy as np

import netomaton as ntm

from .. import evogen, gen
from ..core import Section
from ..model import RefNet, h, net_diff, net_dump, norm, same, same_net
from ..trace import AF, SY, TF, Monitor, judge

PROP = "C08"
RULE = ("each random system is evolved under all 8 storage option combinations and the full traces and stored states compared "
        "(types included); states with arbitrary nested values are stored and read back; distinct by content")
NEED = {"options": ["combinations"], "roundtrip": ["states-read-back"], "large": ["states-read-back"]}


def options(case):
    rng = case.rng
    evo = evogen.evolution(case, storage=False, maxsteps=5)
    # rules must be repeatable to be run eight times: rebuild them from a private seed each time
    seed = rng.getrandbits(60)
    base = None
    kind = evo.topo.kind if evo.topo else None
    initial = copy.deepcopy(evo.init)
    net0 = net_dump(evo.net)
    import random as _r
    combos = [(c, a, n) for c in (False, True) for a in (True, False) for n in (True, False)]
    for c, a, n in combos:
        evo.compression, evo.pa, evo.pn = c, a, n
        rr = _r.Random(seed)
        val = evogen.values(rr, evo.val.kind)
        evo.rule = evogen.rule_state(rr, val)
        if kind:
            evo.topo = evogen.topo_rule(rr, kind)
        if evo.pert:
            evo.pert = evogen.pert_rule(rr, val)
        if (evo.inplace and not evo.copy_network):
            evo.net, evo.init = gen_net(net0), copy.deepcopy(initial)
        traj = evo.run()
        if not judge(case, evo, ["C08"]):
            return
        trace = [(e["k"], e["t"], repr(e.get("n")), repr(e.get("act")), repr(e.get("past")), repr(e.get("r")))
                 for e in evo.mon.ev]
        stored = [(s.activities, None if s.network is None else net_dump(s.network)) for s in traj]
        if base is None:
            base = (trace, stored)
        else:
            case.check(trace == base[0], "dynamics-unaffected", lambda: "compression=%s persist_activities=%s "
                       "persist_network=%s: callbacks saw %r, with full storage %r" % (
                           (c, a, n) + next(((x, y) for x, y in zip(trace, base[0]) if x != y), (len(trace), len(base[0])))))
            for i, (s, full) in enumerate(zip(stored, base[1])):
                if a or i == 0:
                    case.check(same_map(s[0], full[0]), "reads-back-equal", lambda: "state %d activities %r, uncompressed %r" %
                               (i, s[0], full[0]))
                if (n or i == 0) and full[1] is not None and not (evo.inplace and not evo.copy_network):
                    case.check(s[1] is not None and same_net(s[1], full[1], strict=True), "reads-back-equal",
                               lambda: "state %d network: %s" % (i, s[1] and net_diff(s[1], full[1])))
        case.event("combinations")
    case.state(evo.describe, str(base[1][-1][0]))
    case.sample(evo.describe)


def gen_net(d):
    net = ntm.Network()
    for n in d["nodes"]:
        net.add_node(n, **d["attrs"][n])
    for j in d["nodes"]:
        for i, aa in d["in"][j].items():
            for a in aa:
                net.add_edge(i, j, **copy.deepcopy(a))
    return net


def same_map(a, b):
    return (a is None and b is None) or (a is not None and b is not None and same(plain(a), plain(b)))


def plain(m):
    """numeric-library scalars (which a perturbation may return and which are stored as they are) by value"""
    return {k: norm(v) for k, v in m.items()}


def value(rng, depth=0):
    r = rng.random()
    if r < 0.15:
        return rng.choice([0, 1, -1, 255, 256, 2 ** 31, -2 ** 31, 2 ** 63, 2 ** 64 - 1, 2 ** 64, -2 ** 63, -2 ** 63 - 1, 10 ** 30])
    if r < 0.3:
        return rng.choice([0.0, -0.0, 1.5, 1e308, 5e-324, float("inf"), float("-inf"), 0.1, float("nan")])
    if r < 0.45:
        return rng.choice(["", "a", "ü€𝄞", "x" * 300, "0", "\x00"])
    if r < 0.6:
        return rng.choice([True, False, None])
    if r < 0.68:
        return rng.choice([b"", b"\x00\xff", b"q" * 300])
    if depth > 2:
        return rng.randint(-1000, 1000)
    if r < 0.78:
        return tuple(value(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    if r < 0.9:
        return [value(rng, depth + 1) for _ in range(rng.choice([0, 1, 2, 3, 20]))]
    return {key(rng, depth + 1): value(rng, depth + 1) for _ in range(rng.randint(0, 4))}


def key(rng, depth=0):
    r = rng.random()
    if r < 0.4:
        return rng.choice([0, 1, -5, 2 ** 40, 2 ** 63, -2 ** 63, 2 ** 65, rng.randint(-10 ** 6, 10 ** 6)])
    if r < 0.7:
        return rng.choice(["", "a", "node 1", "é", "n%d" % rng.randint(0, 99)])
    if r < 0.75:
        return rng.choice([0.5, -1.25])
    if r < 0.95 and depth < 2:
        return tuple(key(rng, depth + 1) for _ in range(rng.randint(0, 3)))
    return rng.choice([b"x", None, 7])


def npvalue(rng, v):
    """a numeric-library counterpart and what it is documented to become"""
    if type(v) is int and abs(v) < 100:
        t = rng.choice([np.int64, np.int8, np.float64, np.float32, np.int32])
        return t(v), t(v).item()
    if type(v) is bool:
        return np.bool_(v), v
    if type(v) is float:
        return np.float64(v), v
    return v, v


def roundtrip(case):
    """a State built from arbitrary activities and network reads back equal, in value, type and order"""
    rng = case.rng
    labs = []
    while len(labs) < rng.randint(1, 7):
        k = key(rng)
        if k not in labs:
            labs.append(k)
    acts, want = {}, {}
    for l in labs:
        acts[l], want[l] = npvalue(rng, value(rng)) if rng.random() < 0.3 else (lambda v: (v, copy.deepcopy(v)))(value(rng))
    net = ntm.Network()
    wantnet = {"nodes": list(labs), "in": {l: {} for l in labs}, "attrs": {}}
    for l in labs:
        a = {"attr%d" % i: value(rng) for i in range(rng.choice([0, 0, 1, 2]))}
        net.add_node(l, **a)
        wantnet["attrs"][l] = copy.deepcopy(a)
    for _ in range(rng.randint(0, 12)):
        i, j = rng.choice(labs), rng.choice(labs)
        a = {"w%d" % q: value(rng) for q in range(rng.choice([0, 1, 2]))}
        wa = copy.deepcopy(a)
        if rng.random() < 0.3:
            v, w = npvalue(rng, rng.choice([1, 2.5, True, -7]))
            a["np"], wa["np"] = v, w
        net.add_edge(i, j, **a)
        wantnet["in"][j].setdefault(i, []).append(wa)
    st = ntm.State(activities=acts, network=net, compression=True)
    for rep in range(2):
        got = st.activities
        case.check(same(got, want), "reads-back-equal", lambda: "activities %r became %r" % (want, got))
        d = net_dump(st.network)
        case.check(same_net(d, wantnet, strict=True), "reads-back-equal", lambda: "network: " + net_diff(d, wantnet))
        case.eq(list(map(repr, d["nodes"])), list(map(repr, labs)), "node-order", "order of nodes after compression")
        # what was read is private to the reader
        got.clear()
        n2 = st.network
        n2.add_edge("other", labs[0])
        case.event("states-read-back")
    d = [(repr(n), st.network.in_degree(n), st.network.out_degree(n)) for n in labs]
    case.eq(d, [(repr(n), net.in_degree(n), net.out_degree(n)) for n in labs], "degrees", "degrees after compression")
    # a state's contents can be replaced
    st.activities = {labs[0]: 1}
    case.eq(st.activities, {labs[0]: 1}, "reads-back-equal", "replaced activities")
    plain = ntm.State(activities=want, network=net)
    case.check(plain.activities is want and plain.network is net, "uncompressed-plain", "plain state")
    empty = ntm.State()
    case.check(empty.activities is None and empty.network is None, "state-absent", "empty state")
    case.state(sorted(map(repr, want.items())), len(list(net.edges)))
    case.sample("labels %r activities %r" % (labs[:3], list(want.values())[:3]))


def wide(case):
    """mappings whose compressed form takes tens of thousands of bytes, under any labels and in any order"""
    rng = case.rng
    n = rng.choice([9000, 15000])
    label = rng.choice([lambda i: i * 2, lambda i: "node %d" % i, lambda i: (i // 100, i % 100), lambda i: -i, lambda i: i / 4])
    labs = [label(i) for i in range(n)]
    if rng.random() < 0.7:
        rng.shuffle(labs)
    acts = {l: rng.choice([rng.getrandbits(60), "%x" % rng.getrandbits(70), rng.random()]) for l in labs}
    want = dict(acts)
    st = ntm.State(activities=acts, compression=True)
    for rep in range(2):
        got = st.activities
        case.check(got == want and {(type(l), l) for l in got} == {(type(l), l) for l in want}, "reads-back-equal",
                   "%d activities of labels such as %r", n, labs[:2])
        got.clear()
        case.event("states-read-back")
    case.state(n, labs[:3])


def large(case):
    """thousands of activities and nodes: read back equal, and no longer tied to what was put in"""
    rng = case.rng
    n = rng.choice([1000, 3000, 6000, 12000])
    acts = {i: rng.choice([i, -i, "s%d" % i, (i, 1), i / 3, None, [i]]) for i in range(n)}
    want = copy.deepcopy(acts)
    net = ntm.Network(n)
    for i in range(n):
        net.add_edge(i, (i * 7 + 1) % n, w=i)
    dump = net_dump(net)
    st = ntm.State(activities=acts, network=net, compression=True)
    if rng.random() < 0.7:      # what was put in is altered later
        acts[0] = "other"
        acts[n - 1] = "other"
        net.add_edge(0, 2, w="other")
        net.update_edge(0, 1, w="other")
    for rep in range(2):
        got = st.activities
        case.check(same(got, want), "reads-back-equal", "%d activities", n)
        got[1] = "mine"
        d = st.network
        case.check(same_net(net_dump(d), dump, strict=True), "reads-back-equal", "network of %d nodes", n)
        d.remove_edge(0, 1)
        case.event("states-read-back")
    # and an evolution of that many, stored either way
    rows = [[h(t, i) % 1000 for i in range(n)] for t in range(3)]
    alone = ntm.Network(n)
    for c, a, k in ((False, True, True), (True, True, False), (True, True, True)):
        traj = ntm.evolve(alone, initial_conditions=list(rows[0]), activity_rule=lambda ctx: rows[ctx.timestep][ctx.node_label], timesteps=3,
                          compression=c, persist_activities=a, persist_network=k)
        for t in range(3):
            got = traj[t].activities if a or not t else None
            case.check((got and [got[i] for i in range(n)]) == (rows[t] if a or not t else None), "reads-back-equal", "step %d of %d nodes, compression=%s", t, n, c)
            case.check(traj[t].network is None if t and not k else len(traj[t].network) == n,
                       "reads-back-equal", "network at step %d of %d nodes, compression=%s", t, n, c)
    case.state(n, rows[2][:20])


SECTIONS = [Section("large", large, 5, 60), Section("wide", wide, 8, 120), Section("options", options, 1000, 15000), Section("roundtrip", roundtrip, 2400, 45000)]
