import numpy as np

import netomaton as ntm

from .. import gen
from ..company import amid
from ..core import Section
from ..model import h

PROP = "C18"
RULE = ("wrapped rules that record every invocation, on random networks with random update orders (permutations, subsets, any "
        "labels), fixed, drawn or re-drawn; whole histories compared turn by turn; distinct by order and history")
NEED = {"fixed": ["turns"], "drawn": ["turns"], "redrawn": ["turns"], "redrawn_listed": ["turns"], "refusal": ["refusals"]}


def setup(case, kind=None):
    rng = case.rng
    if case.idx % 60 == 59:
        # many nodes: longer than any small fixed capacity
        labs = gen.labels(rng, rng.choice([33, 65, 70, 97]), kind)
        net = ntm.Network()
        for l in dict.fromkeys(labs):
            net.add_edge(l, rng.choice(labs))
        ref = None
    else:
        net, ref, labs = gen.network(rng, nmax=10 if case.deep else 7, kind=kind, isolated=rng.random() < 0.7)
    labs = list(net.nodes)
    calls = []
    base = gen.hash_rule(rng.getrandbits(30), 10 ** 6)
    odd = rng.random() < 0.25
    strange = [None, 0, False, "", (), "a", -1, 0.0, (1, None)]

    def wrapped(ctx):
        v = base(ctx)
        v = strange[v % len(strange)] if odd else v
        calls.append((ctx.timestep, ctx.node_label, ctx.current_activity, v))
        return v
    init = {l: rng.choice(strange) if odd else rng.randrange(100) for l in labs}
    return net, ref, labs, wrapped, init, calls


def judge(case, traj, calls, labs, T):
    """one invocation per step, of a node whose activity becomes the result; every other node keeps its activity"""
    case.eq([c[0] for c in calls], list(range(1, T + 1)), "one-invocation-per-step", "timesteps of the invocations")
    turns = []
    for (t, node, cur, v) in calls:
        prev, now = traj[t - 1].activities, traj[t].activities
        case.eq(cur, prev[node], "current-state", "node %r step %d" % (node, t))
        case.eq(now, {**prev, node: v}, "others-keep", "step %d, turn of %r" % (t, node))
        turns.append(node)
        case.event("turns")
    return turns


def fixed(case):
    rng = case.rng
    net, ref, labs, wrapped, init, calls = setup(case)
    order = rng.sample(labs, rng.randint(1, len(labs)))
    if rng.random() < 0.3:      # some nodes get several turns per cycle
        order += [rng.choice(order) for _ in range(rng.randint(1, 4))]
        rng.shuffle(order)
    kw = {}
    if rng.random() < 0.4:
        kw["randomize_each_cycle"] = False
    arg = rng.choice([list, tuple])(order)
    if labs == list(range(len(labs))) and rng.random() < 0.4:
        a = rng.randrange(len(labs))
        b = rng.randint(a + 1, len(labs))
        arg = rng.choice([range(a, b), np.arange(a, b)])
        order = list(range(a, b))
    if rng.random() < 0.2:
        kw["n"] = len(labs)
    rule = ntm.AsynchronousRule(wrapped, update_order=arg, **kw)
    T = rng.randint(1, 3 * len(order) + 3)
    traj = ntm.evolve(net, initial_conditions=init, activity_rule=amid(case, "AsynchronousRule", rule), timesteps=T + 1)
    turns = judge(case, traj, calls, labs, T)
    case.eq(turns, [order[(t - 1) % len(order)] for t in range(1, T + 1)], "cyclic-order", "order %r" % (arg,))
    for l in labs:
        if l not in order:
            case.check(all(s.activities[l] == init[l] for s in traj), "unlisted-never", lambda: "node %r changed" % (l,))
    case.eq(list(arg), order, "order-kept", "the update order handed in")
    case.state(order, T, repr(traj[-1].activities))
    case.sample("order %r, %d steps on %r" % (order, T, labs))


def drawn(case):
    """only n given: one random permutation of 0..n-1, then cyclic"""
    rng = case.rng
    net, ref, labs, wrapped, init, calls = setup(case, kind="int")
    n = len(labs)
    seed = rng.getrandbits(30)
    T = rng.randint(n, 4 * n)
    runs = []
    for _ in range(2):
        del calls[:]
        np.random.seed(seed)
        rule = ntm.AsynchronousRule(activity_rule=wrapped, n=n)
        traj = ntm.evolve(net, initial_conditions=init, activity_rule=amid(case, "AsynchronousRule", rule), timesteps=T + 1)
        turns = judge(case, traj, calls, labs, T)
        case.eq(sorted(turns[:n]), list(range(n)), "each-once-per-cycle", "turns of the first cycle")
        case.check(all(turns[t] == turns[t - n] for t in range(n, T)), "cyclic-order", lambda: "turns %r, n=%d" % (turns, n))
        runs.append(turns)
    case.eq(runs[1], runs[0], "seeded", "turns under the same seed")
    case.state(runs[0])


def redrawn(case):
    rng = case.rng
    net, ref, labs, wrapped, init, calls = setup(case, kind="int")
    n = len(labs)
    T = 40 * n if n <= 4 else rng.randint(1, 3 * n)
    seed = rng.getrandbits(30)
    np.random.seed(seed)
    rule = ntm.AsynchronousRule(activity_rule=wrapped, n=n, randomize_each_cycle=True)
    traj = ntm.evolve(net, initial_conditions=init, activity_rule=amid(case, "AsynchronousRule", rule), timesteps=T + 1)
    turns = judge(case, traj, calls, labs, T)
    case.check(set(turns) <= set(labs), "listed-only", lambda: repr(turns))
    if n <= 4:
        case.eq(set(turns), set(labs), "all-get-turns", "in %d steps" % T)
        if n >= 2:
            blocks = {tuple(turns[i:i + n]) for i in range(0, T, n)}
            case.check(len(blocks) > 1, "re-drawn", "the same order in all %d cycles" % (T // n))
    del calls[:]
    np.random.seed(seed)
    rule = ntm.AsynchronousRule(activity_rule=wrapped, n=n, randomize_each_cycle=True)
    ntm.evolve(net, initial_conditions=init, activity_rule=amid(case, "AsynchronousRule", rule), timesteps=T + 1)
    case.eq([c[1] for c in calls], turns, "seeded", "turns under the same seed")
    case.state(turns)


def redrawn_listed(case):
    """a custom update order with randomization: only the listed nodes, whatever their labels"""
    rng = case.rng
    net, ref, labs, wrapped, init, calls = setup(case)
    order = rng.sample(labs, rng.randint(1, len(labs)))
    if rng.random() < 0.25:
        order += [rng.choice(order) for _ in range(rng.randint(1, 3))]
        rng.shuffle(order)
    arg = list(order)
    m = len(order)
    T = 40 * m if m <= 3 else rng.randint(1, 4 * m)
    rule = ntm.AsynchronousRule(wrapped, update_order=arg, randomize_each_cycle=True)
    traj = ntm.evolve(net, initial_conditions=init, activity_rule=amid(case, "AsynchronousRule", rule), timesteps=T + 1)
    turns = judge(case, traj, calls, labs, T)
    case.check(set(turns) <= set(order), "listed-only", lambda: "turns %r, listed %r" % (turns, order))
    if m <= 3:
        case.eq(set(turns), set(order), "all-get-turns", "in %d steps" % T)
    case.eq(arg, order, "order-kept", "the update order handed in")
    case.eq(turns[0], order[0], "first-turn", "the first turn follows the order given")
    case.state(order, turns)


def refusal(case):
    case.raises(lambda: ntm.AsynchronousRule(lambda c: 0), "refused", "neither order nor n")
    case.event("refusals")
    case.state(0)


SECTIONS = [Section("fixed", fixed, 1200, 20000), Section("drawn", drawn, 400, 8000), Section("redrawn", redrawn, 300, 6000),
            Section("redrawn_listed", redrawn_listed, 400, 8000), Section("refusal", refusal, 1, 1)]
