import numpy as np

import netomaton as ntm
from netomaton import rules

from .. import gen
from ..company import amid
from ..core import Section
from ..model import h
from .c15 import ref_nks

PROP = "C19"
RULE = ("all elementary rules and random rules on arbitrary networks made reversible, run forwards and then backwards from the "
        "last two states in swapped order; distinct by rule and initial conditions")
NEED = {"elementary": ["retraced"], "networks": ["retraced"], "long": ["retraced"]}


def there_and_back(case, net, labs, fn, x, p, T, aslist, what, kw):
    calls = []

    def wrapped(ctx):
        r = fn(ctx)
        calls.append((ctx.timestep, ctx.node_label, int(r)))
        return r
    # the entries of a dictionary may come in any order
    pack = (lambda d: [d[l] for l in labs]) if aslist else lambda d: {l: d[l] for l in case.rng.sample(list(d), len(d))}
    # only the last of several past conditions matters
    older = [pack({l: case.rng.randint(0, 1) for l in labs}) for _ in range(case.rng.choice([0, 0, 0, 1, 2]))]
    traj = ntm.evolve(net, initial_conditions=pack(x), past_conditions=older + [pack(p)], activity_rule=amid(case, "ReversibleRule", ntm.ReversibleRule(wrapped)),
                      timesteps=T + 1, **kw)
    case.eq(len(traj), T + 1, "length", what)
    states = [p] + [s.activities for s in traj]
    case.eq(states[1], x, "starts", what)
    case.eq(len(calls), T * len(labs), "wrapped-once", what)
    for t, l, r in calls:
        case.event("xors")
        case.eq(states[t + 1][l], r ^ states[t - 1][l], "xor-with-two-before", "%s node %r step %d" % (what, l, t))
    # the fixed convention of the property: backwards from the last two states swapped
    back = ntm.evolve(net, initial_conditions=pack(states[-2]), past_conditions=older + [pack(states[-1])],
                      activity_rule=amid(case, "ReversibleRule", ntm.ReversibleRule(fn)), timesteps=T + 1, **kw)
    got = [states[-1]] + [s.activities for s in back]
    for k in range(len(states)):
        case.eq(got[k], states[-1 - k], "retraces", "%s: %d steps back of %d" % (what, k, T))
        case.event("retraced")
    return states


def elementary(case):
    rng = case.rng
    r = case.idx % 256
    n = rng.randint(3, 40)
    radius = 1
    if case.idx >= 256 and rng.random() < 0.4:
        radius = 2
        n = max(n, 5)
        r = rng.getrandbits(32)
    f = rng.choice([rules.nks_ca_rule, rules.binary_ca_rule])(r)
    x = {c: rng.randint(0, 1) for c in range(n)}
    p = {c: rng.randint(0, 1) for c in range(n)}
    kw = {"compression": True} if rng.random() < 0.3 else {}
    T = gen.steps(rng, 1, 30)
    states = there_and_back(case, ntm.topology.cellular_automaton(n, radius), list(range(n)), f, x, p, T, rng.random() < 0.6,
                            "rule %d n=%d" % (r, n), kw)
    case.state(r, n, T, repr(x), repr(p))
    case.sample("rule %d n=%d T=%d final %r" % (r, n, T, list(states[-1].values())))


def networks(case):
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=9, isolated=rng.random() < 0.7)
    labs = list(net.nodes)
    salt = rng.getrandbits(30)
    conv = rng.choice([int, int, np.int64, bool])

    def fn(ctx):
        nb = sorted((repr(l), int(a), repr(ctx.connection_states[l])) for l, a in zip(ctx.neighbour_labels, ctx.neighbourhood_activities))
        return conv(h(salt, repr(ctx.node_label), int(ctx.current_activity), nb) % 2)
    x = {l: rng.randint(0, 1) for l in labs}
    p = {l: rng.randint(0, 1) for l in labs}
    kw = {}
    if rng.random() < 0.3:
        kw["persist_network"] = False
    if rng.random() < 0.3:
        kw["compression"] = True
    T = gen.steps(rng, 1, 15)
    there_and_back(case, net, labs, fn, x, p, T, set(labs) == set(range(len(labs))) and sorted(labs) == labs and rng.random() < 0.5,
                   "network of %d nodes" % len(labs), kw)
    case.state(repr(x), repr(p), len(ref.edges), T)


def long(case):
    """many hundreds of steps there and back"""
    rng = case.rng
    n, r = rng.randint(3, 6), rng.randrange(256)
    x = {c: rng.randint(0, 1) for c in range(n)}
    p = {c: rng.randint(0, 1) for c in range(n)}
    T = rng.choice([520, 700, 1100])
    there_and_back(case, ntm.topology.cellular_automaton(n), list(range(n)), rules.nks_ca_rule(r), x, p, T, rng.random() < 0.6,
                   "rule %d n=%d" % (r, n), {"persist_network": False})
    case.state(r, n, T, repr(x), repr(p))


SECTIONS = [Section("long", long, 3, 60), Section("elementary", elementary, 400, 8000), Section("networks", networks, 600, 12000)]
