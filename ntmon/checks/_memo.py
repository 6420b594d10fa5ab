from .. import evogen, gen
from ..model import h
from ..trace import Evo

import netomaton as ntm


def memo_system(case, ordered=None, own=None, alphabet=None):
    """a network and a pure rule that depends only on what the memoization key captures"""
    rng = case.rng
    ordered = rng.random() < 0.5 if ordered is None else ordered
    net, ref, labs = gen.network(rng, nmax=10 if case.deep else 7, isolated=True)
    labs = list(net.nodes)
    salt = rng.getrandbits(30)
    k = rng.choice([2, 2, 3, 4])
    alpha = alphabet or rng.choice([list(range(k)), ["a", "b", "ab", ""][:max(k, 2)], [0, 1, 10, 11][:max(k, 2)],
                                    [-1, 1, 2, 0], [(0,), (0, 0), (1,)], ["1", "11", "111"], [0.5, 1.5, -0.0, 2.0],
                                    ["1.5", 1.5, 1, "1"], [None, "None", "", 0], [(1,), "(1,)", 1, -1],
                                    [True, "True", 0, "0"], [10 ** 20, 10 ** 20 + 1, "x"], [0.1, 0.1 + 1e-17 + 2e-17, 0.3],
                                    ["a", "A", "a ", " a"], [1e300, 1e301, -1e300], [-1, -2, -3]])
    hubs = {}
    if rng.random() < 0.2:
        # nodes with many neighbours, the neighbourhoods of which are all but equal
        srcs = [("source", i) for i in range(rng.choice([rng.randint(5, 20), rng.randint(12, 40), rng.randint(60, 140)]))]
        for i in range(rng.randint(2, 5)):
            mine = list(srcs)
            for _ in range(rng.randint(1, 2)):
                how = rng.choice(["swap", "drop", "double", "none"])
                x, y = rng.randrange(len(mine)), rng.randrange(len(mine))
                if how == "swap":
                    mine[x], mine[y] = mine[y], mine[x]
                elif how == "drop" and len(mine) > 2:
                    del mine[x]
                elif how == "double":
                    mine.insert(x, ("more", i, len(mine)))
            hubs[("hub", i)] = mine
            for m in mine:
                net.add_edge(m, ("hub", i))
        labs = list(net.nodes)
        case.event("hubs", len(hubs))
    if ordered:
        net.rotation_system = {l: tuple(hubs[l] if l in hubs else rng.sample(list(net.in_edges(l)), len(net.in_edges(l)))) for l in labs}
    calls = []

    def pick(x):
        return alpha[x % len(alpha)]

    if ordered:
        def rule(ctx):
            calls.append(tuple(ctx.neighbourhood_activities))
            return pick(h(salt, tuple(ctx.neighbourhood_activities)))
    else:
        def rule(ctx):
            key = sorted(map(repr, ctx.neighbourhood_activities))
            calls.append(tuple(key))
            return pick(h(salt, key))
    bias = rng.choice([1, 1, 2, 6])
    init = {l: pick(rng.getrandbits(20) if rng.randrange(bias) == 0 else salt) for l in labs}
    return net, labs, rule, init, calls, pick, ordered


def memo_pert(case):
    """memoization with a perturbation: the memoized value must be the computed one, never the perturbed one"""
    rng = case.rng
    net, labs, rule, init, calls, pick, ordered = memo_system(case)
    salt = rng.getrandbits(30)
    seen = []

    def pert(p):
        seen.append((p.timestep, p.node_label, p.node_activity, p.input))
        x = h(salt, repr(p.node_label), p.timestep)
        return pick(x >> 3) if x % 2 else p.node_activity
    T = gen.steps(rng, 1, 8)
    out = []
    # the rule of a memoized system sees no more than its neighbourhood; the perturbation sees everything, also the input
    inp = [rng.choice([0, 1, -2.5, {"q": 2}]) for _ in range(T - 1)] if T > 1 and rng.random() < 0.4 else None
    for memo in (False, True):
        del seen[:]
        traj = ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, perturbation=pert, memoize=memo,
                          **({"timesteps": T} if inp is None else {"input": list(inp)}))
        out.append(([s.activities for s in traj], list(seen)))
    case.eq(out[1][0], out[0][0], "memoized-states", "memoized perturbed evolution")
    case.eq(sorted(out[1][1], key=repr), sorted(out[0][1], key=repr), "perturb-sees", "perturbation calls when memoized")
    case.eq(len(seen), (T - 1) * len(labs), "perturb-once", "number of perturbation calls when memoized")
    case.event("perturbations", len(seen))
    case.state(ordered, T, sorted(map(repr, out[0][0][-1].items())))
