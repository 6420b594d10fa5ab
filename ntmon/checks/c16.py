from collections import Counter

import numpy as np

import netomaton as ntm
from netomaton import rules

from .. import gen
from ..core import Section

PROP = "C16"
RULE = ("all 512 Life neighbourhoods and all centre/head-count combinations of Wireworld (enumerated), whole tori over many "
        "steps, random multisets for majority with repeated draws on ties; distinct by configuration")
NEED = {"life_all": ["lookups"], "life": ["cells"], "wireworld_all": ["lookups"], "wireworld": ["cells"],
        "majority": ["unique", "ties"], "majority_net": ["cells"], "crowds": ["lookups"]}
MOORE = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1)]


def ctx(acts, current, mix=None):
    n = len(acts)
    return ntm.NodeContext(4, 1, dict(enumerate(acts)), list(range(n)), list(acts), {i: [{"weight": 1}] for i in range(n)},
                           current, None, None)


def life_ref(centre, live):
    return 1 if live == 3 or (centre == 1 and live == 2) else 0


def wire_ref(centre, heads):
    return {0: 0, 1: 2, 2: 3, 3: 1 if heads in (1, 2) else 3}[centre]


KINDS = [int, bool, float, np.int64, np.int8, np.float64, np.bool_]


def life_all(case):
    acts = [case.idx >> k & 1 for k in range(9)]
    for kind in KINDS:      # whatever kind of number the cells are
        case.event("lookups")
        mine = [kind(v) for v in acts]
        case.eq(int(rules.game_of_life_rule(ctx(mine, mine[4]))), life_ref(acts[4], sum(acts) - acts[4]), "life", "%s %s" % (kind.__name__, acts))
    case.state(case.idx)


def wireworld_all(case):
    rng = case.rng
    mask, centre = case.idx % 256, case.idx // 256 % 4
    nb = [1 if mask >> k & 1 else rng.choice([0, 2, 3]) for k in range(8)]
    acts = nb[:4] + [centre] + nb[4:]
    for kind in (int, float, np.int64, np.int8):
        case.event("lookups")
        mine = [kind(v) for v in acts]
        case.eq(int(rules.wireworld_rule(ctx(mine, mine[4]))), wire_ref(centre, bin(mask).count("1")), "wireworld", "%s %s" % (kind.__name__, acts))
    case.state(tuple(acts))


def crowds(case):
    """neighbourhoods of any size: a centre and any number of others"""
    rng = case.rng
    n = rng.choice([0, 1, 3, 5, 20, 60, 127, 128, 200, 255, 256, 300, 600])
    live = rng.choice([0, 1, 2, 3, 4, n, n - 1, 254, 255, 256, 257, 258, 259, 260, rng.randint(0, n)])
    live = max(0, min(n, live))
    nb = [1] * live + [0] * (n - live)
    rng.shuffle(nb)
    centre, at = rng.randint(0, 1), rng.randint(0, n)
    acts = nb[:at] + [centre] + nb[at:]
    case.event("lookups", 2)
    case.eq(rules.game_of_life_rule(ctx(acts, centre)), life_ref(centre, live), "life", "centre %d, %d of %d live" % (centre, live, n))
    centre = rng.choice([0, 1, 2, 3, 3, 3])
    acts = [v or rng.choice([0, 2, 3]) for v in nb]
    acts.insert(at, centre)
    case.eq(rules.wireworld_rule(ctx(acts, centre)), wire_ref(centre, live), "wireworld", "centre %d, %d heads among %d" % (centre, live, n))
    a, b = rng.randint(0, 400), rng.randint(0, 400)
    acts = ["a"] * a + ["b"] * b + ["c"] * rng.randint(0, 300) + ["d"]
    rng.shuffle(acts)
    top = max(Counter(acts).values())
    r = rules.majority_rule(ctx(acts, acts[0]))
    case.check(Counter(acts)[r] == top, "most-frequent", lambda: "majority of %r gave %r" % (Counter(acts), r))
    case.state(n, live, centre, a, b)


def torus(case, rule, ref, states, weights):
    rng = case.rng
    rows, cols = rng.randint(3, 9), rng.randint(3, 9)
    n = rows * cols
    nb = [[(c // cols + a) % rows * cols + (c % cols + b) % cols for a, b in MOORE if (a, b) != (0, 0)] for c in range(n)]
    x = rng.choices(states, weights, k=n)
    T = gen.steps(rng, 1, 12)
    net = ntm.topology.cellular_automaton2d(rows, cols, ordered=rng.random() < 0.6)
    kind = rng.choice([int, np.int64, float, np.int16])
    arg = rng.choice([x, np.array(x), {i: kind(v) for i, v in enumerate(x)}, [kind(v) for v in x]])
    kw = {}
    if rng.random() < 0.25:
        class Key(ntm.MemoizationKey):
            def to_key(self, c):
                return c.current_activity, tuple(sorted(c.neighbourhood_activities))
        kw = {"memoize": True, "memoization_key": Key()}
    traj = ntm.evolve(net, initial_conditions=arg, activity_rule=rule, timesteps=T + 1, **kw)
    case.eq(len(traj), T + 1, "length", "")
    for t in range(1, T + 1):
        x = [ref(x[c], sum(1 for i in nb[c] if x[i] == 1)) for c in range(n)]
        case.event("cells", n)
        case.eq([traj[t].activities[c] for c in range(n)], x, "evolution", "%dx%d step %d" % (rows, cols, t))
        case.state(rows, cols, x)


def life(case):
    torus(case, rules.game_of_life_rule, life_ref, [0, 1], case.rng.choice([(1, 1), (2, 1), (4, 1), (1, 3)]))


def wireworld(case):
    torus(case, rules.wireworld_rule, wire_ref, [0, 1, 2, 3], case.rng.choice([(1, 1, 1, 1), (2, 1, 1, 5), (1, 1, 1, 20), (5, 1, 1, 9)]))


POOLS = [[0, 1], [0, 1, 2], ["a", "b", "c"], [-1, 1], [0.5, 1.5, 2], [(0, 1), (1, 0), (1, 1)], [None, 0, "x"], [10 ** 20, 3, 4],
         ["red", "blue", "a much longer colour name"], [1, "1", 2.5]]


def majority(case):
    rng = case.rng
    pool = rng.choice(POOLS)
    n = rng.randint(1, 9)
    acts = [rng.choice(pool) for _ in range(n)]
    if rng.random() < 0.3:          # a tie at the top by construction
        a, b = rng.sample(pool, 2)
        acts = [a, b] * rng.randint(1, 4) + rng.sample(pool, rng.randint(0, 1))
        rng.shuffle(acts)
    elif rng.random() < 0.2:        # many states, one of them ahead by one
        acts = rng.sample(range(40), rng.randint(5, 14)) * rng.randint(1, 3)
        acts.append(rng.choice(acts))
        rng.shuffle(acts)
    count = Counter(acts)
    top = max(count.values())
    best = [v for v in count if count[v] == top]
    trials = (3 if n < 40 and len(count) < 5 else 10) if len(best) == 1 else 120
    seen = set()
    for _ in range(trials):
        r = rules.majority_rule(ctx(acts, acts[0]))
        r = r.item() if isinstance(r, np.generic) else r
        case.check(r in best and any(type(r) is type(b) and r == b for b in best), "most-frequent",
                   lambda: "majority of %r gave %r" % (acts, r))
        seen.add(repr(r))
    if len(best) == 1:
        case.event("unique")
    else:
        case.event("ties")
        case.eq(seen, set(map(repr, best)), "tie-random", "values drawn in %d trials from %r" % (trials, acts))
    case.state(sorted(map(repr, acts)))
    case.sample("%r -> %s" % (acts, sorted(seen)))


def majority_net(case):
    rng = case.rng
    labs = gen.labels(rng, rng.randint(2, 8))
    ops = gen.net_ops(rng, labs) + [("add_edge", (l, l), {}) for l in labs]
    net, ref = gen.build(ops)
    pool = rng.choice(POOLS[:5])
    init = {l: rng.choice(pool) for l in labs}
    T = gen.steps(rng, 1, 6)
    traj = ntm.evolve(net, initial_conditions=init, activity_rule=rules.majority_rule, timesteps=T + 1)
    for t in range(1, T + 1):
        prev = traj[t - 1].activities
        for l in labs:
            count = Counter(prev[i] for i in ref.in_edges(l))
            case.event("cells")
            got = traj[t].activities[l]
            case.check(count.get(got, 0) == max(count.values()), "most-frequent",
                       lambda: "node %r step %d: neighbourhood %r gave %r" % (l, t, dict(count), got))
    case.state(init, T, len(ref.edges))


SECTIONS = [Section("life_all", life_all, 512, 512, exhaustive=True), Section("wireworld_all", wireworld_all, 1024, 10240),
            Section("crowds", crowds, 150, 4000), Section("life", life, 150, 4000), Section("wireworld", wireworld, 150, 4000), Section("majority", majority, 500, 10000),
            Section("majority_net", majority_net, 200, 4000)]
