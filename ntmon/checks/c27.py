import numpy as np

import netomaton as ntm

from .. import gen
from ..company import amid
from ..core import Section

PROP = "C27"
RULE = ("random grids (1 to 6 by 1 to 6, minimum size where the lattice is defined), initial resources, resource layers, absorption "
        "rates and seeds, grown for up to 25 steps; every link and every activity of every step judged; distinct by configuration")
NEED = {"growth": ["links", "steps"], "seeds": ["reruns"], "chances": ["trials"], "first": ["trials"]}
ASSUMPTIONS = ["topology-first updates, as the model's update_order says", "resources are not negative"]


def neighbours(w, h):
    """pairs of cells next to each other on the torus of w by h cells"""
    lab = {}
    for y in range(h):
        for x in range(w):
            lab[(x, y)] = x + w * y
    pairs = set()
    for (x, y), a in lab.items():
        for b in (lab[((x + 1) % w, y)], lab[(x, (y + 1) % h)]):
            if a != b:
                pairs.add(frozenset((a, b)))
    return pairs


def config(rng):
    w, h = rng.randint(1, 7), rng.randint(1, 7)
    n = w * h
    init = [0] * n
    for k in rng.sample(range(n), min(n, rng.choice([1, 1, 2, 3, n // 2]))):
        init[k] = rng.choice([1, 0.5, 3, 100])
    layer = None
    if rng.random() < 0.6:
        layer = [rng.choice([0, 0, 0, 1]) for _ in range(n)]
    return w, h, init, layer, rng.choice([80000., 1.0, 0.25, 0, 10])


def run(case, w, h, init, layer, R, T, seed, **kw):
    form = (list, list, tuple, np.array, lambda v: np.array(v) > 0)[(T + len(init) + sum(map(bool, init))) % 5]
    m = ntm.FungalGrowthModel(R, w, h, (list, np.array)[T % 2](init), resource_layer=None if layer is None else form(layer), seed=seed,
                              verbose=False)
    start = m.network
    traj = ntm.evolve(start, initial_conditions=list(init), activity_rule=amid(case, "FungalGrowthModel", m.activity_rule, 0.2),
                      topology_rule=m.topology_rule, update_order=m.update_order, copy_network=m.copy_network, timesteps=T + 1, **kw)
    return m, traj


def edges(net):
    return [(i, j, dict(a)) for i, j, a in net.edges]


def growth(case):
    rng = case.rng
    w, h, init, layer, R = config(rng)
    n = w * h
    T = gen.steps(rng, 1, 40 if case.deep else 25)
    seed = rng.choice([None, 0, 1, rng.randrange(2 ** 31)])
    kw = {}
    if rng.random() < 0.3:
        kw["compression"] = True
    m, traj = run(case, w, h, init, layer, R, T, seed, **kw)
    what = "grid %dx%d init %r layer %r R=%r seed %r" % (w, h, init, layer, R, seed)
    case.eq(m.update_order, ntm.UpdateOrder.TOPOLOGY_FIRST, "update-order", "the model")
    lattice = neighbours(w, h)
    L = layer if layer is not None and len(layer) else [1 if v else 0 for v in init]
    case.eq(len(traj), T + 1, "length", what)
    prev_links, prev_act = set(), dict(enumerate(init))
    case.eq(traj[0].activities, prev_act, "initial", what)
    case.eq(list(traj[0].network.nodes), list(range(n)), "initial-agents", what)
    case.eq(edges(traj[0].network), [], "initially-no-links", what)
    for t in range(1, T + 1):
        net = traj[t].network
        es = edges(net)
        links = {(i, j) for i, j, _ in es}
        case.eq(len(es), len(links), "single-links", "%s step %d" % (what, t))
        case.eq(sorted(net.nodes), list(range(n)), "agents-kept", "%s step %d" % (what, t))
        case.check(prev_links <= links, "links-never-vanish", "%s step %d: lost %r", what, t, prev_links - links)
        for i, j in links - prev_links:
            case.check(frozenset((i, j)) in lattice, "lattice-neighbours", "%s step %d: link %r", what, t, (i, j))
            case.check(prev_act[i] > 0 or prev_act[j] > 0, "one-end-alive", "%s step %d: link %r", what, t, (i, j))
            case.check(prev_act[i] > 0, "grows-from-living-agent", "%s step %d: link %r out of a dead agent", what, t, (i, j))
            case.event("links")
        for i, j in links:
            case.check((j, i) not in links, "one-direction", "%s step %d: %r both ways", what, t, (i, j))
        out = {}
        for i, j, a in es:
            out.setdefault(i, []).append(a["weight"])
        for i, ws in out.items():
            case.check(all(abs(x - 1 / len(ws)) < 1e-12 for x in ws), "even-weights", "%s step %d: agent %r has %r", what, t, i, ws)
            case.check(net.out_degree(i) == len(ws), "even-weights", "out degree of %r", i)
            case.check(net.degree(i) <= 4, "degree-limit", "%s step %d: agent %r has degree %r", what, t, i, net.degree(i))
        # links between two living agents always appear
        for pair in lattice:
            i, j = tuple(pair)
            if prev_act[i] > 0 and prev_act[j] > 0:
                case.check((i, j) in links or (j, i) in links, "living-neighbours-linked", "%s step %d: %r", what, t, (i, j))
        act = traj[t].activities
        case.eq(sorted(act), list(range(n)), "all-agents", what)
        into = {}
        for i, j, a in es:
            into.setdefault(j, []).append((i, a["weight"]))
        for k in range(n):
            want = sum(wt * prev_act[i] for i, wt in into[k]) if k in into else prev_act[k]
            if prev_act[k] > 0:
                want += R * L[k]
            case.check(abs(act[k] - want) <= 1e-9 * max(1.0, abs(want)), "resource-flow",
                       "%s step %d agent %d: %r, expected %r", what, t, k, act[k], want)
        case.event("steps")
        prev_links, prev_act = links, act
        case.state(w, h, tuple(sorted(links)))
    case.sample("%s: %d links after %d steps" % (what[:100], len(prev_links), T))


def seeds(case):
    rng = case.rng
    w, h, init, layer, R = config(rng)
    T = gen.steps(rng, 3, 15)
    seed = rng.choice([0, 0, 1, 42, rng.randrange(2 ** 31), rng.randrange(2 ** 31)])
    runs = []
    for k in range(2):
        np.random.seed(rng.randrange(2 ** 31))      # whatever came before
        np.random.random(rng.randint(0, 5))
        m, traj = run(case, w, h, init, layer, R, T, seed)
        runs.append([(s.activities, sorted((i, j) for i, j, _ in s.network.edges)) for s in traj])
    case.eq(runs[0], runs[1], "reproducible-from-seed", "grid %dx%d init %r layer %r R=%r seed %r" % (w, h, init, layer, R, seed))
    case.event("reruns")
    case.event("seed-zero" if seed == 0 else "seed-other")
    case.state(w, h, init, layer, R, seed)
    if rng.random() < 0.3:
        case.raises(lambda: ntm.FungalGrowthModel(R, w, h, init, resource_layer=[1] * (w * h + 1), verbose=False), "layer-size-refused",
                    "resource layer of another size")


def chances(case):
    """how often a link that may grow does: a living agent reaches each free dead neighbour with a chance of one over its free places;
    two living ones are always joined, either way round alike (7 sigma bounds)"""
    rng = case.rng
    w, h = rng.choice([(3, 3), (4, 3), (4, 4), (5, 4)])
    n = w * h
    lattice = [tuple(sorted(p)) for p in neighbours(w, h)]
    tally = {}
    for _ in range(150 if case.deep else 60):
        init = [0] * n
        for k in rng.sample(range(n), rng.randint(1, n // 2)):
            init[k] = 1.0
        m, traj = run(case, w, h, init, None, 1.0, 6, rng.randrange(2 ** 31))
        for t in range(1, 7):
            old, new, act = traj[t - 1].network, traj[t].network, traj[t - 1].activities
            for i, j in lattice:
                if old.has_edge(i, j) or old.has_edge(j, i):
                    continue
                a, b = act[i] > 0, act[j] > 0
                if a and b:
                    key, p, hit = ("both", "up"), 0.5, new.has_edge(i, j)
                elif a or b:
                    k, l = (i, j) if a else (j, i)
                    free = 4 - old.degree(k)
                    key, p, hit = ("up" if a else "down", free), 1 / free, new.has_edge(k, l)
                else:
                    continue
                e = tally.setdefault(key, [p, 0, 0])
                e[1] += 1
                e[2] += bool(hit)
    for key, (p, trials, hits) in sorted(tally.items(), key=repr):
        case.event("trials", trials)
        case.check(abs(hits - p * trials) <= 7 * (trials * p * (1 - p)) ** 0.5 + 1e-9, "chance-of-growth",
                   "grid %dx%d, %r: %d of %d grew, chance %r", w, h, key, hits, trials, p)
    case.state(w, h, repr(sorted(tally.items(), key=repr)))


def first(case):
    """a living agent alone reaches each of its neighbours with the same chance, whatever else it reaches in that step (7 sigma)"""
    rng = case.rng
    w, h = rng.choice([(3, 3), (4, 3), (3, 4)])
    n = w * h
    lattice = [tuple(sorted(p)) for p in neighbours(w, h)]
    trials, hits, both = {}, {}, {}
    N = 6000 if case.deep else 2400
    m = ntm.FungalGrowthModel(1.0, w, h, [0] * n, seed=rng.randrange(2 ** 31), verbose=False)
    for _ in range(N):
        k = rng.randrange(n)
        net = m.topology_rule(ntm.TopologyContext(m.network, {i: 1.0 if i == k else 0 for i in range(n)}, 1))
        out = set(net.out_edges(k)) if hasattr(net, "out_edges") else {b for a, b, _ in net.edges}
        near = [j if i == k else i for i, j in lattice if k in (i, j)]
        case.check(len(near) == 4 and out <= set(near), "lattice-neighbours", "agent %d reaches %r", k, out)
        for j in near:
            key = "up" if k < j else "down"
            trials[key] = trials.get(key, 0) + 1
            hits[key] = hits.get(key, 0) + (j in out)
        both[len(out)] = both.get(len(out), 0) + 1
    for key in trials:
        case.check(abs(hits[key] - trials[key] / 4) <= 7 * (trials[key] * 3 / 16) ** 0.5, "chance-of-growth", "grid %dx%d, an agent alone, "
                   "%s: %d of %d grew, chance 1/4", w, h, key, hits[key], trials[key])
    for k, p in enumerate((81, 108, 54, 12, 1)):
        p /= 256
        case.check(abs(both.get(k, 0) - p * N) <= 7 * (N * p * (1 - p)) ** 0.5, "independent-growth",
                   "grid %dx%d, an agent alone: %d of %d times it reached %d others, chance %r", w, h, both.get(k, 0), N, k, p)
    case.event("trials", N)
    case.state(w, h, repr(hits), repr(both))


SECTIONS = [Section("first", first, 4, 60, timeout=200), Section("growth", growth, 200, 4000), Section("seeds", seeds, 120, 2000), Section("chances", chances, 12, 120, timeout=200)]
