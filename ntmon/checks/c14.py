import itertools

import networkx as nx
import numpy as np

import netomaton as ntm

from .. import gen
from ..core import Section
from ..model import invariants, net_dump, norm, same_net
from ..spoil import spoilt_before

PROP = "C14"
RULE = ("every constructor called with enumerated small and random larger arguments, the whole network compared with an "
        "independently built edge list, and linear rules evolved against matrix products; distinct by arguments")
NEED = {"matrix": ["edges", "linear-steps"], "lattice": ["edges"], "lattice_all": ["edges"], "complete": ["edges"],
        "bipartite": ["edges"], "disconnected": ["nodes"], "small_world": ["edges"]}


def judge(case, net, nodes, edges, what):
    """exactly these nodes and exactly these (i, j, attrs) edges"""
    case.eq(sorted(map(repr, net.nodes)), sorted(map(repr, nodes)), "nodes", what)
    got = sorted(repr((i, j, {k: norm(v) for k, v in a.items()})) for i, j, a in net.edges)
    want = sorted(repr((i, j, a)) for i, j, a in edges)
    if got != want:
        miss = [e for e in want if e not in got][:5]
        more = [e for e in got if e not in want][:5]
        case.fail("edges", "%s: %d edges, expected %d; missing %s, unexpected %s" % (what, len(got), len(want), miss, more))
    bad = invariants(net)
    case.check(bad is None, "consistent", lambda: "%s: %s" % (what, bad))
    case.event("edges", len(want))
    case.event("nodes", len(list(nodes)))


def matrix(case):
    rng = case.rng
    n = rng.randint(1, 14 if case.deep else 8)
    pool = rng.choice([[0, 1], [0, 1, -1, 2], [0, 0.5, -2.25, 1e-9], [0, 0, 0, 0, 1], [0, 3, 10 ** 12], [0, 1e-12, -3e-11, 5e-324, 1e-300], [0.0, -0.0, 1]])
    A = [[rng.choice(pool) for _ in range(n)] for _ in range(n)]
    if rng.random() < 0.5:                      # some nodes without links
        for k in rng.sample(range(n), rng.randint(1, n)):
            for i in range(n):
                A[i][k] = A[k][i] = 0
    arg = rng.choice([lambda: A, lambda: tuple(map(tuple, A)), lambda: np.array(A)])()
    before = [list(map(norm, r)) for r in arg]
    net = spoilt_before(case, lambda: ntm.topology.from_adjacency_matrix(arg))
    # through an array all weights share its type
    B = [[norm(x) for x in r] for r in arg]
    judge(case, net, range(n), [(i, j, {"weight": B[i][j]}) for i in range(n) for j in range(n) if B[i][j] != 0], "matrix %r" % A)
    case.eq([list(map(norm, r)) for r in arg], before, "argument-kept", "matrix")

    def rule(ctx):
        return sum(float(e["weight"]) * ctx.activity_of(i) for i, es in ctx.connection_states.items() for e in es)
    T = rng.randint(1, 5)
    x = [rng.randint(-5, 5) for _ in range(n)]
    traj = ntm.evolve(net, initial_conditions=x, activity_rule=rule, timesteps=T + 1)
    v = list(x)
    scale = max([1] + [abs(a) for r in A for a in r]) * n
    big = max(1, max(map(abs, x)))
    for t in range(1, T + 1):
        v = [sum(A[i][j] * v[i] for i in range(n)) for j in range(n)]
        big *= scale
        got = [traj[t].activities[j] for j in range(n)]
        case.check(all(abs(g - w) <= 1e-12 * big for g, w in zip(got, v)), "linear-rule",
                   lambda: "step %d of %r from %r: %r, matrix product gives %r" % (t, A, x, got, v))
        case.event("linear-steps")
    case.state(A)
    case.sample("%d nodes %d entries" % (n, sum(a != 0 for r in A for a in r)))


def lattice_edges(dim, periodic, loops, first):
    """label = first + x0 + d0 * (x1 + d1 * (x2 ...)); periodic: one flag, or one per dimension"""
    dim = list(dim)
    per = [periodic] * len(dim) if isinstance(periodic, bool) else list(periodic)
    mul = [1]
    for d in dim[:-1]:
        mul.append(mul[-1] * d)
    lab = lambda p: first + sum(a * b for a, b in zip(p, mul))
    nodes, edges = [], set()
    for p in itertools.product(*[range(d) for d in dim]):
        nodes.append(lab(p))
        for k, d in enumerate(dim):
            for s in (1, -1):
                q = list(p)
                q[k] += s
                if per[k]:
                    q[k] %= d
                if 0 <= q[k] < d and q[k] != p[k]:
                    edges.add((lab(p), lab(q)))
        if loops:
            edges.add((lab(p), lab(p)))
    return nodes, [(i, j, {}) for i, j in edges]


def lattice_case(case, dim, periodic, loops, first, kw):
    nodes, edges = lattice_edges(dim, periodic, loops, first)
    judge(case, spoilt_before(case, lambda: ntm.topology.lattice(**kw)), nodes, edges, "lattice(%r)" % (kw,))
    case.state(tuple(dim), periodic if isinstance(periodic, bool) else tuple(periodic), loops, first)
    case.sample("lattice(%r)" % (kw,))


DIMS = [d for k in (1, 2, 3) for d in itertools.product(range(1, 5), repeat=k)]


def lattice_all(case):
    dim = DIMS[case.idx]
    for periodic in (False, True):
        for loops in (False, True):
            lattice_case(case, dim, periodic, loops, 0, {"dim": dim, "periodic": periodic, "self_loops": loops})


def lattice(case):
    rng = case.rng
    dim = [rng.choice([1, 2, 2, 3, 4, 5, 6, 9]) for _ in range(rng.randint(1, 3))]
    if np.prod(dim) > 150:
        dim = dim[:2]
    kw = {"dim": rng.choice([tuple, list])(dim)}
    periodic = loops = False
    first = 0
    if rng.random() < 0.7:
        kw["periodic"] = periodic = rng.choice([True, False, [rng.random() < 0.5 for _ in dim]])
    if rng.random() < 0.6:
        kw["self_loops"] = loops = rng.random() < 0.6
    if rng.random() < 0.5:
        kw["first_label"] = first = rng.choice([0, 1, 5, -3])
    lattice_case(case, dim, periodic, loops, first, kw)


def complete(case):
    n = case.idx + 1
    judge(case, spoilt_before(case, lambda: ntm.topology.complete(n), 1), range(n), [(i, j, {"weight": 1}) for i in range(n) for j in range(n) if i != j],
          "complete(%d)" % n)
    case.state(n)


def bipartite(case):
    rng = case.rng
    labs = gen.labels(rng, gen.wide(rng, 2, 12) if case.idx % 10 != 9 else rng.randint(14, 50))
    k = rng.randint(1, len(labs) - 1)
    a, b = labs[:k], labs[k:]
    if rng.random() < 0.5:
        attrs = {i: {j: gen.attr(rng, deep=True) for j in b} for i in a}
        form = rng.choice([list, tuple])
        net = spoilt_before(case, lambda: ntm.topology.bipartite(form(a), form(b), attrs))
    else:
        attrs = {i: {j: {} for j in b} for i in a}
        net = spoilt_before(case, lambda: ntm.topology.bipartite(a, b)) if rng.random() < 0.5 else ntm.topology.bipartite(set(a), b)
    judge(case, net, labs, [(i, j, attrs[i][j]) for i in a for j in b] + [(j, i, attrs[i][j]) for i in a for j in b],
          "bipartite(%r, %r)" % (a, b))
    case.state(a, b, attrs)


def disconnected(case):
    rng = case.rng
    n = rng.randint(0, 12)
    labs = gen.labels(rng, n)
    route = rng.choice(["int", "list", "array", "network"])
    if route == "array":
        labs = rng.sample(range(100), n)
        net = ntm.topology.disconnected(np.array(labs, dtype=int))
    elif route == "list":
        net = spoilt_before(case, lambda: ntm.topology.disconnected(labs))
    else:
        labs = list(range(n))
        net = spoilt_before(case, lambda: ntm.topology.disconnected(n) if route == "int" else ntm.Network(n))
    case.eq(list(net.nodes), list(labs), "node-order", route)
    judge(case, net, labs, [], "disconnected(%s %r)" % (route, labs))
    case.event("nodes")
    # every node is alone: a rule sees only itself
    init = {l: k for k, l in enumerate(labs)}
    if labs:
        seen = []
        ntm.evolve(net, initial_conditions=init, timesteps=2,
                   activity_rule=lambda ctx: seen.append((ctx.node_label, list(ctx.neighbour_labels), ctx.current_activity)))
        case.eq(sorted(map(repr, seen)), sorted(repr((l, [], init[l])) for l in labs), "alone", route)
    case.state(route, list(labs))


def small_world(case):
    rng = case.rng
    n = gen.wide(rng, 3, 40, 260)
    k = rng.choice([x for x in (2, 4, 6, 8) if x < n])
    p = rng.choice([0, 0.1, 0.5, 1, rng.random()])
    if case.idx % 15 == 7:
        n, p = rng.randint(101, 260), rng.choice([0, 0, 0.0, rng.random()])
    seed = rng.choice([0, 1, rng.getrandbits(30)])
    what = "watts_strogatz_graph(%d, %d, %r, %d)" % (n, k, p, seed)
    net = spoilt_before(case, lambda: ntm.topology.watts_strogatz_graph(n, k, p, seed))
    case.eq(sorted(net.nodes), list(range(n)), "nodes", what)
    pairs = [(i, j) for i, j, a in net.edges]
    case.check(len(set(pairs)) == len(pairs), "simple", what)
    case.check(all(i != j for i, j in pairs), "loop-free", what)
    case.check(all((j, i) in set(pairs) for i, j in pairs), "symmetric", what)
    case.eq(len(pairs), n * k, "links", what)
    case.check(all(a == {"weight": 1} for _, _, a in net.edges), "weights", what)
    bad = invariants(net)
    case.check(bad is None, "consistent", lambda: "%s: %s" % (what, bad))
    if p == 0:
        case.eq(set(pairs), {(i, (i + s * d) % n) for i in range(n) for d in range(1, k // 2 + 1) for s in (1, -1)},
                "ring-lattice", what)
    again = ntm.topology.watts_strogatz_graph(n, k, p, seed=seed)
    case.check(same_net(net_dump(net), net_dump(again)), "reproducible", what)
    if n > 20 and p == 1:
        other = ntm.topology.watts_strogatz_graph(n, k, p, seed=seed + 1)
        case.check(not same_net(net_dump(net), net_dump(other)), "seed-used", what)
    case.event("edges", len(pairs))
    case.state(n, k, p, seed)


SECTIONS = [Section("matrix", matrix, 500, 10000), Section("lattice_all", lattice_all, len(DIMS), len(DIMS), exhaustive=True),
            Section("lattice", lattice, 200, 4000), Section("complete", complete, 20, 40, exhaustive=True),
            Section("bipartite", bipartite, 300, 6000), Section("disconnected", disconnected, 200, 3000),
            Section("small_world", small_world, 120, 3000)]
