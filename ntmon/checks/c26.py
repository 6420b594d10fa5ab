import math

import networkx as nx
import numpy as np

import netomaton as ntm

from ..company import amid
from ..core import Section

PROP = "C26"
RULE = ("random point sets (usually 2 to 8 points, sometimes up to 40, negative, repeated, collinear, integer or float), hyperparameters and potentials; several "
        "steps judged one by one against the motion equation; all permutations up to 6 points sampled; distinct by input")
NEED = {"motion": ["neurons"], "tours": ["tours", "refusals"]}
ASSUMPTIONS = ["at least two points"]


def points(rng, lo=2, hi=7):
    n = rng.randint(lo, hi)
    kind = rng.choice(["float", "int", "neg", "line", "dup", "far"])
    if kind == "float":
        p = [(rng.random(), rng.random()) for _ in range(n)]
    elif kind == "int":
        p = [(rng.randint(0, 9), rng.randint(0, 9)) for _ in range(n)]
    elif kind == "neg":
        p = [(rng.uniform(-5, 5), rng.uniform(-5, 5)) for _ in range(n)]
    elif kind == "line":
        p = [(0.5, rng.random()) for _ in range(n)]
    elif kind == "far":
        p = [(rng.uniform(-1e3, 1e3), rng.uniform(-1e-3, 1e-3)) for _ in range(n)]
    else:
        p = [(rng.randint(0, 2), rng.randint(0, 2)) for _ in range(n)]
    return p


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * (scale + 1e-12)


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


def distances(case):
    rng = case.rng
    pts = points(rng, 2, 10) if case.idx % 25 != 24 else points(rng, 11, 24)
    net = ntm.HopfieldTankTSPNet(list(pts))
    got = net.get_distances()
    want = {(i, j): dist(pts[i], pts[j]) for i in range(len(pts)) for j in range(i + 1, len(pts))}
    case.eq(len(got), len(want), "all-pairs", "distances of %r" % pts)
    seen = {}
    for a, b, d in got:
        seen[(min(a, b), max(a, b))] = d
    case.eq(set(seen), set(want), "all-pairs", "pairs of %r" % pts)
    for k in want:
        case.check(close(seen[k], want[k], want[k]), "euclidean", "distance %r of %r: %r, expected %r", k, pts, seen[k], want[k])
    N = len(pts) ** 2
    adj = np.asarray(net.adjacency_matrix)
    case.check(adj.shape == (N, N) and bool((adj == 1).all()), "fully-connected", "adjacency of %d points: %r", len(pts), adj.shape)
    case.event("pairs", len(want))
    case.state(pts)


def step(pts, u, dt, A, B, C, D, u0, n):
    """one synchronous step of the equations of motion, with the scale of the terms that were added up"""
    m = len(pts)
    U = np.array(u, dtype=float).reshape(m, m)
    V = 0.5 * (1 + np.tanh(U / u0))
    d = np.array([[dist(p, q) for q in pts] for p in pts])
    out, scale = [], []
    for x in range(m):
        for i in range(m):
            row = sum(V[x][j] for j in range(m) if j != i)
            col = sum(V[y][i] for y in range(m) if y != x)
            tot = V.sum()
            tour = sum(d[x][y] * (V[y][(i + 1) % m] + V[y][(i - 1) % m]) for y in range(m))
            out.append(U[x][i] + dt * (-U[x][i] - A * row - B * col - C * (tot - n) - D * tour))
            scale.append(abs(U[x][i]) * (1 + dt) + dt * (A * row + B * col + abs(C) * (tot + abs(n)) + D * tour))
    return out, scale


def motion(case):
    rng = case.rng
    pts = points(rng, 2, 5) if case.idx % 40 != 39 else points(rng, 6, 11)
    m = len(pts)
    if rng.random() < 0.2:
        kw = {}
    else:
        kw = dict(dt=rng.choice([1e-5, 0.01, 0.5, 1.0]), A=rng.uniform(0, 500), B=rng.uniform(0, 500), C=rng.uniform(0, 200),
                  D=rng.uniform(0, 500), u_0=rng.choice([0.02, 0.5, 3.0]), n=rng.choice([m, m + 1, 15, 2.5]))
        for k in rng.sample(["A", "B", "C", "D"], rng.choice([0, 0, 1, 3])):
            kw[k] = 0
    full = dict(dt=1.0, A=500, B=500, C=200, D=500, u_0=0.02, n=15)
    full.update(kw)
    net = ntm.HopfieldTankTSPNet(list(pts), **kw)
    spread = rng.choice([full["u_0"], full["u_0"] * 0.1, 1.0])
    u = [rng.uniform(-spread, spread) for _ in range(m * m)]
    T = rng.randint(1, 3)
    network = ntm.topology.from_adjacency_matrix(net.adjacency_matrix)
    if rng.random() < 0.3:      # the order in which nodes are connected has no influence
        order = list(range(m * m))
        rng.shuffle(order)
        network = ntm.Network()
        for k in range(m * m):
            network.add_node(k)
        for i in order:
            for j in order:
                network.add_edge(i, j)
    traj = ntm.evolve(network, initial_conditions=list(u), activity_rule=amid(case, "HopfieldTankTSPNet", net.activity_rule, 0.3), timesteps=T + 1)
    case.eq(len(traj), T + 1, "length", "timesteps")
    prev = [traj[0].activities[k] for k in range(m * m)]
    for t in range(1, T + 1):
        got = [traj[t].activities[k] for k in range(m * m)]
        want, scale = step(pts, prev, full["dt"], full["A"], full["B"], full["C"], full["D"], full["u_0"], full["n"])
        for k in range(m * m):
            case.check(close(float(got[k]), want[k], scale[k]), "equation-of-motion",
                       "points %r %r neuron %d (point %d, position %d) step %d: %r, expected %r, from %r", pts, kw, k, k // m, k % m, t,
                       float(got[k]), want[k], prev)
        case.event("neurons", m * m)
        prev = [float(g) for g in got]
    acts = ntm.get_activities_over_time_as_list(traj)
    arg = rng.choice([lambda: acts, lambda: np.array(acts)])()
    V = np.asarray(net.get_permutation_matrix(arg))
    case.check(V.shape == (m, m), "matrix-shape", "%r", V.shape)
    want = 0.5 * (1 + np.tanh(np.array(prev).reshape(m, m) / full["u_0"]))
    case.check(bool(np.allclose(V, want, rtol=1e-9, atol=1e-12)), "output-voltages", "%r vs %r", V, want)
    case.state(pts, sorted(kw.items()), u)
    case.sample("%d points, %r, %d steps" % (m, kw, T))


def tours(case):
    rng = case.rng
    pts = points(rng, 3, 8) if case.idx % 10 != 9 else points(rng, 9, 40)
    m = len(pts)
    net = ntm.HopfieldTankTSPNet(list(pts))
    perm = list(range(m))
    rng.shuffle(perm)      # perm[position] = point
    hi, lo = (1.0, 0.0) if rng.random() < 0.4 else (rng.uniform(0.51, 1.0), rng.uniform(0.0, 0.49))
    mat = [[lo * rng.random() for _ in range(m)] for _ in range(m)]
    for pos, p in enumerate(perm):
        mat[p][pos] = hi
    arg = rng.choice([lambda: mat, lambda: np.array(mat)])()
    G, pos, length = net.get_tour_graph(pts, arg)
    want = {frozenset((perm[k], perm[(k + 1) % m])) for k in range(m)}
    what = "points %r, tour %r" % (pts, perm)
    case.eq(set(G.nodes), set(range(m)), "tour-nodes", what)
    case.eq({frozenset(e) for e in G.edges}, want, "tour-edges", what)
    case.check(nx.is_connected(G) and all(G.degree(v) == 2 for v in G), "closed-tour", "%s: %r", what, list(G.edges))
    total = sum(dist(pts[perm[k]], pts[perm[(k + 1) % m]]) for k in range(m))
    case.check(close(float(length), total, total), "tour-length", "%s: %r, expected %r", what, length, total)
    case.eq({k: tuple(v) for k, v in pos.items()}, dict(enumerate(pts)), "tour-positions", what)
    case.event("tours")
    # two points in one position
    bad = [list(r) for r in mat]
    a, b = rng.sample(range(m), 2)
    bad[a] = list(bad[b])
    case.raises(lambda: net.get_tour_graph(pts, np.array(bad)), "duplicate-position-refused", what)
    case.raises(lambda: net.get_tour_graph(pts[:-1], np.array(mat)), "wrong-size-refused", what)
    case.raises(lambda: net.get_tour_graph(pts, np.array([r[:-1] for r in mat])), "wrong-size-refused", what)
    case.event("refusals", 3)
    case.state(pts, perm)


SECTIONS = [Section("distances", distances, 300, 6000), Section("motion", motion, 250, 5000), Section("tours", tours, 500, 10000)]
