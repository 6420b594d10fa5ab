import numpy as np

import netomaton as ntm

from ..company import amid
from ..core import Section
from ..model import norm

PROP = "C25"
RULE = ("random bipolar pattern sets trained, their weights compared with the outer products, and evaluations from random, stored "
        "and corrupted patterns watched flip by flip; distinct by patterns and trajectory")
NEED = {"train": ["weights"], "evaluate": ["steps", "flips"], "fixed_point": ["steps"]}
ASSUMPTIONS = ["evaluation starts from bipolar patterns"]


def patterns(rng, n, m):
    return [[rng.choice([-1, 1]) for _ in range(n)] for _ in range(m)]


def weights(P):
    n = len(P[0])
    return [[0 if i == j else sum(p[i] * p[j] for p in P) for j in range(n)] for i in range(n)]


def trained(case, n, P):
    net = ntm.HopfieldNet(n=n)
    keep = [list(p) for p in P]
    net.train(P)
    case.eq([list(p) for p in P], keep, "patterns-kept", "training set")
    return net


def judge_weights(case, net, P, what):
    W = weights(P)
    n = len(W)
    M = net.adjacency_matrix
    case.eq([[int(norm(v)) for v in row] for row in M], W, "outer-products", what)
    nw = net.network
    case.eq(sorted(map(int, nw.nodes)), list(range(n)), "network-nodes", what)
    for i in range(n):
        for j in range(n):
            got = [norm(a["weight"]) for a in nw.in_edges(j).get(i, [])]
            case.eq(got, [W[i][j]] if W[i][j] != 0 else [], "network-weights", "%s: %d -> %d" % (what, i, j))
            case.event("weights")
    return W


def train(case):
    rng = case.rng
    n, m = rng.randint(2, 14), rng.randint(1, 5)
    if case.idx % 100 == 99:
        n = rng.choice([rng.randint(40, 90), rng.randint(129, 180)])
    if case.idx % 50 == 48:
        m = rng.randint(10, 150)
    P = patterns(rng, n, m)
    if rng.random() < 0.3:
        P.append([-v for v in P[0]])
    net = trained(case, n, P)
    judge_weights(case, net, P, "patterns %r" % P)
    case.eq(net.num_nodes, n, "num-nodes", "")
    if rng.random() < 0.3:      # trained anew, the old patterns are gone
        Q = patterns(rng, n, rng.randint(1, 3))
        net.train(Q)
        judge_weights(case, net, Q, "re-trained")
    case.state(P)
    case.sample("%d patterns of %d" % (len(P), n))


def energy2(W, x):
    n = len(x)
    return -sum(W[i][j] * x[i] * x[j] for i in range(n) for j in range(n))


def watch(case, net, W, x, T, what):
    n = len(x)
    arg = np.array(x) if case.rng.random() < 0.3 else list(x)
    traj = ntm.evolve(net.network, initial_conditions=arg, activity_rule=amid(case, "HopfieldNet", net.activity_rule), timesteps=T + 1)
    states = [[s.activities[i] for i in range(n)] for s in traj]
    case.eq(states[0], x, "initial", what)
    flipped = set()
    waiting = {}        # for how many steps on end a node was due to flip, and did not
    for t in range(1, T + 1):
        a, b = states[t - 1], states[t]
        case.check(all(v in (-1, 1) for v in b), "bipolar", lambda: "%s step %d: %r" % (what, t, b))
        d = [i for i in range(n) if a[i] != b[i]]
        case.check(len(d) <= 1, "one-flip", lambda: "%s step %d flips %r" % (what, t, d))
        case.check(energy2(W, b) <= energy2(W, a), "energy", lambda: "%s step %d: energy %r after %r" % (what, t, energy2(W, b), energy2(W, a)))
        for i in d:
            v = sum(W[j][i] * a[j] for j in range(n))
            case.eq(b[i], 1 if v >= 0 else -1, "threshold", "%s step %d node %d" % (what, t, i))
            flipped.add(i)
        for i in range(n):
            v = sum(W[j][i] * a[j] for j in range(n))
            if i in d or a[i] == (1 if v >= 0 else -1):
                waiting.pop(i, None)
            else:
                waiting[i] = waiting.get(i, 0) + 1
                # turns are drawn anew at every step: to have none in that many has a chance of exp(-45)
                case.check(waiting[i] < 45 * n, "threshold", lambda: "%s step %d: node %d with field %d stays %d for %d steps" % (what, t, i, v, b[i], waiting[i]))
        case.event("steps")
        case.event("flips", len(d))
    case.state(repr(W), repr(x), repr(states[-1]))
    return states


def evaluate(case):
    rng = case.rng
    n, m = rng.randint(2, 12), rng.randint(1, 4)
    if case.idx % 30 == 29:
        n = rng.randint(30, 60)
        m = rng.choice([1, 2, 2, 4])
    P = patterns(rng, n, m)
    net = trained(case, n, P)
    W = weights(P)
    x = rng.choice([lambda: rng.choice(P)[:], lambda: [rng.choice([-1, 1]) for _ in range(n)]])()
    for i in rng.sample(range(n), rng.randint(0, n // 2)):
        x[i] = -x[i]
    long = rng.random() < 0.25
    T = 60 * n if long and n <= 8 else rng.randint(1, 5 * n)
    states = watch(case, net, W, x, T, "patterns %r from %r" % (P, x))
    if T == 60 * n:
        # every node had many turns: the state reached is stable under the update rule
        s = states[-1]
        V = [sum(W[j][i] * s[j] for j in range(n)) for i in range(n)]
        case.check(all(s[i] == (1 if V[i] >= 0 else -1) for i in range(n)), "settles", lambda: "from %r to %r, fields %r" % (x, s, V))
        case.event("settled")


def slow(case):
    """larger nets for more than a thousand steps: each of the nodes gets its turn and takes it, early or late"""
    rng = case.rng
    n = rng.randint(20, 30)
    P = patterns(rng, n, 2)
    if rng.random() < 0.5:      # nodes without a field: the patterns are at odds
        P[1] = [v if i < n // 2 else -v for i, v in enumerate(P[0])]
    if case.idx % 2:            # no field anywhere, or that of one pattern on some of the nodes
        P = [[1]]
        while len(P) < 32:
            P = [p + p for p in P] + [p + [-v for v in p] for p in P]
        n = 32
        if rng.random() < 0.5:
            P = P[:rng.randint(1, 31)]
    net = trained(case, n, P)
    W = weights(P)
    T = 60 * n
    states = watch(case, net, W, rng.choice([[-1] * n, [rng.choice([-1, 1]) for _ in range(n)], [-v for v in P[0]]]), T, "patterns %r" % P)
    s = states[-1]
    case.check(all(s[i] == (1 if sum(W[j][i] * s[j] for j in range(n)) >= 0 else -1) for i in range(n)), "settles", "to %r", s)
    case.event("settled")


def fixed_point(case):
    """one trained pattern of at least two nodes stays, and a neighbour of it returns"""
    rng = case.rng
    n = rng.randint(3, 10)
    p = patterns(rng, n, 1)[0]
    net = trained(case, n, [p])
    W = weights([p])
    for s in watch(case, net, W, p, 2 * n, "pattern %r" % p):
        case.eq(s, p, "fixed-point", "single pattern")
    if n >= 5:
        net = trained(case, n, [p])
        x = p[:]
        k = rng.randrange(n)
        x[k] = -x[k]
        states = watch(case, net, W, x, 60 * n, "pattern %r corrupted at %d" % (p, k))
        case.eq(states[-1], p, "recalled", "pattern with one corrupted node")


SECTIONS = [Section("train", train, 250, 5000), Section("evaluate", evaluate, 300, 6000), Section("fixed_point", fixed_point, 80, 2000),
            Section("slow", slow, 6, 60)]
