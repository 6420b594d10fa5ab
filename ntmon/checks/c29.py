import math

import numpy as np

import netomaton as ntm

from .. import gen
from ..core import Section

PROP = "C29"
RULE = ("random symbol sequences (length 1 to 200, alphabets of 1 to 26 characters) and evolutions (1 to 12 nodes, 1 to 60 timesteps, "
        "states of many types: multi-digit, negative, float, string, boolean, tuple) against the definitions; distinct by input")
NEED = {"strings": ["sequences"], "averages": ["evolutions", "wide-states", "far-distances"], "trajectories": ["evolutions"]}

TOL = 1e-9


def H(seq):
    seq = [repr(s) for s in seq]
    c = {}
    for s in seq:
        c[s] = c.get(s, 0) + 1
    return -math.fsum(v / len(seq) * math.log2(v / len(seq)) for v in c.values())


def near(case, got, want, clause, what):
    case.check(isinstance(float(got), float) and abs(float(got) - want) <= TOL * max(1, abs(want)), clause, "%s: got %r, expected %r",
               what, got, want)


def sequence(rng, n):
    alpha = rng.choice(["01", "012", "0123456789", "aBcd1234ef5g", "-+", "abcdefghijklmnopqrstuvwxyz", "7", "αβγ", " .x"])
    p = rng.random()
    if p < 0.2:
        return rng.choice(alpha) * n
    if p < 0.4:
        k = rng.randint(1, 4)
        base = "".join(rng.choice(alpha) for _ in range(k))
        return (base * n)[:n]
    w = [rng.random() ** rng.choice([1, 4]) for _ in alpha]
    return "".join(rng.choices(alpha, w, k=n))


def strings(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, rng.randint(1, 50), rng.randint(50, 200)])
    if case.idx % 100 == 99:
        n = rng.randint(1000, 6000)
    x = sequence(rng, n)
    if n > 1000 and rng.random() < 0.7:      # symbols that come late
        x = x[:-40] + "".join(rng.choice("XYZ@") for _ in range(40))
    y = x if rng.random() < 0.1 else sequence(rng, n)
    if rng.random() < 0.15:
        y = "".join(chr(ord("A") + (ord(c) % 20)) for c in x)      # a function of x
    hx, hy, hxy = H(x), H(y), H(list(zip(x, y)))
    if rng.random() < 0.15:      # the symbols in a list, of more than one character, or numbers
        words = rng.choice([["a", "a\0", "aa", "", "\0", "b "], [1, "1", 2, "2", 12], [0, 1, 2, 10, -1], [0.5, 0.25, 1.5], ["0", "00", "000"]])
        x, y = [words[ord(c) % len(words)] for c in x], [words[ord(c) % len(words)] for c in y]
        hx, hy, hxy = H(x), H(y), H(list(zip(x, y)))
        what = "%r / %r" % (x[:20], y[:20])
        near(case, ntm.shannon_entropy(x), hx, "shannon-entropy", what)
        near(case, ntm.joint_shannon_entropy(x, y), hxy, "joint-entropy", what)
        near(case, ntm.mutual_information(x, y), hx + hy - hxy, "mutual-information", what)
        case.event("sequences")
        case.state(x, y)
        return
    what = "%r / %r" % (x[:60], y[:60])
    near(case, ntm.shannon_entropy(x), hx, "shannon-entropy", what)
    near(case, ntm.joint_shannon_entropy(x, y), hxy, "joint-entropy", what)
    near(case, ntm.mutual_information(x, y), hx + hy - hxy, "mutual-information", what)
    # identities between the measures themselves
    j, j2 = ntm.joint_shannon_entropy(x, y), ntm.joint_shannon_entropy(y, x)
    mi, mi2 = ntm.mutual_information(x, y), ntm.mutual_information(y, x)
    ex, ey = ntm.shannon_entropy(x), ntm.shannon_entropy(y)
    case.check(abs(j - j2) < TOL and abs(mi - mi2) < TOL, "symmetric", "%s: %r %r %r %r", what, j, j2, mi, mi2)
    case.check(ex >= 0 and str(ex) != "-0.0", "non-negative", "%s: %r", what, ex)
    case.check(-TOL <= mi <= min(ex, ey) + TOL, "information-bounds", "%s: %r of %r, %r", what, mi, ex, ey)
    case.check(max(ex, ey) - TOL <= j <= ex + ey + TOL, "joint-bounds", "%s: %r of %r, %r", what, j, ex, ey)
    case.check(ex <= math.log2(len(set(x))) + TOL, "alphabet-bound", "%s: %r", what, ex)
    case.check(abs(ntm.mutual_information(x, x) - ex) < TOL, "self-information", "%s", what)
    # invariant under renaming and under a common reordering in time
    names = dict(zip(sorted(set(x)), rng.sample([chr(i) for i in range(200, 400)], len(set(x)))))
    xr = "".join(names[c] for c in x)
    near(case, ntm.shannon_entropy(xr), ex, "renaming", what)
    near(case, ntm.mutual_information(xr, y), mi, "renaming", what)
    perm = list(range(n))
    rng.shuffle(perm)
    near(case, ntm.joint_shannon_entropy("".join(x[i] for i in perm), "".join(y[i] for i in perm)), j, "reordering", what)
    if n > 1:
        case.raises(lambda: ntm.joint_shannon_entropy(x, y[:-1] if n > 2 else y + x), "lengths-refused", "sequences of other lengths")
    case.event("sequences")
    case.state(x, y)
    case.sample(what)


ALPHABETS = [[0, 1], [0, 1, 2, 3], [0, 10, 100, 1, 11, 110], [-1, 1, 11], [0.1, 0.01, 1.0], ["a", "ab", "b", "bb"], [True, False],
             [12, 21, 1, 2], [(0, 1), (1, 0), (0,)], [1, "x"], ["dead", "alive"], [99, 100, 9], [5], [1.5, -1.5, 15],
             [[0, 1], [1, 0], [1], []], [{0: 1}, {1: 0}, {}], [None, 0, 1], ["", "0", "00"], [1e-9, 1e-10, 0.0],
             [0.123456781, 0.123456782, 0.1234567], ["a state with a long name", "a state with a long name too", "a state with a long nam"],
             [10 ** 20, 10 ** 20 + 1, 10 ** 20 + 10], ["x" * 300 + "a", "x" * 300 + "b"], ["a", "a ", " a", "A"],
             ["a", "a\0", "a\0\0"], ["", "\0"], ["\n", "\r\n", "\t"]]


def table(rng, nodes, T, alphabet):
    rows = []
    modes = [rng.choice(["random", "constant", "cycle", "copy", "sticky"]) for _ in range(nodes)]
    for t in range(T):
        row = []
        for i in range(nodes):
            if modes[i] == "constant":
                v = alphabet[i % len(alphabet)]
            elif modes[i] == "cycle":
                v = alphabet[t % len(alphabet)]
            elif modes[i] == "sticky" and t and rng.random() < 0.7:
                v = rows[-1][i]
            elif modes[i] == "copy" and i:
                v = row[i - 1]
            else:
                v = rng.choice(alphabet)
            row.append(v)
        rows.append(row)
    return rows


def judge(case, arg, rows, what, rng):
    T, nodes = len(rows), len(rows[0])
    cols = [[r[i] for r in rows] for i in range(nodes)]
    want = sum(H(c) for c in cols) / nodes
    near(case, ntm.average_node_entropy(arg), want, "average-node-entropy", what)
    ds = sorted(set([1, T - 1, rng.randint(1, max(1, T - 1))]))
    for d in ds:
        if not 0 < d < T:
            continue
        want = sum(H(c[:-d]) + H(c[d:]) - H(list(zip(c[:-d], c[d:]))) for c in cols) / nodes
        near(case, ntm.average_mutual_information(arg, temporal_distance=d), want, "average-mutual-information", "%s distance %d" % (what, d))
        if d == 1:
            near(case, ntm.average_mutual_information(arg), want, "default-distance", what)
        if d >= nodes:
            case.event("far-distances")
    for d in (0, -1, T, T + 2):
        case.raises(lambda: ntm.average_mutual_information(arg, temporal_distance=d), "distance-refused",
                    "%s: distance %d of %d timesteps, %d nodes" % (what, d, T, nodes))
    case.event("evolutions")
    case.state(repr(rows))


def averages(case):
    rng = case.rng
    alphabet = rng.choice(ALPHABETS)
    if any(len(str(a)) > 1 for a in alphabet):
        case.event("wide-states")
    nodes, T = gen.wide(rng, 1, 12), rng.choice([2, 3, rng.randint(2, 20), rng.randint(2, 60)])
    T = T if getattr(rng, "size", None) != "long" else rng.randint(60, 150)
    rows = table(rng, nodes, T, alphabet)
    judge(case, rows, rows, "%d nodes, %d timesteps over %r" % (nodes, T, alphabet), rng)
    if all(isinstance(a, (int, float)) for a in alphabet) and len({type(a) for a in alphabet}) == 1:
        judge(case, np.array(rows), rows, "the same as an array over %r" % (alphabet,), rng)
    case.raises(lambda: ntm.average_node_entropy([]), "empty-refused", "no activities")
    case.raises(lambda: ntm.average_mutual_information([]), "empty-refused", "no activities")


def trajectories(case):
    rng = case.rng
    alphabet = rng.choice(ALPHABETS)
    nodes, T = gen.wide(rng, 1, 10), gen.steps(rng, 2, 30)
    rows = table(rng, nodes, T, alphabet)
    labels = list(range(nodes))
    net = ntm.Network()
    order = list(labels)
    rng.shuffle(order)
    for l in order:
        net.add_node(l)
        net.add_edge(l, l)
    traj = ntm.evolve(net, initial_conditions={l: rows[0][l] for l in order}, activity_rule=lambda ctx: rows[ctx.timestep][ctx.node_label],
                      timesteps=T, compression=rng.random() < 0.3)
    judge(case, traj, rows, "trajectory of %d nodes, %d timesteps over %r" % (nodes, T, alphabet), rng)


SECTIONS = [Section("strings", strings, 800, 16000), Section("averages", averages, 400, 8000), Section("trajectories", trajectories, 200, 3000)]
