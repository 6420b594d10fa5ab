import numpy as np

import netomaton as ntm
from netomaton.topology import adjacency

from ..core import Section
from ..spoil import spoilt_before
from ..model import invariants

PROP = "C13"
RULE = ("grids of all small sizes (enumerated) and larger random ones built by the real constructors, compared cell by cell with "
        "torus distances, and evolved so that the contexts show the neighbourhoods; distinct by (shape, radius, type, ordered)")
NEED = {"ring": ["cells"], "ring_all": ["cells"], "torus": ["cells"], "torus_all": ["cells"], "defaults": ["cells"], "refusals": ["refusals"]}
ASSUMPTIONS = ["hexagonal neighbourhoods are claimed for radius one on grids with an even number of rows",
               "in 2D the ordered neighbourhood is claimed as a set with the cell itself in the middle, not the order of the others",
               "radii up to the number of cells (1D)"]


def ring_ref(n, c, r):
    return {(c + d) % n for d in range(-r, r + 1)}


def torus_ref(rows, cols, a, b, r, kind):
    out = set()
    if kind == "Hex":
        pts = [(0, 0), (0, 1), (0, -1), (1, 0), (-1, 0)]
        pts += [(1, 1), (-1, 1)] if a % 2 == 0 else [(1, -1), (-1, -1)]
    else:
        pts = [(x, y) for x in range(-r, r + 1) for y in range(-r, r + 1)
               if kind == "Moore" or abs(x) + abs(y) <= r]
    for x, y in pts:
        out.add((a + x) % rows * cols + (b + y) % cols)
    return out


def judge_network(case, net, refs, n, what):
    case.eq(sorted(net.nodes), list(range(n)), "cells", what)
    bad = invariants(net)
    case.check(bad is None, "consistent", lambda: "%s: %s" % (what, bad))
    for c in range(n):
        case.event("cells")
        ins = net.in_edges(c)
        case.eq(set(ins), refs[c], "neighbourhood", "%s cell %d" % (what, c))
        case.check(all(len(e) == 1 and e[0]["weight"] == 1 for e in ins.values()), "unit-weight",
                   lambda: "%s cell %d: %r" % (what, c, ins))
        case.check(all(net.has_edge(c, i) for i in ins), "symmetric", lambda: "%s cell %d" % (what, c))
        case.eq(net.out_degree(c), len(refs[c]), "symmetric", "%s out-degree of %d" % (what, c))


def judge_matrix(case, M, refs, n, what):
    case.eq((len(M), {len(r) for r in M}), (n, {n}), "matrix", what)
    for w in range(n):
        case.check(all(M[w][c] == (1 if c in refs[w] else 0) for c in range(n)), "matrix", lambda: "%s row %d: %r" % (what, w, M[w]))


def watch(case, net, refs, n, ordered, what, steps=2, middle=None):
    """evolve and look at what the contexts present"""
    rng = case.rng
    init = rng.sample(range(1000), n) if n <= 1000 else [rng.random() for _ in range(n)]
    state = {0: init}

    def rule(ctx):
        case.event("contexts")
        prev = state[ctx.timestep - 1]
        c = ctx.node_label
        case.eq(set(ctx.neighbour_labels), refs[c], "seen-neighbours", "%s cell %d" % (what, c))
        case.eq(len(ctx.neighbour_labels), len(refs[c]), "seen-neighbours", "%s cell %d once each" % (what, c))
        case.eq([prev[i] for i in ctx.neighbour_labels], list(ctx.neighbourhood_activities), "seen-activities", what)
        if middle is not None:
            case.eq(list(ctx.neighbour_labels), middle(c), "seen-order", "%s cell %d" % (what, c))
        new = prev[c] + 1
        state.setdefault(ctx.timestep, [None] * n)[c] = new
        return new
    ntm.evolve(net, initial_conditions=init, activity_rule=rule, timesteps=steps + 1)


def ring_case(case, n, r, ordered, deep=False):
    what = "ring n=%d r=%d ordered=%s" % (n, r, ordered)
    refs = [ring_ref(n, c, r) for c in range(n)]
    judge_matrix(case, spoilt_before(case, lambda: adjacency.cellular_automaton(n, r)), refs, n, what)
    net = spoilt_before(case, lambda: ntm.topology.cellular_automaton(n, r, ordered))
    judge_network(case, net, refs, n, what)

    def middle(c):
        if 2 * r + 1 <= n:
            return [(c + d) % n for d in range(-r, r + 1)]
        return [(c - n // 2 + k) % n for k in range(n)]
    if ordered:
        for c in range(n):
            case.eq(list(net.rotation_system[c]), middle(c), "order", "%s cell %d" % (what, c))
    else:
        case.check(net.rotation_system is None, "unordered", what)
    watch(case, net, refs, n, ordered, what, middle=middle if ordered else None)
    case.state("ring", n, r, ordered)
    case.sample(what)


RINGS = [(n, r) for n in range(3, 14) for r in range(0, n + 1)]


def ring_all(case):
    n, r = RINGS[case.idx // 2]
    ring_case(case, n, r, bool(case.idx % 2))


def ring(case):
    rng = case.rng
    n = rng.randint(3, 120 if case.deep else 60)
    r = rng.choice([1, 1, 2, 3, rng.randint(0, n)])
    if rng.random() < 0.1:
        net = ntm.topology.cellular_automaton()
        judge_network(case, net, [ring_ref(200, c, 1) for c in range(200)], 200, "default ring")
        case.eq(list(net.rotation_system[0]), [199, 0, 1], "order", "default ring")
    ring_case(case, n, r, rng.random() < 0.7)


def torus_case(case, rows, cols, r, kind, ordered):
    n = rows * cols
    what = "torus %dx%d r=%d %s ordered=%s" % (rows, cols, r, kind, ordered)
    refs = [torus_ref(rows, cols, a, b, r, kind) for a in range(rows) for b in range(cols)]
    judge_matrix(case, spoilt_before(case, lambda: adjacency.cellular_automaton2d(rows, cols, r, kind)), refs, n, what)
    net = spoilt_before(case, lambda: ntm.topology.cellular_automaton2d(rows, cols, r, kind, ordered))
    judge_network(case, net, refs, n, what)
    if ordered:
        for c in range(n):
            case.eq((set(net.rotation_system[c]), len(net.rotation_system[c])), (refs[c], len(refs[c])), "order-set",
                    "%s cell %d" % (what, c))
            case.eq(list(net.rotation_system[c])[len(refs[c]) // 2], c, "order-middle", "%s cell %d" % (what, c))
    else:
        case.check(net.rotation_system is None, "unordered", what)
    watch(case, net, refs, n, ordered, what, steps=1)
    case.state("torus", rows, cols, r, kind, ordered)
    case.sample(what)


TORI = [(a, b, r, k) for a in range(1, 7) for b in range(1, 7) for r in (1, 2, 3) for k in ("Moore", "von Neumann", "Hex")
        if a * b >= 9 and not (k == "Hex" and (r != 1 or a % 2))]


def torus_all(case):
    torus_case(case, *TORI[case.idx], ordered=bool((case.idx + case.seed) % 2))


def torus(case):
    rng = case.rng
    kind = rng.choice(["Moore", "von Neumann", "Hex"])
    while True:
        a, b = rng.randint(1, 12), rng.randint(1, 12)
        if a * b >= 9 and not (kind == "Hex" and a % 2):
            break
    torus_case(case, a, b, 1 if kind == "Hex" else rng.choice([1, 1, 2, 3, 4]), kind, rng.random() < 0.6)


def defaults(case):
    """radius one, Moore, ordered, unless said otherwise; arguments by name or in place"""
    rng = case.rng
    n = rng.randint(3, 30)
    refs = [ring_ref(n, c, 1) for c in range(n)]
    judge_matrix(case, adjacency.cellular_automaton(n), refs, n, "default radius, n=%d" % n)
    judge_matrix(case, adjacency.cellular_automaton(r=1, n=n), refs, n, "named, n=%d" % n)
    for net in (ntm.topology.cellular_automaton(n), ntm.topology.cellular_automaton(n=n, ordered=True)):
        judge_network(case, net, refs, n, "default radius, n=%d" % n)
        for c in range(n):
            case.eq(list(net.rotation_system[c]), [(c - 1) % n, c, (c + 1) % n], "order", "default ring of %d" % n)
    a, b = rng.randint(3, 8), rng.randint(3, 8)
    kind = rng.choice(["Moore", "von Neumann", "Hex"])
    r = rng.randint(1, 2)
    if kind == "Hex":
        a += a % 2
        r = 1
    n = a * b

    def refs2(r, kind):
        return [torus_ref(a, b, x, y, r, kind) for x in range(a) for y in range(b)]
    what = "torus %dx%d, defaults" % (a, b)
    judge_matrix(case, adjacency.cellular_automaton2d(a, b), refs2(1, "Moore"), n, what)
    judge_matrix(case, adjacency.cellular_automaton2d(a, b, neighbourhood=kind), refs2(1, kind), n, what)
    judge_matrix(case, adjacency.cellular_automaton2d(cols=b, rows=a, r=2), refs2(2, "Moore"), n, what)
    for kw, ref, ordered in (({}, refs2(1, "Moore"), True), ({"neighbourhood": kind, "r": r}, refs2(r, kind), True),
                             ({"ordered": False, "neighbourhood": kind}, refs2(1, kind), False)):
        net = ntm.topology.cellular_automaton2d(a, b, **kw)
        judge_network(case, net, ref, n, "%s %r" % (what, kw))
        if ordered:
            case.check(net.rotation_system is not None and all(set(net.rotation_system[c]) == ref[c] for c in range(n)),
                       "order-set", "%s %r" % (what, kw))
        else:
            case.check(net.rotation_system is None, "unordered", "%s %r" % (what, kw))
    case.state("defaults", n, a, b, kind, r)


def refusals(case):
    rng = case.rng
    case.raises(lambda: ntm.topology.cellular_automaton(rng.randint(-2, 2)), "refused", "ring of fewer than 3 cells")
    a = rng.randint(0, 8)
    b = rng.randint(0, 8 // a if a else 9)
    case.raises(lambda: ntm.topology.cellular_automaton2d(a, b), "refused", "torus of %dx%d cells" % (a, b))
    bad = rng.choice(["moore", "Neumann", "", "hexagonal", None])
    case.raises(lambda: ntm.topology.cellular_automaton2d(4, 4, neighbourhood=bad), "refused", "neighbourhood %r" % bad)
    case.raises(lambda: adjacency.cellular_automaton(5, 1, boundary="open"), "refused", "boundary")
    case.raises(lambda: adjacency.cellular_automaton2d(5, 5, 1, boundary="open"), "refused", "boundary")
    case.event("refusals", 5)
    case.state(a, b, bad)


SECTIONS = [Section("ring_all", ring_all, 2 * len(RINGS), 2 * len(RINGS), exhaustive=True), Section("ring", ring, 60, 1500),
            Section("torus_all", torus_all, len(TORI), len(TORI), exhaustive=True), Section("torus", torus, 80, 2000), Section("defaults", defaults, 20, 300),
            Section("refusals", refusals, 30, 300)]
