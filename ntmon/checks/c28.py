import itertools
import math

import numpy as np

import netomaton as ntm

from .. import gen
from ..company import amid
from ..core import Section

PROP = "C28"
RULE = ("random k (2 to 12), radius (0 to 3), lambda (0 and 1 included), quiescent state, option combinations and seeds; every entry of "
        "every table judged; walks in both directions; distribution of entries over large tables; distinct by table")
NEED = {"tables": ["entries", "strong", "isotropic"], "walks": ["up", "down"], "lookups": ["lookups", "refusals"],
        "distribution": ["tables"]}
DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


def states(k, r):
    out = [""]
    for _ in range(2 * r + 1):
        out = [s + DIGITS[d] for s in out for d in range(k)]
    return out


def shape(rng, deep):
    while True:
        k, r = rng.choice([2, 2, 2, 3, 3, 4, 5, 6, 8, 10, 12]), rng.randint(0, 3)
        if k ** (2 * r + 1) <= (5000 if deep else 1100):
            return k, r


def judge(case, table, k, r, q, strong, iso, what):
    want = states(k, r)
    case.eq(set(table), set(want), "one-entry-per-neighbourhood", what)
    for s in want:
        v = table[s]
        case.check(v in range(k), "entry-is-a-state", "%s: %s -> %r", what, s, v)
        if strong and len(set(s)) == 1:
            case.check(v == DIGITS.index(s[0]), "strong-quiescence", "%s: %s -> %r", what, s, v)
        if iso:
            case.check(v == table[s[::-1]], "isotropic", "%s: %s -> %r but reversed -> %r", what, s, v, table[s[::-1]])
    case.event("entries", len(want))
    if strong:
        case.event("strong")
    if iso:
        case.event("isotropic")


def lam(table, q):
    return sum(1 for v in table.values() if v != q) / len(table)


def tables(case):
    rng = case.rng
    k, r = shape(rng, case.deep)
    l = rng.choice([None, 0., 1., 0.5, rng.random()])
    q = rng.choice([None, 0, k - 1, rng.randrange(k)])
    strong, iso = rng.random() < 0.5, rng.random() < 0.5
    kw = {}
    if l is not None or rng.random() < 0.5:
        kw["lambda_val"] = l
    if q is not None or rng.random() < 0.5:
        kw["quiescent_state"] = q
    if strong or rng.random() < 0.5:
        kw["strong_quiescence"] = strong
    if iso or rng.random() < 0.5:
        kw["isotropic"] = iso
    what = "random_rule_table(%d, %d, %r)" % (k, r, kw)
    table, actual, quiescent = ntm.random_rule_table(k, r, **kw)
    judge(case, table, k, r, quiescent, strong, iso, what)
    if q is None:
        case.check(quiescent in range(k), "quiescent-in-range", "%s: %r", what, quiescent)
    else:
        case.eq(quiescent, q, "quiescent-as-asked", what)
    case.check(abs(actual - lam(table, quiescent)) < 1e-12, "true-lambda", "%s: %r, the table has %r", what, actual,
               lam(table, quiescent))
    if l == 0.:
        bad = [s for s, v in table.items() if v != quiescent and not (strong and len(set(s)) == 1)]
        case.eq(bad, [], "lambda-zero", what)
    if l == 1.:
        bad = [s for s, v in table.items() if v == quiescent and not (strong and len(set(s)) == 1)]
        case.eq(bad, [], "lambda-one", what)
    for wrong in (-1, k, k + 3):
        case.raises(lambda: ntm.random_rule_table(k, r, quiescent_state=wrong), "quiescent-refused", "%d of %d" % (wrong, k))
    case.state(k, r, tuple(sorted(table.items())))
    case.sample(what + " lambda %r" % actual)


def walks(case):
    rng = case.rng
    k, r = shape(rng, case.deep)
    strong, iso = rng.random() < 0.5, rng.random() < 0.5
    q0 = rng.choice([0, k - 1, rng.randrange(k)])
    table, l0, q = ntm.random_rule_table(k, r, lambda_val=rng.choice([0., 1., rng.random(), rng.random()]), quiescent_state=q0,
                                         strong_quiescence=strong, isotropic=iso)
    N = k ** (2 * r + 1)
    for _ in range(3):
        before = dict(table)
        l0 = lam(before, q)
        target = rng.choice([0., 1., rng.random(), rng.random(), l0, min(1., max(0., l0 + rng.choice([-2, -1, 1, 2]) / N))])
        what = "walk k=%d r=%d q=%d from %r to %r strong=%r isotropic=%r" % (k, r, q, l0, target, strong, iso)
        kw = {}
        if strong or rng.random() < 0.5:
            kw["strong_quiescence"] = strong
        if iso or rng.random() < 0.5:
            kw["isotropic"] = iso
        table, actual = ntm.table_walk_through(dict(before), target, k, r, q, **kw)
        judge(case, table, k, r, q, strong, iso, what)
        true = lam(table, q)
        case.check(abs(actual - true) < 1e-12, "true-lambda", "%s: reports %r, the table has %r", what, actual, true)
        changed = [s for s in table if table[s] != before[s]]
        step = (2 if iso else 1) / N + 1e-12
        free = [s for s in table if not (strong and len(set(s)) == 1)]
        if l0 == target:
            case.eq(changed, [], "already-there", what)
        elif target < l0:
            case.event("down")
            case.check(all(before[s] != q and table[s] == q for s in changed), "moves-one-way", "%s: changed %r", what, changed[:5])
            case.check(true <= target or all(table[s] == q for s in free), "arrives", "%s: stopped at %r", what, true)
            case.check(true > target - step, "does-not-overshoot", "%s: went to %r", what, true)
        else:
            case.event("up")
            case.check(all(before[s] == q and table[s] != q for s in changed), "moves-one-way", "%s: changed %r", what, changed[:5])
            case.check(true >= target or all(table[s] != q for s in free), "arrives", "%s: stopped at %r", what, true)
            case.check(true < target + step, "does-not-overshoot", "%s: went to %r", what, true)
        case.state(k, r, tuple(sorted(table.items())))


DIGITS = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ"


class Ctx:
    def __init__(self, acts):
        self.neighbourhood_activities = acts


def lookups(case):
    rng = case.rng
    k, r = rng.choice([2, 3, 4]), rng.choice([1, 1, 2])
    if case.idx % 8 == 5:
        k, r = rng.choice([10, 11, 12, 16, 36]), 1
        if k > 12:
            r = rng.choice([0, 1])
    table, _, _ = ntm.random_rule_table(k, r)
    text = lambda nb: "".join(DIGITS[x] for x in nb)
    outs = rng.choice([None, ["x%d" % i for i in range(5)], [i / 2 for i in range(5)]])
    rule = ntm.table_rule(table)
    for _ in range(20):
        nb = [rng.randrange(k) for _ in range(2 * r + 1)]
        arg = rng.choice([nb, tuple(nb), np.array(nb), [DIGITS[x] for x in nb]])
        case.eq(rule(Ctx(arg)), table[text(nb)], "table-lookup", "%r" % (arg,))
        case.event("long-digits", max(nb) > 9)
    case.event("lookups", 20)
    # states may be of any type and length: the table is read by their text, put together
    odd = rng.choice([["on", "off", "x"], [10, 7, 11], [-1, 1, 0], [0.5, 1, 25], ["", "a", "aa"], [True, False, None]])[:k]
    alltexts = {}
    for nb in itertools.product(odd, repeat=3):
        alltexts["".join(map(str, nb))] = rng.choice(odd)
    rule = ntm.table_rule(alltexts)
    for _ in range(10):
        nb = [rng.choice(odd) for _ in range(3)]
        case.eq(rule(Ctx(nb)), alltexts["".join(map(str, nb))], "table-lookup", "%r" % (nb,))
    case.raises(lambda: rule(Ctx(["nowhere"] * 3)), "unknown-refused", "states of no table")
    # as the rule of an automaton on a ring
    n = rng.randint(max(3, 2 * r + 1), 14)
    T = gen.steps(rng, 1, 8)
    init = [rng.randrange(k) for _ in range(n)]
    net = ntm.topology.cellular_automaton(n, r=r)
    traj = ntm.evolve(net, initial_conditions=list(init), activity_rule=amid(case, "table_rule", ntm.table_rule(table)), timesteps=T + 1)
    row = init
    for t in range(1, T + 1):
        row = [table[text([row[(i + d) % n] for d in range(-r, r + 1)])] for i in range(n)]
        case.eq([traj[t].activities[i] for i in range(n)], row, "table-automaton", "k=%d r=%d n=%d step %d" % (k, r, n, t))
    # partial tables refuse what they do not know and give what they know, whatever its type
    keys = rng.sample(sorted(table), len(table) // 2)
    if k > 4:   # a few of the many
        table = {s: table[s] for s in keys[:60] + rng.sample(sorted(set(table) - set(keys)), min(60, len(table) // 2))}
        keys = keys[:60]
    part = {s: (outs[i % 5] if outs else table[s]) for i, s in enumerate(keys)}
    rule = ntm.table_rule(part)
    for s in sorted(table):
        nb = [DIGITS.index(c) for c in s]
        if s in part:
            case.eq(rule(Ctx(nb)), part[s], "table-lookup", s)
        else:
            case.raises(lambda: rule(Ctx(nb)), "unknown-refused", "neighbourhood %s of a table without it" % s)
            case.event("refusals")
    case.raises(lambda: ntm.table_rule(table)(Ctx([0] * (2 * r + 2))), "unknown-refused", "a longer neighbourhood")
    case.state(tuple(sorted(table.items())), tuple(init))


def distribution(case):
    """8 sigma bounds on the share of quiescent entries and on how often each other state is used"""
    rng = case.rng
    k, r = rng.choice([(2, 5), (3, 3), (4, 2), (5, 2)])
    strong, iso = rng.random() < 0.5, rng.random() < 0.5
    l = rng.choice([None, 0.1, 0.3, 0.5, 0.8, 0.95])
    kw = {"strong_quiescence": strong, "isotropic": iso, "lambda_val": l}
    for key, dflt in (("strong_quiescence", False), ("isotropic", False), ("lambda_val", None)):
        if kw[key] == dflt and rng.random() < 0.5:
            del kw[key]
    table, actual, q = ntm.random_rule_table(k, r, **kw)
    p = 1 - 1 / k if l is None else l
    N = k ** (2 * r + 1)
    sd = math.sqrt(p * (1 - p) / N) * (1.5 if iso else 1)
    case.check(abs(actual - p) <= 8 * sd + (k / N if strong else 0), "lambda-as-asked", "asked for %r got %r (k=%d r=%d)", p, actual, k, r)
    m = p / (k - 1)
    for s in range(k):
        if s != q:
            f = sum(1 for v in table.values() if v == s) / N
            case.check(abs(f - m) <= 8 * math.sqrt(m * (1 - m) / N) * (1.5 if iso else 1) + (1 / N if strong else 0),
                       "other-states-alike", "state %d has a share of %r, expected about %r", s, f, m)
    # what was not asked for is not imposed
    if not iso and 0.1 <= p <= 0.95:
        pairs = [s for s in table if s < s[::-1]]
        alike = sum(1 for s in pairs if table[s] == table[s[::-1]]) / len(pairs)
        a = (1 - p) ** 2 + (k - 1) * m * m
        case.check(abs(alike - a) <= 8 * math.sqrt(a * (1 - a) / len(pairs)), "isotropy-not-imposed", "%r of the mirrored neighbourhoods "
                   "have the same entry, expected about %r (k=%d r=%d, %r)", alike, a, k, r, kw)
    if not strong:
        hits = n = 0
        for _ in range(60):
            t2, _, q2 = ntm.random_rule_table(3, 1, lambda_val=0.5, quiescent_state=0, **({} if rng.random() < 0.5 else {"strong_quiescence": False}))
            hits += t2["111"] == 1
            n += 1
        case.check(hits < n, "strong-quiescence-not-imposed", "the neighbourhood 111 keeps its state in all of %d tables", n)
    case.event("tables")
    case.state(k, r, l, strong, iso, actual)


SECTIONS = [Section("tables", tables, 500, 6000), Section("walks", walks, 300, 4000), Section("lookups", lookups, 200, 4000),
            Section("distribution", distribution, 60, 600)]
