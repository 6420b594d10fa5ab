import itertools

import netomaton as ntm

from .. import gen
from ..company import amid
from ..core import Section
from ..langton_table import LOOP, TABLE
from ..model import h

PROP = "C20"
QUICK_SCALE = 2
RULE = ("random complete and partial tables on tori of all small shapes, with and without implied rotations, compared with an "
        "independent torus simulator and under translations and quarter turns; Langton's loops against the published table; "
        "distinct by table, shape and state")
NEED = {"complete": ["cells"], "rotations": ["cells", "turned"], "partial": ["refusals"], "translate": ["cells"],
        "loops": ["cells"], "replicate": ["replicas"]}
ASSUMPTIONS = ["tables whose entries contradict each other under rotation are not given with add_rotations"]


def shape(rng, small=False):
    while True:
        a, b = rng.randint(1, 5 if small else 8), rng.randint(1, 5 if small else 8)
        if a * b >= 9:
            return a, b


def nb(rows, cols, c):
    a, b = divmod(c, cols)
    return (c, (a - 1) % rows * cols + b, a * cols + (b + 1) % cols, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols)


def simulate(table, rows, cols, x):
    return [table[tuple(x[i] for i in nb(rows, cols, c))] for c in range(rows * cols)]


def turns(key):
    out = [key]
    for _ in range(3):
        k = out[-1]
        out.append((k[0], k[4], k[1], k[2], k[3]))
    return out


def run(case, rule, x, T, memo):
    traj = ntm.evolve(rule.network, initial_conditions=list(x), activity_rule=amid(case, "CTRBLRule", rule.activity_rule),
                      timesteps=T + 1, memoize=memo)
    return [[s.activities[c] for c in range(len(x))] for s in traj]


def judge(case, rule, table, rows, cols, x, T, what):
    got = run(case, rule, x, T, case.rng.random() < 0.3)
    case.eq(len(got), T + 1, "length", what)
    for t in range(1, T + 1):
        x = simulate(table, rows, cols, x)
        case.event("cells", len(x))
        case.eq(got[t], x, "evolution", "%s step %d" % (what, t))
        case.state(what, x)
    return got


def complete(case):
    rng = case.rng
    rows, cols = shape(rng)
    k = rng.choice([2, 2, 3])
    states = rng.choice([list(range(k)), ["a", "b", "c"][:k], [0, 10, 100][:k]])
    table = {key: rng.choice(states) for key in itertools.product(states, repeat=5)}
    given = dict(table)
    rule = ntm.CTRBLRule((rows, cols), given)
    case.eq(rule.rule_table, table, "table", "without rotations")
    case.eq(given, table, "table", "the table handed in")
    x = [rng.choice(states) for _ in range(rows * cols)]
    judge(case, rule, table, rows, cols, x, rng.randint(1, 6), "%dx%d" % (rows, cols))
    for c in range(rows * cols):
        case.eq(set(rule.network.in_edges(c)), set(nb(rows, cols, c)), "torus-network", "%dx%d cell %d" % (rows, cols, c))
    twin = ntm.CTRBLRule((rows, cols), given).neighbourhood_map
    for c in range(rows * cols):
        case.check(twin[c] == rule.neighbourhood_map[c], "neighbourhood-map", "%dx%d cell %d is not equal to itself", rows, cols, c)
        d = rng.randrange(rows * cols)
        case.eq(rule.neighbourhood_map[c] == twin[d], c == d, "neighbourhood-map", "%dx%d cells %d and %d equal" % (rows, cols, c, d))
        m = rule.neighbourhood_map[c]
        case.eq((m.center, m.top, m.right, m.bottom, m.left), nb(rows, cols, c), "neighbourhood-map", "%dx%d cell %d" % (rows, cols, c))
    case.sample("%dx%d k=%d %r" % (rows, cols, k, x))


def base_table(rng, states):
    """one representative of each rotation class, with an image"""
    table = {}
    full = {}
    for key in itertools.product(states, repeat=5):
        if key not in full:
            v = rng.choice(states)
            table[rng.choice(turns(key))] = v
            for q in turns(key):
                full[q] = v
    return table, full


def rotations(case):
    rng = case.rng
    rows, cols = shape(rng)
    states = list(range(rng.choice([2, 3] if case.idx % 25 != 24 else [4, 5])))
    table, full = base_table(rng, states)
    given = dict(table)
    rule = ntm.CTRBLRule((rows, cols), given, add_rotations=True)
    case.eq(rule.rule_table, full, "rotations-implied", "with rotations")
    case.eq(given, table, "table", "the table handed in")
    case.eq(ntm.CTRBLRule((rows, cols), given).rule_table, table, "rotations-only-when-asked", "without rotations")
    case.eq(ntm.CTRBLRule((rows, cols), given, add_rotations=False).rule_table, table, "rotations-only-when-asked", "add_rotations=False")
    x = [rng.choice(states) for _ in range(rows * cols)]
    T = gen.steps(rng, 1, 6)
    got = judge(case, rule, full, rows, cols, x, T, "%dx%d" % (rows, cols))
    # quarter turn of the torus
    turn = lambda v: [v[(rows - 1 - b) * cols + a] for a in range(cols) for b in range(rows)]
    rule2 = ntm.CTRBLRule((cols, rows), given, add_rotations=True)
    got2 = run(case, rule2, turn(x), T, False)
    for t in range(T + 1):
        case.eq(got2[t], turn(got[t]), "quarter-turn", "%dx%d step %d" % (rows, cols, t))
        case.event("turned")


def translate(case):
    rng = case.rng
    rows, cols = shape(rng)
    states = list(range(rng.choice([2, 3])))
    table = {key: rng.choice(states) for key in itertools.product(states, repeat=5)}
    rule = ntm.CTRBLRule((rows, cols), table)
    x = [rng.choice(states) for _ in range(rows * cols)]
    sr, sc = rng.randrange(rows), rng.randrange(cols)
    shift = lambda v: [v[(a + sr) % rows * cols + (b + sc) % cols] for a in range(rows) for b in range(cols)]
    T = gen.steps(rng, 1, 8)
    a, b = run(case, rule, x, T, False), run(case, rule, shift(x), T, rng.random() < 0.5)
    for t in range(T + 1):
        case.eq(b[t], shift(a[t]), "translation", "%dx%d by (%d,%d) step %d" % (rows, cols, sr, sc, t))
        case.event("cells", len(x))
    case.state(rows, cols, sr, sc, x)


def partial(case):
    rng = case.rng
    rows, cols = shape(rng, small=True)
    states = list(range(rng.choice([2, 3])))
    rot = rng.random() < 0.5
    if rot:
        table, full = base_table(rng, states)
    else:
        full = table = {key: rng.choice(states) for key in itertools.product(states, repeat=5)}
    gone = rng.sample(sorted(table), rng.choice([1, 2, len(table) // 2]))
    table = {k: v for k, v in table.items() if k not in gone}
    missing = {q for k in gone for q in (turns(k) if rot else [k])}
    full = {k: v for k, v in full.items() if k not in missing}
    rule = ntm.CTRBLRule((rows, cols), dict(table), add_rotations=rot)
    case.eq(rule.rule_table, full, "table", "partial table rot=%s" % rot)
    x = [rng.choice(states) for _ in range(rows * cols)]
    bad = None
    for t in range(1, 5):
        try:
            x2 = simulate(full, rows, cols, x)
        except KeyError as e:
            bad = next(tuple(x[i] for i in nb(rows, cols, c)) for c in rule.network.nodes
                       if tuple(x[i] for i in nb(rows, cols, c)) not in full)
            try:
                got = run(case, rule, x, 1, False)
            except Exception as err:
                text = str(err)
                keys = {tuple(x[i] for i in nb(rows, cols, c)) for c in range(rows * cols)} & missing
                case.check(any(all(str(s) in text for s in k) for k in keys), "missing-named",
                           lambda: "refused with %r, missing are %r" % (text, keys))
                case.event("refusals")
                break
            case.fail("missing-refused", "%r not in the table, but the step gave %r" % (bad, got))
        else:
            case.eq(run(case, rule, x, 1, False)[1], x2, "evolution", "partial table")
            x = x2
    case.state(rows, cols, rot, sorted(missing), x)


FULL = {}
for e in TABLE:
    for q in turns(tuple(map(int, e[:5]))):
        FULL[q] = int(e[5])
SEED = [[0 if ch == "." else int(ch) for ch in row] for row in LOOP]


def place(rows, cols, places):
    g = [[0] * cols for _ in range(rows)]
    for r, c in places:
        for a, row in enumerate(SEED):
            for b, v in enumerate(row):
                if LOOP[a][b] != ".":
                    g[r + a][(c - 1 + b) % cols] = v
    return [v for row in g for v in row]


def loops(case):
    """any admissible positions (inside, the first column left of the start may wrap), several loops far apart"""
    rng = case.rng
    rows, cols = rng.randint(22, 34), rng.randint(26, 40)
    n = rng.choice([1, 1, 2])
    if n == 1:
        places = [(rng.randint(0, rows - 10), rng.randint(1, cols - 14))]
    else:
        rows = 40
        places = [(rng.randint(0, 6), rng.randint(1, cols - 14)), (rng.randint(22, 28), rng.randint(1, cols - 14))]
    ll = ntm.LangtonsLoop((rows, cols))
    case.eq(ll.rule_table, FULL, "langton-table", "Langton's table with rotations")
    x = [int(v) for v in ll.init_loops(n, [p[0] for p in places], [p[1] for p in places])]
    case.eq(x, place(rows, cols, places), "langton-seed", "loops at %r on %dx%d" % (places, rows, cols))
    # several of them right beside one another: each is written in full, none writes outside its own cells
    R, C = rng.randint(22, 50), rng.randint(34, 60)
    r, c = rng.randint(0, R - 22), rng.randint(1, C - 33)
    close = rng.sample([(r, c), (r, c + 15), (r + 10, c + rng.randint(0, 3)), (r + 10 + rng.randint(0, 2), c + 18)], rng.randint(2, 4))
    more = ntm.LangtonsLoop((R, C))
    y = [int(v) for v in more.init_loops(len(close), [p[0] for p in close], [p[1] for p in close])]
    case.eq(y, place(R, C, close), "langton-seed", "loops at %r on %dx%d" % (close, R, C))
    T = 14
    got = run(case, ll, x, T, rng.random() < 0.7)
    for t in range(1, T + 1):
        try:
            x = simulate(FULL, rows, cols, x)
        except KeyError:
            return
        case.event("cells", len(x))
        case.eq(got[t], x, "evolution", "loops at %r on %dx%d step %d" % (places, rows, cols, t))
    case.state(rows, cols, places)


def replicate(case):
    """after 151 steps the first child stands beside its parent, in the same shape"""
    rng = case.rng
    rows, cols = 40, 52
    r, c = rng.randint(12, 18), rng.randint(4, 10)
    ll = ntm.LangtonsLoop((rows, cols))
    traj = ntm.evolve(ll.network, initial_conditions=ll.init_loops(1, [r], [c]), activity_rule=ll.activity_rule, timesteps=152, memoize=True)
    g = [traj[151].activities[i] for i in range(rows * cols)]
    got = [row for row in SEED if False]
    child = [[g[(r + a) * cols + c + 10 + b] for b in range(15)] for a in range(10)]
    case.eq(child, SEED, "self-replicates", "after 151 steps from (%d,%d)" % (r, c))
    case.event("replicas")
    case.state(r, c)


SECTIONS = [Section("complete", complete, 250, 6000), Section("rotations", rotations, 200, 5000), Section("translate", translate, 150, 4000),
            Section("partial", partial, 200, 4000), Section("loops", loops, 16, 200), Section("replicate", replicate, 2, 24, timeout=200)]
