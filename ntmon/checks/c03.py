import numpy as np

import netomaton as ntm

from .. import demos, evogen, gen, raising
from ..core import Section
from ..model import h
from ..trace import AF, SY, TF, Evo, judge

PROP = "C03"
QUICK_SCALE = 1
RULE = ("random evolutions driven by timesteps (0 and 1 included), input lists (per-node sequences, falsy and structured "
        "items, empty) and input functions; distinct by drive, length and final activities")
NEED = {"timesteps": ["traces"], "lists": ["contexts"], "functions": ["contexts"], "long": ["long-traces"], "any_items": ["falsy-items", "traces"]}


def _one(case, evo):
    evo.run()
    judge(case, evo, ["C03"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, len(evo.traj), sorted(map(repr, evo.expected[-1][1].items())))
    case.sample(evo.describe)


def timesteps(case):
    evo = evogen.evolution(case, inp=False)
    if case.rng.random() < 0.3:
        evo.timesteps = case.rng.choice([0, 1, 2])
    _one(case, evo)


def _drive(case, fn):
    rng = case.rng
    for _ in range(50):
        evo = evogen.evolution(case, inp=True, kind=rng.choice(["int", "int", None]))
        if callable(evo.input) == fn:
            break
    if evo.timesteps is None and rng.random() < 0.5:
        evo.timesteps = rng.choice([0, 1, 2, 30])
    return evo


def lists(case):
    evo = _drive(case, False)
    if not callable(evo.input) and case.rng.random() < 0.15:
        evo.input = case.rng.choice([[], (), evo.input[:1], tuple(evo.input)])
    _one(case, evo)


def functions(case):
    _one(case, _drive(case, True))


def refused(case):
    rng = case.rng
    evo = evogen.evolution(case, topo=False, inp=False, past=False, pert=False)
    kw = evo.kwargs()
    kw.pop("timesteps")
    case.raises(lambda: ntm.evolve(**kw), "neither-refused", "neither timesteps nor input")
    n = len(evo.labs)
    for m in sorted({0, n - 1, n + 1, rng.randint(0, 2 * n)} - {n}):
        kw = evo.kwargs()
        kw["timesteps"] = rng.randint(1, 3)
        kw["initial_conditions"] = [0] * m
        case.raises(lambda: ntm.evolve(**kw), "initial-conditions-refused", "%d initial conditions for %d nodes" % (m, n))
    case.state(evo.describe)


def arrays(case):
    """numpy array inputs: one row per step"""
    rng = case.rng
    n = rng.randint(1, 5)
    net = gen.build([("add_node", (i,), {}) for i in range(n)])[0]
    steps = rng.randint(0, 5)
    inp = np.array([rng.randint(-5, 5) for _ in range(steps)])
    seen = []

    def rule(ctx):
        seen.append((ctx.timestep, ctx.node_label, ctx.input))
        if len(seen) > 1000:
            case.fail("stops", "the evolution does not end")
        return ctx.current_activity + 1
    traj = ntm.evolve(net, initial_conditions=[0] * n, activity_rule=rule, input=inp)
    case.eq(len(traj), steps + 1, "trajectory-length", "array input of %d items" % steps)
    case.eq(sorted(seen), sorted((t + 1, i, inp[t]) for t in range(steps) for i in range(n)), "node-input", "array items")
    case.state(n, steps, inp.tolist())
    case.event("contexts", len(seen))


def any_items(case):
    """no rule reads the input, or one that takes it as a whole: items of any kind (empty ones too) are one step each"""
    rng = case.rng
    evo = evogen.evolution(case, inp=False, topo=rng.random() < 0.7, pert=False, past=False, storage=rng.random() < 0.3)
    pool = [[], "", (), {}, 0, 0.0, False, [[]], [0], "x", {"a": 1}, -1, b"", set(), range(0), True, [None], 7, "__timestep__",
            np.array([]), np.array([0]), np.array([1, 2, 3]), np.int64(0), np.array(0), np.array(["a", "b"]), np.array([None, {}], dtype=object)]
    if rng.random() < 0.6:
        evo.rule = None
    else:
        # sequences are dealt out to the nodes
        pool = [x for x in pool if not isinstance(x, (list, tuple, str, bytes, range))]
    items = [rng.choice(pool) for _ in range(rng.randint(0, 6))]
    evo.timesteps = rng.choice([None, None, 1, 9])
    if rng.random() < 0.6:
        evo.input = items
    else:
        evo.input = lambda t, a, n: items[t - 1] if t <= len(items) else None
    evo.describe += " items=%r" % (items,)
    if evo.rule is not None and not callable(evo.input) and set(evo.labs) == set(range(len(evo.labs))) and rng.random() < 0.2:
        # a text of as many characters as there are nodes is dealt out too
        evo.input = ["__timestep__" if len(evo.labs) <= 12 and rng.random() < 0.7 else "x" * len(evo.labs) for _ in items]
    _one(case, evo)
    case.event("falsy-items", sum(x.size == 0 if isinstance(x, np.ndarray) else not x for x in items))


def long_(case):
    """hundreds of items, or timesteps: each is one step, whatever it is, and the last one ends it"""
    rng = case.rng
    T = rng.randint(70, 700) if rng.random() < 0.8 else rng.randint(1001, 2100)
    n = rng.randint(1, 3)
    net = gen.build([("add_node", (i,), {}) for i in range(n)] + [("add_edge", (i, (i + 1) % n), {}) for i in range(n)])[0]
    pool = rng.choice([[0, 0.0, False, {}], [0, 1, 5], [-1, 1], [0, {"a": 1}, 2.5]])
    items = [rng.choice(pool) for _ in range(T - 1)]
    drive = rng.choice(["list", "tuple", "function", "timesteps"])
    rule = (lambda ctx: h(repr(ctx.input), ctx.timestep, ctx.neighbourhood_activities) % 1000) if drive != "timesteps" else \
        (lambda ctx: h(ctx.timestep, ctx.neighbourhood_activities) % 1000)
    evo = Evo(net, [rng.randrange(9) for _ in range(n)], rule=rule, timesteps=T if drive == "timesteps" else rng.choice([None, 3]),
              order=rng.choice([AF, TF, SY]))
    if drive == "function":
        evo.input = lambda t, a, net: items[t - 1] if t <= len(items) else None
    elif drive != "timesteps":
        evo.input = tuple(items) if drive == "tuple" else items
    evo.describe = "%d nodes, %d states by %s of %r" % (n, T, drive, pool)
    evo.limit = T
    _one(case, evo)
    case.eq(len(evo.traj), T, "trajectory-length", evo.describe)
    case.event("long-traces")


SECTIONS = [Section("raising", raising.section("inp", "input"), 200, 4000), Section("timesteps", timesteps, 350, 8000), Section("lists", lists, 500, 12000),
            Section("functions", functions, 500, 12000), Section("refused", refused, 80, 500),
            Section("arrays", arrays, 60, 500),
            Section("long", long_, 40, 800),
            Section("any_items", any_items, 250, 6000),
            Section("demos", demos.section(["C03"]), len(demos.QUICK), len(demos.THOROUGH))]
