import netomaton as ntm

from .. import demos, evogen, raising
from ..core import Section
from ..trace import AF, SY, TF, Evo, judge

PROP = "C01"
QUICK_SCALE = 1
RULE = ("random directed multigraphs (parallel edges, self-loops, isolated nodes, int/str/tuple/mixed labels), random rules "
        "(pure, history dependent, unique tokens), every callback recorded and replayed by an offline checker; a case is "
        "non-trivial and distinct by its final activities, edge set and feature vector")
NEED = {"random": ["traces", "contexts"], "plain": ["contexts"], "crowd": ["neighbours"], "demos": ["contexts"]}


def _one(case, **kw):
    evo = evogen.evolution(case, **kw)
    evo.wild = case.rng.random() < 0.3
    if evo.wild:
        case.event("lists-altered")
    evo.run()
    judge(case, evo, ["C01"])
    case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())) if hasattr(evo, "expected") else 0)
    case.sample(evo.describe)


def random_(case):
    _one(case)


def plain(case):
    _one(case, topo=False, pert=False, past=False, inp=False, maxsteps=8, rotation=None)


def rotated(case):
    _one(case, topo=False, rotation=True)


def storage(case):
    _one(case, storage=True)


def crowd(case):
    """nodes with hundreds of neighbours, in any order, with parallel edges"""
    rng = case.rng
    n = rng.choice([70, 130, 200, 270])
    labs = list(range(n))
    net = ntm.Network(n)
    hubs = rng.sample(labs, 3)
    for h in hubs:
        for i in rng.sample(labs, rng.choice([n, n - 1, n // 2])):
            net.add_edge(i, h, weight=i % 7)
            if rng.random() < 0.05:
                net.add_edge(i, h, weight=-1)
    for l in labs:
        net.add_edge(rng.choice(labs), l)
    kw = {}
    if rng.random() < 0.4:
        rot = {l: list(net.in_edges(l)) for l in labs}
        for v in rot.values():
            rng.shuffle(v)
        net.rotation_system = rot
    elif rng.random() < 0.4:
        kw = {"topo": evogen.topo_rule(rng, "identity"), "order": rng.choice([AF, TF, SY])}
    val = evogen.values(rng, "int")
    evo = Evo(net, [val(i) for i in labs], rule=evogen.rule_state(rng, val), timesteps=3, **kw)
    evo.run()
    judge(case, evo, ["C01"])
    case.event("neighbours", sum(len(net.in_edges(h)) for h in hubs))
    case.state(n, hubs, sorted(map(repr, evo.expected[-1][1].items())) if hasattr(evo, "expected") else 0)


SECTIONS = [Section("raising", raising.section("act", "rule"), 120, 3000), Section("crowd", crowd, 6, 120), Section("random", random_, 700, 20000), Section("plain", plain, 500, 15000),
            Section("rotated", rotated, 300, 8000), Section("storage", storage, 300, 8000),
            Section("demos", demos.section(["C01"]), len(demos.QUICK), len(demos.THOROUGH))]
