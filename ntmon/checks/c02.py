from .. import demos, evogen, raising
from ..core import Section
from ..trace import AF, SY, TF, judge

PROP = "C02"
QUICK_SCALE = 1
RULE = ("random evolutions with a topology rule (identity, in-place edits, edge drops, reweighting, full rebuilds; all depend "
        "on activities, timestep and call count) under each update order; distinct by final activities and network")
NEED = {"activities_first": ["topology-calls", "contexts"], "topology_first": ["topology-calls", "contexts"],
        "synchronous": ["topology-calls", "contexts"], "topology_only": ["topology-calls"]}


def _one(case, **kw):
    evo = evogen.evolution(case, storage=None, **kw)
    evo.run()
    judge(case, evo, ["C02"])
    if hasattr(evo, "expected"):
        a, s = evo.expected[-1]
        case.state(evo.describe, sorted(map(repr, s.items())), sorted(map(repr, a["in"].items())))
    case.sample(evo.describe)
    return evo


def activities_first(case):
    _one(case, topo=True, order=AF)


def topology_first(case):
    _one(case, topo=True, order=TF)


def synchronous(case):
    _one(case, topo=True, order=SY)


def topology_only(case):
    """no activity rule: only the network evolves"""
    evo = evogen.evolution(case, topo=True, pert=False, past=False, storage=None)
    evo.rule = None
    evo.run()
    judge(case, evo, ["C02"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][0]["in"].items())))


def refused(case):
    """a topology rule that returns no network, or an unknown update order, is refused"""
    import netomaton as ntm
    evo = evogen.evolution(case, topo=False, inp=False, past=False, pert=False)
    evo.timesteps = case.rng.randint(2, 4)
    kw = evo.kwargs()
    kw["topology_rule"] = lambda ctx: None
    case.raises(lambda: ntm.evolve(**kw), "no-network-refused", "topology rule returning None")
    kw = evo.kwargs()
    kw["update_order"] = case.rng.choice(["activities", 1, 4, None])
    case.raises(lambda: ntm.evolve(**kw), "unknown-order-refused", "update order %r" % kw["update_order"])
    case.state(kw["update_order"], evo.describe)


SECTIONS = [Section("raising", raising.section("topo", "topo"), 120, 3000), Section("activities_first", activities_first, 500, 12000), Section("topology_first", topology_first, 400, 10000),
            Section("synchronous", synchronous, 400, 10000), Section("topology_only", topology_only, 150, 3000),
            Section("refused", refused, 60, 400),
            Section("demos", demos.section(["C02"]), len(demos.QUICK), len(demos.THOROUGH))]
