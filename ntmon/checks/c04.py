from .. import demos, evogen, raising
from ..core import Section
from ..trace import judge
from ._memo import memo_pert
from .c09 import build_case

PROP = "C04"
QUICK_SCALE = 1
RULE = ("random evolutions with a perturbation (identity, partial, total, stateful, type-changing) combined with inputs, past "
        "conditions, topology rules and storage options; distinct by final activities")
NEED = {"random": ["perturbations", "traces"], "memoized": ["perturbations"]}


def _one(case, **kw):
    evo = evogen.evolution(case, pert=True, **kw)
    evo.run()
    judge(case, evo, ["C04"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())))
    case.sample(evo.describe)


def random_(case):
    _one(case)


def plain(case):
    _one(case, topo=False, past=False, inp=False, maxsteps=8)


def changing(case):
    """nodes come and go while they are perturbed"""
    evo = build_case(case, pert=True)
    evo.run()
    judge(case, evo, ["C04"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())))


SECTIONS = [Section("changing", changing, 400, 8000), Section("raising", raising.section("pert", "pert"), 120, 3000),
            Section("random", random_, 700, 16000), Section("plain", plain, 500, 12000),
            Section("memoized", memo_pert, 250, 5000),
            Section("demos", demos.section(["C04"]), len(demos.QUICK), len(demos.THOROUGH))]
