import numpy as np

import netomaton as ntm

from .. import demos, evogen, gen
from ..core import Section
from ..model import h
from ..trace import AF, SY, TF, judge
from .c09 import build_case

PROP = "C05"
QUICK_SCALE = 1
RULE = ("random evolutions with 1-4 (or 5-9) past conditions given as lists, arrays or mappings, any storage option; distinct "
        "by final activities; the rule's value depends on the oldest past state so a wrong window changes the dynamics too")
NEED = {"random": ["contexts", "traces"], "deepwindow": ["contexts"]}


def _one(case, **kw):
    evo = evogen.evolution(case, past=True, **kw)
    evo.run()
    judge(case, evo, ["C05"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())))
    case.sample(evo.describe)


def random_(case):
    _one(case)


def storage(case):
    _one(case, storage=True, topo=False)


def deepwindow(case):
    """windows longer and shorter than the run; conditions as lists, arrays, mappings; context accessors"""
    rng = case.rng
    n = rng.randint(1, 5)
    labs = gen.labels(rng, n, rng.choice(["int", "str", "sparse"]))
    intlab = labs == list(range(n))
    net, _ = gen.build(gen.net_ops(rng, labs))
    k, T = rng.randint(1, 9), gen.steps(rng, 1, 14)
    hist = [{l: (a + 1) * 1000 + i for i, l in enumerate(labs)} for a in range(k + 1)]

    def form(d):
        if intlab:
            return rng.choice([list(d.values()), np.array(list(d.values())), dict(d)])
        return dict(d)
    past = [form(d) for d in hist[:-1]]
    salt = rng.getrandbits(20)
    seen = []

    def rule(ctx):
        want = hist[-1 - k:-1]
        got = [dict(p) for p in ctx.past_activities]
        case.check(got == want, "past-window", lambda: "t=%d k=%d: %r expected %r" % (ctx.timestep, k, got, want))
        for a in range(1, k + 1):
            case.eq(ctx.past_activity_of(ctx.node_label, -a), hist[-1 - a][ctx.node_label], "past-activity-of", "index -%d" % a)
        case.eq(ctx.past_activity_of(ctx.node_label), hist[-2][ctx.node_label], "past-activity-of", "default")
        other = labs[h(salt, ctx.timestep) % n]
        case.eq(ctx.past_activity_of(other, k - 1), hist[-2][other], "past-activity-of", "other node")
        v = h(salt, ctx.timestep, repr(ctx.node_label), repr(ctx.past_activity_of(ctx.node_label, 0)))
        new[ctx.node_label] = v
        seen.append(v)
        if len(new) == n:
            hist.append(dict(new))
            new.clear()
        return v
    new = {}
    ntm.evolve(net, initial_conditions=form(hist[-1]), activity_rule=rule, timesteps=T, past_conditions=past,
               persist_activities=rng.random() < 0.6, compression=rng.random() < 0.4, persist_network=rng.random() < 0.5)
    case.eq(len(seen), n * (T - 1), "rule-calls", "number of contexts")
    case.event("contexts", len(seen))
    case.state(n, k, T, intlab, seen[-1:])


def changing(case):
    """nodes come and go; what was remains in the past"""
    evo = build_case(case, past=True)
    evo.run()
    judge(case, evo, ["C05"])
    if hasattr(evo, "expected"):
        case.state(evo.describe, sorted(map(repr, evo.expected[-1][1].items())))


SECTIONS = [Section("changing", changing, 400, 8000), Section("random", random_, 600, 15000), Section("storage", storage, 400, 10000),
            Section("deepwindow", deepwindow, 400, 8000),
            Section("demos", demos.section(["C05"]), len(demos.QUICK), len(demos.THOROUGH))]
