import netomaton as ntm

from .. import evogen, gen
from ..core import Section
from ..model import h, invariants, net_dump, same_net
from ..trace import AF, SY, TF, Evo, judge

PROP = "C09"
RULE = ("random evolutions whose rules add nodes with outgoing links, remove themselves or others (also repeatedly), replace or "
        "re-add labels, with perturbations, inputs, storage options and topology rules; distinct by final network and activities")
NEED = {"random": ["nodes-added", "nodes-removed", "contexts", "empty-networks"], "with_topology": ["nodes-added", "nodes-removed", "topology-calls", "empty-networks"]}


def build_case(case, topo=None, past=False, pert=None):
    rng = case.rng
    evo = evogen.evolution(case, topo=False, past=past, pert=pert, order=AF, maxsteps=7, kind=rng.choice(["int", "str", "tuple", None]),
                           inp=False, val=None)
    if rng.random() < 0.2 and evo.timesteps is not None:
        t = evo.timesteps
        evo.input, evo.timesteps = [rng.choice([0, 1, {"q": 2}]) for _ in range(t - 1)], None
    salt = rng.getrandbits(30)
    base = evo.rule
    val = evo.val
    style = rng.choice(["self", "other", "any", "grow", "replace", "double", "readd", "ring", "clash"])
    crowd = 0 if case.idx % 50 != 49 else rng.randint(65, 200)      # how many nodes one of them adds, once
    fresh = [0]
    mortal = rng.random() < 0.2         # the last node may go as well
    top = case.deep and 24 or 12
    seen_in_step = {"t": None, "removed": set(), "added": set(), "alive": 0}

    def rule(ctx):
        st = seen_in_step
        if st["t"] != ctx.timestep:
            st.update(t=ctx.timestep, removed=set(), added=set(), alive=len(ctx.activities))
        labels = list(ctx.activities)
        x = h(salt, ctx.timestep, repr(ctx.node_label), repr(ctx.current_activity))
        r = base(ctx)

        def remove(l):
            if not mortal and l not in st["removed"] and len(labels) - len(st["removed"]) + len(st["added"]) <= 1:
                return False
            st["removed"].add(l)
            ctx.remove_node(l)
            return True

        def add(label, links_from):
            links = {}
            for k, target in enumerate(links_from):
                links[target] = {} if k % 2 else {"weight": (x >> k) % 9}
            st["added"].add(label)
            ctx.add_node(val(x >> 3), links, label)

        def new_label():
            fresh[0] += 1
            return ("new", fresh[0]) if x % 3 == 0 else "new%d" % fresh[0] if x % 3 == 1 else 10 ** 6 + fresh[0]

        if style in ("self", "any", "double") and x % 3 == 0:
            if remove(ctx.node_label) and style == "double":
                ctx.remove_node(ctx.node_label)
        if style in ("other", "any", "double") and (x >> 4) % 3 == 0:
            remove(labels[(x >> 6) % len(labels)])
        if style == "replace" and x % 2:
            nl = new_label()
            add(nl, [nl])
            remove(ctx.node_label)
        if style == "readd" and x % 3 == 0 and ctx.node_label not in st["removed"]:
            st["removed"].add(ctx.node_label)
            ctx.remove_node(ctx.node_label)
            add(ctx.node_label, [ctx.node_label])
        if style == "ring" and len(labels) < 2 * top and h(salt, ctx.timestep) % 2:
            # every node adds one, linked to the one the next node adds (also before that exists)
            k = labels.index(ctx.node_label)
            name = lambda i: "r%s-%s" % (ctx.timestep, i % len(labels))
            add(name(k), [name(k + 1)] + ([name(k + 2)] if x % 2 else []))
        if crowd and ctx.timestep == 1 and not st["added"]:
            prev = []
            for _ in range(crowd):
                nl = new_label()
                add(nl, prev[:] if len(prev) % 40 == 39 else prev[-2:] if (x >> len(prev) % 16) % 2 else [nl])
                prev.append(nl)
        if style == "clash" and (x >> 4) % 2 and len(labels) < top:
            add("c%s-%s" % (ctx.timestep, x % 2), [])       # several nodes add the same one: the last state given counts
        if style in ("grow", "any", "other") and (x >> 9) % 3 == 0 and len(labels) < top:
            nl = new_label()
            targets = [nl] if (x >> 11) % 2 else []
            # links only to nodes that survive the step: the node itself (if kept) or other new nodes
            targets += [l for l in st["added"] if l not in st["removed"]][:2]
            if style == "grow":
                targets += labels[:(x >> 13) % 3]
            add(nl, targets)
        return r
    evo.rule = rule
    evo.rule.mode = style
    if topo is None:
        topo = rng.random() < 0.25
    if topo:
        evo.topo = evogen.topo_rule(rng, rng.choice(["identity", "inplace", "weights", "drop"]))
        evo.inplace = evo.topo.kind != "identity"
        evo.copy_network = rng.random() < 0.6
    if rng.random() < 0.3:
        evo.pn, evo.pa, evo.compression = rng.random() < 0.4, rng.random() < 0.7, rng.random() < 0.5
    evo.describe += " nodes=%s topo=%s" % (style, topo)
    return evo


def _one(case, topo):
    evo = build_case(case, topo)
    evo.run()
    ok = judge(case, evo, ["C09"])
    for i, s in enumerate(evo.traj):
        if s.network is None:
            continue
        bad = invariants(s.network)
        case.check(bad is None, "network-consistent", "state %d: %s" % (i, bad))
        if s.activities is not None and i > 0:
            case.check(set(s.activities) == set(s.network.nodes), "activities-cover-network",
                       lambda: "state %d: activities for %r, nodes %r" % (i, list(s.activities), list(s.network.nodes)))
    if ok and hasattr(evo, "expected"):
        a, s = evo.expected[-1]
        case.state(evo.describe, sorted(map(repr, s.items())), sorted(map(repr, a["in"].items())))
    case.sample(evo.describe)


def random_(case):
    _one(case, False)


def with_topology(case):
    _one(case, True)


SECTIONS = [Section("random", random_, 3600, 60000), Section("with_topology", with_topology, 2000, 36000)]
