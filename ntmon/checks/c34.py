import copy
import random
import types

import networkx as nx
import numpy as np

import netomaton as ntm

from .. import draw, gen
from ..core import Inconclusive, Section
from ..model import h, net_dump, rot_dump
from ..spoil import Many, Whole, spoil
from ..trace import AF, SY, TF

PROP = "C34"
QUICK_SCALE = 2
RULE = ("every constructor, builder, conversion, rule, analysis and drawing helper called on generated arguments, which are frozen deeply "
        "before and after; then called again with the same objects and with fresh equal ones; distinct by operation and arguments")
NEED = {"machines": ["kept", "again", "altered"], "builders": ["kept", "again", "altered"], "evolving": ["kept", "again", "altered"], "looking": ["kept", "again"],
        "drawing": ["kept", "again"], "contexts": ["contexts"]}
ASSUMPTIONS = ["table_walk_through is asked to alter its table; with copy_network=False a topology rule alters the network it is given; "
               "a bound instruction of an L-system moves the turtle it is given"]


def freeze(x, depth=0):
    """everything there is to see of an object, in order and with types"""
    if depth > 12:
        return repr(x)
    d = depth + 1
    if isinstance(x, dict):
        return ("dict", type(x).__name__, tuple((freeze(k, d), freeze(v, d)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(freeze(v, d) for v in x)
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__,) + tuple(sorted(repr(v) for v in x))
    if isinstance(x, np.ndarray):
        return ("array", x.shape, str(x.dtype), x.flags.writeable,
                x.tobytes() if x.dtype != object else tuple(freeze(v, d) for v in x.ravel()))
    if isinstance(x, ntm.Network):
        return ("network", freeze(net_dump(x), d), repr(rot_dump(x)))
    if isinstance(x, ntm.State):
        return ("state", freeze(x.activities, d), freeze(x.network, d))
    if isinstance(x, nx.Graph):
        return (type(x).__name__, freeze(x.graph, d), freeze(list(x.nodes(data=True)), d), freeze(list(x.edges(data=True)), d))
    if isinstance(x, Whole):
        return ("whole",) + tuple(freeze(v, d) for v in x.parts)
    if callable(x) or isinstance(x, types.ModuleType):
        return ("callable",)
    return (type(x).__name__, repr(x))


def first_difference(a, b, path=""):
    if type(a) is tuple and type(b) is tuple and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first_difference(x, y, "%s/%d" % (path, i))
    return "at %s: %.500r, was %.500r" % (path or "/", b, a)


ODD = [0, 1, -1, None, True, "", "q", 0.5, 1e-12, 2, (), [], float("nan"), np.int64(3)]


def bend(rng, x, fixed=()):
    """the same with something odd about it: an entry too many or too few, twice the same, in another order or form, of another kind"""
    if isinstance(x, dict):
        keys = [k for k in x if k not in fixed and k != "timesteps"]
        if not keys:
            return x
        k = rng.choice(keys)
        r = rng.random()
        if r < 0.6 or fixed:
            return {a: (bend(rng, b) if a == k else b) for a, b in x.items()}
        if r < 0.75:
            return {a: b for a, b in x.items() if a != k or a == "timesteps"}
        if r < 0.9:
            return dict(reversed(list(x.items())))
        return {**x, rng.choice([0, 99, "extra", ("q",)]): x[k]}
    if isinstance(x, np.ndarray):
        if rng.random() < 0.3 and x.dtype.kind in "if":
            return x * rng.choice([1e-12, 0, -1])
        y = bend(rng, x.tolist())
        try:
            return np.array(y)
        except ValueError:
            return y
    if isinstance(x, (list, tuple)):
        y = list(x)
        r = rng.random()
        if y and r < 0.45:
            i = rng.randrange(len(y))
            y[i] = bend(rng, y[i])
        elif y and r < 0.6:
            del y[rng.randrange(len(y))]
        elif y and r < 0.75:
            y.insert(rng.randrange(len(y)), rng.choice(y))
        elif r < 0.82:
            rng.shuffle(y)
        elif r < 0.87:
            y = [v * 1e-12 if isinstance(v, float) else 0 if isinstance(v, int) else v for v in y]
        elif r < 0.92:
            y += y
        else:
            return tuple(y) if isinstance(x, list) else y
        return type(x)(y) if type(x) in (list, tuple) else y
    if x is None or isinstance(x, (bool, int, float, str)):
        return copy.copy(rng.choice(ODD))
    return x


def judge(case, name, make, run):
    """make(rng) -> the arguments, by name; run(arguments) -> what comes out"""
    seed = case.rng.getrandbits(40)
    times = case.rng.choice([0, 0, 0, 1, 2, 3])
    if times:
        plain = make

        def make(rng):
            a = plain(rng)
            for _ in range(times):
                a = bend(rng, a, BOUNDED)
            return a
        case.event("bent")

    def go(a, then=None):
        random.seed(seed)
        np.random.seed(seed % 2 ** 32)
        try:
            out = run(a)
            r = freeze(out)
            if then:
                then(out)
            return r
        except Exception as e:      # what is refused or fails is judged elsewhere; here it must fail alike and alter nothing
            case.event("refused:" + name)
            return ("raised", type(e).__name__)
    a = make(random.Random(seed))
    was = freeze(a)
    first = go(a)
    now = freeze(a)
    case.check(now == was, "left-as-given", lambda: "%s altered what it was given (%s): %s" %
               (name, ", ".join(k for k in a if freeze(a[k]) != dict(zip(a, [f[1] for f in was[2]]))[k]), first_difference(was, now)))
    case.event("kept")
    case.event("op:" + name)
    again = go(a)
    case.check(again == first, "second-use-agrees", lambda: "%s with the same objects a second time: %s" % (name, first_difference(first, again)))
    case.check(freeze(a) == was, "left-as-given", lambda: "%s altered what it was given in its second use: %s" % (name, first_difference(was, freeze(a))))
    fresh = make(random.Random(seed))
    if freeze(fresh) != was:
        raise Inconclusive("the harness does not repeat itself: " + name)
    case.check(go(fresh) == first, "fresh-copies-agree", lambda: "%s with fresh objects: %s" % (name, first_difference(first, go(fresh))))
    case.event("again")
    # what came out is the caller's: once altered, the next one comes out as ever
    altered = []
    go(make(random.Random(seed)), lambda out: altered.append(spoil(out)))
    last = go(make(random.Random(seed)))
    case.check(last == first, "results-are-the-callers", lambda: "%s after what came out before was altered: %s" % (name, first_difference(first, last)))
    if altered and altered[0]:
        case.event("altered")
    case.state(name, was)
    case.sample("%s(%s)" % (name, ", ".join("%s=%.80r" % (k, a[k]) for k in a)))


# arguments that say how much is to be done
BOUNDED = ("dim", "rows", "cols", "w", "h", "k", "r", "n", "form", "holder", "bindings")


def bits(rng, n):
    return [rng.randint(0, 1) for _ in range(n)]


def as_form(rng, rows):
    """a list, or an array of it"""
    return np.array(rows) if rng.random() < 0.4 else rows


# ---- machines: constructed from what is given, and run ----

def m_substitution(rng):
    s = rng.choice(["FX", "ab", "01"])
    size = rng.choice([1, 1, 2])
    consts = rng.choice([None, [], ["+"], ["+", "-"], ["[", "]", "+"]]) if size == 1 else None
    keys = list(s) if size == 1 else [x + y for x in s for y in s]
    allsym = list(s) + (consts or [])
    rules = {k: "".join(rng.choice(allsym) for _ in range(rng.randint(1, 3))) for k in keys}
    if consts and rng.random() < 0.3:
        rules[consts[0]] = consts[0] * 2     # the constant wins
    axiom = [rng.choice(allsym) for _ in range(rng.randint(2, 5))]
    return {"axiom": rng.choice([axiom, "".join(axiom)]), "rules": rules, "constants": consts}


def r_substitution(a):
    m = ntm.SubstitutionSystem(a["axiom"], a["rules"], a["constants"]) if a["constants"] is not None or len(a["rules"]) % 2 else \
        ntm.SubstitutionSystem(a["axiom"], a["rules"])
    tr = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, timesteps=4)
    return tr, ntm.SubstitutionSystem.to_string(tr), Whole(m)


def tm_table(rng):
    syms, heads = rng.choice([[0, 1], ["a", "b", ""], [0, "x", (1, 2)]]), rng.choice([[1], [0, 1], ["q", "r"]])
    t = {q: {s: rng.choice([tuple, list])([rng.choice(heads), rng.choice(syms), rng.choice([0, 1, 2])]) for s in syms} for q in heads}
    return {"table": t, "tape": [rng.choice(syms) for _ in range(rng.randint(3, 8))], "head": heads[0], "pos": rng.randint(0, 2)}


def r_tape(a):
    m = ntm.TapeCentricTuringMachine(n=len(a["tape"]), rule_table=a["table"], initial_head_state=a["head"], initial_head_position=a["pos"])
    tr = ntm.evolve(m.network, initial_conditions=a["tape"], activity_rule=m.activity_rule, timesteps=6)
    was = freeze(tr)
    out = m.head_activities(tr)
    return tr, out, freeze(tr) == was, Whole(m)


def r_head(a):
    m = ntm.HeadCentricTuringMachine(tape=a["tape"], rule_table=a["table"], initial_head_state=a["head"], initial_head_position=a["pos"],
                                     max_timesteps=7)
    tr = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, input=m.input_function)
    return tr, m.activities_for_plotting(tr), m.activities_for_plotting(tr), Whole(m)


def m_wolfram(rng):
    ins = rng.choice([[("x", "y")], [("x", "y"), ("x", "z")], [["x", "y"]], [("x", "y", "z")], [("x",)], [("x", "y"), ("x",), ("y", "z")],
                      [("x",), ("x", "y"), ("y", "y", "z")], [("x", "y"), ("y", "z"), ("z", "x")], [["x"], ["y"], ["x", "y"]]])
    syms = sorted({s for r in ins for s in r}) + ["w"]
    outs = [tuple(rng.choice(syms) for _ in range(rng.choice([len(ins[0]), len(ins[0]), 2]))) for _ in range(rng.randint(1, 3))]
    conf = [rng.choice([tuple, list])(rng.randint(1, 4) for _ in range(len(rng.choice(ins)))) for _ in range(rng.randint(1, 8))]
    if rng.random() < 0.5:      # the left side itself is among the relations
        where = {x: rng.randint(1, 4) for x in syms}
        conf += [tuple(where[x] for x in r) for r in ins]
        rng.shuffle(conf)
    return {"configuration": conf, "rules": {"in": ins, "out": outs}}


def r_wolfram(a):
    if not a["rules"]["in"]:
        raise ValueError("rules without a left side have no meaning")
    m = ntm.WolframPhysicsModel(a["configuration"], a["rules"])
    tr = ntm.evolve(m.network, topology_rule=m.topology_rule, timesteps=4)
    return tr, m.to_configurations(tr), Whole(m)


def m_ctrbl(rng):
    k = 2
    import itertools
    t = {c: rng.randrange(k) for c in itertools.product(range(k), repeat=5)}
    rot = rng.random() < 0.6
    if rot:
        t = {c: v for c, v in t.items() if c[1:] == min(c[1 + i:] + c[1:1 + i] for i in range(4))}
    items = list(t.items())
    rng.shuffle(items)
    n = rng.randint(3, 4)
    return {"dim": rng.choice([tuple, list])([n, 3]), "table": dict(items), "add_rotations": rot, "init": bits(rng, 3 * n)}


def r_ctrbl(a):
    m = ntm.CTRBLRule(dim=a["dim"], rule_table=a["table"], add_rotations=a["add_rotations"])
    return ntm.evolve(m.network, initial_conditions=a["init"], activity_rule=m.activity_rule, timesteps=4, memoize=a["add_rotations"]), Whole(m)


def m_loop(rng):
    k = rng.randint(1, 2)
    return {"dim": (14, 20 * k), "row": [1] * k, "col": [1 + 20 * i for i in range(k)]}


def r_loop(a):
    m = ntm.LangtonsLoop(dim=a["dim"])
    init = m.init_loops(len(a["row"]), a["row"], a["col"])
    was = init.copy()
    tr = ntm.evolve(m.network, initial_conditions=init, activity_rule=m.activity_rule, timesteps=2)
    return tr, bool((was == init).all()), init, Whole(m)


def m_hopfield(rng):
    n, p = rng.randint(2, 6), rng.randint(1, 3)
    values = rng.choice([[-1, 1], [-1, 1], [0, 1], [-1., 1.]])
    P = [[rng.choice(values) for _ in range(n)] for _ in range(p)]
    return {"P": rng.choice([P, [np.array(x) for x in P], np.array(P)]), "init": [rng.choice([-1, 1]) for _ in range(n)]}


def r_hopfield(a):
    m = ntm.HopfieldNet(n=len(a["init"]))
    m.train(a["P"])
    return ntm.evolve(m.network, initial_conditions=a["init"], activity_rule=m.activity_rule, timesteps=6), Whole(m)


def m_tank(rng):
    n = rng.randint(2, 4)
    pts = [(rng.random(), rng.random()) for _ in range(n)]
    order = rng.sample(range(n), n)
    M = [[1.0 if order[i] == j else 0.1 for j in range(n)] for i in range(n)]
    return {"points": rng.choice([pts, [list(p) for p in pts]]), "matrix": as_form(rng, M), "init": [rng.uniform(-.1, .1) for _ in range(n * n)],
            "activities": as_form(rng, [[rng.choice([1, 1e-6, 1e-12]) * rng.uniform(-.1, .1) for _ in range(n * n)] for _ in range(3)])}


def r_tank(a):
    m = ntm.HopfieldTankTSPNet(a["points"], dt=1e-5)
    tr = ntm.evolve(ntm.topology.from_adjacency_matrix(m.adjacency_matrix), initial_conditions=a["init"], activity_rule=m.activity_rule, timesteps=3)
    try:
        g = m.get_tour_graph(a["points"], a["matrix"])
    except AttributeError:
        g = None
    return tr, m.get_permutation_matrix(a["activities"]), g, m.get_distances(), Whole(m)


def m_fungal(rng):
    w, hh = rng.randint(3, 4), rng.randint(3, 4)
    n = w * hh
    layer = rng.choice([None, [rng.random() < 0.4 for _ in range(n)], bits(rng, n)])
    return {"init": [rng.choice([0, 0, 0, 1, 5]) for _ in range(n)], "layer": layer, "w": w, "h": hh}


def r_fungal(a):
    m = ntm.FungalGrowthModel(2.0, a["w"], a["h"], a["init"], resource_layer=a["layer"], seed=3, verbose=False)
    return ntm.evolve(m.network, initial_conditions=a["init"], activity_rule=m.activity_rule, topology_rule=m.topology_rule,
                      update_order=m.update_order, copy_network=m.copy_network, timesteps=4), Whole(m)


def m_async(rng):
    n = rng.randint(3, 7)
    order = [rng.randrange(n) for _ in range(rng.randint(1, n))] if rng.random() < 0.3 else rng.sample(range(n), rng.randint(1, n))
    return {"order": rng.choice([list, tuple, np.array])(order), "init": bits(rng, n), "random": rng.random() < 0.5, "rule": rng.randrange(256)}


def r_async(a):
    r = ntm.AsynchronousRule(ntm.rules.nks_ca_rule(a["rule"]), update_order=a["order"], randomize_each_cycle=a["random"])
    return ntm.evolve(ntm.topology.cellular_automaton(len(a["init"])), initial_conditions=a["init"], activity_rule=r, timesteps=20)


def m_reversible(rng):
    n = rng.randint(3, 8)
    past = [rng.choice([list, np.array])(bits(rng, n)) for _ in range(rng.randint(1, 3))]
    return {"init": bits(rng, n), "past": past, "rule": rng.randrange(256)}


def r_reversible(a):
    r = ntm.ReversibleRule(ntm.rules.nks_ca_rule(a["rule"]))
    return ntm.evolve(ntm.topology.cellular_automaton(len(a["init"])), initial_conditions=a["init"], activity_rule=r,
                      past_conditions=a["past"], timesteps=6)


def m_table(rng):
    k, n = rng.choice([2, 3]), rng.randint(3, 7)
    t = {np.base_repr(i, k).zfill(3): rng.randrange(k) for i in range(k ** 3)}
    if rng.random() < 0.2:
        t.pop(rng.choice(list(t)))
    items = list(t.items())
    rng.shuffle(items)
    return {"table": dict(items), "init": [rng.randrange(k) for _ in range(n)]}


def r_table(a):
    rule = ntm.table_rule(a["table"])
    return ntm.evolve(ntm.topology.cellular_automaton(len(a["init"])), initial_conditions=a["init"], activity_rule=rule, timesteps=6)


def m_sandpile(rng):
    r, c = rng.randint(3, 5), rng.randint(3, 5)
    return {"rows": r, "cols": c, "init": as_form(rng, [rng.randrange(8) for _ in range(r * c)]), "closed": rng.random() < 0.5}


def r_sandpile(a):
    m = ntm.Sandpile(a["rows"], a["cols"], is_closed_boundary=a["closed"])
    return ntm.evolve(m.network, initial_conditions=a["init"], activity_rule=m.activity_rule, timesteps=5), Whole(m)


MACHINES = [("SubstitutionSystem", m_substitution, r_substitution), ("TapeCentricTuringMachine", tm_table, r_tape),
            ("HeadCentricTuringMachine", tm_table, r_head), ("WolframPhysicsModel", m_wolfram, r_wolfram), ("CTRBLRule", m_ctrbl, r_ctrbl),
            ("LangtonsLoop", m_loop, r_loop), ("HopfieldNet", m_hopfield, r_hopfield), ("HopfieldTankTSPNet", m_tank, r_tank),
            ("FungalGrowthModel", m_fungal, r_fungal), ("AsynchronousRule", m_async, r_async), ("ReversibleRule", m_reversible, r_reversible),
            ("table_rule", m_table, r_table), ("Sandpile", m_sandpile, r_sandpile)]


def pick(case, ops):
    name, make, run = ops[(case.idx + case.idx // len(ops)) % len(ops)] if case.rng.random() < 0.7 else case.rng.choice(ops)
    judge(case, name, make, run)


def machines(case):
    pick(case, MACHINES)


# ---- builders and conversions ----

def matrix(rng):
    n = rng.randint(1, 6)
    vals = rng.choice([[0, 1], [0, 0, 1, 2, -1], [0., .5, 2.]])
    return {"adj": as_form(rng, [[rng.choice(vals) for _ in range(n)] for _ in range(n)])}


def graph(rng):
    G = rng.choice([nx.Graph, nx.DiGraph, nx.MultiDiGraph, nx.MultiGraph])()
    labs = gen.labels(rng, rng.randint(1, 6), rng.choice(["int", "sparse", "str", "tuple"]))
    for l in labs:
        G.add_node(l, **({"colour": rng.choice(["red", [1, 2], {"k": 1}])} if rng.random() < 0.4 else {}))
    for _ in range(rng.randint(0, 10)):
        G.add_edge(rng.choice(labs), rng.choice(labs), **gen.attr(rng, True))
    G.graph["name"] = "g"
    return {"G": G}


def a_network(rng, **kw):
    net, ref, labs = gen.network(rng, 6, deep_attr=True, **kw)
    if rng.random() < 0.3:
        net.rotation_system = {l: rng.choice([tuple, list])(rng.sample(list(net.in_edges(l)), len(net.in_edges(l)))) for l in net.nodes}
    return net


def networked(rng):
    net = a_network(rng)
    nl = list(net.nodes)
    rng.shuffle(nl)
    return {"net": net, "nodelist": nl, "weight": rng.choice(["weight", "label2", None]), "sum": rng.random() < 0.5}


def r_copying(a):
    net = a["net"]
    c = net.copy()
    d = ntm.Network.decompress(net.compress())
    G = net.to_networkx()
    back = ntm.Network.from_networkx(G)
    # and then everything that came out is changed
    out = freeze([c, d, G, back])
    for x in (c, d, back):
        for n in list(x.nodes):
            x.add_edge(n, "new", weight=5)
            for i in list(x.in_edges(n)):
                x.update_edge(i, n, weight=77)
        x.remove_node("new")
    for _, dd in G.nodes(data=True):
        dd["colour"] = "gone"
    G.clear()
    return out


def r_adjacency(a):
    kw = {"sum_multiedges": a["sum"]}
    M = a["net"].to_adjacency_matrix(nodelist=a["nodelist"], weight=a["weight"], **kw)
    M2 = a["net"].to_adjacency_matrix(**kw)
    return M, M2, ntm.topology.from_adjacency_matrix(M)


def m_rotation(rng):
    net, ref, labs = gen.network(rng, 6)
    rot = {l: rng.choice([tuple, list])(rng.sample(list(net.in_edges(l)), len(net.in_edges(l)))) for l in net.nodes}
    return {"ops": [net], "rot": rot, "init": {l: rng.randrange(9) for l in net.nodes}, "memo": rng.random() < 0.5}


def r_rotation(a):
    net = ntm.Network()
    d = net_dump(a["ops"][0])
    for l in d["nodes"]:
        net.add_node(l, **d["attrs"][l])
    for j in d["nodes"]:
        for i, aa in d["in"][j].items():
            for x in aa:
                net.add_edge(i, j, **x)
    net.rotation_system = a["rot"]
    tr = ntm.evolve(net, initial_conditions=a["init"], activity_rule=lambda ctx: h(list(ctx.neighbourhood_activities)) % 5, timesteps=4,
                    memoize=a["memo"])
    tr2 = ntm.evolve(net, initial_conditions=a["init"], activity_rule=lambda ctx: ctx.current_activity, timesteps=3,
                     topology_rule=lambda ctx: ctx.network)
    return [s.activities for s in tr + tr2], repr(rot_dump(net))


def m_bipartite(rng):
    s1, s2 = list(range(rng.randint(1, 4))), ["b%d" % i for i in range(rng.randint(1, 4))]
    shared = {"weight": 3}
    attrs = {i: {j: (shared if rng.random() < 0.3 else gen.attr(rng, True)) for j in s2} for i in s1}
    return {"set1": rng.choice([list, tuple])(s1), "set2": s2, "attrs": rng.choice([None, attrs])}


def r_bipartite(a):
    net = ntm.topology.bipartite(a["set1"], a["set2"], a["attrs"]) if a["attrs"] is not None else ntm.topology.bipartite(a["set1"], a["set2"])
    out = freeze(net)
    for i, j, _ in list(net.edges):
        net.update_edge(i, j, weight=99)
    return out


def m_disconnected(rng):
    labs = gen.labels(rng, rng.randint(1, 6), rng.choice(["int", "str", "sparse"]))
    return {"nodes": rng.choice([list, np.array])(labs)}


def m_lattice(rng):
    return {"dim": rng.choice([tuple, list])([1, rng.randint(2, 4), rng.randint(2, 4)]), "periodic": rng.random() < 0.5}


def m_edge_attrs(rng):
    return {"attr": gen.attr(rng, True), "more": {"weight": rng.randint(1, 9), "data": [1, {"k": 2}]}, "node": gen.attr_node(rng),
            "indices": rng.choice([[0], [1, 0], (1,), range(2)])}


def r_edge_attrs(a):
    net = ntm.Network(2)
    net.add_edge(0, 1, **a["attr"])
    net.add_edge(0, 1, **a["attr"])
    net.add_edge_bidir(0, 1, **a["attr"])
    net.add_node(0, **a["node"])
    net.add_node(5, **a["node"])
    net.update_edge(0, 1, a["indices"], **a["more"])
    net.update_edge(1, 0, weight=4, extra=1)
    net.add_node(0, size=1, colour=2)
    return net


def m_configuration(rng):
    return {"config": [rng.choice([tuple, list])(rng.randint(1, 5) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(1, 6))]}


def r_configuration(a):
    G = ntm.vis.vis_utils.configuration_to_nx(a["config"])
    was = freeze(G)
    html = ntm.vis.vis_utils.get_html(G)
    return was, html, freeze(G) == was


def m_walk(rng):
    return {"k": 2, "r": 1, "args": {"lambda_val": rng.choice([0.2, 0.5, 0.8]), "quiescent_state": 0, "strong_quiescence": rng.random() < 0.5,
                                     "isotropic": rng.random() < 0.5}}


def r_walk(a):
    t, lam, q = ntm.random_rule_table(a["k"], a["r"], **a["args"])
    mine = dict(t)
    return [t, lam, q, ntm.table_walk_through(mine, 0.6, a["k"], a["r"], q)]


def m_ring(rng):
    n = rng.randint(3, 8)
    return {"n": n, "r": rng.choice([1, 1, 2]) if n > 4 else 1, "ordered": rng.random() < 0.6}


def m_torus(rng):
    return {"rows": rng.randint(3, 4), "cols": rng.randint(3, 5), "r": 1, "neighbourhood": rng.choice(["Moore", "von Neumann", "Hex"]),
            "ordered": rng.random() < 0.6}


def m_world(rng):
    n = rng.randint(4, 9)
    return {"n": n, "k": rng.choice([2, 2, 4]) if n > 5 else 2, "p": rng.choice([0, .3, 1]), "seed": rng.randrange(50)}


def m_start(rng):
    kw = {"dtype": rng.choice([int, float])} if rng.random() < 0.4 else {}
    return {"rows": rng.randint(1, 6), "cols": rng.randint(1, 6), "k": rng.randint(2, 4), "val": rng.choice([1, 2, 7]), "kw": kw}


def r_start(a):
    size, kw = a["rows"] * a["cols"], a["kw"]
    return [ntm.init_simple(size, **kw), ntm.init_simple(size, a["val"], **kw), ntm.init_simple2d(a["rows"], a["cols"], **kw),
            ntm.init_simple2d(a["rows"], a["cols"], a["val"], **kw), ntm.init_random(size, a["k"], **kw),
            ntm.init_random(size, a["k"], n_randomized=size // 2, empty_value=a["val"], **kw)]


def m_digits(rng):
    d = rng.randint(1, 10)
    return {"num": rng.randrange(2 ** d), "rows": d, "n": rng.randint(1, 8), "k": rng.randint(0, 8)}


def r_digits(a):
    b = ntm.rules.int_to_bits(a["num"], a["rows"])
    return b, ntm.rules.bits_to_int(b), ntm.ncr(a["n"], a["k"])


class Ctx:
    def __init__(self, label, acts, labels):
        self.node_label, self.neighbourhood_activities, self.neighbour_labels, self.timestep = label, acts, labels, 1
        self.current_activity = acts[len(acts) // 2]


def m_rules(rng):
    return {"rule": rng.randrange(256), "scheme": rng.choice([None, "nks"]), "n": rng.randint(3, 7), "salt": rng.getrandbits(20),
            "form": rng.choice([list, np.array])}


def r_rules(a):
    """rules of equal numbers, made and asked after the neighbourhoods handed to the ones before were altered"""
    out, used = [], []
    rng = random.Random(repr(a["salt"]))
    mk = [lambda: ntm.rules.nks_ca_rule(a["rule"]), lambda: ntm.rules.binary_ca_rule(a["rule"], a["scheme"]),
          lambda: ntm.rules.totalistic_ca(k=3, rule=a["rule"]), lambda: ntm.rules.majority_rule]
    for m in mk:
        rule = m()
        for _ in range(4):
            acts = a["form"](bits(rng, 3))
            ctx = Ctx(1, acts, [0, 1, 2])
            out.append(rule(ctx))
            used.append(acts)
    return out, Many(used)


BUILDERS = [("cellular_automaton", m_ring, lambda a: [ntm.topology.cellular_automaton(**a), ntm.topology.adjacency.cellular_automaton(a["n"], a["r"])]),
            ("cellular_automaton2d", m_torus, lambda a: [ntm.topology.cellular_automaton2d(**a),
                                                         ntm.topology.adjacency.cellular_automaton2d(a["rows"], a["cols"], 1, a["neighbourhood"])]),
            ("complete", m_ring, lambda a: ntm.topology.complete(a["n"])),
            ("watts_strogatz_graph", m_world, lambda a: ntm.topology.watts_strogatz_graph(**a)),
            ("beginnings", m_start, r_start), ("digits", m_digits, r_digits), ("rules", m_rules, r_rules),
            ("from_adjacency_matrix", matrix, lambda a: ntm.topology.from_adjacency_matrix(a["adj"])),
            ("from_networkx", graph, lambda a: ntm.Network.from_networkx(a["G"])), ("copies and conversions", networked, r_copying),
            ("to_adjacency_matrix", networked, r_adjacency), ("rotation_system", m_rotation, r_rotation), ("bipartite", m_bipartite, r_bipartite),
            ("disconnected", m_disconnected, lambda a: ntm.topology.disconnected(a["nodes"])),
            ("lattice", m_lattice, lambda a: ntm.topology.lattice(a["dim"], periodic=a["periodic"])),
            ("edge attributes", m_edge_attrs, r_edge_attrs), ("configuration_to_nx", m_configuration, r_configuration),
            ("random_rule_table", m_walk, r_walk)]


def builders(case):
    pick(case, BUILDERS)


# ---- evolve itself ----

def m_evolve(rng):
    net = a_network(rng, isolated=True)
    labs = list(net.nodes)
    ints = labs == list(range(len(labs)))
    n, T = len(labs), rng.randint(1, 6)
    val = rng.choice([lambda: rng.randrange(9), lambda: [rng.randrange(9)], lambda: np.int64(rng.randrange(9)), lambda: {"k": [rng.random()]}])
    a = {"net": net, "init": [val() for _ in labs] if ints and rng.random() < 0.5 else {l: val() for l in labs}}
    rng.random() < 0.3 and isinstance(a["init"], list) and a.update(init=np.array([rng.randrange(9) for _ in labs]))
    a["kw"] = kw = {"update_order": rng.choice([AF, TF, SY]), "compression": rng.random() < 0.3, "persist_activities": rng.random() < 0.8,
                    "persist_network": rng.random() < 0.8}
    if isinstance(a["init"], dict) and any(isinstance(v, np.generic) for v in a["init"].values()):
        kw["compression"] = False
    if rng.random() < 0.4:
        row = lambda: {l: val() for l in labs} if not ints or rng.random() < 0.5 else rng.choice([list, np.array])([rng.randrange(9) for _ in labs])
        kw["past_conditions"] = [row() for _ in range(rng.randint(1, 3))]
    if rng.random() < 0.5:
        kw["input"] = [rng.choice([rng.randrange(9), rng.random()]) if not ints or rng.random() < 0.4 else
                       rng.choice([list, tuple])([rng.randrange(9) for _ in labs]) for _ in range(T)]
        rng.random() < 0.3 and kw.update(input=tuple(kw["input"]))
    else:
        kw["timesteps"] = T
    a["links"] = {labs[0]: {"weight": 2, "data": [1]}}
    a["feats"] = {f for f in ("topology", "perturbation", "grow", "shrink") if rng.random() < 0.3}
    if "topology" in a["feats"] and rng.random() < 0.5:
        a["feats"] -= {"grow", "shrink"}
    a["salt"] = rng.getrandbits(20)
    return a


def r_evolve(a):
    salt, feats, labs = a["salt"], a["feats"], list(a["net"].nodes)

    def rule(ctx):
        v = h(salt, repr(ctx.node_label), repr(ctx.neighbourhood_activities), repr(ctx.input), repr(ctx.past_activities))
        if "grow" in feats and v % 5 == 0:
            ctx.add_node(v % 7, a["links"], "new%d%r" % (ctx.timestep, ctx.node_label))
        if "shrink" in feats and v % 4 == 0 and ctx.node_label != labs[0]:
            ctx.remove_node(ctx.node_label)
        return v % 100

    def topo(ctx):
        nodes = list(ctx.network.nodes)
        x = h(salt, ctx.timestep)
        ctx.network.add_edge(nodes[x % len(nodes)], nodes[(x >> 7) % len(nodes)], weight=x % 5)
        return ctx.network
    kw = dict(a["kw"])
    if "topology" in feats:
        kw["topology_rule"] = topo
    if "perturbation" in feats:
        kw["perturbation"] = lambda p: h(salt, p.timestep, repr(p.node_label)) % 9
    return ntm.evolve(a["net"], initial_conditions=a["init"], activity_rule=rule, **kw)


def m_states(rng):
    net = a_network(rng)
    return {"activities": {l: rng.choice([1, [1, 2], (3,), {"k": None}]) for l in net.nodes}, "net": net, "compression": rng.random() < 0.5}


def r_states(a):
    s = ntm.State(activities=a["activities"], network=a["net"], compression=a["compression"])
    one = freeze(s)
    if a["compression"]:        # what is read from a compressed state is the reader's own
        s.activities.clear()
        s.network.add_edge("x", "y")
        one = (one, freeze(s) == one)
    return one


def evolving(case):
    pick(case, [("evolve", m_evolve, r_evolve), ("evolve", m_evolve, r_evolve), ("State", m_states, r_states)])


# ---- analysis ----

def evolution(rng, n=None, T=None, kind=None):
    """a trajectory, a list of lists or an array"""
    n, T = n or rng.randint(1, 6), T or rng.randint(2, 6)
    rows = [[rng.choice([0, 1, 2, 0.5]) for _ in range(n)] for _ in range(T)]
    form = kind or rng.choice(["trajectory", "compressed", "list", "array"])
    if form in ("list", "array"):
        return rows if form == "list" else np.array(rows)
    net = ntm.Network()
    order = rng.sample(range(n), n)
    for i in order:
        net.add_edge(i, i)
    return ntm.evolve(net, initial_conditions={i: rows[0][i] for i in order}, activity_rule=lambda ctx: rows[ctx.timestep][ctx.node_label],
                      timesteps=T, compression=form == "compressed")


def m_sequences(rng):
    n = rng.randint(1, 12)
    mk = lambda: rng.choice([lambda x: x, "".join, tuple])([rng.choice("01a") for _ in range(n)])
    return {"X": mk(), "Y": mk()}


LOOKING = [("average_node_entropy", lambda rng: {"x": evolution(rng)}, lambda a: ntm.average_node_entropy(a["x"])),
           ("average_mutual_information", lambda rng: {"x": evolution(rng)}, lambda a: ntm.average_mutual_information(a["x"])),
           ("entropies", m_sequences, lambda a: (ntm.shannon_entropy(a["X"]), ntm.joint_shannon_entropy(a["X"], a["Y"]),
                                                 ntm.mutual_information(a["X"], a["Y"]))),
           ("get_activities_over_time_as_list", lambda rng: {"x": evolution(rng, kind=rng.choice(["trajectory", "compressed"]))},
            lambda a: ntm.get_activities_over_time_as_list(a["x"])),
           ("binarize_for_plotting", lambda rng: {"x": as_form(rng, [[rng.choice([rng.randrange(600), float(rng.randrange(600))])] for _ in range(rng.randint(1, 6))])},
            lambda a: ntm.binarize_for_plotting(a["x"])),
           ("check_np", lambda rng: {"x": rng.choice([np.arange(3), [np.int64(3)], np.float32(2), {"k": np.int8(1)}])}, lambda a: ntm.check_np(a["x"])),
           ("pad and to_string", lambda rng: {"x": r_substitution(m_substitution(rng))[0]},
            lambda a: (ntm.SubstitutionSystem.to_string(a["x"]), ntm.SubstitutionSystem.to_string(a["x"]), ntm.SubstitutionSystem.pad(a["x"]))),
           ("network_to_config", lambda rng: {"net": ntm.WolframPhysicsModel(*m_wolfram(rng).values()).network},
            lambda a: ntm.WolframPhysicsModel.network_to_config(a["net"])),
           ("bits_to_int", lambda rng: {"bits": rng.choice([list, tuple, np.array])(bits(rng, rng.randint(1, 9)))},
            lambda a: ntm.rules.activity_rule.bits_to_int(a["bits"]))]


def looking(case):
    pick(case, LOOKING)


# ---- drawing ----

def figures(rec):
    out = []
    for f in rec.figs():
        for ax in f.axes:
            out.append((draw.lines(ax), [np.array(i) for i in draw.images(ax)], draw.points(ax), [t.get_text() for t in ax.texts], ax.get_title(),
                        ax.get_xlabel(), ax.get_ylabel(), ax.get_xlim(), ax.get_ylim(), len(ax.patches)))
    return out


def drawn(fn):
    def run(a):
        with draw.watching() as rec:
            fn(a)
            out = []
            for ani in rec.animations:
                try:
                    for _, f in zip(range(6), ani.new_frame_seq()):
                        ani.rec_func(f)
                        out.append(figures(rec))
                except StopIteration:
                    pass
            return out, figures(rec), rec.shows, [(repr(p), repr(k)) for _, p, _, k in rec.nodes]
    return run


def m_grid(rng):
    r, c = rng.randint(1, 3), rng.randint(1, 4)
    shape = rng.choice([None, rng.choice([tuple, list])([r, c])])
    T = rng.randint(2, 5)
    x = evolution(rng, n=r * c, T=T)
    rows = r if shape else T
    cols = c if shape else r * c
    ann = rng.choice([None, [[rng.choice([None, "q"]) for _ in range(cols)] for _ in range(rows)]])
    return {"x": x, "kw": {"shape": shape, "node_annotations": ann, "show_grid": rng.random() < 0.5}}


def m_movie(rng):
    r, c = rng.randint(1, 3), rng.randint(2, 4)
    return {"x": evolution(rng, n=r * c), "kw": {"shape": rng.choice([[r, c], (r, c), (r * c,)]), "show_grid": rng.random() < 0.5,
                                                 "with_timestep": rng.random() < 0.5}}


def m_hexes(rng):
    r, c = 2 * rng.randint(1, 2), rng.randint(2, 3)
    return {"x": evolution(rng, n=r * c, kind=rng.choice(["trajectory", "compressed"])), "kw": {"shape": rng.choice([[r, c], (r, c)])}}


def m_tables(rng):
    r, c = rng.randint(1, 3), rng.randint(1, 3)
    ts = [evolution(rng, n=r * c, kind=rng.choice(["list", "array"])) for _ in range(rng.randint(1, 3))]
    return {"ts": ts, "kw": {"shape": rng.choice([None, [r, c]]), "titles": rng.choice([None, ["t%d" % i for i in range(len(ts))]])}}


def m_plot1d(rng):
    n = rng.randint(2, 6)
    k = rng.choice([None, 2, 3])
    ser = lambda: rng.choice([list, np.array])([rng.random() for _ in range(n)])
    y = ser() if k is None else [ser() for _ in range(k)]
    kw = {"xlim": rng.choice([None, (0, 3), [0, 3]]), "legend": rng.choice([None, {"loc": "upper left"}, {"frameon": False}, {"ncol": 2, "title": "t"}]), "label": "one",
          "tight_layout": rng.choice([None, {"pad": 2}])}
    if k:
        kw.pop("legend")
        kw.update(color=rng.choice([None, "r", ["r", "g", "b"]]), label=["a", "b", "c"], legend=rng.choice([None, {"loc": "upper left"}, {"frameon": False}, {"ncol": 2, "title": "t"}]), twinx=rng.random() < 0.5,
                  ylabel=rng.choice([None, "y", ["y", "z"]]), ylim=rng.choice([None, [(0, 2), (0, 3)]]))
    return {"x": rng.choice([list, np.array])(range(n)), "y": y, "kw": kw}


def m_movie1d(rng):
    n = rng.randint(2, 5)
    return {"x": list(range(n)), "y": evolution(rng, n=n)}


def m_phase(rng):
    T = rng.randint(3, 8)
    ser = lambda: [rng.random() for _ in range(T)]
    if rng.random() < 0.3:      # of different lengths
        return {"x": [[rng.random() for _ in range(rng.randint(1, 2 * T))] for _ in range(rng.randint(2, 3))], "t": rng.randint(2, T), "kw": {}}
    return {"x": rng.choice([ser(), np.array(ser()), [ser(), ser()]]), "t": rng.randint(2, T), "kw": {"xlim": rng.choice([None, [0, 1]])}}


def m_bifurcation(rng):
    k = rng.randint(1, 3)
    return {"x": [0.5 * i for i in range(k)], "ts": [rng.choice([list, np.array])([rng.choice([0, 1, .5]) for _ in range(6)]) for _ in range(k)],
            "t": rng.randint(1, 5)}


def m_net(rng):
    net, ref, labs = gen.network(rng, 5, "int")
    pos = {l: rng.choice([tuple, list])([rng.random(), rng.random()]) for l in net.nodes}
    return {"net": net, "layout": rng.choice(["shell", pos]), "colors": ["r"] * len(net)}


def m_nets(rng):
    n, T = rng.randint(2, 5), rng.randint(1, 4)
    net, ref = gen.build(gen.net_ops(rng, list(range(n))))
    tr = ntm.evolve(net, initial_conditions=[1] * n, activity_rule=lambda ctx: 1, timesteps=T, compression=rng.random() < 0.5)
    pos = {l: (rng.random(), rng.random()) for l in net.nodes}
    return {"tr": tr, "layout": rng.choice(["shell", pos, [pos] * T]), "color": rng.choice(["b", {t: "r" for t in range(T)}, {t: ["r"] * n for t in range(T)}])}


def m_lsystem(rng):
    syms = "FX+"
    bind = {"F": rng.choice([lambda t: t.forward, lambda t: (t.forward, 2), lambda t: [(t.forward, 1), (t.rotate, 10)], lambda t: [t.forward, t.push, t.pop]]),
            "X": rng.choice([lambda t: (t.rotate, 30), lambda t: [(t.rotate, 30)]]), "+": lambda t: [(t.rotate, -20), t.forward]}
    axiom = "F" + "".join(rng.choice(syms) for _ in range(5))
    m = ntm.SubstitutionSystem(axiom, {"F": "FX", "X": "X+", "+": "+"})
    tr = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule, timesteps=rng.randint(1, 3))
    holder = [None]     # the turtle of the run at hand

    class Relay:
        def __getattr__(self, name):
            def move(*args):
                return getattr(holder[0], name)(*args)
            return move
    relay = Relay()
    return {"state": tr[-1], "bindings": {k: f(relay) for k, f in bind.items()}, "kw": {"marker": "."}, "holder": lambda: holder}


def r_lsystem(a):
    t = ntm.Turtle()
    a["holder"]()[0] = t
    (ntm.plot_L_system if len(a["bindings"]) and h(freeze(a["state"])) % 2 else ntm.animate_L_system)(a["state"], t, a["bindings"], **a["kw"])
    return t.trajectory


def keep_result(fn):
    def run(a):
        got = []
        r = drawn(lambda b: got.append(freeze(fn(b))))(a)
        return got, r
    return run


DRAWING = [("plot_activities", m_grid, drawn(lambda a: ntm.plot_activities(a["x"], **a["kw"]))),
           ("plot_grid", m_grid, drawn(lambda a: ntm.plot_grid(a["x"] if not isinstance(a["x"][0], ntm.State) else
                                                               ntm.get_activities_over_time_as_list(a["x"]), **a["kw"]))),
           ("plot_grid_multiple", m_tables, drawn(lambda a: ntm.plot_grid_multiple(a["ts"], **a["kw"]))),
           ("animate_activities", m_movie, drawn(lambda a: ntm.animate_activities(a["x"], **a["kw"]))),
           ("plot_hex_grid", m_hexes, drawn(lambda a: ntm.plot_hex_grid(a["x"], **a["kw"]))),
           ("animate_hex", m_hexes, drawn(lambda a: ntm.animate_hex(a["x"], **a["kw"]))),
           ("plot1D", m_plot1d, drawn(lambda a: ntm.plot1D(a["x"], a["y"], **a["kw"]))),
           ("animate_plot1D", m_movie1d, drawn(lambda a: ntm.animate_plot1D(a["x"], a["y"]))),
           ("poincare_plot", m_phase, drawn(lambda a: ntm.poincare_plot(a["x"], a["t"], **a["kw"]))),
           ("bifurcation_plot", m_bifurcation, drawn(lambda a: ntm.bifurcation_plot(a["x"], a["ts"], a["t"]))),
           ("plot_network", m_net, drawn(lambda a: ntm.plot_network(a["net"], layout=a["layout"], node_color=a["colors"]))),
           ("plot_degree_distribution", m_net, drawn(lambda a: ntm.plot_degree_distribution(a["net"], in_degree=len(a["net"]) % 2 == 0))),
           ("animate_network", m_nets, drawn(lambda a: ntm.animate_network(a["tr"], layout=a["layout"], node_color=a["color"]))),
           ("plot_L_system", m_lsystem, keep_result(r_lsystem))]


def drawing(case):
    pick(case, DRAWING)


# ---- the contexts that the library's own rules are handed ----

def contexts(case):
    """a library rule leaves its context as it found it, so that rules can be put together; and what it returns depends on the context only"""
    rng = case.rng
    n = rng.randint(3, 7)
    k = 2
    two = False
    which = rng.choice(["nks", "binary", "table", "totalistic", "majority", "life", "wire", "sandpile", "ctrbl", "tank", "hopfield", "reversible"])
    init = None
    if which in ("life", "wire"):
        two, k = True, {"life": 2, "wire": 4}[which]
        net = ntm.topology.cellular_automaton2d(3, n)
        rule = {"life": ntm.rules.game_of_life_rule, "wire": ntm.rules.wireworld_rule}[which]
        init = [rng.randrange(k) for _ in range(3 * n)]
    elif which == "sandpile":
        m = ntm.Sandpile(3, n, is_closed_boundary=False)
        net, rule, init = m.network, m.activity_rule, [rng.randrange(8) for _ in range(3 * n)]
    elif which == "ctrbl":
        a = m_ctrbl(rng)
        m = ntm.CTRBLRule(dim=a["dim"], rule_table=a["table"], add_rotations=a["add_rotations"])
        net, rule, init = m.network, m.activity_rule, a["init"]
    elif which == "tank":
        m = ntm.HopfieldTankTSPNet([(0.1 * i, 0.3 * (i % 2)) for i in range(3)], dt=1e-5)
        net, rule, init = ntm.topology.from_adjacency_matrix(m.adjacency_matrix), m.activity_rule, [rng.uniform(-.1, .1) for _ in range(9)]
    elif which == "hopfield":
        m = ntm.HopfieldNet(n=n)
        m.train([[rng.choice([-1, 1]) for _ in range(n)] for _ in range(2)])
        net, rule, init = m.network, m._rule, [rng.choice([-1, 1]) for _ in range(n)]
    else:
        net = ntm.topology.cellular_automaton(n)
        num = rng.randrange(256)
        rule = {"nks": lambda: ntm.rules.nks_ca_rule(num), "binary": lambda: ntm.rules.binary_ca_rule(num),
                "table": lambda: ntm.table_rule({np.base_repr(i, 2).zfill(3): num >> i & 1 for i in range(8)}),
                "totalistic": lambda: ntm.rules.totalistic_ca(k=2, rule=num % 16), "majority": lambda: ntm.rules.majority_rule,
                "reversible": lambda: ntm.ReversibleRule(ntm.rules.nks_ca_rule(num))}[which]()
        init = bits(rng, n)
    seed = rng.getrandbits(32)

    def see(ctx):
        return freeze([ctx.node_label, ctx.timestep, ctx.activities, list(ctx.neighbour_labels), list(ctx.neighbourhood_activities), ctx.connection_states,
                       ctx.current_activity, ctx.past_activities, ctx.input, ctx.added_nodes, ctx.removed_nodes])

    def call(ctx):
        np.random.seed(seed)
        random.seed(seed)
        return rule(ctx)

    def watched(ctx):
        was = see(ctx)
        v = call(ctx)
        now = see(ctx)
        case.check(now == was, "context-left-as-given", lambda: "the %s rule altered its context: %s" % (which, first_difference(was, now)))
        w = call(ctx)
        case.check(freeze(w) == freeze(v), "same-context-same-result", "the %s rule gave %r and then %r for one context", which, v, w)
        case.event("contexts")
        return v
    kw = {"past_conditions": [bits(rng, n)]} if which == "reversible" else {}
    was = freeze(net)
    ntm.evolve(net, initial_conditions=init, activity_rule=watched, timesteps=rng.randint(2, 5), **kw)
    case.check(freeze(net) == was, "left-as-given", "the %s rule altered the network", which)
    case.event("rule:" + which)
    case.state(which, init)


SECTIONS = [Section("machines", machines, 1000, 8000), Section("builders", builders, 600, 8000), Section("evolving", evolving, 500, 8000),
            Section("looking", looking, 300, 4000), Section("drawing", drawing, 500, 4000, timeout=120), Section("contexts", contexts, 250, 4000)]
