import gc
import os
import random
import sys
import threading
import time

import numpy as np

import netomaton as ntm

from .. import gen
from ..core import Inconclusive, Section
from ..model import h, net_dump, rot_dump, same_net
from ..trace import AF, SY, TF

PROP = "C33"
QUICK_SCALE = 1
RULE = ("pools of evolutions with shared networks and rules (plain, with topology rules, inputs, perturbations, past conditions, "
        "memoized, compressed, and the library's machines) run again, in any order, inside each other's callbacks, in up to 6 "
        "threads with delays inside callbacks, and broken off by exceptions; distinct by pool and by observed interleaving")
NEED = {"repeats": ["runs"], "nested": ["nested-runs"], "threads": ["thread-runs", "switches"], "raising": ["raised", "gc-off", "gc-on"],
        "settings": ["compared"], "draws": ["drawn"], "altered": ["runs"], "corrupt": ["refused"], "lookalikes": ["runs"], "siblings": ["siblings"]}
ASSUMPTIONS = ["rules keep no state of their own between runs; each run of a machine uses a new machine object"]


def net_dump_text(net):
    return repr(net_dump(net))


class Break(Exception):
    pass


class Spec:
    """An evolution whose callbacks are pure; run() gives its whole trajectory as text. `hook(kind)` is called in every callback."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def run(self, hook=lambda kind: None):
        return self.fn(hook)


def dump(traj):
    out = []
    for s in traj:
        a, n = s.activities, s.network
        out.append((None if a is None else sorted(((repr(k), repr(v)) for k, v in a.items())),
                    None if n is None else repr(net_dump(n)), None if n is None else repr(rot_dump(n))))
    return out


def plain(rng, net, labs):
    """an evolution over a shared network"""
    salt = rng.getrandbits(30)
    mod = rng.choice([2, 3, 1000])
    kw = {}
    T = gen.steps(rng, 2, 6)
    init = {l: h("i", salt, i) % mod for i, l in enumerate(labs)}
    base = gen.hash_rule(salt, mod)
    feats = []
    topo = pert = inp = None
    order = rng.choice([AF, TF, SY])
    if rng.random() < 0.4:
        feats.append("topology")

        def topo(ctx):
            nodes = list(ctx.network.nodes)
            x = h(salt, ctx.timestep, sorted(map(repr, ctx.activities.values())))
            new = ctx.network if x % 2 else ctx.network.copy()
            i, j = nodes[x % len(nodes)], nodes[(x >> 9) % len(nodes)]
            if new.has_edge(i, j):
                new.remove_edge(i, j)
            else:
                new.add_edge(i, j, weight=x % 7)
            return new
    if rng.random() < 0.3:
        feats.append("perturbation")

        def pert(p):
            return h(salt, repr(p.node_label), p.timestep) % mod if h(p.timestep, repr(p.node_label)) % 3 == 0 else p.node_activity
    if rng.random() < 0.3:
        feats.append("input")

        if rng.random() < 0.5:
            inp = [rng.randrange(100) for _ in range(T - 1)]
        else:
            def inp(t, a, n):
                return h(salt, t, sorted(map(repr, a.values())), len(n)) if t < T else None
    if rng.random() < 0.3:
        feats.append("past")
        kw["past_conditions"] = [{l: h("p", salt, i, k) % mod for i, l in enumerate(labs)} for k in range(2)]
    if topo is None and inp is None and rng.random() < 0.4:
        feats.append("memo")
        kw["memoize"] = True

        def base(ctx):
            return h(salt, sorted(map(repr, ctx.neighbourhood_activities))) % mod
    if rng.random() < 0.5:
        feats.append("compressed")
        kw["compression"] = True
    if rng.random() < 0.2:
        kw["persist_activities"] = False
    if rng.random() < 0.2:
        kw["persist_network"] = False

    def fn(hook):
        def w(f, kind):
            if f is None:
                return None

            def g(*a):
                hook(kind)
                return f(*a)
            return g
        k = dict(kw)
        if inp is None:
            k["timesteps"] = T
        else:
            k["input"] = w(inp, "input") if callable(inp) else list(inp)
        return dump(ntm.evolve(net, initial_conditions=dict(init), activity_rule=w(base, "activity"), topology_rule=w(topo, "topology"),
                               perturbation=w(pert, "perturbation"), update_order=order, **k))
    return Spec("plain(%s)" % ",".join(feats), fn)


MACHINES = ["substitution", "tape", "head", "wolfram", "sandpile", "async", "reversible", "loop", "langton", "eca", "tank", "fungal",
            "growing", "ctrbl", "turtle", "hopfield"]      # the last draws a random order of its own when it is made


def machine(rng, which=None):
    """one of the library's own systems"""
    which = which or rng.choice(MACHINES[:-1])
    n = rng.randint(3, 9)
    T = rng.randint(3, 6)
    x = rng.getrandbits(30)
    bits = [(x >> i) & 1 for i in range(n)]
    mk = lambda rule, hook: (lambda ctx: (hook("activity"), rule(ctx))[1])
    tm = ntm.TuringMachine
    table = {s: {a: (h(x, s, a) % 2, h(x, a, s) % 2, [tm.LEFT, tm.RIGHT, tm.STAY][h(x, s, a, 3) % 3]) for a in (0, 1)} for s in (0, 1)}

    def fn(hook):
        if which == "substitution":
            s = ntm.SubstitutionSystem([str(b) for b in bits], [{"0": "01", "1": "0"}, {"0": "1", "1": "00", "2": "2"}][x % 2],
                                       ["+"] if x & 4 else None)
            hook("built")
            return dump(ntm.evolve(s.network, initial_conditions=s.initial_conditions, activity_rule=mk(s.activity_rule, hook), timesteps=T))
        if which == "tape":
            m = ntm.TapeCentricTuringMachine(n=n, rule_table=table, initial_head_state=0, initial_head_position=0)
            hook("built")
            return dump(ntm.evolve(m.network, initial_conditions=bits, activity_rule=mk(m.activity_rule, hook), timesteps=2 * T))
        if which == "head":
            m = ntm.HeadCentricTuringMachine(tape=bits, rule_table=table, initial_head_state=0, initial_head_position=0, max_timesteps=2 * T)
            hook("built")
            tr = ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=mk(m.activity_rule, hook), input=m.input_function)
            return dump(tr), repr(m.activities_for_plotting(tr))
        if which == "wolfram":
            m = ntm.WolframPhysicsModel([(0, 1), (0, 2), (1, 2)][:2 + x % 2],
                                        {"in": [("x", "y"), ("x", "z")], "out": [("x", "z"), ("x", "w"), ("y", "w"), ("z", "w")]})
            hook("built")
            tr = ntm.evolve(m.network, topology_rule=mk(m.topology_rule, hook), timesteps=min(T, 4))
            return dump(tr), repr([m.network_to_config(s.network) for s in tr])
        if which == "sandpile":
            m = ntm.Sandpile(3, n, is_closed_boundary=bool(x & 1))
            hook("built")
            return dump(ntm.evolve(m.network, initial_conditions=[h(x, i) % 8 for i in range(3 * n)], activity_rule=mk(m.activity_rule, hook),
                                   timesteps=T))
        if which == "async":
            net = ntm.topology.cellular_automaton(n)
            r = ntm.AsynchronousRule(ntm.rules.nks_ca_rule(30 + x % 80), update_order=[(x + i) % n for i in range(n)])
            hook("built")
            return dump(ntm.evolve(net, initial_conditions=list(bits), activity_rule=mk(r, hook), timesteps=3 * T))
        if which == "reversible":
            net = ntm.topology.cellular_automaton(n)
            r = ntm.ReversibleRule(ntm.rules.nks_ca_rule(x % 256))
            hook("built")
            return dump(ntm.evolve(net, initial_conditions=list(bits), activity_rule=mk(r, hook), past_conditions=[list(reversed(bits))],
                                   timesteps=T))
        if which == "loop":
            net = ntm.topology.cellular_automaton2d(4, n, neighbourhood="Moore")
            return dump(ntm.evolve(net, initial_conditions=[h(x, i) % 2 for i in range(4 * n)], compression=bool(x & 1),
                                   activity_rule=mk(ntm.rules.game_of_life_rule, hook), timesteps=T))
        if which == "langton":
            m = ntm.LangtonsLoop((14 + x % 2, 18 + x % 3))
            hook("built")
            return dump(ntm.evolve(m.network, initial_conditions=m.init_loops(1, [1 + x % 2], [1 + x % 3]),
                                   activity_rule=mk(m.activity_rule, hook), timesteps=3, memoize=bool(x & 1)))
        if which == "ctrbl":
            m = ntm.CTRBLRule((3, n), {(a, b, c, d, e): h(x, a, b, c, d, e) % 2 for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)
                                       for e in (0, 1)}, add_rotations=bool(x & 1))
            hook("built")
            return dump(ntm.evolve(m.network, initial_conditions=[h(x, i) % 2 for i in range(3 * n)],
                                   activity_rule=mk(m.activity_rule, hook), timesteps=T)), repr(sorted(m.rule_table.items()))
        if which == "turtle":
            t = ntm.Turtle(x % 3, x % 5, x % 90)
            hook("built")
            for i in range(12):
                [lambda: t.forward(h(x, i) % 4), t.push, lambda: t.rotate(h(x, i) % 100), lambda: t.pop() if i % 4 == 3 else t.push()][i % 4]()
                hook("step")
            return repr((t.trajectory, t.pos, t.orientation))
        if which == "hopfield":
            m = ntm.HopfieldNet(n=n)
            hook("built")
            m.train([[1 - 2 * (h(x, i, j) % 2) for i in range(n)] for j in range(1 + x % 3)])
            hook("trained")
            return repr(m.adjacency_matrix.tolist()), net_dump_text(m.network), m.num_nodes
        if which == "eca":
            net = ntm.topology.cellular_automaton(n)
            return dump(ntm.evolve(net, initial_conditions=list(bits), activity_rule=mk(ntm.rules.nks_ca_rule(x % 256), hook),
                                   timesteps=T, memoize=bool(x & 2), memoization_key=None))
        if which == "tank":
            m = ntm.HopfieldTankTSPNet([(0.1 * i, 0.3 * (i % 2) + 0.01 * (x % 7)) for i in range(3 + x % 2)], dt=[1.0, 0.1][x % 2])
            hook("built")
            return dump(ntm.evolve(ntm.topology.from_adjacency_matrix(m.adjacency_matrix), initial_conditions=[0.001 * (h(x, i) % 9) for i in range((3 + x % 2) ** 2)],
                                   activity_rule=mk(m.activity_rule, hook), timesteps=3))
        if which == "fungal":
            # no randomness is left once every agent is alive and the links are there; the first steps draw from the global generator
            m = ntm.FungalGrowthModel(1.0, 3, 3, [0] * 9, verbose=False)
            hook("built")
            return dump(ntm.evolve(m.network, initial_conditions=[0] * 9, activity_rule=mk(m.activity_rule, hook), topology_rule=m.topology_rule,
                                   update_order=m.update_order, copy_network=m.copy_network, timesteps=T))
        if which == "growing":
            net = ntm.topology.disconnected([0, 1])

            def rule(ctx):
                hook("activity")
                if h(x, ctx.timestep, repr(ctx.node_label)) % 3 == 0:
                    ctx.add_node(1, {ctx.node_label: {"weight": 1}},
                                 "n%d-%s" % (ctx.timestep, ctx.node_label))
                return ctx.current_activity + 1
            return dump(ntm.evolve(net, initial_conditions={0: 0, 1: 1}, activity_rule=rule, timesteps=T))
    return Spec(which, fn)


def pool(rng, size):
    net, ref, labs = gen.network(rng, nmax=6, isolated=True)
    labs = list(net.nodes)
    specs = [plain(rng, net, labs) if rng.random() < 0.6 else machine(rng) for _ in range(size)]
    return net, specs


def settings():
    return {"gc": gc.isenabled(), "random": random.getstate(), "numpy-random": repr(np.random.get_state()), "numpy-errors": repr(np.geterr()),
            "recursion": sys.getrecursionlimit(), "cwd": os.getcwd(), "gc-threshold": gc.get_threshold(), "hash-switch": sys.getswitchinterval()}


def judge_settings(case, before, what):
    now = settings()
    for k in before:
        case.check(now[k] == before[k], "settings-restored", "%s: %s changed%s", what, k, "" if "random" in k else
                   ": %r, was %r" % (now[k], before[k]))
    case.event("compared")


def repeats(case):
    """any order, any number of times, with anything in between"""
    rng = case.rng
    net, specs = pool(rng, rng.randint(2, 4))
    was = net_dump(net)
    first = {}
    seq = [i for i in range(len(specs)) for _ in range(3)]
    rng.shuffle(seq)
    for i in seq:
        r = specs[i].run()
        if i not in first:
            first[i] = r
        case.check(r == first[i], "repeated-runs-agree", lambda: "%s after %r: %s" %
                   (specs[i].name, [specs[j].name for j in seq], diff(r, first[i])))
        case.event("runs")
    case.check(net_dump(net) == was, "shared-network-untouched", "the network shared by the evolutions changed")
    case.state([s.name for s in specs], repr(first)[:3000])
    case.sample("%r run %d times" % ([s.name for s in specs], len(seq)))


def diff(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return "; ".join(diff(x, y) for x, y in zip(a, b) if x != y)
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%d states, expected %d" % (len(a), len(b))
        for t, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return "state %d is %.600r, expected %.600r" % (t, x, y)
    return "%.600r, expected %.600r" % (a, b)


def nested(case):
    """evolutions started inside the callbacks of others, up to three deep"""
    rng = case.rng
    net, specs = pool(rng, rng.randint(2, 4))
    ref = [s.run() for s in specs]
    budget = [12]
    p = rng.choice([0.05, 0.3])

    def hook_for(depth):
        def hook(kind):
            if depth < 3 and budget[0] > 0 and rng.random() < p:
                budget[0] -= 1
                j = rng.randrange(len(specs))
                r = specs[j].run(hook_for(depth + 1))
                case.check(r == ref[j], "nested-run-agrees", lambda: "%s inside a %s callback at depth %d: %s" %
                           (specs[j].name, kind, depth, diff(r, ref[j])))
                case.event("nested-runs")
                case.event("nested-in-" + kind)
        return hook
    for i, s in enumerate(specs):
        budget[0] = 8
        r = s.run(hook_for(1))
        case.check(r == ref[i], "outer-run-agrees", lambda: "%s with evolutions nested in it: %s" % (s.name, diff(r, ref[i])))
    case.state([s.name for s in specs], repr(ref)[:3000])


def siblings(case):
    """two machines of one kind: the second built, and run, anywhere in the life of the first"""
    rng = case.rng
    which = MACHINES[case.idx % len(MACHINES)]
    a, b = machine(rng, which), machine(rng, which)
    ref = [a.run(), b.run()]
    calls = [0]

    def count(kind):
        calls[0] += 1
    case.check(a.run(count) == ref[0], "repeated-runs-agree", "%s", which)
    for at in sorted({0, rng.randrange(calls[0]), rng.randrange(calls[0]), calls[0] - 1}):
        n = [0]

        def hook(kind):
            if n[0] == at:
                r = b.run()
                case.check(r == ref[1], "nested-run-agrees", lambda: "%s inside another, at its call %d: %s" % (which, at, diff(r, ref[1])))
                case.event("siblings")
            n[0] += 1
        r = a.run(hook)
        case.check(r == ref[0], "outer-run-agrees", lambda: "%s with another of its kind run at its call %d: %s" % (which, at, diff(r, ref[0])))
    case.state(which, repr(ref)[:2000])


def threads(case):
    """several threads, delays inside callbacks; every run gives what it gives alone, and the process keeps its settings"""
    rng = case.rng
    net, specs = pool(rng, rng.randint(2, 5))
    ref = [s.run() for s in specs]
    n = rng.randint(2, 6)
    plan = [[rng.randrange(len(specs)) for _ in range(rng.randint(1, 4))] for _ in range(n)]
    if rng.random() < 0.4:      # all at the same thing
        plan = [[plan[0][0]] * 2 for _ in range(n)]
    delays = [random.Random(rng.getrandbits(40)) for _ in range(n)]
    mode = rng.choice(["none", "yield", "sleep"])
    before = settings()
    gc_off = rng.random() < 0.3
    if gc_off:
        gc.disable()
        before = settings()
    trail, results, errors = [], [], []
    barrier = threading.Barrier(n)

    def work(k):
        def hook(kind):
            trail.append(k)
            if mode == "yield":
                time.sleep(0)
            elif mode == "sleep" and delays[k].random() < 0.2:
                time.sleep(delays[k].random() * 2e-4)
        barrier.wait(30)
        for j in plan[k]:
            try:
                results.append((k, j, specs[j].run(hook)))
            except BaseException as e:
                errors.append((k, j, repr(e)))
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(k,), daemon=True) for k in range(n)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            cpu = time.process_time()
            t.join(60)
            if t.is_alive():
                case.check(time.process_time() - cpu > 5, "concurrent-runs-deadlock",
                           "plan %r of %r: a thread waits forever", plan, [s.name for s in specs])
                raise Inconclusive("threads did not finish")
    finally:
        sys.setswitchinterval(old)
    try:
        case.check(not errors, "concurrent-run-fails", lambda: "plan %r of %r: %r" % (plan, [s.name for s in specs], errors[:3]))
        for k, j, r in results:
            case.check(r == ref[j], "concurrent-run-agrees", lambda: "%s in thread %d of plan %r: %s" % (specs[j].name, k, plan, diff(r, ref[j])))
            case.event("thread-runs")
        judge_settings(case, before, "%d threads over %r" % (n, [s.name for s in specs]))
    finally:
        if gc_off:
            gc.enable()
    sw = sum(1 for a, b in zip(trail, trail[1:]) if a != b)
    case.event("switches", sw)
    case.event("callbacks-in-threads", len(trail))
    case.state("interleaving", trail)


def raising(case):
    """a rule that raises at any of its calls: the exception arrives, settings stay, and later runs are as if nothing had happened"""
    rng = case.rng
    net, specs = pool(rng, rng.randint(1, 3))
    ref = [s.run() for s in specs]
    was = net_dump(net)
    off = rng.random() < 0.5
    case.event("gc-off" if off else "gc-on")
    gc.disable() if off else gc.enable()
    before = settings()
    try:
        for _ in range(4):
            i = rng.randrange(len(specs))
            calls = [0]

            def count(kind):
                calls[0] += 1
            specs[i].run(count)
            if not calls[0]:
                continue
            at = rng.randrange(calls[0]) + 1
            seen = [0]
            err = rng.choice([Break, KeyError, ValueError, StopIteration, KeyboardInterrupt, ZeroDivisionError])("broken off")

            def bomb(kind):
                seen[0] += 1
                if seen[0] == at:
                    raise err
            try:
                specs[i].run(bomb)
                got = None
            except Inconclusive:
                raise
            except BaseException as e:
                got = e
            what = "%s broken off at call %d of %d by %r" % (specs[i].name, at, calls[0], err)
            # machines may give the error another form, as long as it is raised from it
            chain = []
            e = got
            while e is not None and len(chain) < 10:
                chain.append(e)
                e = e.__cause__ or e.__context__
            case.check(got is not None and any(e is err for e in chain), "exception-arrives", "%s: %r", what, got)
            case.event("raised")
            judge_settings(case, before, what)
            case.check(net_dump(net) == was, "shared-network-untouched", "%s: the shared network changed", what)
            for j in rng.sample(range(len(specs)), len(specs)):
                r = specs[j].run()
                case.check(r == ref[j], "runs-after-an-exception-agree", lambda: "%s after %s: %s" % (specs[j].name, what, diff(r, ref[j])))
    finally:
        gc.enable()
    case.state([s.name for s in specs], repr(ref)[:3000])


def corrupt(case):
    """decompression of damaged data fails without leaving the collector off"""
    rng = case.rng
    net, ref, labs = gen.network(rng, 5)
    off = rng.random() < 0.5
    gc.disable() if off else gc.enable()
    before = settings()
    try:
        b = net.compress()
        for _ in range(8):
            d = bytearray(b)
            if rng.random() < 0.5 and len(d) > 1:
                d = d[:rng.randrange(len(d))]
            else:
                d[rng.randrange(len(d))] = rng.randrange(256)
            try:
                ntm.Network.decompress(bytes(d))
                case.event("accepted")
            except Exception:
                case.event("refused")
            judge_settings(case, before, "decoding damaged bytes")
        case.check(same_net(net_dump(ntm.Network.decompress(b)), net_dump(net)), "intact-data-still-decode", "after damaged data")
        st = ntm.State(activities={l: 1 for l in labs}, network=net, compression=True)
        case.check(st.activities == {l: 1 for l in labs}, "state-readable", "%r", st.activities)
        judge_settings(case, before, "reading a compressed state")
    finally:
        gc.enable()
    case.state(repr(net_dump(net)), off)


def settings_(case):
    """a deterministic evolution uses no randomness and changes no process-wide setting"""
    rng = case.rng
    net, specs = pool(rng, 3)
    for s in specs:
        off = rng.random() < 0.5
        gc.disable() if off else gc.enable()
        usual = gc.get_threshold()
        gc.set_threshold(*rng.choice([usual, usual, (0,), (0, 0, 0), (50, 3, 3), (10 ** 6, 10, 10)]))
        before = settings()
        try:
            s.run()
            judge_settings(case, before, s.name)
        finally:
            gc.set_threshold(*usual)
            gc.enable()
    # random draws of the caller continue as if nothing had run in between
    random.seed(case.idx)
    np.random.seed(case.idx)
    want = [random.random(), np.random.random(), random.random(), np.random.random()]
    random.seed(case.idx)
    np.random.seed(case.idx)
    got = [random.random(), np.random.random()]
    specs[0].run()
    got += [random.random(), np.random.random()]
    case.eq(got, want, "random-sequence-continues", specs[0].name)
    case.state([s.name for s in specs], case.idx)


def draws(case):
    """callbacks that draw random numbers get the numbers the generator has in store: the library neither draws between them, nor
    puts the generator back"""
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=6, isolated=True)
    labs = list(net.nodes)
    drawn = []
    source = rng.choice(["numpy", "random", "both"])

    def draw(n=2):
        if source == "both":
            v = [random.random(), np.random.random()][len(drawn) % 2]
        else:
            v = (np.random.random if source == "numpy" else random.random)()
        drawn.append(v)
        return int(v * n)

    def again(seed):
        random.seed(seed)
        np.random.seed(seed)
    T = gen.steps(rng, 2, 7)
    kw = {"timesteps": T}
    rule = lambda ctx: draw()
    how = rng.choice(["plain", "async", "reversible", "memo", "async-memo"])
    if "async" in how:
        rule = ntm.AsynchronousRule(activity_rule=rule, update_order=rng.sample(labs, len(labs)))
    elif how == "reversible":
        rule = ntm.ReversibleRule(rule)
        kw["past_conditions"] = [{l: rng.randint(0, 1) for l in labs}]
    if "memo" in how:
        kw["memoize"] = True
    if rng.random() < 0.3:
        kw["perturbation"] = lambda p: draw()
    if rng.random() < 0.3:
        def topo(ctx):
            if draw():
                ctx.network.add_edge(labs[0], labs[-1])
            return ctx.network
        kw["topology_rule"] = topo
        kw["update_order"] = rng.choice([AF, TF, SY])
    if rng.random() < 0.3:
        del kw["timesteps"]
        kw["input"] = lambda t, acts, n: draw() if t < T else None
    if rng.random() < 0.3:
        kw["compression"] = True
    seed = rng.getrandbits(30)
    again(seed)
    ntm.evolve(net, initial_conditions={l: rng.randint(0, 1) for l in labs}, activity_rule=rule, **kw)
    got, after = list(drawn), (random.random(), np.random.random())
    again(seed)
    del drawn[:]
    for _ in got:
        draw()
    case.eq(got, drawn, "callbacks-draw-on", "%s %s from %s" % (how, sorted(kw), source))
    case.eq(after, (random.random(), np.random.random()), "random-sequence-continues", "%s %s from %s" % (how, sorted(kw), source))
    case.event("drawn", len(got))
    case.state(how, sorted(kw), source, len(got))


class Param:
    """a rule with a parameter its owner may change between runs"""
    def __init__(self, salt, mod, memo=False):
        self.salt, self.mod, self.memo = salt, mod, memo

    def __call__(self, ctx):
        if self.memo:
            return h(self.salt, sorted(map(repr, ctx.neighbourhood_activities))) % self.mod
        return h(self.salt, repr(ctx.current_activity), sorted(map(repr, ctx.neighbourhood_activities)),
                 sorted(zip(map(repr, ctx.neighbour_labels), [repr(a) for a in ctx.neighbourhood_activities])),
                 sorted((repr(i), [sorted(map(repr, a.items())) for a in aa]) for i, aa in ctx.connection_states.items()),
                 repr(ctx.input), repr(ctx.past_activities and ctx.past_activities[0])) % self.mod

    method = __call__

    def perturb(self, p):
        return (p.node_activity + self.salt) % self.mod if h(self.salt, p.timestep, repr(p.node_label)) % 2 else p.node_activity

    def topology(self, ctx):
        nodes = list(ctx.network.nodes)
        x = h(self.salt, ctx.timestep, sorted(map(repr, ctx.activities.values())))
        new = ctx.network.copy()
        new.add_edge(nodes[x % len(nodes)], nodes[(x >> 9) % len(nodes)], weight=x % 7)
        return new


def altered(case):
    """the same objects, altered by their owner between runs, run as fresh ones that equal them"""
    rng = case.rng
    net, ref, labs = gen.network(rng, nmax=6, isolated=True)
    labs = list(net.nodes)
    memo = rng.random() < 0.5
    st = {"salt": rng.getrandbits(20), "mod": rng.choice([2, 3, 50])}
    rule = Param(memo=memo, **st)
    rules = rng.choice([lambda r: r, lambda r: r.method])
    kept = rules(rule)      # one and the same callable in every run
    pert, topo = rule.perturb, rule.topology
    use = {"pert": rng.random() < 0.3, "topo": rng.random() < 0.3, "past": not memo and rng.random() < 0.4,
           "input": not memo and rng.random() < 0.4, "rot": rng.random() < 0.4}
    order = rng.choice([AF, TF, SY])
    opts = {"memoize": memo, "compression": rng.random() < 0.3, "update_order": order}
    init = {l: rng.randrange(st["mod"]) for l in labs}
    past = [{l: rng.randrange(9) for l in labs} for _ in range(2)]
    inp = [rng.randrange(100) for _ in range(rng.randint(1, 5))]
    T = gen.steps(rng, 2, 6)

    def rotate():
        net.rotation_system = {l: tuple(rng.sample(list(net.in_edges(l)), len(net.in_edges(l)))) for l in labs}
    if use["rot"]:
        rotate()

    def args(n, r, p, t, i, pa, ip):
        k = dict(opts, network=n, initial_conditions=i, activity_rule=r)
        if use["pert"]:
            k["perturbation"] = p
        if use["topo"]:
            k["topology_rule"] = t
        if use["past"]:
            k["past_conditions"] = pa
        if use["input"]:
            k["input"] = ip
        else:
            k["timesteps"] = T
        return k
    changes = []
    for _ in range(rng.randint(2, 4)):
        got = dump(ntm.evolve(**args(net, kept, pert, topo, init, past, inp)))
        fresh_net = ntm.Network()
        d = net_dump(net)
        for l in d["nodes"]:
            fresh_net.add_node(l, **d["attrs"][l])
        for j in d["nodes"]:
            for i, aa in d["in"][j].items():
                for a in aa:
                    fresh_net.add_edge(i, j, **a)
        if net.rotation_system is not None:
            fresh_net.rotation_system = {l: tuple(v) for l, v in net.rotation_system.items()}
        twin = Param(rule.salt, rule.mod, memo)
        want = dump(ntm.evolve(**args(fresh_net, rules(twin), twin.perturb, twin.topology, dict(init), [dict(x) for x in past], list(inp))))
        case.check([s[0] for s in got] == [s[0] for s in want], "altered-objects-run-as-fresh-ones", lambda: "%r after %r: %s" %
                   (use, changes, diff([s[0] for s in got], [s[0] for s in want])))
        case.event("runs")
        for _ in range(rng.randint(1, 3)):
            what = rng.choice(["salt", "salt", "mod", "init", "past", "input", "edge", "unedge", "weight", "rot"])
            l, m = rng.choice(labs), rng.choice(labs)
            if what == "salt":
                rule.salt += rng.randint(1, 9)
            elif what == "mod":
                rule.mod = rng.choice([2, 3, 5, 50])
            elif what == "init":
                init[l] = rng.randrange(9)
            elif what == "past":
                past[rng.randrange(2)][l] = rng.randrange(9)
            elif what == "input":
                inp[rng.randrange(len(inp))] = rng.randrange(100)
            elif what == "edge":
                net.add_edge(l, m, weight=rng.randrange(9))
            elif what == "unedge" and net.has_edge(l, m):
                net.remove_edge(l, m)
            elif what == "weight" and net.has_edge(l, m):
                net.update_edge(l, m, weight=rng.randrange(100))
            elif what == "rot" and use["rot"]:
                rotate()
            changes.append(what)
        if use["rot"]:
            rotate()
    case.state(changes, use, memo, got)


def lookalikes(case):
    """networks that are alike - the same nodes, the same degrees, the same number of edges - run one after another in one process;
    every state of every run is computed here from that run's own network"""
    rng = case.rng
    n = rng.choice([rng.randint(2, 8), rng.randint(2, 8), rng.randint(9, 40)])
    labs = gen.labels(rng, n)
    ends = [(rng.choice(labs), rng.choice(labs)) for _ in range(rng.choice([n, 2 * n, 3 * n]))]
    if rng.random() < 0.4:      # a ring, as the library's own constructors make them
        ends = [(labs[(i + d) % n], labs[i]) for i in range(n) for d in (-1, 0, 1)]
    k = rng.randint(2, 5)
    alphabet = rng.choice([[0, 1], list(range(7))])
    rot = rng.random() < 0.4
    memo = rng.random() < 0.4
    order = rng.choice([AF, TF, SY])
    nets = []
    for _ in range(k):
        # the ends of the edges are dealt out anew; the nodes keep their in- and out-degrees
        heads = [j for _, j in ends]
        if nets:
            for _ in range(rng.choice([1, 1, 3, len(ends)])):
                x, y = rng.randrange(len(ends)), rng.randrange(len(ends))
                heads[x], heads[y] = heads[y], heads[x]
            ends = [(i, j) for (i, _), j in zip(ends, heads)]
        net = ntm.Network()
        for l in labs:
            net.add_node(l)
        inn = {l: {} for l in labs}
        for i, j in sorted(ends, key=lambda e: (labs.index(e[1]), labs.index(e[0]))) if rng.random() < 0.5 else ends:
            net.add_edge(i, j)
            inn[j].setdefault(i, 0)
        seq = {l: list(inn[l]) for l in labs}
        if rot:
            seq = {l: rng.sample(seq[l], len(seq[l])) for l in labs}
            net.rotation_system = {l: tuple(v) for l, v in seq.items()}
        nets.append((net, seq))
    salt = rng.getrandbits(20)
    if memo and not rot:
        rule = lambda ctx: alphabet[h(salt, sorted(ctx.neighbourhood_activities)) % len(alphabet)]
    else:
        rule = lambda ctx: alphabet[h(salt, ctx.neighbourhood_activities) % len(alphabet)]

    class Ctx:
        pass
    init = {l: rng.choice(alphabet) for l in labs}
    T = gen.steps(rng, 2, 4, 60)
    for r in range(rng.randint(k, 2 * k)):
        if r >= len(nets) - 1 and rng.random() < 0.3:
            nets.append(nets[rng.randrange(len(nets))])
        if r < 2 * k and rng.random() < 0.3:
            init = {l: rng.choice(alphabet) for l in labs}
        w = r if r < k else rng.randrange(len(nets))
        net, seq = nets[w]
        kw = {"memoize": True} if memo else {}
        got = [s.activities for s in ntm.evolve(net, initial_conditions=dict(init), activity_rule=rule, timesteps=T, update_order=order, **kw)]
        state, want = dict(init), [dict(init)]
        for _ in range(T - 1):
            nxt = {}
            for l in labs:
                c = Ctx()
                c.neighbourhood_activities = [state[i] for i in seq[l]]
                nxt[l] = rule(c)
            state = nxt
            want.append(state)
        case.check(got == want, "each-run-by-its-own-network", lambda: "run %d (network %d of %d alike, %d nodes%s%s): state %d differs" %
                   (r, w, k, n, ", rotated" if rot else "", ", memoized" if memo else "", [a == b for a, b in zip(got, want)].index(False)
                    if len(got) == len(want) else -1))
        case.event("runs")
    case.state(n, ends[:40], rot, memo, init)


SECTIONS = [Section("siblings", siblings, 320, 5000), Section("lookalikes", lookalikes, 300, 5000), Section("repeats", repeats, 250, 4000), Section("nested", nested, 200, 3000), Section("threads", threads, 150, 2000, timeout=120),
            Section("raising", raising, 250, 4000), Section("corrupt", corrupt, 100, 2000), Section("settings", settings_, 150, 2000),
            Section("draws", draws, 200, 3000),
            Section("altered", altered, 1200, 15000)]
