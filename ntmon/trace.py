"""Trace monitor for evolutions: records what every user callback is shown and returns, then an offline checker
reconstructs A(t), S(t) from the recorded returns alone and compares every observation with the documented equations."""
import collections.abc
import copy
import functools

import netomaton as ntm

from .core import Violation
from .model import RefNet, net_diff, net_dump, norm, rot_dump, same_net

AF, TF, SY = ntm.UpdateOrder.ACTIVITIES_FIRST, ntm.UpdateOrder.TOPOLOGY_FIRST, ntm.UpdateOrder.SYNCHRONOUS


def snap(v):
    try:
        return copy.deepcopy(v)
    except Exception:
        return v


class Monitor:
    def __init__(self, max_steps=None, max_calls=200000):
        self.ev = []
        self.kept = []          # contexts a rule or perturbation may have kept
        self.max_steps, self.max_calls = max_steps, max_calls
        self.calls = 0
        self.wild = False

    def _tick(self, t):
        self.calls += 1
        if self.calls > self.max_calls or (self.max_steps is not None and t > self.max_steps):
            raise Violation("stops", "the evolution went on to timestep %r (call %d) although it should have ended "
                            "after step %r" % (t, self.calls, self.max_steps))

    def activity(self, rule):
        def f(ctx):
            self._tick(ctx.timestep)
            e = {"k": "act", "t": ctx.timestep, "n": ctx.node_label, "act": dict(ctx.activities),
                 "nl": list(ctx.neighbour_labels), "na": list(ctx.neighbourhood_activities),
                 "cs": {i: [snap(dict(a)) for a in aa] for i, aa in ctx.connection_states.items()},
                 "cur": ctx.current_activity, "in": ctx.input,
                 "past": None if ctx.past_activities is None else
                         [None if p is None else dict(p) for p in ctx.past_activities]}
            e["bad_accessor"] = self._accessors(ctx)
            r = rule(ctx)
            self.kept.append((e, ctx))
            e["r"] = r
            e["added"] = [(s, {k: snap(v) for k, v in links.items()}, l) for s, links, l in ctx.added_nodes]
            e["removed"] = list(ctx.removed_nodes)
            self.ev.append(e)
            if self.wild and isinstance(ctx.neighbourhood_activities, list):     # a rule may sort or empty the list it is given
                ctx.neighbourhood_activities.reverse()
                ctx.neighbourhood_activities[1:] = ["mine"]
            return r
        return f

    @staticmethod
    def _accessors(ctx):
        def differ(a, b):
            return a is not b and (type(a) is not type(b) or not a == b)
        for l, v in list(ctx.activities.items())[:4]:
            if differ(ctx.activity_of(l), v):
                return "activity_of(%r)" % (l,)
        if ctx.past_activities:
            for k in range(len(ctx.past_activities)):
                p = ctx.past_activities[k]
                if p is not None and ctx.node_label in p:
                    if differ(ctx.past_activity_of(ctx.node_label, k), p[ctx.node_label]):
                        return "past_activity_of(.., %d)" % k
            p = ctx.past_activities[-1]
            if p is not None and ctx.node_label in p and \
                    differ(ctx.past_activity_of(ctx.node_label), p[ctx.node_label]):
                return "past_activity_of default"
        for i, aa in ctx.connection_states.items():
            for k, a in enumerate(aa):
                for key in a:
                    if differ(ctx.edge_data(i, key, k), a[key]) or (k == 0 and differ(ctx.edge_data(i, key), a[key])):
                        return "edge_data(%r, %r, %d)" % (i, key, k)
        return None

    def topology(self, rule):
        def f(ctx):
            self._tick(ctx.timestep)
            e = {"k": "topo", "t": ctx.timestep, "act": dict(ctx.activities), "net": net_dump(ctx.network)}
            r = rule(ctx)
            e["r"] = net_dump(r) if r is not None else None
            e["rot"] = rot_dump(r) if r is not None else None
            self.ev.append(e)
            return r
        return f

    def perturbation(self, fn):
        def f(ctx):
            self._tick(ctx.timestep)
            e = {"k": "pert", "t": ctx.timestep, "n": ctx.node_label, "v": ctx.node_activity, "in": ctx.input}
            self.kept.append((e, ctx))
            r = fn(ctx)
            e["r"] = r
            self.ev.append(e)
            return r
        return f

    def input(self, fn):
        def f(t, a, n):
            self.calls += 1
            if self.calls > self.max_calls or (self.max_steps is not None and t > self.max_steps + 1):
                raise Violation("stops", "input function called for t=%r" % (t,))
            r = fn(t, a, n)
            self.ev.append({"k": "inp", "t": t, "act": dict(a), "net": net_dump(n), "r": r})
            return r
        return f


def unchanged(a, b):
    return a is b or a == b


class Obj:
    """a callable object, or its method"""
    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    def method(self, *a):
        return self.f(*a)


class Table(dict):
    """a callable object that counts as empty"""
    def __init__(self, f):
        dict.__init__(self)
        self.f = f

    def __call__(self, *a):
        return self.f(*a)

    __hash__ = object.__hash__


def in_form(f, form):
    """the same function as another kind of callable"""
    return [f, f, f, Obj(f), Table(f), Obj(f).method, functools.partial(f), functools.partial(Table(f))][form % 8]


class Evo:
    """One evolution to run and judge."""
    def __init__(self, net, init, rule=None, timesteps=None, input=None, topo=None, pert=None, past=None, order=AF,
                 copy_network=True, compression=False, pa=True, pn=True, inplace=False, node_order=False):
        self.net, self.init, self.rule, self.timesteps, self.input = net, init, rule, timesteps, input
        self.topo, self.pert, self.past, self.order = topo, pert, past, order
        self.copy_network, self.compression, self.pa, self.pn, self.inplace = copy_network, compression, pa, pn, inplace

    forms = 0       # of the functions handed in

    def kwargs(self, mon=None):
        form = {"activity": 1, "topology": 8, "perturbation": 64, "input": 512}
        w = lambda f, name: None if f is None else in_form(f if mon is None else getattr(mon, name)(f), self.forms // form[name])
        kw = dict(network=self.net, initial_conditions=self.init, activity_rule=w(self.rule, "activity"),
                  topology_rule=w(self.topo, "topology"), perturbation=w(self.pert, "perturbation"),
                  past_conditions=self.past, update_order=self.order, copy_network=self.copy_network,
                  compression=self.compression, persist_activities=self.pa, persist_network=self.pn)
        if self.timesteps is not None:
            kw["timesteps"] = self.timesteps
        if self.input is not None:
            kw["input"] = w(self.input, "input") if callable(self.input) else self.input
        return kw

    def steps(self):
        """number of steps after the initial state, or None when the input function decides"""
        if self.input is not None:
            return None if callable(self.input) else len(self.input)
        return max(self.timesteps - 1, 0)

    def run(self, **over):
        self.net0 = net_dump(self.net)
        self.rot0 = rot_dump(self.net)
        self.s0 = as_map(self.init)
        st = self.steps()
        self.mon = Monitor(max_steps=getattr(self, "limit", 400) if st is None else st)
        self.mon.wild = getattr(self, "wild", False)
        kw = self.kwargs(self.mon)
        kw.update(over)
        self.traj = ntm.evolve(**kw)
        return self.traj


def as_map(c):
    if c is None:
        return {}
    if isinstance(c, dict):
        return dict(c)
    return {i: norm(v) for i, v in enumerate(c)}


def expected_input(item, n):
    return item[n] if isinstance(item, collections.abc.Sequence) else item


def judge(case, evo, props, check_networks=None):
    """The offline checker. `props`: clause groups to report; deviations in other groups end the check silently
    (another property's check reports them)."""
    ev = evo.mon.ev
    props = set(props)

    class Foreign(Exception):
        pass

    def ck(groups, cond, clause, msg):
        if cond:
            case.events["oracle:" + clause] += 1
            return
        if props & set(groups.split()):
            case.fail(clause, msg() if callable(msg) else msg)
        case.event("foreign-deviation")
        raise Foreign()

    def body():
        pos = 0
        A, S, rot = evo.net0, evo.s0, evo.rot0
        past_src = [as_map(p) for p in evo.past] if evo.past else None
        k = len(past_src) if past_src else 0
        hist = (past_src or []) + [S]      # hist[-1] is S(t-1)
        inputs = None if evo.input is None or callable(evo.input) else evo.input
        expected = [(A, S)]
        t = 0
        n_steps = evo.steps()
        has_in_place_alias = (not evo.copy_network) and evo.inplace
        changed_nodes = False
        while True:
            t += 1
            # --- the input of the step ---
            if callable(evo.input) and evo.input is not None:
                ck("C03", pos < len(ev) and ev[pos]["k"] == "inp", "input-consulted",
                   "input function not consulted before step %d: %r" % (t, ev[pos:pos + 1]))
                e = ev[pos]
                pos += 1
                ck("C03", e["t"] == t, "input-timestep", "input function asked for t=%r at step %d" % (e["t"], t))
                ck("C03 C01", e["act"] == S, "input-activities", "input function at step %d saw activities %r, "
                   "previous state is %r" % (t, e["act"], S))
                if not has_in_place_alias:
                    ck("C03 C02", same_net(e["net"], A), "input-network",
                       lambda: "input function at step %d saw another network: %s" % (t, net_diff(e["net"], A)))
                item = e["r"]
                if item is None:
                    break
            elif inputs is not None:
                if t > len(inputs):
                    break
                item = inputs[t - 1]
                if item is None:
                    break
            else:
                if t > n_steps:
                    break
                item = None
            timed = evo.input is None
            # --- collect the events of this step ---
            step = []
            while pos < len(ev) and ev[pos]["k"] != "inp" and ev[pos]["t"] == t:
                step.append(ev[pos])
                pos += 1
            acts = [e for e in step if e["k"] == "act"]
            topos = [e for e in step if e["k"] == "topo"]
            perts = [e for e in step if e["k"] == "pert"]
            # --- phase structure ---
            if evo.topo is not None:
                ck("C02", len(topos) == 1, "topology-once", "topology rule called %d times in step %d" % (len(topos), t))
                tp = topos[0]
                at = step.index(tp)
                other_before = any(e["k"] != "topo" for e in step[:at])
                other_after = any(e["k"] != "topo" for e in step[at + 1:])
                if evo.order is AF:
                    ck("C02", not other_after, "phase-order", "activities computed after the topology in step %d" % t)
                elif evo.order is TF:
                    ck("C02", not other_before, "phase-order", "activities computed before the topology in step %d" % t)
            else:
                ck("C02", not topos, "topology-once", "topology rule called without being given")
            if evo.order is TF and evo.topo is not None:
                G_net, G_rot = topos[0]["r"], topos[0]["rot"]
            else:
                G_net, G_rot = A, rot
            grp = "C01 C02" + (" C09" if changed_nodes else "")
            # --- activities ---
            new_S = {}
            added, removed = [], []
            if evo.rule is not None:
                ck("C01" + (" C09" if changed_nodes else "") + (" C02" if evo.topo is not None else ""),
                   len(acts) == len(G_net["nodes"]) and set(e["n"] for e in acts) == set(G_net["nodes"]),
                   "every-node-once", lambda: "step %d: rule invoked for %r, nodes are %r" %
                   (t, [e["n"] for e in acts], G_net["nodes"]))
                pert_by = {}
                for e in perts:
                    ck("C04", e["n"] not in pert_by, "perturb-once", "node %r perturbed twice in step %d" % (e["n"], t))
                    pert_by[e["n"]] = e
                for e in acts:
                    n = e["n"]
                    ck(grp, e["act"] == S, "snapshot", lambda: "node %r at step %d was shown activities %r, the previous "
                       "state is %r" % (n, t, e["act"], S))
                    ck(grp, e["cur"] == S[n], "current", lambda: "node %r at step %d current activity %r, was %r" %
                       (n, t, e["cur"], S[n]))
                    ins = G_net["in"][n]
                    if not (has_in_place_alias and evo.order is SY):
                        ck(grp, e["cs"] == ins, "edge-data", lambda: "node %r at step %d connection states %r, in-edges "
                           "are %r" % (n, t, e["cs"], ins))
                        if G_rot is not None:
                            ck("C01 C12" + (" C02" if evo.topo is not None else ""), e["nl"] == list(G_rot[n]), "rotation-order", lambda: "node %r at step %d sees "
                               "neighbours %r, rotation system says %r" % (n, t, e["nl"], G_rot[n]))
                        else:
                            ck(grp, len(e["nl"]) == len(ins) and set(e["nl"]) == set(ins), "neighbours", lambda: "node %r at "
                               "step %d sees neighbours %r, in-edges come from %r" % (n, t, e["nl"], list(ins)))
                    ck(grp + (" C12" if G_rot is not None else ""), len(e["na"]) == len(e["nl"]) and all(v == S[l] for v, l in zip(e["na"], e["nl"])),
                       "neighbour-activities", lambda: "node %r at step %d: neighbours %r shown with activities %r, "
                       "previous state %r" % (n, t, e["nl"], e["na"], S))
                    ck("C01 C05", e["bad_accessor"] is None, "accessor", "node %r step %d: %s disagrees with the context" %
                       (n, t, e["bad_accessor"]))
                    want_in = None if timed else expected_input(item, n)
                    ck("C03", e["in"] is want_in or e["in"] == want_in, "node-input", lambda: "node %r at step %d got "
                       "input %r, expected %r" % (n, t, e["in"], want_in))
                    if k:
                        want = hist[-1 - k:-1]
                        ck("C05", e["past"] is not None and e["past"] == want, "past-window", lambda: "node %r at step %d "
                           "past activities %r, expected %r" % (n, t, e["past"], want))
                    else:
                        ck("C05", not e["past"], "past-window", "past activities %r without past conditions" % (e["past"],))
                    added.extend(e["added"])
                    removed.extend(e["removed"])
                gone = set(removed)
                for e in acts:
                    n = e["n"]
                    v = norm(e["r"])
                    # removal by the node's own rule decides whether a perturbation is due; nodes removed by another
                    # node's rule may or may not have been perturbed before they vanish
                    if evo.pert is not None and n not in gone:
                        ck("C04", n in pert_by, "perturb-each", "node %r not perturbed in step %d" % (n, t))
                    if n in pert_by:
                        pe = pert_by[n]
                        ck("C04", evo.pert is not None and (pe["v"] is v or pe["v"] == v), "perturb-sees",
                           lambda: "perturbation of node %r at step %d was shown %r, computed %r" % (n, t, pe["v"], v))
                        want_in = None if timed else expected_input(item, n)
                        ck("C04 C03", pe["in"] is want_in or pe["in"] == want_in, "perturb-input",
                           lambda: "perturbation of %r at step %d got input %r, expected %r" % (n, t, pe["in"], want_in))
                        v = pe["r"]
                    if n not in gone:
                        new_S[n] = v
                ck("C04", set(pert_by) <= set(G_net["nodes"]), "perturb-known", "perturbed unknown nodes %r" % pert_by)
                if evo.order is AF:
                    for s, links, l in added:
                        new_S[l] = norm(s)
                case.event("contexts", len(acts))
                case.event("perturbations", len(perts))
            else:
                ck("C01", not acts, "every-node-once", "activity rule called without being given")
            # --- topology ---
            changed_now = bool(evo.order is AF and (added or removed))
            if changed_now:
                changed_nodes = True
                r = RefNet.from_dump(G_net)
                for l in dict.fromkeys(removed):
                    r.remove_node(l)
                for s, links, l in added:
                    r.add_node(l, activity=norm(s))
                    for target, a in links.items():
                        r.add_edge(l, target, **a)
                M = r.dump()
                M_rot = None
                case.event("nodes-added", len(added))
                case.event("nodes-removed", len(gone))
            else:
                M, M_rot = A, rot
            if evo.topo is not None:
                tp = topos[0]
                if evo.order is AF:
                    ck("C02" + (" C09" if changed_nodes else ""), tp["act"] == new_S if evo.rule else not tp["act"],
                       "topology-activities", lambda: "step %d (activities first): topology rule was shown %r, new "
                       "activities are %r" % (t, tp["act"], new_S))
                    ck("C02" + (" C09" if changed_nodes else ""), same_net(tp["net"], M), "topology-network",
                       lambda: "step %d: topology rule given another network: %s" % (t, net_diff(tp["net"], M)))
                else:
                    ck("C02", tp["act"] == S, "topology-activities", lambda: "step %d: topology rule was shown %r, previous "
                       "activities are %r" % (t, tp["act"], S))
                    ck("C02", same_net(tp["net"], A), "topology-network",
                       lambda: "step %d: topology rule given another network: %s" % (t, net_diff(tp["net"], A)))
                A, rot = tp["r"], tp["rot"]
                case.event("topology-calls")
            else:
                A, rot = M, M_rot
            S = new_S
            hist.append(S)
            expected.append((A, S))
        # contexts are the caller's to keep: they still tell of their own call
        for e, c in evo.mon.kept:
            value, grp = ("node_activity", "C04") if e["k"] == "pert" else ("current_activity", "C01")
            ck(grp, (c.node_label, c.timestep) == (e["n"], e["t"]) and unchanged(getattr(c, value), e["v" if e["k"] == "pert" else "cur"])
               and unchanged(c.input, e["in"]), "context-kept", lambda: "the context of node %r at step %d later tells of node %r at "
               "step %r, activity %r" % (e["n"], e["t"], c.node_label, c.timestep, getattr(c, value)))
        ck("C03", pos == len(ev), "no-extra-steps", lambda: "callbacks after the last step: %r" % ev[pos:pos + 2])
        traj = evo.traj
        ck("C03", len(traj) == len(expected), "trajectory-length", "%d states, expected %d" % (len(traj), len(expected)))
        for i, (a, s) in enumerate(expected):
            st = traj[i]
            if evo.rule is not None or i == 0:
                if evo.pa or i == 0:
                    got = st.activities
                    ck("C01 C04 C07 C08 C09 C02", (got or {}) == s, "state-activities", lambda: "state %d holds %r, the rule's "
                       "results were %r" % (i, got, s))
                    for l, v in (got or {}).items():
                        ck("C01 C04 C08 C09", type(v) is type(s[l]) or type(v) is type(norm(s[l])), "state-types", lambda: "state %d holds %r "
                           "for node %r, the result was %r" % (i, v, l, s[l]))
                elif i > 0:
                    ck("C08", st.activities is None, "state-absent", "state %d has activities %r though not persisted" %
                       (i, st.activities))
            if evo.pn or i == 0:
                if not has_in_place_alias:
                    case.event("empty-networks", not len(a["nodes"]))
                    got = st.network
                    ck("C02 C07 C08 C09", got is not None and same_net(net_dump(got), a), "state-network",
                       lambda: "state %d holds another network: %s" % (i, net_diff(net_dump(got), a) if got is not None
                                                                        else None))
            elif i > 0:
                ck("C08", st.network is None, "state-absent", "state %d has a network though not persisted" % i)
        case.event("states", len(traj))
        case.event("traces")
        evo.expected = expected

    try:
        body()
    except Foreign:
        return False
    return True
