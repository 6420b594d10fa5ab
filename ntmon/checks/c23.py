import itertools

import numpy as np

import netomaton as ntm

from ..company import amid
from ..core import Section
from ..model import net_dump

PROP = "C23"
RULE = ("random complete rule sets over alphabets of one to three symbols and windows of one to five, with erasing and "
        "lengthening rules, run for several steps against parallel string rewriting; distinct by rules and strings")
NEED = {"strings": ["steps", "erased", "vanished"], "numbers": ["steps", "padded"], "constants": ["steps"], "refusals": ["refusals"],
        "large": ["symbols"], "again": ["again", "broken-off", "carried-on"], "stored": ["stored"]}


def rewrite(rules, m, s):
    return "".join(rules[s[i:i + m]] for i in range(len(s) - m + 1))


def rules_for(rng, alphabet, m):
    style = rng.choice(["any", "any", "erase", "same", "long"]) if rng.random() < 0.95 else "vast"
    rules = {}
    for key in itertools.product(alphabet, repeat=m):
        if style == "vast":
            lens = {"vast": [1, 1, 30, 70, 140, 300]}[style]
            rules["".join(key)] = "".join(rng.choice(alphabet) for _ in range(rng.choice(lens)))
            continue
        lens = {"any": [0, 1, 1, 2, 3], "erase": [0, 0, 1], "same": [1], "long": [1, 2, 3]}[style]
        rules["".join(key)] = "".join(rng.choice(alphabet) for _ in range(rng.choice(lens)))
    return rules


def judge(case, system, rules, m, s, T, limit):
    """evolve and compare the strings read off the nodes in order; returns (trajectory, strings)"""
    want = [s]
    for _ in range(T):
        if len(want[-1]) > limit:
            break
        want.append(rewrite(rules, m, want[-1]))
    T = len(want) - 1
    traj = ntm.evolve(network=system.network, initial_conditions=system.initial_conditions,
                      activity_rule=amid(case, "SubstitutionSystem", system.activity_rule),
                      timesteps=T + 1, compression=case.rng.random() < 0.2)
    case.eq(len(traj), len(want), "length", "rules %r from %r" % (rules, s))
    for t, st in enumerate(traj):
        a = st.activities or {}
        got = "".join(str(a[k]) for k in sorted(a))
        case.eq(got, want[t], "rewriting", "rules %r from %r, step %d" % (rules, s, t))
        if st.network is not None:
            case.eq(sorted(st.network.nodes), sorted(a), "nodes", "step %d" % t)
        case.event("steps")
        case.event("erased", t > 0 and len(want[t]) < len(want[t - 1]))
        case.event("vanished", want[t] == "")
        case.state(repr(sorted(rules.items())), want[t])
    return traj, want


def strings(case):
    rng = case.rng
    m = rng.choice([1, 1, 2, 2, 3, 4, 5])
    alphabet = rng.choice(["A", "AB", "AB", "ABC", "01", "F+-"][:3 if m > 3 else 6])
    rules = rules_for(rng, alphabet, m)
    s = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 7 + (3 * m if rng.random() < 0.3 else 0))))
    system = ntm.SubstitutionSystem(axiom=rng.choice([s, list(s)]), rules=dict(rules))
    traj, want = judge(case, system, rules, m, s, rng.randint(1, 7), 150 if not case.deep else 400)
    case.eq(list(ntm.SubstitutionSystem.to_string(traj)), want, "to-string", "rules %r from %r" % (rules, s))
    case.sample("rules %r: %s" % (rules, " -> ".join(w[:20] for w in want[:4])))


def numbers(case):
    rng = case.rng
    m = rng.choice([1, 1, 2, 3])
    alphabet = rng.choice(["12", "123", "1", "01", "019"])
    rules = rules_for(rng, alphabet, m)
    s = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 7)))
    system = ntm.SubstitutionSystem(axiom=[int(c) for c in s], rules=dict(rules))
    traj, want = judge(case, system, rules, m, s, rng.randint(1, 7), 150)
    for t, st in enumerate(traj):
        case.check(all(type(v) is int for v in (st.activities or {}).values()), "type-kept", lambda: repr(st.activities))
    rows = np.asarray(ntm.SubstitutionSystem.pad(traj))
    width = max(map(len, want))
    case.eq(rows.shape, (len(want), width), "pad", "shape")
    case.eq([[int(v) for v in r] for r in rows.tolist()], [[int(c) for c in w] + [0] * (width - len(w)) for w in want], "pad",
            "rules %r from %r" % (rules, s))
    case.event("padded")
    if rng.random() < 0.2:      # any states will do, in any order, as often as wanted
        picked = [rng.randrange(len(traj)) for _ in range(rng.randint(1, 130))]
        rows = np.asarray(ntm.SubstitutionSystem.pad([traj[k] for k in picked]))
        width = max(len(want[k]) for k in picked)
        case.eq([[int(v) for v in r] for r in rows.tolist()], [[int(c) for c in want[k]] + [0] * (width - len(want[k])) for k in picked],
                "pad", "%d states picked of rules %r from %r" % (len(picked), rules, s))


def constants(case):
    rng = case.rng
    letters = rng.choice(["F", "FX", "AB"])
    const = rng.choice([["+", "-"], ["[", "]"], ["+"], ("+", "-", "[", "]")])
    alphabet = letters + "".join(const)
    given = {c: "".join(rng.choice(alphabet) for _ in range(rng.choice([0, 1, 2, 3]))) for c in letters}
    if rng.random() < 0.25:     # a constant stays, whatever the rules given say
        given[const[0]] = rng.choice(letters)
    rules = dict(given)
    rules.update({c: c for c in const})
    s = "".join(rng.choice(alphabet) for _ in range(rng.randint(1, 5)))
    system = ntm.SubstitutionSystem(rules=dict(given), constants=const, axiom=s)
    traj, want = judge(case, system, rules, 1, s, rng.randint(1, 6), 150)
    case.eq(list(system.to_string(traj)), want, "to-string", "constants")
    for a, b in zip(want, want[1:]):
        for c in const:
            case.check(b.count(c) >= a.count(c), "constants-kept", lambda: "%r after %r" % (b, a))


def again(case):
    """one system, evolved several times: for more steps or fewer, broken off, and on from where it was left"""
    rng = case.rng
    m = rng.choice([1, 2, 2, 3, 4])
    alphabet = rng.choice(["AB", "ABC", "A"])
    rules = rules_for(rng, alphabet, m)
    s = "".join(rng.choice(alphabet) for _ in range(rng.randint(m, 6 + m)))
    system = ntm.SubstitutionSystem(axiom=s, rules=dict(rules))
    for k in range(rng.randint(2, 5)):
        if rng.random() < 0.2:
            left = [rng.randrange(2 * len(s))]

            def broken(ctx):
                left[0] -= 1
                if left[0] < 0:
                    raise KeyboardInterrupt()
                return system.activity_rule(ctx)
            try:
                ntm.evolve(network=system.network, initial_conditions=system.initial_conditions, activity_rule=broken, timesteps=3)
            except KeyboardInterrupt:
                case.event("broken-off")
            continue
        traj, want = judge(case, system, rules, m, s, rng.choice([1, 1, 2, 3]), 100)
        case.event("again", k > 0)
        if traj[-1].activities and rng.random() < 0.4:
            on = [want[-1]]
            for _ in range(rng.choice([1, 1, 2])):
                if len(on[-1]) <= 100:
                    on.append(rewrite(rules, m, on[-1]))
            traj = ntm.evolve(network=traj[-1].network, initial_conditions=traj[-1].activities, activity_rule=system.activity_rule,
                              timesteps=len(on))
            case.eq(list(ntm.SubstitutionSystem.to_string(traj)), on, "rewriting", "rules %r from %r, carried on from %r" % (rules, s, want[-1]))
            case.event("carried-on")
    case.state(repr(sorted(rules.items())), s)


def large(case):
    """strings of tens of thousands of symbols"""
    rng = case.rng
    m = rng.choice([1, 2])
    alphabet = "AB"
    rules = {"".join(k): "".join(rng.choice(alphabet) for _ in range(rng.choice([1, 2, 3, 3]))) for k in itertools.product(alphabet, repeat=m)}
    s = "".join(rng.choice(alphabet) for _ in range(rng.randint(900, 4000)))
    system = ntm.SubstitutionSystem(axiom=s, rules=dict(rules))
    net = system.network
    want = [s]
    while len(want) < 12 and sum(map(len, want)) < 120000:
        want.append(rewrite(rules, m, want[-1]))
    traj = ntm.evolve(network=net, initial_conditions=system.initial_conditions, activity_rule=system.activity_rule,
                      timesteps=len(want), persist_network=rng.random() < 0.3)
    got = list(ntm.SubstitutionSystem.to_string(traj))
    case.check(got == want, "rewriting", lambda: "rules %r from %d symbols: step %r differs" % (
        rules, len(s), [t for t, (a, b) in enumerate(zip(got, want)) if a != b][:1]))
    case.event("steps", len(want))
    case.event("symbols", sum(map(len, want)))
    case.state(repr(sorted(rules.items())), s)


def stored(case):
    """states whose node labels are consecutive numbers of any size: strings and rows follow the labels"""
    rng = case.rng
    traj, want = [], []
    for _ in range(rng.randint(1, 6)):
        k = rng.randint(1, 25)
        first = rng.choice([0, 0, 10 ** rng.randint(1, 8) - rng.randint(0, k), rng.randrange(10 ** 7), 2 ** rng.randint(8, 33) - rng.randint(0, k)])
        s = "".join(rng.choice("ABC01") for _ in range(k))
        items = list(enumerate(s, first))
        if rng.random() < 0.5:
            rng.shuffle(items)
        traj.append(ntm.State(activities=dict(items), compression=rng.random() < 0.3))
        want.append(s)
    case.eq(list(ntm.SubstitutionSystem.to_string(traj)), want, "to-string", "labels %r" % [sorted(st.activities)[:3] for st in traj])
    nums = [ntm.State(activities={n: ord(c) for n, c in st.activities.items()}) for st in traj]
    wide = max(map(len, want))
    case.eq(np.asarray(ntm.SubstitutionSystem.pad(nums)).tolist(), [[ord(c) for c in s] + [0] * (wide - len(s)) for s in want], "padded",
            "labels %r" % [sorted(st.activities)[:3] for st in traj])
    case.event("stored", len(want))
    case.state(want)


def refusals(case):
    rng = case.rng
    case.raises(lambda: ntm.SubstitutionSystem(axiom="AB", rules={"A": "B", "AB": "A"}), "refused", "keys of different lengths")
    case.raises(lambda: ntm.SubstitutionSystem(axiom="AB", rules={"AB": "A"}, constants=["+"]), "refused", "constants of another length")
    s = ntm.SubstitutionSystem(axiom="ABA", rules={"A": "AB"})
    case.raises(lambda: ntm.evolve(network=s.network, initial_conditions=s.initial_conditions, activity_rule=s.activity_rule,
                                   timesteps=2), "refused", "no rule for B")
    case.event("refusals", 3)
    case.state(0)


SECTIONS = [Section("large", large, 2, 24, timeout=300), Section("strings", strings, 600, 12000), Section("numbers", numbers, 400, 8000), Section("constants", constants, 200, 4000),
            Section("again", again, 500, 10000), Section("refusals", refusals, 1, 1),
            Section("stored", stored, 200, 4000)]
