import numpy as np

import netomaton as ntm
from netomaton import rules

from .. import gen
from ..core import Section
from ..spoil import spoil, spoilt_before

PROP = "C15"
RULE = ("all 256 elementary rules on all 8 neighbourhoods (enumerated), random rules of radius 0 to 4 on all or sampled "
        "neighbourhoods, totalistic codes in base 2 to 36, and whole evolutions on rings and tori; distinct by (rule, neighbourhood)")
NEED = {"elementary_all": ["lookups"], "binary": ["lookups"], "totalistic": ["lookups"], "evolve_binary": ["cells"],
        "evolve_totalistic": ["cells"], "refusals": ["refusals"], "bits": ["lookups"]}


def ctx(acts, current=None):
    n = len(acts)
    return ntm.NodeContext(n // 2, 1, dict(enumerate(acts)), list(range(n)), list(acts), {i: [{"weight": 1}] for i in range(n)},
                           acts[n // 2] if current is None and n else current, None, None)


def ref_nks(rule, acts):
    s = 0
    for a in acts:
        s = 2 * s + (1 if a else 0)
    return (rule >> s) & 1


def ref_lex(rule, acts):
    s = 0
    for a in acts:
        s = 2 * s + (1 if a else 0)
    return (rule >> (2 ** len(acts) - 1 - s)) & 1


def lookup(case, rule, acts):
    case.event("lookups")
    if case.rng.random() < 0.3:     # digits handed out are their user's
        spoil(rules.int_to_bits(rule, 2 ** len(acts)))
    case.eq(int(rules.nks_ca_rule(rule)(ctx(acts))), ref_nks(rule, acts), "nks", "rule %d of %r" % (rule, acts))
    case.eq(int(rules.binary_ca_rule(rule, scheme="nks")(ctx(acts))), ref_nks(rule, acts), "nks", "rule %d of %r" % (rule, acts))
    case.eq(int(rules.binary_ca_rule(rule)(ctx(acts))), ref_lex(rule, acts), "lexicographic", "rule %d of %r" % (rule, acts))


def elementary_all(case):
    for s in range(8):
        lookup(case, case.idx, [s >> 2 & 1, s >> 1 & 1, s & 1])
        case.state(case.idx, s)


def binary(case):
    rng = case.rng
    n = rng.choice([1, 2, 3, 4, 5, 5, 6, 7, 9])
    rule = rng.choice([rng.getrandbits(2 ** n), rng.getrandbits(2 ** n), 0, 2 ** 2 ** n - 1, 1, 2 ** (2 ** n - 1),
                       rng.getrandbits(rng.randint(1, 2 ** n))])
    states = range(2 ** n) if n <= 4 else [rng.randrange(2 ** n) for _ in range(20)] + [0, 2 ** n - 1]
    conv = rng.choice([int, int, bool, np.int64, np.int8])
    for s in states:
        lookup(case, rule, [conv(s >> (n - 1 - k) & 1) for k in range(n)])
        case.state(rule, n, s)
    case.sample("n=%d rule=%d" % (n, rule))


def bits(case):
    rng = case.rng
    w = rng.randint(1, 70)
    v = rng.choice([0, 1, 2 ** w - 1, 2 ** (w - 1), rng.getrandbits(w), rng.getrandbits(max(1, w // 2))])
    want = [v >> (w - 1 - k) & 1 for k in range(w)]
    case.event("lookups")
    case.eq([int(x) for x in spoilt_before(case, lambda: rules.int_to_bits(v, w))], want, "int-to-bits", "%d in %d digits" % (v, w))
    case.eq(rules.bits_to_int(want), v, "bits-to-int", want)
    case.eq(rules.bits_to_int(rules.int_to_bits(v, w)), v, "bits-round-trip", v)
    if v.bit_length() > 1:
        case.raises(lambda: rules.int_to_bits(v, rng.randint(0, v.bit_length() - 1)), "too-large-refused", "%d" % v)
    case.state(v, w)


def totalistic(case):
    rng = case.rng
    k = rng.choice([2, 3, 3, 4, 5, 10, 16, 36, rng.randint(2, 36)])
    n = rng.choice([1, 2, 3, 3, 5, 9])
    digits = n * (k - 1) + 1
    code = rng.choice([rng.randrange(k ** digits), rng.randrange(k ** digits), 0, k ** digits - 1, k ** (digits - 1), 1,
                       rng.randrange(k ** rng.randint(1, digits))])
    f = rules.totalistic_ca(k, code)
    for _ in range(12):
        acts = [rng.choice([rng.randrange(k), rng.randrange(k), 0, k - 1]) for _ in range(n)]
        if rng.random() < 0.1:
            acts = [k - 1] * n
        case.event("lookups")
        case.eq(int(f(ctx(acts))), code // k ** sum(acts) % k, "totalistic", "k=%d code %d of %r" % (k, code, acts))
        case.state(k, code, sum(acts), n)
    case.sample("k=%d n=%d code=%d" % (k, n, code))


def refusals(case):
    rng = case.rng
    n = rng.randint(1, 6)
    acts = [rng.randrange(2) for _ in range(n)]
    top = 2 ** 2 ** n
    rule = rng.choice([top, top + 1, top * 2 + rng.getrandbits(10)])
    for f in (rules.nks_ca_rule(rule), rules.binary_ca_rule(rule)):
        case.raises(lambda: f(ctx(acts)), "too-large-refused", "binary rule %d of %r" % (rule, acts))
    k = rng.randint(2, 20)
    top = k ** (n * (k - 1) + 1)
    code = rng.choice([top, top + 1, top * k])
    acts = [rng.randrange(k) for _ in range(n)]
    case.raises(lambda: rules.totalistic_ca(k, code)(ctx(acts)), "too-large-refused", "totalistic code %d of %r, k=%d" % (code, acts, k))
    case.event("refusals", 3)
    case.state(n, rule, k, code)


def evolve_binary(case):
    rng = case.rng
    r = rng.choice([1, 1, 1, 2, 3])
    n = rng.randint(2 * r + 1, 40)
    m = 2 * r + 1
    rule = rng.randrange(256) if r == 1 else rng.getrandbits(2 ** m)
    nks = rng.random() < 0.6
    f = rules.nks_ca_rule(rule) if nks else rules.binary_ca_rule(rule)
    ref = ref_nks if nks else ref_lex
    x = [rng.randint(0, 1) for _ in range(n)]
    T = gen.steps(rng, 1, 25)
    traj = ntm.evolve(ntm.topology.cellular_automaton(n, r), initial_conditions=x, activity_rule=f, timesteps=T + 1,
                      memoize=rng.random() < 0.3)
    for t in range(1, T + 1):
        x = [ref(rule, [x[(c + d) % n] for d in range(-r, r + 1)]) for c in range(n)]
        case.event("cells", n)
        case.eq([traj[t].activities[c] for c in range(n)], x, "evolution", "rule %d nks=%s r=%d n=%d step %d" % (rule, nks, r, n, t))
    case.state(rule, r, n, T)


def evolve_totalistic(case):
    rng = case.rng
    k = rng.choice([2, 3, 4, 5])
    if rng.random() < 0.5:
        r = rng.choice([1, 2])
        n = rng.randint(2 * r + 1, 30)
        net = ntm.topology.cellular_automaton(n, r)
        nb = [[(c + d) % n for d in range(-r, r + 1)] for c in range(n)]
    else:
        rows, cols = rng.randint(3, 6), rng.randint(3, 6)
        kind = rng.choice(["Moore", "von Neumann"])
        net = ntm.topology.cellular_automaton2d(rows, cols, 1, kind)
        pts = [(a, b) for a in (-1, 0, 1) for b in (-1, 0, 1) if kind == "Moore" or abs(a) + abs(b) <= 1]
        n = rows * cols
        nb = [[(c // cols + a) % rows * cols + (c % cols + b) % cols for a, b in pts] for c in range(n)]
    m = len(nb[0])
    code = rng.randrange(k ** (m * (k - 1) + 1))
    x = [rng.randrange(k) for _ in range(n)]
    T = gen.steps(rng, 1, 8)
    traj = ntm.evolve(net, initial_conditions=x, activity_rule=rules.totalistic_ca(k, code), timesteps=T + 1,
                      memoize=rng.random() < 0.3)
    for t in range(1, T + 1):
        x = [code // k ** sum(x[i] for i in nb[c]) % k for c in range(n)]
        case.event("cells", n)
        case.eq([traj[t].activities[c] for c in range(n)], x, "evolution", "k=%d code %d step %d" % (k, code, t))
    case.state(k, code, n, T)


SECTIONS = [Section("elementary_all", elementary_all, 256, 256, exhaustive=True), Section("binary", binary, 300, 8000),
            Section("bits", bits, 300, 5000), Section("totalistic", totalistic, 300, 8000), Section("refusals", refusals, 100, 2000),
            Section("evolve_binary", evolve_binary, 250, 6000), Section("evolve_totalistic", evolve_totalistic, 120, 3000)]
