import numpy as np

import netomaton as ntm
from netomaton import HeadCentricTuringMachine as Head
from netomaton import TapeCentricTuringMachine as Tape
from netomaton import TuringMachine as TM

from .. import gen
from ..company import amid
from ..core import Section, Violation

PROP = "C22"
RULE = ("random machines (2 to 5 head states, 1 to 4 symbols of any type, all directions, complete or partial tables), random "
        "tapes and positions, run in both models against a reference machine on a circular tape; distinct by machine and run")
NEED = {"both": ["steps", "wraps"], "halting": ["halts"], "undefined": ["refusals"], "again": ["again", "broken-off"]}
ASSUMPTIONS = ["the initial head state is not the terminating state"]

SYMBOLS = [[0, 1], [0, 1, 2], ["a", "b", "_"], [" ", "x"], ["one", "two", "three"], [(0, 1), (1, 0)], ["", "ab"], [0.5, 1.5],
           [True, False], [None, 0, 1], [-1, 10, 7, 3]]
STATES = [[0, 1], [1, 2, 3], ["q0", "q1", "q2"], ["up", "down"], [(0, "x"), (1, "y")], ["A", "B", "C", "HALT", "D"]]


def machine(rng, states, symbols, drop=0.0):
    table = {}
    for s in states:
        row = {}
        for a in symbols:
            if rng.random() >= drop:
                row[a] = rng.choice([list, tuple])((rng.choice(states), rng.choice(symbols), rng.choice([TM.LEFT, TM.STAY, TM.RIGHT])))
        if row or rng.random() < 0.5:
            table[s] = row
    return table


def reference(table, tape, state, pos, steps, halt=None):
    """[(state, pos, tape)], and whether it stopped by itself, or on an undefined transition"""
    hist = [(state, pos, list(tape))]
    wraps = 0
    while len(hist) <= steps:
        s, p, tp = hist[-1]
        if s not in table or tp[p] not in table[s]:
            return hist, "undefined", wraps
        s2, w, d = table[s][tp[p]]
        tp = list(tp)
        tp[p] = w
        q = p + {TM.LEFT: -1, TM.STAY: 0, TM.RIGHT: 1}[d]
        wraps += not 0 <= q < len(tp)
        hist.append((s2, q % len(tp), tp))
        if halt is not None and s2 == halt:
            return hist, "halt", wraps
    return hist, "limit", wraps


def annotations(hist, n):
    return [[str(s) if i == p else None for i in range(n)] for s, p, _ in hist]


def run_tape(case, table, tape, state, pos, T, m=None):
    m = m or Tape(n=len(tape), rule_table=table, initial_head_state=state, initial_head_position=pos)
    return m, ntm.evolve(m.network, initial_conditions=list(tape), activity_rule=amid(case, "TapeCentricTuringMachine", m.activity_rule), timesteps=T + 1)


def run_head(case, table, tape, state, pos, halt=None, limit=None, m=None):
    m = m or Head(tape=tape, rule_table=table, initial_head_state=state, initial_head_position=pos, terminating_state=halt,
             max_timesteps=limit)

    def feed(t, a, n):
        if t > 400 + (limit or 0):
            raise Violation("stops", "the machine goes on after %d steps" % (400 + (limit or 0)))
        return m.input_function(t, a, n)
    return m, ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=amid(case, "HeadCentricTuringMachine", m.activity_rule),
                         input=feed)


def judge_tape(case, m, traj, hist, n, what):
    case.eq([[s.activities[i] for i in range(n)] for s in traj], [tp for _, _, tp in hist], "tape-centred-tapes", what)
    case.eq(m.head_activities(traj), annotations(hist, n), "tape-centred-heads", what)


def judge_head(case, m, traj, hist, n, what):
    case.eq([s.activities for s in traj], [{0: (s, p)} for s, p, _ in hist], "head-centred-heads", what)
    tapes, heads = m.activities_for_plotting(traj)
    case.eq([list(t) for t in tapes], [tp for _, _, tp in hist], "head-centred-tapes", what)
    case.eq(heads, annotations(hist, n), "head-centred-annotations", what)


def setup(case, drop=0.0, shortest=3):
    rng = case.rng
    states, symbols = rng.choice(STATES), rng.choice(SYMBOLS)
    n = rng.randint(3, 12)
    if rng.random() < 0.05:
        n = rng.randint(20, 80)
    elif shortest < 3 and rng.random() < 0.2:
        n = rng.randint(shortest, 2)
    tape = [rng.choice(symbols) for _ in range(n)]
    return states, symbols, machine(rng, states, symbols, drop), tape, rng.choice(states), rng.choice([0, n - 1, rng.randrange(n)])


def both(case):
    rng = case.rng
    states, symbols, table, tape, s0, p0 = setup(case)
    T = gen.steps(rng, 0, 60 if case.deep else 25, 200)
    n = len(tape)
    if case.idx % 100 == 99:
        T = rng.randint(300, 1500)
    hist, why, wraps = reference(table, tape, s0, p0, T)
    what = "machine %r tape %r head %r at %d, %d steps" % (table, tape, s0, p0, T)
    keep = list(tape)
    m, traj = run_tape(case, table, tape, s0, p0, T)
    judge_tape(case, m, traj, hist, n, what)
    arg = tape
    m, traj = run_head(case, table, arg, s0, p0, limit=T + 1)
    judge_head(case, m, traj, hist, n, what)
    case.eq(tape, keep, "tape-kept", "the tape handed in")
    case.event("steps", T)
    case.event("wraps", wraps)
    case.state(repr(table), repr(tape), s0, p0, T)
    case.sample("%d states %d symbols tape of %d, %d steps, final %r" % (len(states), len(symbols), n, T, hist[-1][:2]))


def halting(case):
    rng = case.rng
    states, symbols, table, tape, s0, p0 = setup(case, shortest=1)     # the head-centred machine needs no three cells
    others = [s for s in states if s != s0]
    halt = rng.choice(others)
    limit = rng.choice([None, rng.randint(1, 30)])
    if rng.random() < 0.3:      # halts at once
        table[s0][tape[p0]] = (halt, rng.choice(symbols), rng.choice([0, 1, 2]))
    hist, why, wraps = reference(table, tape, s0, p0, 300 if limit is None else limit - 1, halt)
    if why == "limit" and limit is None:
        limit = 301
    what = "machine %r tape %r head %r at %d, halts on %r, limit %r" % (table, tape, s0, p0, halt, limit)
    m, traj = run_head(case, table, tape, s0, p0, halt, limit)
    judge_head(case, m, traj, hist, len(tape), what)
    case.event("halts" if why == "halt" else "limits")
    if why == "halt" and len(tape) >= 3:
        # the tape-centred machine, told to make as many steps, agrees
        m, traj = run_tape(case, table, tape, s0, p0, len(hist) - 1)
        judge_tape(case, m, traj, hist, len(tape), what)
    case.state(repr(table), repr(tape), s0, p0, halt, limit)


class Stop(Exception):
    pass


def again(case):
    """one machine, run several times: on other tapes, for more steps or fewer, and after a run that was broken off"""
    rng = case.rng
    states, symbols, table, tape, s0, p0 = setup(case)
    n = len(tape)
    m = Tape(n=n, rule_table=table, initial_head_state=s0, initial_head_position=p0)
    for k in range(rng.randint(2, 4)):
        if rng.random() < 0.6:
            tape = [rng.choice(symbols) for _ in range(n)]
        T = rng.choice([0, 1, rng.randint(2, 30)])
        hist, why, wraps = reference(table, tape, s0, p0, T)
        what = "run %d of machine %r tape %r head %r at %d, %d steps" % (k + 1, table, tape, s0, p0, T)
        if rng.random() < 0.25 and T:
            left = [rng.randrange(n * T)]

            def broken(ctx):
                left[0] -= 1
                if left[0] < 0:
                    raise Stop()
                return m.activity_rule(ctx)
            try:
                ntm.evolve(m.network, initial_conditions=list(tape), activity_rule=broken, timesteps=T + 1)
            except Stop:
                case.event("broken-off")
            continue
        _, traj = run_tape(case, table, tape, s0, p0, T, m)
        judge_tape(case, m, traj, hist, n, what)
        case.event("again", k > 0)
    halt = rng.choice([None] + [s for s in states if s != s0])
    limit = rng.randint(1, 30)
    hist, why, wraps = reference(table, tape, s0, p0, limit - 1, halt)
    what = "machine %r tape %r head %r at %d, halts on %r, limit %r, run " % (table, tape, s0, p0, halt, limit)
    m = Head(tape=tape, rule_table=table, initial_head_state=s0, initial_head_position=p0, terminating_state=halt, max_timesteps=limit)
    shown = []
    for k in range(rng.randint(2, 3)):
        if rng.random() < 0.3:
            at = rng.randint(1, 30)
            ntm.evolve(m.network, initial_conditions=m.initial_conditions, activity_rule=m.activity_rule,
                       input=lambda t, a, net: None if t > at else m.input_function(t, a, net))
            case.event("broken-off")
            continue
        _, traj = run_head(case, table, tape, s0, p0, halt, limit, m)
        judge_head(case, m, traj, hist, n, what + str(k + 1))
        shown.append((m.activities_for_plotting(traj), [tp for _, _, tp in hist]))
        case.event("again", k > 0)
    for (tapes, heads), want in shown:
        case.eq([list(t) for t in tapes], want, "head-centred-tapes", "what was shown after an earlier run")
    case.state(repr(table), repr(tape), s0, p0, halt, limit)


def undefined(case):
    rng = case.rng
    states, symbols, table, tape, s0, p0 = setup(case, drop=0.4)
    T = 40
    hist, why, wraps = reference(table, tape, s0, p0, T)
    what = "machine %r tape %r head %r at %d" % (table, tape, s0, p0)
    if why == "undefined":
        k = len(hist) - 1
        case.raises(lambda: run_tape(case, table, tape, s0, p0, k + 1), "undefined-refused", what)
        case.raises(lambda: run_head(case, table, tape, s0, p0, limit=k + 2), "undefined-refused", what)
        case.event("refusals")
        # a direction that does not exist is no transition either
        key = (hist[-1][0], hist[-1][2][hist[-1][1]])
        odd = {s: dict(row) for s, row in table.items()}
        odd.setdefault(key[0], {})[key[1]] = (rng.choice(states), rng.choice(symbols), rng.choice([3, 7, "LEFT", None]))
        case.raises(lambda: run_tape(case, odd, tape, s0, p0, k + 1), "undefined-refused", "unknown direction: " + what)
        case.raises(lambda: run_head(case, odd, tape, s0, p0, limit=k + 2), "undefined-refused", "unknown direction: " + what)
        T = k
    m, traj = run_tape(case, table, tape, s0, p0, T)
    judge_tape(case, m, traj, hist, len(tape), what)
    m, traj = run_head(case, table, tape, s0, p0, limit=T + 1)
    judge_head(case, m, traj, hist, len(tape), what)
    case.raises(lambda: Head(tape=tape, rule_table=table, initial_head_state=s0, initial_head_position=p0), "limit-required", what)
    case.state(repr(table), repr(tape), s0, p0)


SECTIONS = [Section("both", both, 600, 12000), Section("halting", halting, 600, 12000), Section("undefined", undefined, 300, 6000),
            Section("again", again, 500, 10000)]
