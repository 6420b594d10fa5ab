import netomaton as ntm
import numpy as np

from .. import gen
from ..company import amid
from ..core import Section
from ..model import h

PROP = "C21"
RULE = ("sandpiles of random shapes and loads, with and without added grains, compared with an independent toppling step and "
        "checked for conservation at every step; distinct by state")
NEED = {"open": ["topplings", "steps", "narrow"], "closed": ["topplings", "steps"], "perturbed": ["steps"]}


def topple(rows, cols, x, closed):
    new = []
    for a in range(rows):
        for b in range(cols):
            c = a * cols + b
            if closed and (a in (0, rows - 1) or b in (0, cols - 1)):
                new.append(0)
                continue
            v = x[c] - (4 if x[c] >= 4 else 0)
            for i in ((a - 1) % rows * cols + b, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols, a * cols + (b + 1) % cols):
                if x[i] >= 4:
                    v += 1
            new.append(v)
    return new


def setup(case):
    rng = case.rng
    rows, cols = rng.randint(3, 9), rng.randint(3, 9)
    if rng.random() < 0.15:     # narrower than a neighbourhood: the same cell is on two sides, or the cell itself is
        rows, cols = rng.choice([(1, rng.randint(9, 14)), (2, rng.randint(5, 8))])
        if rng.random() < 0.5:
            rows, cols = cols, rows
        case.event("narrow")
    top = rng.choice([3, 4, 5, 8, 40])
    x = [rng.randint(0, top) for _ in range(rows * cols)]
    if rng.random() < 0.3:
        x = [0] * (rows * cols)
        x[rng.randrange(rows * cols)] = rng.choice([4, 100, 1000])
    if rng.random() < 0.15:     # beyond what fits in a machine word or in a floating-point number
        for c in rng.sample(range(rows * cols), rng.randint(1, rows * cols)):
            x[c] = rng.choice([2 ** 15, 2 ** 16, 2 ** 31 - 2, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62]) + rng.randint(0, 9)
    return rows, cols, x


def go(case, closed):
    rng = case.rng
    rows, cols, x = setup(case)
    pile = ntm.Sandpile(rows, cols, closed) if closed is False or rng.random() < 0.5 else ntm.Sandpile(rows, cols)
    T = gen.steps(rng, 1, 20)
    arg = np.array(x) if rng.random() < 0.3 else list(x)
    traj = ntm.evolve(pile.network, initial_conditions=arg, activity_rule=amid(case, "Sandpile", pile.activity_rule), timesteps=T + 1)
    for t in range(1, T + 1):
        prev, x = x, topple(rows, cols, x, closed)
        got = [traj[t].activities[c] for c in range(rows * cols)]
        case.event("topplings", sum(v >= 4 for v in prev))
        case.event("steps")
        case.eq(got, x, "toppling", "%dx%d closed=%s step %d from %r" % (rows, cols, closed, t, prev))
        case.check(all(v >= 0 for v in got), "non-negative", lambda: repr(got))
        if not closed:
            case.eq(sum(got), sum(prev), "conservation", "%dx%d step %d" % (rows, cols, t))
        else:
            border = [c for c in range(rows * cols) if c // cols in (0, rows - 1) or c % cols in (0, cols - 1)]
            case.check(all(got[c] == 0 for c in border), "border-empty", lambda: repr(got))
            inner = lambda i: i not in set(border)
            lost = 0
            for c in range(rows * cols):
                a, b = divmod(c, cols)
                for i in ((a - 1) % rows * cols + b, (a + 1) % rows * cols + b, a * cols + (b - 1) % cols, a * cols + (b + 1) % cols):
                    if inner(c) and prev[c] >= 4 and not inner(i):
                        lost += 1            # a grain leaves over the edge
                    if not inner(c) and prev[c] >= 4 and inner(i):
                        lost -= 1            # only from initial grains on the border
            case.eq(sum(got), sum(v for c, v in enumerate(prev) if inner(c)) - lost, "loses-only-over-border", "step %d" % t)
        case.state(closed, rows, cols, got)
    case.sample("%dx%d closed=%s %r" % (rows, cols, closed, x))


def open_(case):
    go(case, False)


def closed(case):
    go(case, True)


def perturbed(case):
    """grains dropped by a perturbation arrive, and nothing else changes"""
    rng = case.rng
    rows, cols, x = setup(case)
    is_closed = rng.random() < 0.5
    pile = ntm.Sandpile(rows=rows, cols=cols, is_closed_boundary=is_closed)
    salt = rng.getrandbits(30)
    inner = [c for c in range(rows * cols) if not is_closed or (0 < c // cols < rows - 1 and 0 < c % cols < cols - 1)]
    drop = lambda c, t: h(salt, c, t) % 5 if c in inner and h(salt, c, t, 1) % 4 == 0 else 0
    T = gen.steps(rng, 1, 12)
    traj = ntm.evolve(pile.network, initial_conditions=list(x), activity_rule=pile.activity_rule, timesteps=T + 1,
                      perturbation=lambda p: p.node_activity + drop(p.node_label, p.timestep))
    for t in range(1, T + 1):
        prev = x
        x = [v + drop(c, t) for c, v in enumerate(topple(rows, cols, x, is_closed))]
        got = [traj[t].activities[c] for c in range(rows * cols)]
        case.eq(got, x, "toppling", "perturbed %dx%d step %d" % (rows, cols, t))
        if not is_closed:
            case.eq(sum(got), sum(prev) + sum(drop(c, t) for c in range(rows * cols)), "conservation", "perturbed step %d" % t)
        case.event("steps")
        case.state(is_closed, rows, cols, got)


SECTIONS = [Section("open", open_, 300, 6000), Section("closed", closed, 300, 6000), Section("perturbed", perturbed, 200, 4000)]
