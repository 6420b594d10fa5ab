import cmath
import math

import numpy as np

import netomaton as ntm

from .. import draw
from ..core import Section

PROP = "C31"
RULE = ("random programs of forward, rotate, push and pop (up to 300 instructions, nested, any real distances and angles) and random "
        "L-systems with random bindings, against a turtle on the complex plane; distinct by program")
NEED = {"walks": ["forwards", "rotations", "pushes", "pops"], "renders": ["instructions"], "drawings": ["segments", "frames"],
        "fractals": ["instructions"], "deep": ["stacked"], "together": ["steps"], "crowded": ["segments"]}


class Ref:
    """heading as a unit vector, position as a complex number"""
    def __init__(self, x=0, y=0, o=0):
        self.z, self.o, self.stack, self.segs, self.len = complex(x, y), o, [], [], abs(complex(x, y))
        self.read = []      # what the turtle said of itself when it was told to push

    def forward(self, d=1):
        a = self.z
        self.z += d * 1j * cmath.exp(-1j * math.radians(self.o))
        self.segs.append((a, self.z))
        self.len += abs(d)

    def rotate(self, deg):
        self.o += deg

    def push(self):
        self.stack.append((self.z, self.o))

    def pop(self):
        self.z, self.o = self.stack.pop()


def angle_diff(a, b):
    return abs((a - b + 180) % 360 - 180)


def judge_pose(case, t, ref, what):
    tol = 1e-9 * (1 + ref.len) * (1 + abs(ref.o) / 360)
    case.check(abs(complex(t.x, t.y) - ref.z) <= tol, "position", "%s: (%r, %r), expected %r", what, t.x, t.y, ref.z)
    case.check(angle_diff(t.orientation, ref.o) <= 1e-7 * (1 + abs(ref.o)), "heading", "%s: %r, expected %r", what, t.orientation, ref.o)
    case.check(tuple(t.pos) == (t.x, t.y), "pos", "%s: %r", what, t.pos)
    case.check(abs(t.abs - abs(ref.z)) <= tol, "abs", "%s: %r, expected %r", what, t.abs, abs(ref.z))


def judge_path(case, t, ref, what):
    case.eq(len(t.trajectory), len(ref.segs), "one-segment-per-move", what)
    tol = 1e-8 * (1 + ref.len)
    for k, ((xs, ys), (a, b)) in enumerate(zip(t.trajectory, ref.segs)):
        case.check(len(xs) == 2 and len(ys) == 2 and abs(complex(xs[0], ys[0]) - a) <= tol and abs(complex(xs[1], ys[1]) - b) <= tol,
                   "segment", "%s: segment %d is %r %r, expected %r to %r", what, k, xs, ys, a, b)


def judge_last(case, t, what):
    """the segment just drawn ends where the turtle says it is"""
    xs, ys = t.trajectory[-1]
    case.check(abs(complex(xs[1], ys[1]) - complex(t.x, t.y)) <= 1e-12 * (1 + t.abs), "segment", "%s: ends at %r, %r, the turtle is at %r", what, xs[1], ys[1], t.pos)


def distance(rng):
    return rng.choice([1, 0, 2.5, -1, 10, 1e-3, 1e4, rng.uniform(-5, 5)])


def degrees(rng):
    return rng.choice([0, 90, -90, 45, 60, -120, 25, 180, 360, -720, 400, rng.uniform(-360, 360), 1e-3] if rng.random() < 0.97 else [3599, -3598.5, 36000.5, -36030.25, 1e6 + 0.125, 7777.7])


def walks(case):
    rng = case.rng
    kw = {}
    if rng.random() < 0.6:
        kw = {"start_x": rng.choice([0, 3, -2.5]), "start_y": rng.choice([0, 7, -0.25]), "start_orientation": rng.choice([0, 90, -30, 25, 450])}
    t, ref = ntm.Turtle(**kw), Ref(kw.get("start_x", 0), kw.get("start_y", 0), kw.get("start_orientation", 0))
    prog = []
    for _ in range(rng.choice([3, 20, 60, 300])):
        r = rng.random()
        if r < 0.4:
            d = distance(rng)
            if rng.random() < 0.15:
                t.forward(), ref.forward()
                prog.append("f")
            else:
                t.forward(d), ref.forward(d)
                prog.append(("f", d))
            case.event("forwards")
            judge_last(case, t, "%r after %r" % (kw, prog[-12:]))
        elif r < 0.7:
            d = degrees(rng)
            for _ in range(rng.choice([1] * 20 + [30] + [rng.randint(300, 500)])):       # turned round and round
                t.rotate(d), ref.rotate(d)
            prog.append(("r", d))
            case.event("rotations")
        elif r < 0.85:
            ref.read.append((t.x, t.y, t.orientation))
            t.push(), ref.push()
            prog.append("push")
            case.event("pushes")
        elif ref.stack:
            t.pop(), ref.pop()
            case.eq((t.x, t.y, t.orientation), ref.read.pop(), "as-pushed", "%r after %r, pop" % (kw, prog[-12:]))
            prog.append("pop")
            case.event("pops")
        judge_pose(case, t, ref, "%r after %r" % (kw, prog[-12:]))
    judge_path(case, t, ref, "%r %r" % (kw, prog[:40]))
    while ref.stack:
        t.pop(), ref.pop()
        judge_pose(case, t, ref, "%r unwinding %r" % (kw, prog[-12:]))
    case.raises(t.pop, "pop-of-nothing-refused", "empty stack")
    other = ntm.Turtle()
    case.eq((other.pos, other.orientation, other.trajectory), ((0, 0), 0, []), "turtles-are-separate", "a new turtle")
    case.state(repr(kw), repr(prog))
    case.sample(repr(prog)[:200])


def deep(case):
    """hundreds of saved positions on top of one another"""
    rng = case.rng
    t, ref = ntm.Turtle(), Ref()
    for _ in range(rng.randint(600, 1500)):
        for _ in range(rng.choice([0, 0, 1, 3])):
            d, a = rng.uniform(-2, 2), rng.uniform(-90, 90)
            t.forward(d), ref.forward(d)
            judge_last(case, t, "a deep stack")
            t.rotate(a), ref.rotate(a)
        t.push(), ref.push()
        if rng.random() < 0.05:
            t.pop(), ref.pop()
    case.event("stacked", len(ref.stack))
    judge_path(case, t, ref, "a deep stack")
    n = len(ref.stack)
    while ref.stack:
        t.pop(), ref.pop()
        judge_pose(case, t, ref, "unwinding %d saved positions, %d left" % (n, len(ref.stack)))
    case.raises(t.pop, "pop-of-nothing-refused", "empty stack")
    case.state(n, repr(t.trajectory[-1:]))


def together(case):
    """some turtles at work at once: each goes its own way"""
    rng = case.rng
    turtles = []
    for step in range(rng.choice([10, 40, 80])):
        if not turtles or (len(turtles) < 4 and rng.random() < 0.1):
            x, y, o = rng.choice([0, 3, -2.5]), rng.choice([0, 7, -0.25]), rng.choice([0, 90, -30])
            turtles.append((ntm.Turtle(x, y, o), Ref(x, y, o)) if rng.random() < 0.6 else (ntm.Turtle(), Ref()))
        k = rng.randrange(len(turtles))
        t, ref = turtles[k]
        r = rng.random()
        if r < 0.35:
            d = distance(rng)
            t.forward(d), ref.forward(d)
        elif r < 0.55:
            d = degrees(rng)
            t.rotate(d), ref.rotate(d)
        elif r < 0.8:
            t.push(), ref.push()
        elif ref.stack:
            t.pop(), ref.pop()
        else:
            case.raises(t.pop, "pop-of-nothing-refused", "empty stack of turtle %d of %d" % (k, len(turtles)))
        for j, (t, ref) in enumerate(turtles):
            judge_pose(case, t, ref, "turtle %d of %d after step %d of turtle %d" % (j, len(turtles), step, k))
        case.event("steps")
    for j, (t, ref) in enumerate(turtles):
        judge_path(case, t, ref, "turtle %d of %d" % (j, len(turtles)))
        while ref.stack:
            t.pop(), ref.pop()
            judge_pose(case, t, ref, "turtle %d of %d unwinding" % (j, len(turtles)))
        case.raises(t.pop, "pop-of-nothing-refused", "turtle %d of %d" % (j, len(turtles)))
    case.state([ref.z for _, ref in turtles])


ALPHABET = "FGXY+-[]ab"


def lstate(rng):
    """a generation of a random L-system and its string"""
    axiom = "".join(rng.choice("FXab") for _ in range(rng.randint(1, 4)))
    rules = {s: "".join(rng.choice(ALPHABET) for _ in range(rng.randint(0, 5))) for s in ALPHABET}
    rules.update({c: c for c in rng.sample("+-[]", 2)})
    s, T = axiom, rng.randint(1, 4)
    gens = [s]
    for _ in range(T):
        s = "".join(rules[c] for c in s)
        gens.append(s)
        if len(s) > 400:
            break
    system = ntm.SubstitutionSystem(axiom, dict(rules))
    traj = ntm.evolve(system.network, initial_conditions=system.initial_conditions, activity_rule=system.activity_rule, timesteps=len(gens))
    k = rng.choice([-1, rng.randrange(len(gens))])
    return traj[k], gens[k]


class Log:
    def __init__(self):
        self.calls = []

    def plot(self, *a, **k):
        self.calls.append(("PLOT", a, tuple(sorted(k.items()))))

    def animate(self, *a, **k):
        self.calls.append(("ANIMATE", a, tuple(sorted(k.items()))))


def renders(case):
    rng = case.rng
    state, s = lstate(rng)
    log = Log()

    def fn(name):
        def f(*a):
            log.calls.append((name,) + a)
        return f
    bindings, expect = {}, {}
    for c in ALPHABET:
        ins, exp = [], []
        for j in range(rng.choice([0, 1, 1, 2, 4])):
            name = "%s%d" % (c, j)
            args = tuple(rng.choice([1, -2.5, "x", None, (1, 2)]) for _ in range(rng.choice([0, 0, 1, 2])))
            if args or rng.random() < 0.3:
                ins.append((fn(name),) + args)
            else:
                ins.append(fn(name))
            exp.append((name,) + args)
        if ins and rng.random() < 0.3:      # some instruction given again
            j = rng.randrange(len(ins))
            ins.append(ins[j])
            exp.append(exp[j])
        if len(ins) == 1 and rng.random() < 0.6:
            ins = ins[0]
        bindings[c], expect[c] = ins, exp
    want = [e for c in s for e in expect[c]]
    kw = rng.choice([{}, {"marker": "o"}, {"anything": 3}])
    which = rng.choice(["plot", "animate"])
    getattr(ntm, which + "_L_system")(state=state, turtle=log, bindings=bindings, **kw)
    case.eq(log.calls, want + [(which.upper(), (), tuple(sorted(kw.items())))], "instructions-in-order", "rendering %r" % s)
    case.event("instructions", len(want))
    case.state(s, repr(expect))
    if s:
        missing = dict(bindings)
        del missing[s[-1]]
        case.raises(lambda: ntm.plot_L_system(state, Log(), missing), "unbound-refused", "no binding for %r" % s[-1])


def fractals(case):
    """rendering with a turtle: the string interpreted by the reference turtle gives the same drawing"""
    rng = case.rng
    axiom = "X"
    rules = {"X": rng.choice(["F+[[X]-X]-F[-FX]+X", "F[+X]F[-X]+X", "F[+X][-X]FX", "[F]X+X"]), "F": rng.choice(["FF", "F+F-F-F+F", "F"])}
    T = rng.randint(1, 4)
    s = axiom
    for _ in range(T):
        s = "".join({**rules, "+": "+", "-": "-", "[": "[", "]": "]"}[c] for c in s)
    system = ntm.SubstitutionSystem(axiom, dict(rules), constants=["+", "-", "[", "]"])
    traj = ntm.evolve(system.network, initial_conditions=system.initial_conditions, activity_rule=system.activity_rule, timesteps=T + 1)
    ang, d, o = rng.choice([25, 90, 60, 45.5]), rng.choice([1, 2.5]), rng.choice([0, 25])
    t, ref = ntm.Turtle(start_orientation=o), Ref(0, 0, o)

    def bind(q):
        return {"F": (q.forward, d), "X": [], "+": (q.rotate, ang), "-": [(q.rotate, -ang)], "[": q.push, "]": [q.pop]}
    for c in s:
        ins = bind(ref)[c]
        for i in (ins if isinstance(ins, list) else [ins]):
            i() if callable(i) else i[0](*i[1:])
            case.event("instructions")
    with draw.watching():
        if len(ref.segs) < 60:
            ntm.plot_L_system(traj[-1], t, bind(t))
        else:
            q = Log()
            ntm.plot_L_system(traj[-1], q, bind(t))
    judge_path(case, t, ref, "L-system %r after %d steps" % (rules, T))
    judge_pose(case, t, ref, "L-system %r after %d steps" % (rules, T))
    case.state(s, ang, d, o)


def drawings(case):
    """what is plotted and animated is the recorded path"""
    rng = case.rng
    t = ntm.Turtle()
    for _ in range(rng.randint(1, 15)):
        t.rotate(degrees(rng))
        t.forward(rng.choice([1, 2.5, 10]))
        if rng.random() < 0.2:
            t.push()
            t.forward(1)
            t.pop()
    want = [([float(a) for a in xs], [float(b) for b in ys]) for xs, ys in t.trajectory]
    with draw.watching() as rec:
        t.plot(marker=rng.choice(["", "o"]))
        case.eq(rec.shows, 1, "shown", "plot")
        axs = [ax for f in rec.figs() for ax in f.axes]
        case.eq([l for ax in axs for l in draw.lines(ax)], want, "plotted-path", "turtle of %d segments" % len(want))
        for ax in axs:
            case.eq(float(ax.get_aspect() if ax.get_aspect() != "equal" else 1), 1.0, "true-to-scale", "aspect of a plot")
        case.event("segments", len(want))
    with draw.watching() as rec:
        again = rng.random() < 0.3
        t.animate(repeat=again)
        case.eq((rec.shows, len(rec.animations), rec.saves), (1, 1, []), "animated", "animate")
        ani = rec.animations[0]
        fr = draw.frames(ani, 4 * len(want))
        case.eq(len(fr), len(want), "frames", "one frame per segment")
        ax = rec.figs()[0].axes[0]
        n0 = len(ax.lines)
        got = []
        for k, f in enumerate(fr[:-1]):
            ani.rec_func(f)
            got.append(draw.lines(ax)[n0:])
            case.eq(got[-1][-1:], want[k:k + 1], "frame-draws-its-segment", "frame %d" % k)
            case.event("frames")
        in_view(case, ax, want)
        ani.rec_func(fr[-1])
        if again:   # starts over: nothing of the last round is left
            case.eq(draw.lines(ax), [], "starts-over", "repeated animation")
            in_view(case, ax, want)
            for k, f in enumerate(fr[:-1]):
                ani.rec_func(f)
            case.eq(draw.lines(ax), want[:-1], "starts-over", "second round of a repeated animation")
        else:
            case.eq(draw.lines(ax)[-1:], want[-1:], "frame-draws-its-segment", "last frame")
            case.eq(draw.lines(ax)[n0:], want, "animated-path", "turtle of %d segments" % len(want))
        case.eq(float(ax.get_aspect() if ax.get_aspect() != "equal" else 1), 1.0, "true-to-scale", "aspect of an animation")
    if rng.random() < 0.3:
        with draw.watching() as rec:
            t.animate(save=True)
            case.eq(len(rec.saves), 1, "saved-when-asked", "animate")
    case.state(repr(want))


def in_view(case, ax, want):
    (x0, x1), (y0, y1) = ax.get_xlim(), ax.get_ylim()
    for xs, ys in want:
        case.check(all(min(x0, x1) - 1e-9 <= x <= max(x0, x1) + 1e-9 for x in xs) and
                       all(min(y0, y1) - 1e-9 <= y <= max(y0, y1) + 1e-9 for y in ys), "in-view", "%r outside %r %r", (xs, ys), (x0, x1), (y0, y1))


def crowded(case):
    """a path of thousands of segments is drawn in full"""
    rng = case.rng
    t, ref = ntm.Turtle(), Ref()
    for _ in range(rng.choice([1100, 5200])):
        d, a = rng.choice([1, 2]), rng.choice([0, 90, 33.5])
        t.rotate(a), ref.rotate(a)
        t.forward(d), ref.forward(d)
    judge_pose(case, t, ref, "after %d moves" % len(ref.segs))
    judge_path(case, t, ref, "%d moves" % len(ref.segs))
    want = [([float(a) for a in xs], [float(b) for b in ys]) for xs, ys in t.trajectory]
    with draw.watching() as rec:
        t.plot()
        got = [l for f in rec.figs() for ax in f.axes for l in draw.lines(ax)]
        case.eq(len(got), len(want), "plotted-path", "turtle of %d segments" % len(want))
        case.check(got == want, "plotted-path", "turtle of %d segments", len(want))
    case.event("segments", len(want))
    case.state(ref.z)


SECTIONS = [Section("deep", deep, 6, 100), Section("crowded", crowded, 2, 20), Section("together", together, 150, 3000), Section("walks", walks, 400, 8000), Section("renders", renders, 300, 6000), Section("fractals", fractals, 40, 400),
            Section("drawings", drawings, 50, 400)]
