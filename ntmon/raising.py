"""Callbacks that raise: the exception arrives as it is, nothing is invoked again, and everything up to it was as usual."""
import random

import numpy as np

from . import evogen
from .core import Violation


class Mine(Exception):
    pass


class MineBase(BaseException):
    pass


KINDS = [RuntimeError, KeyError, ValueError, IndexError, TypeError, AttributeError, ZeroDivisionError, AssertionError, OverflowError,
         LookupError, FloatingPointError, NotImplementedError, UnicodeError, OSError, EOFError, RecursionError, MemoryError, Mine, MineBase,
         KeyboardInterrupt]


def fresh(case):
    """rules may draw random numbers (ties of the majority rule)"""
    random.seed(case.idx)
    np.random.seed(case.idx)


def section(kind, attr):
    """kind: of the monitor's events; attr: of Evo, the callback that raises"""
    need = {"act": {}, "topo": {"topo": True}, "pert": {"pert": True}, "inp": {"inp": True}}[kind]

    def f(case):
        rng = case.rng
        state = rng.getstate()
        usual = evogen.evolution(case, **need)
        if attr == "input" and not callable(usual.input):
            return
        fresh(case)
        usual.run()
        after = rng.getstate()
        mine = [i for i, e in enumerate(usual.mon.ev) if e["k"] == kind]
        if not mine:
            return
        rng.setstate(state)
        evo = evogen.evolution(case, **need)
        rng.setstate(after)
        nth = rng.randrange(len(mine)) if rng.random() < 0.7 else rng.choice([0, len(mine) - 1])
        exc = rng.choice(KINDS)("raised on purpose")
        calls = [0]
        inner = getattr(evo, attr)

        def raising(*a):
            calls[0] += 1
            if calls[0] == nth + 1:
                raise exc
            return inner(*a)
        setattr(evo, attr, raising)
        got = None
        fresh(case)
        try:
            evo.run()
        except Violation:
            raise
        except BaseException as e:
            got = e
        case.check(got is exc, "exception-passed-on", lambda: "%s call %d raised %r, evolve gave %r" % (attr, nth + 1, exc, got))
        case.eq(calls[0], nth + 1, "not-invoked-again", "%s calls, the %dth of which raised %r" % (attr, nth + 1, exc))
        case.check(list(map(repr, evo.mon.ev)) == list(map(repr, usual.mon.ev[:mine[nth]])), "usual-until-then",
                   lambda: "what the callbacks saw and returned before the exception differs from the usual run: %d events, %d expected: %s" %
                   (len(evo.mon.ev), mine[nth], [(a, b) for a, b in zip(evo.mon.ev, usual.mon.ev) if repr(a) != repr(b)][:1]))
        case.event("exceptions")
        case.state(evo.describe, kind, nth, type(exc).__name__)
    return f
