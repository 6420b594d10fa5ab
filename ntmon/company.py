"""others of the same kind, made and run at any moment of a machine's life; what they do must not show"""
import random

import numpy as np

from .checks.c34 import MACHINES

KINDS = {name: (make, run) for name, make, run in MACHINES}


def other(case, kind):
    """one more machine of this kind, made from other arguments, and run; draws made by it are not missed"""
    make, run = KINDS[kind]
    was = random.getstate(), np.random.get_state()
    try:
        run(make(random.Random(case.rng.getrandbits(40))))
    except Exception:       # what is refused or fails is judged elsewhere
        pass
    finally:
        random.setstate(was[0])
        np.random.set_state(was[1])
    case.event("others")


def amid(case, kind, rule, chance=0.5):
    """the machine is made; the rule to run it by, between whose calls others may come and go"""
    rng = case.rng
    if rng.random() >= chance:
        return rule
    if rng.random() < 0.5:
        other(case, kind)
    left = [rng.choice([0, 1, 2])]

    def among(ctx):
        if left[0] and rng.random() < 0.1:
            left[0] -= 1
            other(case, kind)
        return rule(ctx)
    return among
