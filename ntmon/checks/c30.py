import math

import numpy as np

import netomaton as ntm

from ..core import Section
from ..spoil import spoilt_before

PROP = "C30"
RULE = ("random sizes (1 to 60, shapes up to 12x12), values, types, state counts, randomized counts, empty values and seeds; "
        "distributions over samples of tens of thousands of sites; distinct by call and outcome")
NEED = {"simple": ["one-dimension", "two-dimensions"], "randoms": ["integers", "reals", "padded", "refusals"],
        "distribution": ["integers", "reals"]}

TYPES = [(None, int), (int, int), (np.int32, int), (np.int8, int), (np.int64, int), (float, float), (np.float32, float),
         (complex, complex), (bool, bool), (np.uint8, int)]


def simple(case):
    rng = case.rng
    dt, py = rng.choice(TYPES)
    kw = {} if dt is None else {"dtype": dt}
    val = {int: rng.randint(0, 100), float: rng.choice([0.5, -2.25, 3]), complex: 1 + 2j, bool: True}[py]
    if dt in (None, int, np.int64) and rng.random() < 0.5:
        val = rng.choice([-7, 10 ** 12, 0])
    if rng.random() < 0.25:
        val = 1
    else:
        kw["val"] = val
    n = rng.choice([1, 2, 3, rng.randint(1, 60), rng.randint(60, 3000)])
    x = spoilt_before(case, lambda: ntm.init_simple(n, **kw))
    judge(case, x, [py(val) if i == n // 2 else py(0) for i in range(n)], py, "init_simple(%d, %r)" % (n, kw))
    case.event("one-dimension")
    r, c = rng.choice([(1, 1), (1, 4), (5, 1), (rng.randint(1, 12), rng.randint(1, 12)),
                       rng.choice([(rng.randint(60, 400), rng.randint(1, 6)), (rng.randint(1, 6), rng.randint(60, 400)), (100, 100),
                                   (128, 130)])])
    x = spoilt_before(case, lambda: ntm.init_simple2d(r, c, **kw))
    want = [py(val) if (i, j) == (r // 2, c // 2) else py(0) for i in range(r) for j in range(c)]
    judge(case, x, want, py, "init_simple2d(%d, %d, %r)" % (r, c, kw))
    case.event("two-dimensions")
    case.state(n, r, c, repr(kw))
    case.sample("init_simple2d(%d, %d, %r)" % (r, c, kw))


def judge(case, x, want, py, what):
    case.check(isinstance(x, list), "a-list", "%s: %r", what, type(x))
    case.eq(len(x), len(want), "length", what)
    case.eq(x, want, "values", what)
    case.check(all(type(v) is py for v in x), "type", "%s: %r", what, {type(v) for v in x})


def randoms(case):
    rng = case.rng
    size = rng.choice([0, 1, 2, 3, rng.randint(1, 60), rng.randint(1, 60)]) if rng.random() < 0.96 else rng.randint(60, 3000)
    k = rng.choice([None, 1, 2, 2, 3, 5, 10, 100, 1000, 10 ** 6])
    n = rng.choice([None, 0, size, rng.randint(0, size), rng.randint(0, size)])
    dt, py = rng.choice([t for t in TYPES if t[1] in (int, float)])
    empty = rng.choice([None, 0, 1, 7, 99]) if py is int else rng.choice([None, 0, -1.5, 99.5])
    kw = {}
    if dt in (np.int8, np.uint8, bool):
        k = k and min(k, 100)
    if k is not None:
        kw["k"] = k
    if n is not None or rng.random() < 0.3:
        kw["n_randomized"] = n
    if empty is not None:
        kw["empty_value"] = empty
    if dt is not None:
        kw["dtype"] = dt
    K, E, N = k or 2, empty or 0, size if n is None else n
    what = "init_random(%d, %r)" % (size, kw)
    seed = rng.randrange(2 ** 32)
    np.random.seed(seed)
    x = ntm.init_random(size, **kw)
    x, own = list(x), x
    case.check(isinstance(own, list), "a-list", "%s: %r", what, type(own))
    if own:
        own[:] = ["spoilt"] * len(own)
    case.eq(len(x), size, "length", what)
    case.check(all(type(v) is py for v in x), "type", "%s: %r", what, {type(v) for v in x})
    left = (size - N) // 2
    outside = x[:left] + x[left + N:]
    case.check(len(outside) == size - N and all(v == E for v in outside), "empty-outside", "%s: %r", what, x)
    for v in x[left:left + N]:
        if py is int:
            case.check(0 <= v < K, "within-states", "%s: %r", what, v)
        else:
            case.check(0 <= v <= K - 1, "within-interval", "%s: %r", what, v)
    case.event("integers" if py is int else "reals")
    if N < size:
        case.event("padded")
    np.random.seed(seed)
    case.eq(ntm.init_random(size, **kw), x, "equal-seeds-equal-results", what)
    if N >= 20 and K >= 2:
        case.check(ntm.init_random(size, **kw) != x, "next-one-differs", "%s", what)
    for bad in (-1, size + 1, size + rng.randint(1, 9)):
        kw["n_randomized"] = bad
        case.raises(lambda: ntm.init_random(size, **kw), "count-refused", "%d of %d sites" % (bad, size))
        case.event("refusals")
    case.state(size, repr(kw), repr(x))
    # a centred block for any parity: the two margins differ by at most one site
    size, N = rng.randint(2, 30), rng.randint(1, 30)
    if rng.random() < 0.1:
        size, N = rng.randint(30, 2500), rng.randint(1, 2500)
    if N <= size:
        y = ntm.init_random(size, k=5, n_randomized=N, empty_value=77)
        inside = [i for i, v in enumerate(y) if v != 77]
        case.eq(inside, list(range(inside[0], inside[0] + N)), "block", "n_randomized=%d of %d: %r" % (N, size, y))
        case.check(abs(inside[0] - (size - 1 - inside[-1])) <= 1, "centred", "n_randomized=%d of %d: %r", N, size, y)


def distribution(case):
    """every state equally likely at every site, reals uniform on [0, k-1); 8 sigma"""
    rng = case.rng
    k = rng.choice([2, 3, 4, 7])
    M = 20000
    x = ntm.init_random(M, k=k)
    for s in range(k):
        p = 1 / k
        f = x.count(s) / M
        case.check(abs(f - p) < 8 * math.sqrt(p * (1 - p) / M), "states-equally-likely", "state %d of %d: share %r", s, k, f)
    case.event("integers", M)
    # neighbouring sites are independent
    pairs = sum(1 for a, b in zip(x, x[1:]) if a == b) / (M - 1)
    case.check(abs(pairs - 1 / k) < 8 * math.sqrt((1 / k) * (1 - 1 / k) / M), "sites-independent", "share of equal neighbours %r", pairs)
    K = rng.choice([2 ** 31, 2 ** 32, 2 ** 40, 2 ** 62, 10 ** 9, 70000, 300])
    z = ntm.init_random(2000, k=K, **rng.choice([{}, {"dtype": np.int64}]))
    for b in range(4):
        f = sum(1 for v in z if b * K <= 4 * v < (b + 1) * K) / 2000
        case.check(abs(f - 0.25) < 8 * math.sqrt(0.1875 / 2000), "states-equally-likely", "quarter %d of %d states: share %r", b, K, f)
    if K > 10 ** 8:
        case.check(len(set(z)) > 1990, "states-equally-likely", "%d different ones of %d states", len(set(z)), K)
    k = rng.choice([k, k, 150, 1000, 10 ** 6, 2.5])
    y = ntm.init_random(M, k=k, dtype=float)
    for b in range(10):
        f = sum(1 for v in y if b / 10 <= v / (k - 1) < (b + 1) / 10) / M
        case.check(abs(f - 0.1) < 8 * math.sqrt(0.09 / M), "uniform-reals", "tenth %d of [0, %d): share %r", b, k - 1, f)
    case.check(len(set(y)) > M * 0.99, "reals-not-rounded", "%d different values", len(set(y)))
    case.event("reals", M)
    case.state(k, x[:40], y[:5])


SECTIONS = [Section("simple", simple, 400, 6000), Section("randoms", randoms, 800, 15000), Section("distribution", distribution, 24, 300)]
