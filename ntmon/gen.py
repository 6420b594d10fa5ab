"""Generators of networks, rules and whole evolutions."""
import netomaton as ntm

from .model import RefNet, h


def labels(rng, n, kind=None):
    kind = kind or rng.choice(["int", "int", "sparse", "str", "tuple", "mixed", "alike", "falsy"])
    if kind == "int":
        return list(range(n))
    if kind == "sparse":
        return rng.sample(range(-50, 200 + n), n)
    if kind == "str":
        return ["n%d" % i for i in rng.sample(range(500), n)]
    if kind == "tuple":
        return [(i, rng.randint(0, 3)) for i in rng.sample(range(max(100, n)), n)]
    if kind == "alike":     # different labels with the same text, or the same up to case or white space
        pool = []
        for i in range(n // 4 + 1):
            pool += [i, str(i), (i,), str((i,)), " %d" % i, "x%d" % i, "X%d" % i, i + 0.5, str(i + 0.5), b"%d" % i]
        return rng.sample(pool, n)
    if kind == "falsy":
        pool = [0, "", (), None, b"", ((),), (None,), "None", "0", -1]
        if n <= len(pool):
            return rng.sample(pool, n)
    out = []
    for i in range(n):
        out.append(rng.choice([i, "s%d" % i, -i - 1, "%d" % i]))
    return out


def attr(rng, deep=False):
    r = rng.random()
    if r < 0.35:
        return {}
    a = {"weight": rng.choice([1, 2, 0, -1, 0.5, -2.25, 1e-3])}
    if rng.random() < 0.4:
        a["label"] = rng.choice(["a", "b", "", "ü"])
    if deep and rng.random() < 0.4:
        a["data"] = rng.choice([[1, 2], {"k": [1, None]}, True, None, "x" * 40, 2 ** 40])
    return a


def build(ops):
    """replays constructor operations on a real Network and on the reference"""
    net, ref = ntm.Network(), RefNet()
    for op, args, kw in ops:
        getattr(net, op)(*args, **kw)
        getattr(ref, op)(*args, **kw)
    return net, ref


def net_ops(rng, labs, deep_attr=False, density=None, self_loops=None, multi=0.2, isolated=True):
    """operations that build a random directed multigraph over labs, node order as in labs when isolated"""
    ops = []
    if isolated:
        for l in labs:
            ops.append(("add_node", (l,), attr_node(rng) if rng.random() < 0.2 else {}))
    n = len(labs)
    m = rng.choice([0, n // 2, n, 2 * n, 3 * n]) if density is None else density
    for _ in range(m):
        i, j = rng.choice(labs), rng.choice(labs)
        if self_loops is False and i == j:
            continue
        a = attr(rng, deep_attr)
        if deep_attr and rng.random() < 0.2:
            # names that parameters of the graph library have
            a[rng.choice(["key", "key", "u_for_edge", "v_for_edge", "attr"])] = rng.choice(["a", "a", 0, 1])
        ops.append((rng.choice(["add_edge", "add_edge", "add_edge", "add_edge_bidir"]), (i, j), a))
        if rng.random() < multi:
            ops.append(("add_edge", (i, j), attr(rng, deep_attr)))
    if not isolated:
        for l in labs:
            ops.append(("add_edge", (l, l), {}))
    return ops


def attr_node(rng):
    return {rng.choice(["color", "size", "activity", "_colour", "x y", "Weight", "label2", "_", "0", "node_for_adding", "key"]):
            rng.choice([1, "red", None, [1, 2], 0.5, 0, False, "", {"k": 1}])}


def wide(rng, lo, hi, most=90):
    """a size: usually from lo to hi, in the wide cases beyond any small fixed capacity"""
    n = rng.randint(lo, hi)
    size = getattr(rng, "size", None)
    if size == "huge" and most >= 90:
        return rng.randint(260, 400)
    return rng.randint(max(33, hi), max(most, hi)) if size == "wide" else n


def steps(rng, lo, hi, most=150):
    """a number of timesteps: usually from lo to hi, in the long cases many more"""
    n = rng.randint(lo, hi)
    size = getattr(rng, "size", None)
    if size == "endless" and most >= 150:
        return rng.randint(260, 400)
    return rng.randint(max(33, hi), max(most, hi)) if size == "long" else n


def network(rng, nmax=7, kind=None, **kw):
    n = wide(rng, 1, nmax)
    if n > nmax and kw.get("density") is not None:
        kw["density"] *= n // nmax
    labs = labels(rng, n, kind)
    return build(net_ops(rng, labs, **kw)) + (labs,)


def hub_network(rng, n=None):
    """some nodes have most of the others for neighbours"""
    n = n or rng.choice([70, 90, 140, 280])
    labs = labels(rng, n)
    ops = [("add_node", (l,), {}) for l in labs]
    for hub in rng.sample(labs, 2):
        ops += [("add_edge", (l, hub), attr(rng, False) if rng.random() < 0.1 else {}) for l in rng.sample(labs, rng.choice([n, n - 3, n // 2 + 5]))]
    ops += [("add_edge", (rng.choice(labs), rng.choice(labs)), {}) for _ in range(n // 2)]
    return build(ops) + (labs,)


def hash_rule(salt, mod=None, what="all"):
    """a pure rule whose value depends on everything local it is shown"""
    def rule(ctx):
        es = [(repr(i), [sorted(a.items(), key=repr) for a in aa]) for i, aa in ctx.connection_states.items()]
        nb = list(zip(map(repr, ctx.neighbour_labels), map(repr, ctx.neighbourhood_activities)))
        v = h(salt, repr(ctx.node_label), repr(ctx.current_activity), sorted(nb), sorted(es, key=repr), ctx.timestep,
              repr(ctx.input))
        return v if mod is None else v % mod
    return rule


def wrap_np(rng_like, v):
    import numpy as np
    return [v, np.int64(v % (2 ** 62)), float(v), np.float64(v)][h("np", rng_like) % 4]
