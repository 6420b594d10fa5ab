"""Case runner: generated cases, verdicts, evidence. A case is a function of (seed, property, section, index) only."""
import collections
import hashlib
import json
import multiprocessing
import os
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
PKG = os.path.join(REPO, "netomaton")


class Violation(Exception):
    def __init__(self, clause, msg):
        Exception.__init__(self, "%s: %s" % (clause, msg))
        self.clause = clause
        self.msg = msg


class Inconclusive(BaseException):
    pass


class Hang(BaseException):
    """the case used up a CPU allowance thousands of times what it needs"""


class Section:
    """One workload + oracle of a property: `fn(case)` runs quick (or thorough) times with different case RNGs."""
    def __init__(self, name, fn, quick, thorough=None, exhaustive=False, timeout=60):
        self.name, self.fn, self.quick = name, fn, quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.exhaustive, self.timeout = exhaustive, timeout


class Case:
    def __init__(self, prop, section, idx, seed, deep):
        self.prop, self.section, self.idx, self.seed, self.deep = prop, section, idx, seed, deep
        self.rng = random.Random("%s/%s/%s/%s" % (seed, prop, section, idx))
        # a few cases of every section are much larger or longer than the others (see gen.network, gen.steps)
        self.rng.size = ("wide", "long")[idx // 64 % 2] if idx % 64 == 63 else {29: "huge", 30: "endless"}.get(idx)
        self.events = collections.Counter()
        self.sigs = set()
        self.samples = []
        self.knowns = []

    def event(self, kind, n=1):
        self.events[kind] += n

    def state(self, *sig):
        """registers a distinct non-trivial observation (counted once over the whole run)"""
        self.sigs.add(int.from_bytes(hashlib.blake2b(repr(sig).encode(), digest_size=8).digest(), "big"))

    def sample(self, text):
        if len(self.samples) < 2:
            self.samples.append(str(text)[:600])

    def fail(self, clause, msg):
        raise Violation(clause, str(msg)[:3000])

    def check(self, cond, clause, msg="", *args):
        self.events["oracle:" + clause] += 1
        if not cond:
            self.fail(clause, (msg() if callable(msg) else (msg % args if args else msg)))

    def eq(self, got, want, clause, what=""):
        self.events["oracle:" + clause] += 1
        if not (got == want):
            self.fail(clause, "%s: got %.1200r, expected %.1200r" % (what, got, want))

    def raises(self, fn, clause, what=""):
        self.events["oracle:" + clause] += 1
        try:
            r = fn()
        except Inconclusive:
            raise
        except Exception:
            return
        self.fail(clause, "%s: should have been refused, returned %.300r" % (what, r))

    def known(self, mechanism, detail):
        """the exact mechanism of a listed finding was observed (anything not matching it must go to fail())"""
        self.knowns.append((mechanism, detail))


def load_known():
    try:
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            return json.load(f)
    except FileNotFoundError:
        return {"known": [], "fixed": []}


# ---- reach: lines of the package executed while the monitors watched (sys.monitoring, each line reported once) ----
_lines = set()


def _install_line_monitor():
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.COVERAGE_ID, "ntmon")
    except ValueError:
        return

    def on_line(code, line):
        if code.co_filename.startswith(PKG):
            _lines.add((code.co_filename[len(PKG) + 1:], line))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, on_line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)


def _total_lines():
    tot = collections.Counter()
    for root, _, files in os.walk(PKG):
        for fn in files:
            if fn.endswith(".py"):
                path = os.path.join(root, fn)
                with open(path) as f:
                    stack = [compile(f.read(), path, "exec")]
                seen = set()
                while stack:
                    c = stack.pop()
                    seen.update(l for _, _, l in c.co_lines() if l)
                    stack.extend(k for k in c.co_consts if hasattr(k, "co_lines"))
                tot[path[len(PKG) + 1:]] = len(seen)
    return tot


def _alarm(signum, frame):
    raise Inconclusive("watchdog")


def _cpu_alarm(signum, frame):
    raise Hang("no result after the case's whole CPU allowance")


MEMORY = 3 << 30


def _init_worker():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    _install_line_monitor()


def run_case(prop, sec, idx, seed, deep):
    import numpy as np
    case = Case(prop, sec.name, idx, seed, deep)
    np.random.seed(case.rng.getrandbits(32))
    random.seed(case.rng.getrandbits(64))
    out = None
    allowance = sec.timeout * (6 if deep else 1)
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _cpu_alarm)
    signal.alarm(4 * allowance)
    signal.setitimer(signal.ITIMER_PROF, allowance)
    try:
        sec.fn(case)
    except Violation as v:
        out = ("violation", v.clause, v.msg)
    except Inconclusive as e:
        out = ("inconclusive", "watchdog", str(e))
    except Hang as e:
        out = ("violation", "never-finishes", str(e))
    except RecursionError as e:
        out = ("violation", "unexpected-exception", "RecursionError " + str(e))
    except MemoryError:
        out = ("violation", "exhausts-memory", "more than %d GB in one case" % (MEMORY >> 30))
    except Exception:
        tb = traceback.format_exc()
        out = ("violation", "unexpected-exception", tb[-2500:])
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
    try:
        import matplotlib.pyplot as plt
        if plt.get_fignums():
            plt.close("all")
    except Exception:
        pass
    return case, out


_job = {}


def _worker(chunk):
    prop, sections, seed, deep = _job["prop"], _job["sections"], _job["seed"], _job["deep"]
    res = {"events": collections.Counter(), "sigs": set(), "samples": {}, "out": [], "knowns": [], "n": collections.Counter()}
    for sname, idx in chunk:
        sec = sections[sname]
        case, out = run_case(prop, sec, idx, seed, deep)
        res["n"][sname] += 1
        for k, v in case.events.items():
            res["events"][(sname, k)] += v
        res["sigs"] |= case.sigs
        if case.samples:
            res["samples"].setdefault(sname, [])
            if len(res["samples"][sname]) < 2:
                res["samples"][sname].extend(case.samples[:1])
        for m, d in case.knowns:
            res["knowns"].append((sname, idx, m, d))
        if out:
            res["out"].append((sname, idx) + out)
            if out[0] == "inconclusive" or out[1] in ("never-finishes", "exhausts-memory"):
                res["stop"] = True
                break
    res["lines"] = set(_lines)
    return res


def run_property(module, seed, tier, only_section=None, nproc=None, verbose=False):
    prop = module.PROP
    deep = tier == "thorough"
    t0 = time.time()
    sections = {s.name: s for s in module.SECTIONS if only_section in (None, s.name)}
    items = []
    for s in sections.values():
        n = s.thorough if deep else s.quick
        if not s.exhaustive and s.thorough > 1 and s.name != "demos":
            n = n * 4 if deep else min(s.thorough, n * getattr(module, "QUICK_SCALE", 4))
        items.extend((s.name, i) for i in range(n))
    # interleave so that slow sections spread over the workers
    order = random.Random(0)
    order.shuffle(items)
    nproc = nproc or min(8, len(os.sched_getaffinity(0)))
    size = max(1, min(64, len(items) // (nproc * 6) or 1))
    chunks = [items[i:i + size] for i in range(0, len(items), size)]
    _job.update(prop=prop, sections=sections, seed=seed, deep=deep)
    results = []
    if nproc == 1 or len(chunks) == 1:
        _init_worker()
        results = [_worker(c) for c in chunks]
    else:
        ctx = multiprocessing.get_context("fork")
        with ctx.Pool(nproc, initializer=_init_worker) as pool:
            it = pool.imap_unordered(_worker, chunks)
            hard = 840 if not deep else 6 * 3600
            for _ in chunks:
                try:
                    results.append(it.next(timeout=max(1, hard - (time.time() - t0))))
                except multiprocessing.TimeoutError:
                    results.append({"events": collections.Counter(), "sigs": set(), "samples": {}, "knowns": [],
                                    "n": collections.Counter(), "lines": set(),
                                    "out": [("?", 0, "inconclusive", "hard-timeout", "run exceeded its time")]})
                    break
                if results[-1].get("stop"):
                    break
            pool.terminate()
    events, n, sigs, lines = collections.Counter(), collections.Counter(), set(), set()
    samples, outs, knowns = {}, [], []
    for r in results:
        events.update(r["events"])
        n.update(r["n"])
        sigs |= r["sigs"]
        lines |= r["lines"]
        outs.extend(r["out"])
        knowns.extend(r["knowns"])
        for k, v in r["samples"].items():
            samples.setdefault(k, [])
            samples[k] = (samples[k] + v)
    outs.sort(key=lambda o: (o[0], o[1]))
    knowns.sort(key=lambda o: (o[0], o[1]))
    listed = {(k["property"], k["mechanism"]): k for k in load_known()["known"]}
    seen_known = collections.Counter()
    for sname, idx, mech, detail in knowns:
        if (prop, mech) in listed:
            seen_known[mech] += 1
        else:
            outs.append((sname, idx, "violation", "unlisted-finding:" + mech, detail))
    violations = [o for o in outs if o[2] == "violation"]
    inconclusive = [o for o in outs if o[2] == "inconclusive"]
    # a section whose required observations never happened decided nothing
    need = getattr(module, "NEED", {})
    for sname, kinds in need.items():
        if sname not in sections:
            continue
        for kind in kinds:
            if events[(sname, kind)] == 0:
                inconclusive.append((sname, -1, "inconclusive", "never-observed", kind))
    if sum(events.values()) == 0 and not violations:
        inconclusive.append(("-", -1, "inconclusive", "never-observed", "any event"))

    tot = _total_lines()
    hit = collections.Counter(f for f, _ in lines)
    per = {}
    for s in sections:
        per[s] = {"cases": n[s], "events": {k: v for (a, k), v in sorted(events.items()) if a == s}}
        if sections[s].exhaustive:
            per[s]["exhaustive_enumeration"] = True
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(n.values()),
            "distinct_nontrivial": len(sigs),
            "rule": module.RULE,
            "samples": [{"section": k, "case": s} for k in sorted(samples) for s in sorted(samples[k])[:2]] or
                       [{"section": "-", "case": "none"}],
            "sections": per,
            "oracle_evaluations": sum(v for (a, k), v in events.items() if k.startswith("oracle:")),
            "observed_events": sum(v for (a, k), v in events.items() if not k.startswith("oracle:")),
            "package_lines_reached": {f: "%d/%d" % (hit[f], tot[f]) for f in sorted(hit) if f in tot},
            "known_findings_observed": dict(seen_known),
            "inconclusive": [list(map(str, o)) for o in inconclusive[:10]],
        },
        "assumptions": getattr(module, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if only_section is None:
        tmp = os.path.join(VERIF, "evidence", ".%s.%d" % (prop, os.getpid()))
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(VERIF, "evidence", prop + ".json"))

    for mech in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s (mechanism %s, observed %d times)" %
              (prop, listed[(prop, mech)]["what"], mech, seen_known[mech]))
    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        shown = set()
        for sname, idx, _, clause, msg in violations:
            if (sname, clause) in shown or len(shown) >= 5:
                continue
            shown.add((sname, clause))
            path = os.path.join(VERIF, "replays", "%s-%s-%d-s%d-%s.json" % (prop, sname, idx, seed, tier))
            with open(path, "w") as f:
                json.dump({"property": prop, "section": sname, "index": idx, "seed": seed, "tier": tier,
                           "clause": clause, "message": msg}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   [%s #%d] %s: %s" % (sname, idx, clause, msg if verbose else msg[-900:]))
        print("%s: %d violating cases of %d (%s, seed %d, %.1fs)" %
              (prop, len(violations), sum(n.values()), tier, seed, time.time() - t0))
        return 1
    if inconclusive:
        for o in inconclusive[:10]:
            print("INCONCLUSIVE property=%s %s" % (prop, o,))
        return 2
    print("%s: held on %d cases, %d distinct observations, %d oracle evaluations (%s, seed %d, %.1fs)" %
          (prop, sum(n.values()), len(sigs), ev["coverage"]["oracle_evaluations"], tier, seed, time.time() - t0))
    return 0
