"""Runs one property's workload on all cores and turns what its monitors saw
into a verdict, an evidence file and, for a violation, a replay file.

Verdicts: violated (exit 1), held on what was observed (exit 0), inconclusive
(exit 3: the monitors saw too little, or a case could not be decided)."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
from collections import Counter

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(ROOT, "out")
EVID = os.path.join(ROOT, "evidence")


class Violation(Exception):
    def __init__(self, msg, mechanism=None):
        super().__init__(msg)
        self.mechanism = mechanism


class Inconclusive(Exception):
    pass


class Watchdog(BaseException):
    pass


class Mon:
    """What the monitors of one worker observed."""

    def __init__(self, tier):
        self.tier = tier
        self.events = Counter()
        self.seen = set()
        self.samples = []
        self.evals = 0
        self.known = Counter()
        self.known_list = {}

    def ev(self, name, n=1):
        self.events[name] += n

    def case(self, key, nontrivial=True, sample=None):
        """One evaluation of the property's oracle."""
        self.evals += 1
        if nontrivial:
            h = hashlib.blake2b(
                repr(key).encode("utf-8", "surrogatepass"),
                digest_size=8).digest()
            if h not in self.seen:
                self.seen.add(h)
                if sample is not None and len(self.samples) < 3 \
                        and len(self.seen) > 40 * len(self.samples):
                    self.samples.append(str(sample)[:800])

    def fail(self, msg, mechanism=None):
        if mechanism is not None and mechanism in self.known_list:
            self.known[mechanism] += 1
            return
        raise Violation(msg, mechanism)


def known_findings(prop):
    try:
        with open(os.path.join(ROOT, "known_findings.json")) as f:
            data = json.load(f)
    except FileNotFoundError:
        return {}
    return {
        e["mechanism"]: e["what"] for e in data.get("findings", [])
        if e["property"] == prop
    }


def _alarm(sig, frame):
    raise Watchdog()


CASE_S = 20
STEP_LIMIT = 30000000
SLOW_LOG = os.environ.get("VERIF_SLOW_LOG")   # development aid


def run_case(mod, seed, idx, mon):
    """Runs one case; a case that outlives the wall clock watchdog is run again
    under the step counter, and only the logical step limit is a verdict."""
    from .steps import StepLimit, Steps

    def go():
        mod.case(random.Random("{}/{}/{}".format(seed, mod.ID, idx)), idx, mon)

    try:
        signal.setitimer(signal.ITIMER_REAL, CASE_S * getattr(
            mod, "SLOW", 1))
        t = time.perf_counter()
        try:
            go()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            t = time.perf_counter() - t
            if SLOW_LOG and t > 1:
                with open(SLOW_LOG, "a") as f:
                    f.write("{} {} {} {:.1f}\n".format(
                        mod.ID, seed, idx, t))
        return
    except (Watchdog, MemoryError):
        pass
    mon.ev("watchdog")
    try:
        signal.setitimer(signal.ITIMER_REAL, 5 * CASE_S)
        try:
            with Steps(STEP_LIMIT):
                go()
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except StepLimit:
        # a random grammar may backtrack exponentially; not for ever, though
        mon.ev("given up: too many steps")
        if getattr(mod, "BOUNDED", False) or (
                mon.events["given up: too many steps"] > 2):
            raise Violation(
                "no result after {} executed steps of library code".format(
                    STEP_LIMIT), "no-termination")
    except (Watchdog, MemoryError):
        # neither a verdict nor an answer: a few such cases are left out
        mon.ev("given up: too slow")
        if mon.events["given up: too slow"] > 2:
            raise Inconclusive("case {} does not finish".format(idx))


def from_library(e):
    """Did the exception originate in library code (not in the harness)?"""
    from .env import SRC
    last = None
    tb = e.__traceback__
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith((SRC, ROOT)):
            last = f
        tb = tb.tb_next
    return last is not None and last.startswith(SRC)


def worker(conn, prop, tier, seed, w, nw, count, deadline):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except (ValueError, OSError):
        pass
    mod = importlib.import_module("vlib.checks." + prop.lower())
    mon = Mon(tier)
    mon.known_list = known_findings(prop)
    viol = None
    inc = None
    done = 0
    for idx in range(w, count, nw):
        if time.time() > deadline:
            break
        try:
            run_case(mod, seed, idx, mon)
        except Violation as e:
            viol = {"index": idx, "message": str(e),
                    "mechanism": e.mechanism}
            break
        except Inconclusive as e:
            inc = str(e)
            break
        except Exception as e:
            tb = traceback.format_exc()
            if from_library(e):
                viol = {"index": idx, "mechanism": None, "message":
                        "unexpected exception from the library:\n" + tb}
            else:
                inc = "case {}: {}".format(idx, tb)
            break
        done += 1
    conn.send({
        "events": dict(mon.events), "seen": mon.seen, "samples": mon.samples,
        "evals": mon.evals, "viol": viol, "inc": inc, "done": done,
        "known": dict(mon.known),
    })
    conn.close()


def write_replay(prop, tier, seed, v):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "{}-{}-{}-{}.json".format(
        prop, tier, seed, v["index"]))
    with open(path, "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed, **v,
            "replay": "cd /verif && ./check {} --replay {}".format(
                prop, path),
        }, f, indent=1)
    return path


def run(prop, tier, seed):
    t0 = time.time()
    mod = importlib.import_module("vlib.checks." + prop.lower())
    count = mod.COUNTS[tier]
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    count = max(1, int(count * scale))
    cap = {"quick": 240, "thorough": 780}[tier]
    nw = min(8, os.cpu_count() or 1)
    ctx = mp.get_context("fork")
    procs = []
    for w in range(nw):
        a, b = ctx.Pipe(False)
        p = ctx.Process(target=worker, args=(
            b, prop, tier, seed, w, nw, count, t0 + cap))
        p.start()
        b.close()
        procs.append((p, a))
    events = Counter()
    known = Counter()
    seen = set()
    samples = []
    evals = done = 0
    viols = []
    incs = []
    for p, a in procs:
        left = max(1, t0 + cap + 200 - time.time())
        try:
            if a.poll(left):
                r = a.recv()
            else:
                r = None
        except EOFError:
            r = None
        if r is None:
            incs.append("a worker gave no answer")
            p.kill()
            continue
        events.update(r["events"])
        known.update(r["known"])
        seen |= r["seen"]
        samples += r["samples"]
        evals += r["evals"]
        done += r["done"]
        if r["viol"]:
            viols.append(r["viol"])
        if r["inc"]:
            incs.append(r["inc"])
        p.join(5)
        if p.is_alive():
            p.kill()
    for name, least in getattr(mod, "MIN", {}).items():
        if events[name] < least * min(1, scale) * (
                .5 if done < count else 1):
            incs.append("monitor counter {} is {}, expected at least {}"
                        .format(name, events[name], least))
    if evals == 0:
        incs.append("the oracle was never evaluated")
    wall = time.time() - t0
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump({
            "property": prop, "tier": tier, "seed": seed,
            "level": mod.LEVEL,
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": len(seen),
                "rule": mod.RULE,
                "samples": samples[:6],
                "cases_planned": count,
                "cases_run": done,
                "observed": dict(sorted(events.items())),
                "known_findings_seen": dict(known),
            },
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(viols),
        }, f, indent=1, ensure_ascii=True)
        f.write("\n")
    for m, what in sorted(known_findings(prop).items()):
        print("KNOWN-FINDING: property={} {}".format(prop, what))
    if viols:
        v = min(viols, key=lambda v: v["index"])
        path = write_replay(prop, tier, seed, v)
        print(v["message"][:3000])
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    if incs:
        print("INCONCLUSIVE property={}: {}".format(prop, "; ".join(incs)))
        return 3
    print("held: property={} tier={} seed={} evaluations={} distinct={} "
          "cases={} wall={:.1f}s".format(
              prop, tier, seed, evals, len(seen), done, wall))
    return 0


def replay(prop, path):
    with open(path) as f:
        v = json.load(f)
    mod = importlib.import_module("vlib.checks." + prop.lower())
    signal.signal(signal.SIGALRM, _alarm)
    mon = Mon(v["tier"])
    try:
        run_case(mod, v["seed"], v["index"], mon)
    except Violation as e:
        print(str(e))
        print("VIOLATION property={} replay={}".format(prop, path))
        return 1
    print("case {} does not violate {}".format(v["index"], prop))
    return 0


def selftest():
    """Set-up: every check loads, and the harness tells outcomes apart."""
    from .model import Outcome
    n = 0
    for f in sorted(os.listdir(os.path.join(ROOT, "vlib", "checks"))):
        if f.startswith("c") and f.endswith(".py"):
            mod = importlib.import_module("vlib.checks." + f[:-3])
            assert mod.ID.lower() == f[:-3] and mod.COUNTS and mod.MIN
            n += 1
    assert Outcome("ok", "1").key() != Outcome("ok", "2").key()
    print("{} checks load".format(n))
    return 0


def main(argv):
    if argv and argv[0] == "--selftest":
        return selftest()
    prop = argv[0].upper()
    # deep inputs must not fail because of one more function call per level
    sys.setrecursionlimit(25000)
    if len(argv) > 2 and argv[1] == "--replay":
        return replay(prop, argv[2])
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return run(prop, tier, seed)
