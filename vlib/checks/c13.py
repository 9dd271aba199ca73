"""Parsers carry no state: histories, re-entrancy, interleavings, aliasing."""
import gc
import random
import sys
import threading
import weakref

from ..build import Builder
from ..common import (
    Cfg, Grammar, Input, dense, enlarge, gen_grammar, lazy, observe, parse,
    ref, str_input, all_inputs)
from ..impl import items
from ..runner import Inconclusive
from ..sched import Deadlock, Sched
from ..show import show
from ..steps import Interrupt
import reparsec as rp

ID = "C13"
LEVEL = "exploration"
COUNTS = {"quick": 33000, "thorough": 600000}
MIN = {"parses in histories": 30000, "user exceptions in histories": 1500,
       "nested parses": 3500, "interleaved runs": 900, "thread switches":
       10000, "distinct schedules": 800, "free-running parses": 2500,
       "lists changed": 8000, "parses of worn parsers": 6000,
       "long histories": 40, "earlier results checked": 15000,
       "parses whose objects are traced": 1000, "traced objects": 8000,
       "interrupts": 10000, "parses after interrupts": 10000,
       "results read after an interrupt": 500}
RULE = (
    "random recovery grammars with shared parser objects: (a) histories of"
    " parses with one parser over several inputs, modes and limits, with user"
    " functions raising at random calls in between; (b) user functions that"
    " parse with the same parser at random calls, nested; (c) two or three"
    " real threads parsing with the same parser under a deterministic"
    " scheduler that switches at random byte codes of the library, and"
    " free-running threads with a tiny switch interval; every outcome is"
    " compared with the one of an identical parser never used before, earlier"
    " results are re-read at the end; (d) every list in returned values,"
    " errors and expectations is changed before the next parse; (e) after"
    " parses that succeed, fail, recover or end by an exception, weak"
    " references show whether the stream, its elements, the result object and"
    " the error are freed once the caller drops them, with the parser still"
    " there; (f) parses, readings of results and mappings cut off by an"
    " exception injected at a random executed line of the library, followed by"
    " more of them. Non-trivial:"
    " distinct (grammar, inputs, history or schedule).")
ASSUMPTIONS = ["runs beyond the model's step budget are left out",
               "interleavings are explored at byte code granularity under the"
               " interpreter lock; free-threaded builds are not covered"]


class Boom(Exception):
    pass


class Nope(BaseException):
    pass


class Subject:
    """A grammar, its parser, inputs and their outcomes with fresh parsers."""

    def __init__(self, rng, mon, n=3, light=False):
        if rng.random() < .2:
            self.g = dense(rng, True)
            every = list(all_inputs("abc", 3))
            inps = [str_input(self.g, rng.choice(every)) for _ in range(n)]
        else:
            self.g = gen_grammar(rng, Cfg(
                recovery=True, layout=rng.random() < .3,
                depth=3 if light else 4))
            self.g, take = enlarge(rng, self.g, top=60 if light else 1500)
            inps = [Input(self.g, rng, take(fuel=15 if light else 40))
                    for _ in range(n)]
        self.seed = rng.random()
        self.hook = None
        self.tl = None
        self.builder = self.fresh(self.event)
        self.parser = self.builder.parser
        self.runs = []
        for inp in inps:
            for recover in (False, True):
                mi = rng.choice([0, 1, 2, 3, 4, 5, 5, 7])
                if ref(mon, self.g, inp, recover, mi,
                       budget=2500 if light else 10000) is None:
                    continue
                kw = {} if mi == 5 else {"max_insertions": mi}
                want = observe(parse(self.fresh().parser, inp.stream, recover,
                                     inp.how, **kw), recover)
                self.runs.append((inp, recover, kw, want))

    def fresh(self, event=None):
        return Builder(self.g, random.Random(self.seed), event)

    def event(self, *a):
        if self.hook is not None:
            self.hook(*a)

    def thunk(self, run):
        inp, recover, kw, _ = run
        return parse(self.parser, inp.stream, recover, inp.how, **kw)

    def check(self, mon, run, got, what):
        inp, recover, kw, want = run
        if got.key() != want.key():
            mon.fail("{}\n grammar: {}\n input: {}\n recover: {} {}\n fresh"
                     " parser: {}\n observed: {}".format(
                         what, self.g, inp, recover, kw, want, got))


def change(v, n):
    """Appends to every list inside a value; returns how many."""
    if type(v) is list:
        for x in v:
            n = change(x, n)
        v.append("CHANGED")
        return n + 1
    if type(v) is tuple:
        for x in v:
            n = change(x, n)
    return n


def snapshot(r):
    out = []
    for rec in (False, True):
        try:
            out.append(show(r.unwrap(recover=rec)))
        except rp.ParseError as e:
            out.append(items(e))
    return out


def history(rng, mon):
    s = Subject(rng, mon)
    if not s.runs:
        return
    kept = []
    log = []
    m = rng.choice([6, 10])
    if rng.random() < .01 and all(len(r[0].stream) < 30 for r in s.runs):
        m = 330
        mon.ev("long histories")
    for _ in range(m):
        run = rng.choice(s.runs)
        x = rng.random()
        if x < .25:
            # a user function raises somewhere
            left = [rng.randint(0, 6)]
            exc = rng.choice([Boom, Nope, IndexError, KeyError])

            def hook(*a):
                left[0] -= 1
                if left[0] < 0:
                    raise exc()
            s.hook = hook
            try:
                s.thunk(run)()
            except (Boom, Nope, LookupError):
                mon.ev("user exceptions in histories")
            except RuntimeError:
                pass
            s.hook = None
            log.append("raise")
            continue
        log.append(s.runs.index(run))
        got = observe(s.thunk(run), run[1])
        mon.ev("parses in histories")
        s.check(mon, run, got, "outcome depends on what was parsed before: "
                + str(log))
        try:
            r = s.thunk(run)()
        except RuntimeError:
            continue
        snap = snapshot(r)
        if rng.random() < .5:
            # a result the user changes: others must not see it
            n = 0
            for rec in (False, True):
                try:
                    n += change(r.unwrap(recover=rec), 0)
                except rp.ParseError as e:
                    for it in e.errors:
                        n += 1
                        it.expected.append("CHANGED")
                    e.errors.append(None)
            mon.ev("lists changed", n)
        else:
            kept.append((r, snap, run))
    for r, snap, run in kept:
        mon.ev("earlier results checked")
        now = snapshot(r)
        if now != snap:
            mon.fail("an earlier result changed\n grammar: {}\n input: {}\n"
                     " history: {}\n before: {}\n after: {}".format(
                         s.g, run[0], log, snap, now))
    mon.case((repr(s.g), [repr(r[0]) for r in s.runs], log),
             sample=lazy(s.g, log))


def interrupted(rng, mon):
    """Parses, readings and buildings cut off at any line of the library."""
    s = Subject(rng, mon, 3, rng.random() < .7)
    if not s.runs:
        return
    log = []
    for _ in range(8):
        run = rng.choice(s.runs)
        thunk = s.thunk(run)
        r = None
        what = "parse"
        if rng.random() < .2:
            try:
                r = thunk()
                what = "unwrap"
                before = snapshot(r)
                act = rng.choice([
                    lambda: r.unwrap(), lambda: r.unwrap(recover=True),
                    lambda: r.fmap(lambda v: [v]).unwrap(recover=True)])
            except RuntimeError:
                act = thunk
        else:
            act = thunk
        with Interrupt(0, Nope) as count:
            try:
                act()
            except (rp.ParseError, RuntimeError):
                pass
        if not count.n:
            continue
        times = rng.choice([1, 1, 2, 3])
        for _ in range(times):
            k = rng.randint(1, count.n)
            exc = rng.choice([Boom, Nope, KeyboardInterrupt, MemoryError])
            with Interrupt(k, exc):
                try:
                    act()
                    cut = "not seen"
                except exc:
                    cut = "interrupted"
                except (rp.ParseError, RuntimeError):
                    cut = "other"
            log.append((what, s.runs.index(run), k, exc.__name__))
            mon.ev("interrupts", cut == "interrupted")
            mon.ev("interrupts not seen by the caller", cut != "interrupted")
        if r is not None:
            now = snapshot(r)
            mon.ev("results read after an interrupt")
            if now != before:
                mon.fail("a result differs after an interrupted reading\n"
                         " grammar: {}\n input: {}\n interrupts: {}\n before:"
                         " {}\n after: {}".format(s.g, run[0], log, before,
                                                  now))
        for run in rng.sample(s.runs, min(2, len(s.runs))):
            mon.ev("parses after interrupts")
            s.check(mon, run, observe(s.thunk(run), run[1]),
                    "outcome differs after interrupts " + str(log))
    mon.case(("interrupts", repr(s.g), [repr(r[0]) for r in s.runs], log),
             bool(log), lazy("interrupts", s.g, log))


def worn(rng, mon):
    """A parser after many parses that ended deep inside by an exception or
    an error."""
    item = rng.choice([
        ("fmap", 1, ("sym", "a", None)),
        ("bind", ("sym", "a", None), (("puren", 2),)),
        ("tup", (("sym", "a", None), ("maybe", ("sym", "b", None))), 3),
        ("fmap", 1, ("attempt", ("seq", ("sym", "a", None),
                                 ("many", ("sym", "b", None)))))])
    if rng.random() < .5:
        # many insertions in a row
        item = ("seq", item, ("tup", tuple(
            ("sym", "cdefgh"[i], None) for i in range(rng.randint(2, 6))),
            None)) if rng.random() < .5 else ("tup", tuple(
                ("sym", "acdefgh"[i], None)
                for i in range(rng.randint(3, 7))), None)
    inner = rng.choice([
        ("ref", 0), ("sepby", ("ref", 0), ("sym", ",", None)),
        ("seq", ("ref", 0), ("many", ("sym", "b", None))),
        ("attempt", ("ref", 0)), ("recover", ("ref", 0)),
        ("fmap", 5, ("ref", 0)), ("label", ("ref", 0), "in"),
        ("rw", ("ref", 0), "R", None)])
    body = ("alt", ("between", ("sym", "(", None), ("sym", ")", None), inner),
            item)
    if rng.random() < .3:
        body = ("alt", item, body[1])
    g = Grammar("T", rng.choice([
        ("ref", 0), ("seql", ("ref", 0), ("eof",)), ("many", ("ref", 0))]),
        [body], list("ab(),"))
    on = [False]

    def event(name, *a):
        if on[0]:
            raise Boom()
    seed = rng.random()
    p = Builder(g, random.Random(seed), event).parser
    depth = rng.choice([12, 20])
    mk = rng.choice([str, list, tuple])
    runs = []
    for t in ("a", "(a)", "((a", "(" * depth + "a" + ")" * depth,
              "(" * depth + "a", ""):
        for recover in (False, True):
            s = "".join(t) if mk is str else mk(t)
            kw = {"max_insertions": rng.choice([1, 1, 5, 7])} \
                if recover else {}
            runs.append((s, recover, kw, observe(parse(
                Builder(g, random.Random(seed)).parser, s, recover, **kw),
                recover)))
    kind = rng.choice(["raise", "raise", "fail", "deep", "short"])
    n = rng.choice([5, 40, 90])
    if kind == "short":
        n = 300
    for i in range(n):
        s = "" if kind == "short" else "(" * depth + {
            "raise": "a", "fail": "x", "deep": ""}[kind]
        s = mk(s) if mk is not str else s
        on[0] = kind == "raise"
        try:
            parse(p, s, i % 3 == 0, max_insertions=0)().unwrap()
        except (Boom, rp.ParseError):
            pass
        on[0] = False
    mon.ev("parses of worn parsers", n)
    mon.case(("worn", repr(g), depth, kind, n, mk), sample=lazy(g, kind, n))
    for s, recover, kw, want in runs:
        got = observe(parse(p, s, recover, **kw), recover)
        if got.key() != want.key():
            mon.fail("outcome differs after {} parses ended {} levels deep"
                     " ({})\n grammar: {}\n input: {!r}\n recover: {}\n fresh"
                     " parser: {}\n observed: {}".format(
                         n, depth, kind, g, s, recover, want, got))


def nested(rng, mon):
    s = Subject(rng, mon, 2)
    if not s.runs:
        return
    for _ in range(3):
        outer = rng.choice(s.runs)
        at = {rng.randint(0, 8) for _ in range(3)}
        count = [0, 0]
        bad = []

        def hook(*a):
            i = count[0]
            count[0] += 1
            if i in at and count[1] < 2:
                inner = rng.choice(s.runs)
                count[1] += 1
                got = observe(s.thunk(inner), inner[1])
                count[1] -= 1
                mon.ev("nested parses")
                if got.key() != inner[3].key():
                    bad.append((inner, got))
        s.hook = hook
        got = observe(s.thunk(outer), outer[1])
        s.hook = None
        if bad:
            s.check(mon, *bad[0], "a nested parse with the same parser"
                    " differs")
        s.check(mon, outer, got, "a parse differs when a user function parses"
                " with the same parser")
        mon.case(("nested", repr(s.g), repr(outer[0]), sorted(at)),
                 sample=lazy("nested", s.g, outer[0]))


def threads(rng, mon):
    s = Subject(rng, mon, 3, True)
    if not s.runs:
        return
    for _ in range(2):
        runs = [rng.choice(s.runs) for _ in range(rng.choice([2, 2, 3]))]
        sch = Sched(rng, rng.choice([.3, .05, .01]))
        try:
            out = sch.run([
                lambda r=r: observe(s.thunk(r), r[1]) for r in runs])
        except Deadlock:
            raise Inconclusive("threads under the scheduler do not finish")
        mon.ev("interleaved runs")
        mon.ev("thread switches", sch.switches)
        mon.ev("scheduling points", sch.points)
        mon.ev("distinct schedules", sch.switches > 0)
        mon.case(("threads", repr(s.g), [repr(r[0]) for r in runs],
                  sch.trace_hash), sch.switches > 0,
                 lazy("threads", s.g, sch.switches))
        for r, (kind, o) in zip(runs, out):
            if kind == "raised":
                raise o
            s.check(mon, r, o, "outcome under concurrent parses differs ({}"
                    " switches)".format(sch.switches))


def free(rng, mon):
    s = Subject(rng, mon, 3, True)
    if not s.runs:
        return
    out = []
    old = sys.getswitchinterval()

    def body(seed):
        r = random.Random(seed)
        for _ in range(10):
            run = r.choice(s.runs)
            out.append((run, observe(s.thunk(run), run[1])))

    ts = [threading.Thread(target=body, args=(rng.random(),), daemon=True)
          for _ in range(4)]
    try:
        sys.setswitchinterval(1e-6)
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    if any(t.is_alive() for t in ts):
        raise Inconclusive("free-running threads do not finish")
    mon.ev("free-running parses", len(out))
    mon.case(("free", repr(s.g)), sample=lazy("free", s.g))
    for run, got in out:
        s.check(mon, run, got, "outcome under concurrent parses differs")


class Stream(list):
    pass


class Text(str):
    pass


class Elem(str):
    pass


def traced(stream):
    """A copy of a stream that can be traced, or None."""
    if type(stream) is str:
        return Text(stream)
    if type(stream) in (list, tuple):
        return Stream(Elem(x) if type(x) is str else x for x in stream)
    return None


def retention(rng, mon):
    s = Subject(rng, mon, 3, rng.random() < .5)
    parser = s.parser
    refs = []
    log = []

    def one(run):
        inp, recover, kw, _ = run
        stream = traced(inp.stream)
        if stream is None:
            return
        refs.append(("stream", weakref.ref(stream)))
        if type(stream) is Stream:
            refs.extend(("element", weakref.ref(x)) for x in stream
                        if type(x) is Elem)
        left = [rng.randint(0, 9) if rng.random() < .3 else -1]

        def hook(*a):
            left[0] -= 1
            if left[0] == -1:
                raise Boom()
        s.hook = hook
        try:
            r = parse(parser, stream, recover, inp.how, **kw)()
            try:
                refs.append(("result", weakref.ref(r)))
            except TypeError:
                pass
            log.append("returned")
            for rec in (False, True):
                try:
                    r.unwrap(recover=rec)
                except rp.ParseError as e:
                    refs.append(("error", weakref.ref(e)))
                    str(e)
                    log.append("error")
        except Boom as e:
            refs.append(("exception", weakref.ref(e)))
            log.append("raised")
        except RuntimeError:
            log.append("runtime")
        s.hook = None

    for _ in range(3):
        if s.runs:
            one(rng.choice(s.runs))
            mon.ev("parses whose objects are traced")
    mon.ev("traced objects", len(refs))
    alive = [k for k, r in refs if r() is not None]
    if alive:
        gc.collect()
        alive = [k for k, r in refs if r() is not None]
    mon.case(("retention", repr(s.g), [repr(r[0]) for r in s.runs], log),
             bool(refs), lazy("retention", s.g, log))
    if alive:
        mon.fail("objects of finished parses are kept alive with the parser:"
                 " {}\n grammar: {}\n inputs: {}\n outcomes: {}".format(
                     sorted(set(alive)), s.g, [r[0] for r in s.runs], log))


def case(rng, idx, mon):
    x = rng.random()
    if x < .03:
        retention(rng, mon)
    elif x < .42:
        history(rng, mon)
    elif x < .48:
        interrupted(rng, mon)
    elif x < .5:
        worn(rng, mon)
    elif x < .8:
        nested(rng, mon)
    elif x < .98:
        threads(rng, mon)
    else:
        free(rng, mon)
