"""User functions: called exactly once per match; exceptions pass through."""
import asyncio
import re
from collections import Counter

import reparsec as rp
from reparsec import scannerless
from reparsec.lexer import LexError, token
from reparsec.primitive import PureFn
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof, satisfy, sym

from .. import real
from ..build import Builder
from ..common import (
    Cfg, Input, Model, Skip, all_inputs, dense, gen_grammar, lazy, observe,
    enlarge, outcome, parse, str_input, wrapped)
from ..impl import items
from ..show import show

ID = "C18"
LEVEL = "fault_enumeration"
COUNTS = {"quick": 40000, "thorough": 420000}
MIN = {"plain logs": 35000, "recovery logs": 14000, "user calls": 80000,
       "failed plain logs": 12000, "faults injected": 60000,
       "faults in recovery mode": 30000, "faults while recovering": 15000,
       "reparses after a fault": 30000, "location function faults": 4000,
       "formatter faults": 1500, "mapping of results": 1000,
       "operators called": 9000}
RULE = (
    "random grammars whose user functions (fmap, bind, apply, operators,"
    " operator makers, PureFn, replacement functions) write every call and"
    " argument to a log: plain, and with recovery on valid input, the log is"
    " the one of the reference semantics (in order; operator applications as"
    " a multiset and in dependency order). Then for the calls 1..n of all user"
    " functions including predicates, location functions and formatters of the"
    " same parse, plain and recovering, on valid and invalid input, one"
    " exception each (16 classes) is raised at that call (every call if there"
    " are few, else a sample): the same object must reach the caller, and"
    " parses afterwards must give the outcome from before. Non-trivial:"
    " distinct (grammar, input, mode) and (…, call, class).")
ASSUMPTIONS = [
    "predicates may be called any number of times (only their exceptions are"
    " judged)", "StopIteration, which Python itself converts inside"
    " generators, is judged only without recovery and for functions on values", "runs beyond the model's step budget are left out"]


class Own(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


class OwnBase(BaseException):
    pass


class OwnStop(StopIteration):
    pass


class OwnRuntime(RuntimeError):
    pass


EXC = [
    lambda: ValueError("v"), lambda: IndexError("i"), lambda: KeyError("k"),
    lambda: TypeError("t"), lambda: AttributeError("a"),
    lambda: StopIteration("s"), lambda: OwnStop(1),
    lambda: RuntimeError("parser shouldn't accept empty string"),
    lambda: OwnRuntime(), lambda: RecursionError("r"),
    lambda: rp.ParseError([]), lambda: LexError(rp.Loc(1, 2, 3)),
    lambda: Own(1, 2), lambda: OwnBase("b"), lambda: KeyboardInterrupt(),
    lambda: GeneratorExit(), lambda: AssertionError(), lambda: MemoryError(),
    lambda: LookupError(), lambda: StopAsyncIteration(),
    lambda: ZeroDivisionError(), lambda: SystemExit(3),
    lambda: NotImplementedError("n"), lambda: OSError(2, "o"),
    lambda: EOFError(), lambda: OverflowError(), lambda: UnicodeError("u"),
    lambda: re.error("r"), lambda: ExceptionGroup("g", [ValueError()]),
    lambda: asyncio.CancelledError(), lambda: Warning("w"),
    lambda: BufferError(), lambda: Exception(), lambda: BaseException(1)]

OPS = ("op",)


def split_log(log):
    seq = [(e[0], *map(show, e[1:])) for e in log if e[0] not in OPS + (
        "sat",)]
    ops = Counter((e[0], *map(show, e[1:])) for e in log if e[0] in OPS)
    return seq, ops


class Recorder:
    """Writes calls to a log, and raises at a chosen one."""

    def __init__(self):
        self.log = []
        self.at = None
        self.exc = None
        self.n = 0
        self.kind = None

    def reset(self, at=None, exc=None):
        self.log = []
        self.n = 0
        self.at = at
        self.exc = exc
        self.kind = None

    def __call__(self, *a):
        self.n += 1
        if self.n == self.at:
            self.kind = a[0]
            raise self.exc
        self.log.append(a)


def subject(rng):
    if rng.random() < .2:
        g = dense(rng, True)
        every = list(all_inputs("abc", 3))
        return g, [str_input(g, s) for s in rng.sample(every, 4)]
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .75,
                             layout=rng.random() < .15))
    if rng.random() < .3:
        g = wrapped(rng, g)
    g, take = enlarge(rng, g, top=600)
    return g, [Input(g, rng, take()) for _ in range(3)]


def check_log(mon, g, inp, recover, want, got, what):
    a, b = split_log(want), split_log(got)
    mon.ev("user calls", len(got))
    mon.ev("operators called", sum(b[1].values()))
    if a != b:
        mon.fail("user function calls ({}, recover={})\n grammar: {}\n input:"
                 " {}\n expected: {}\n observed: {}".format(
                     what, recover, g, inp, a, b))


def case(rng, idx, mon):
    if rng.random() < .12:
        return by_hand(rng, mon)
    g, inps = subject(rng)
    rec = Recorder()
    p = Builder(g, rng, rec).parser
    for inp in inps:
        want = []
        m = Model(g, inp.stream, inp.locf, lambda *a: want.append(a))
        try:
            o = outcome(m, False)
            r = outcome(Model(g, inp.stream, inp.locf), True)
        except Skip:
            mon.ev("skipped: beyond the model's budget")
            continue
        if o.kind == "exc" or r.kind == "exc":
            continue
        rec.reset()
        got = observe(parse(p, inp.stream, False, inp.how), False)
        mon.case((repr(g), repr(inp)), sample=lazy(g, inp, got, rec.log))
        mon.ev("plain logs")
        mon.ev("failed plain logs", o.kind != "ok")
        check_log(mon, g, inp, False, want, rec.log, "plain")
        if o.kind == "ok":
            rec.reset()
            kw = {}
            if inp.how == "default" or rng.random() < .5:
                kw["max_insertions"] = rng.choice([0, 1, 2, 5, 9])
            got = observe(parse(p, inp.stream, True, inp.how, **kw), True)
            mon.ev("recovery logs")
            check_log(mon, g, inp, True, want, rec.log, "valid input")
        if rng.random() < .7:
            faults(rng, mon, g, p, rec, inp)


def faults(rng, mon, g, p, rec, inp):
    recover = rng.random() < .65
    own_loc = inp.how == "default" and rng.random() < .5
    kw = {}
    if own_loc:
        def get_loc(loc, stream, pos):
            rec("get_loc", loc, pos)
            return rp.Loc(pos, loc.line + 1, 0)

        def fmt_loc(loc):
            rec("fmt_loc", loc)
            return "L{}".format(loc[0])
        kw = {"get_loc": get_loc, "fmt_loc": fmt_loc}

    def go():
        return parse(p, inp.stream, recover, inp.how, **kw)()

    def full():
        r = go()
        try:
            r.unwrap(recover=True)
        except rp.ParseError as e:
            if not e.errors:
                raise
        try:
            r.unwrap()
        except rp.ParseError as e:
            if not e.errors:
                raise

    def outcome_now():
        rec.reset()
        return observe(go, recover)

    before = outcome_now()
    if before.kind == "exc":
        return
    rec.reset()
    full()
    n = rec.n
    kinds_of = [a[0] for a in rec.log]
    if not n:
        return
    ks = range(1, n + 1) if n <= 6 else sorted(rng.sample(
        range(1, n + 1), 6))
    for k in ks:
        e = rng.choice(EXC)()
        if isinstance(e, StopIteration) and (
                recover or kinds_of[k - 1] in ("sat", "get_loc", "fmt_loc")):
            continue
        args = e.args
        attrs = dict(vars(e))
        rec.reset(k, e)
        caught = None
        try:
            full()
        except BaseException as x:
            caught = x
        mon.ev("faults injected")
        mon.ev("faults in recovery mode", recover)
        mon.ev("faults while recovering", before.kind == "rec")
        mon.ev("location function faults", rec.kind == "get_loc")
        mon.ev("formatter faults", rec.kind == "fmt_loc")
        mon.ev("fault in " + str(rec.kind))
        mon.case((repr(g), repr(inp), recover, k, type(e).__name__))
        if caught is not e:
            mon.fail("exception {!r} raised by a user function ({}, call {} of"
                     " {}) reaches the caller as {!r} (recover={})\n grammar:"
                     " {}\n input: {}".format(e, rec.kind, k, n, caught,
                                              recover, g, inp))
        if e.args != args or e.__cause__ is not None or \
                e.__suppress_context__ or vars(e) != attrs:
            mon.fail("exception {!r} was changed".format(e))
        e.__traceback__ = None
        if rng.random() < .6 or k == ks[-1]:
            after = outcome_now()
            mon.ev("reparses after a fault")
            if after.key() != before.key():
                mon.fail("outcome after an exception differs (recover={},"
                         " {!r} at call {})\n grammar: {}\n input: {}\n before"
                         ": {}\n after: {}".format(recover, e, k, g, inp,
                                                   before, after))


# --- constructs outside the random grammars ----------------------------------

ODD = [(x,) for x in (
    NotImplemented, None, ..., False, 0, "", (), StopIteration("x"),
    ValueError("x"), ValueError, float("nan"), type, [], rp.Delay())]


def by_hand(rng, mon):
    """Counting user functions of long repetitions and results."""
    n = rng.choice([0, 1, 2, 7, 40])
    log = []
    k = rng.randrange(5)
    # what a function returns is of no interest
    odd = rng.choice(ODD) if rng.random() < .6 else None

    def f(v):
        log.append(v)
        return v if odd is None else odd[0]
    item = rng.choice([lambda: sym("a"), lambda: literal("a"),
                       lambda: regexp("a"), lambda: satisfy("a".__eq__),
                       lambda: rp.attempt(sym("a"))])()
    p = item.fmap(f)

    def two(a, b):
        if odd is None:
            return f(a + b)
        log.append((a, b))
        return odd[0]
    if k == 0:
        q, s, want = p.many(), "a" * n, ["a"] * n
    elif k == 1:
        q, s = p.sep_by(sym(",").fmap(f)), ",".join("a" * n)
        want = list(s)
    elif k == 2:
        n = max(n, 1)
        op = sym("+").fmap(lambda _: two)
        q, s = item.chainl1(op), "+".join("a" * n)
        want = ["a" * i for i in range(2, n + 1)]
        if odd is not None:
            want = [("a" if i == 1 else odd[0], "a") for i in range(1, n)]
    elif k == 3:
        n = max(n, 1)
        op = sym("+").fmap(lambda _: two)
        q, s = item.chainr1(op), "+".join("a" * n)
        want = ["a" * i for i in range(2, n + 1)]
        if odd is not None:
            want = [("a", "a" if i == 1 else odd[0]) for i in range(1, n)]
    else:
        m = rng.randint(2, 8)
        q = p.then(p)
        for _ in range(m - 2):
            q = q.then(p)

        def g(*a):
            log.append(a if odd is None else ("a",) * len(a))
            return f.__class__ if odd is None else odd[0]
        q = q.apply(g).many()
        s = "a" * (m * n)
        want = (["a"] * m + [("a",) * m]) * n
    q = q << eof()
    for recover in (False, True):
        del log[:]
        r = q.parse(s, recover)
        r.unwrap()
        mon.case(("hand", k, n, s, recover, rng.random()))
        mon.ev("plain logs" if not recover else "recovery logs")
        mon.ev("user calls", len(log))
        mon.ev("operators called", len(log) if k in (2, 3) else 0)
        if log != want:
            mon.fail("user calls of form {} over {!r} (recover={}): {}"
                     " instead of {}".format(k, s, recover, log, want))
    # a function mapped over a result
    e = rng.choice(EXC)()
    r = q.parse(s, rng.random() < .5)
    keep = show(r.unwrap())

    def bad(v):
        raise e
    caught = None
    try:
        r.fmap(bad).unwrap()
    except BaseException as x:
        caught = x
    mon.ev("mapping of results")
    mon.ev("faults injected")
    if caught is not e or show(r.unwrap()) != keep:
        mon.fail("function mapped over a result raises {!r}, caller sees {!r}"
                 .format(e, caught))
