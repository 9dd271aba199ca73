"""Parsing has no effects of its own and depends on no interpreter setting."""
import hashlib
import json
import os
import logging
import random
import re
import subprocess
import sys

import reparsec as rp
from reparsec.lexer import LexError, split_tokens

from . import c10
from ..build import Builder, trap
from ..common import (
    Cfg, Input, all_inputs, dense, enlarge, gen_grammar, lazy, parse, ref,
    str_input)
from ..effects import Watch
from ..env import REPO
from ..runner import Inconclusive, ROOT

ID = "C24"
LEVEL = "exploration"
COUNTS = {"quick": 9000, "thorough": 160000}
MIN = {"parses watched": 25000, "watched ok": 6000, "watched failed": 6000,
       "watched recovered": 4000, "watched user exceptions": 1000,
       "user objects compared": 60000, "audit hook alive": 30,
       "settings compared": 100, "lexers watched": 300, "outcomes under settings": 20000}
RULE = (
    "(a) random grammars, built, run and their results read, and random"
    " lexers, while an audit hook, replaced output streams, a log handler, a"
    " warning recorder and snapshots of the interpreter's global state"
    " (recursion limit, gc, random, signals, threads, files, modules, their"
    " attributes, hooks, builtins, limits, umask, ...) watch: nothing happens"
    " and nothing changes, neither in attributes of the user's functions,"
    " streams and elements, after values, errors, recoveries and exceptions"
    " of user functions; (b) the same cases in child interpreters with other"
    " settings (hash seed, -O, -OO, -I, -W error, -X dev, gc off or eager,"
    " tracing, monitoring, locale, time zone, thread with a larger stack,"
    " subinterpreter, fork, event loop, library in an archive, an environment"
    " in which every variable is set, jumping clocks, constant signals, no"
    " standard streams, the cases in reverse order or twice): the same"
    " outcomes. Non-trivial: distinct (grammar, input, mode).")
ASSUMPTIONS = [
    "user functions of the workload have no effects themselves"]


class Boom(Exception):
    pass


class Attr(str):
    """An element with a __dict__."""


class Attrs(list):
    """A stream with a __dict__."""


SETTINGS = [
    (["-O"], {}, []), (["-OO"], {}, []), (["-W", "error"], {}, []),
    (["-X", "dev"], {}, []), ([], {"PYTHONHASHSEED": "1"}, []),
    ([], {"PYTHONHASHSEED": "77"}, []), ([], {"PYTHONHASHSEED": "random"}, []),
    ([], {}, ["nogc"]), ([], {}, ["gc"]), ([], {}, ["deep"]),
    ([], {}, ["trace"]), ([], {}, ["profile"]), ([], {}, ["random"]),
    ([], {}, ["thread"]), (["-X", "utf8=0"], {"LC_ALL": "C"}, []),
    (["-X", "utf8"], {"LC_ALL": "C.UTF-8"}, []),
    (["-bb"], {}, []), ([], {}, ["environment"]), ([], {}, ["clocks"]),
    ([], {}, ["digits"]), ([], {}, ["streams"]), ([], {}, ["argv"]),
    ([], {}, ["signals"]), ([], {}, ["archive"]), ([], {}, ["monitoring"]),
    ([], {}, ["sub"]), ([], {}, ["async"]), ([], {}, ["context"]),
    ([], {}, ["fork"]), ([], {}, ["reverse"]), ([], {}, ["twice"]),
    (["-X", "tracemalloc"], {"TZ": "Asia/Kathmandu"}, []),
    (["-I"], {}, []), (["-X", "no_debug_ranges"], {}, ["reverse"]), (["-O", "-W", "error"], {"PYTHONHASHSEED": "3"}, ["gc"]),
]


def child(flags, env, how, seed, n):
    e = {k: v for k, v in os.environ.items() if not k.startswith(
        ("PYTHON", "LC_", "LANG"))}
    e.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1",
             PYTHONNOUSERSITE="1", REPARSEC_REPO=REPO)
    e.update(env)
    try:
        r = subprocess.run(
            [sys.executable, *flags, "-P", "-B",
             os.path.join(ROOT, "vlib", "child.py"), seed, str(n), *how],
            capture_output=True, env=e, cwd="/", timeout=120)
    except subprocess.TimeoutExpired:
        raise Inconclusive("child interpreter does not finish")
    return r.returncode, r.stdout.decode(), r.stderr.decode()[-1500:]


def settings(rng, mon):
    seed = "{:x}".format(rng.getrandbits(60))
    n = 120
    rc, base, err = child([], {}, [], seed, n)
    if rc:
        mon.fail("child interpreter fails: {}".format(err))
    for flags, env, how in rng.sample(SETTINGS, 5):
        rc, out, err = child(flags, env, how, seed, n)
        mon.ev("settings compared")
        what = " ".join(flags + ["{}={}".format(*x) for x in env.items()]
                        + how)
        if rc:
            mon.fail("fails under {}: {}".format(what, err))
        a, b = base.split("\n"), out.split("\n")
        mon.ev("outcomes under settings", len(a))
        for x, y in zip(a, b):
            if x != y:
                mon.fail("the outcome depends on the interpreter's settings"
                         " ({})\n usual: {}\n here: {}".format(
                             what, json.loads(x), json.loads(y)))
        if len(a) != len(b):
            mon.fail("other cases under {}".format(what))
        mon.case(("settings", seed, what, hashlib.md5(
            base.encode()).hexdigest()), True, lazy(what, a[0][:300]))


def watch(rng, mon, judge=True):
    if rng.random() < .15:
        g = dense(rng, True)
        inps = [str_input(g, rng.choice(list(all_inputs("abc", 3))))
                for _ in range(2)]
    else:
        g = gen_grammar(rng, Cfg(recovery=True, layout=rng.random() < .3))
        g, take = enlarge(rng, g, top=400)
        inps = [Input(g, rng, take(fuel=40)) for _ in range(2)]
    left = [-1]

    def event(name, *a):
        left[0] -= 1
        if left[0] == -1:
            raise Boom()
    runs = []
    for inp in inps:
        for recover in (False, True):
            mi = rng.choice([0, 1, 4, 5, 5, 7])
            want = ref(mon, g, inp, recover, mi, budget=8000)
            if want is None:
                continue
            s = inp.stream
            if type(s) is list and all(type(x) is str for x in s):
                s = Attrs(map(Attr, s))
                s.mine = 1
                for x in s:
                    x.mine = 2
            runs.append((inp, s, recover, {} if mi == 5 else {
                "max_insertions": mi}))
    seed = rng.random()

    def locf(loc, stream, pos):
        return rp.Loc(pos, 1, pos)

    def fmt(loc):
        return "L{}".format(loc[0])

    if not judge:
        b = Builder(g, random.Random(seed))
        for inp, s, recover, kw in runs:
            try:
                observe_plain(b.parser, s, recover, inp.how, kw)
            except RuntimeError:
                pass
        return
    with Watch() as watched:
        b = Builder(g, random.Random(seed), event)
    if watched.report():
        mon.fail("building a parser has effects: {}\n grammar: {}".format(
            watched.report(), g))
    for inp, s, recover, kw in runs:
        boom = rng.random() < .3
        if boom:
            left[0] = rng.randint(0, 5)
        if kw and rng.random() < .3:
            kw = dict(kw, get_loc=locf, fmt_loc=fmt)
        o = None
        exc = None
        try:
            with Watch() as watched:
                try:
                    o = observe_plain(b.parser, s, recover, inp.how, kw)
                except Boom:
                    exc = "user"
                except RuntimeError:
                    exc = "runtime"
        finally:
            left[0] = -1
        mon.ev("parses watched")
        mon.ev("watched user exceptions", exc == "user")
        if o is not None:
            mon.ev("watched " + o)
        mon.case((repr(g), repr(inp), recover, exc), True, lazy(g, inp, o))
        what = watched.report()
        if not what:
            if type(s) is Attrs:
                mon.ev("user objects compared", len(s) + 1)
                if vars(s) != {"mine": 1} or any(
                        vars(x) != {"mine": 2} for x in s):
                    what = "attributes of the input changed"
            for f in (locf, fmt):
                mon.ev("user objects compared")
                if vars(f):
                    what = "attributes of a user function changed"
        if what:
            mon.fail("parsing has effects: {}\n grammar: {}\n input: {}\n"
                     " recover: {} {}".format(what, g, inp, recover, kw))
    for f in functions(b.parser):
        mon.ev("user objects compared")
        if vars(f) not in ({}, {"__wrapped__": trap}):
            mon.fail("attributes of a user function changed: {} {}\n"
                     " grammar: {}".format(f, vars(f), g))


def lexing(rng, mon):
    pat, flags, ex = c10.spec(rng)
    try:
        sp = re.compile(pat, flags)
    except re.error:
        return
    src = c10.source(rng, ex, sp)
    with Watch() as watched:
        try:
            x = split_tokens(src, sp)
            repr(x), set(x)
        except LexError as e:
            str(e), repr(e)
    mon.ev("lexers watched")
    mon.case(("lexer", pat, src), True, lazy(pat, src))
    if watched.report():
        mon.fail("lexing has effects: {}\n specification: {}\n source: {!r}"
                 .format(watched.report(), pat, src))


def functions(parser):
    """User functions of the harness reachable from a parser's closures."""
    seen = set()
    todo = [parser]
    while todo and len(seen) < 3000:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if hasattr(x, "__closure__"):
            if (x.__module__ or "").startswith("vlib."):
                yield x
                continue
            for c in x.__closure__ or ():
                try:
                    todo.append(c.cell_contents)
                except ValueError:
                    pass
        elif (type(x).__module__ or "").startswith("reparsec"):
            for c in type(x).__mro__:
                for n in getattr(c, "__slots__", ()) or ():
                    if isinstance(n, str) and hasattr(x, n):
                        todo.append(getattr(x, n))
            todo.extend(getattr(x, "__dict__", {}).values())


def observe_plain(p, s, recover, how, kw):
    r = parse(p, s, recover, how, **kw)()
    try:
        r.unwrap()
        return "ok"
    except rp.ParseError as e:
        str(e), [i.msg for i in e.errors], repr(e.errors)
    try:
        r.fmap(lambda v: v).unwrap(True)
        return "recovered"
    except rp.ParseError as e:
        str(e)
        return "failed"


def alive(rng, mon):
    """The watching itself works."""
    with Watch() as w:
        os.listdir("/")
    if not w.events:
        raise Inconclusive("the audit hook does not work")
    with Watch() as w:
        print("x")
        logging.getLogger("reparsec").debug("x")
        sys.setrecursionlimit(sys.getrecursionlimit() + 1)
    sys.setrecursionlimit(sys.getrecursionlimit() - 1)
    if not w.out.getvalue() or not w.logs.seen or "recursion limit" not in w.changed:
        raise Inconclusive("the watch does not work")
    mon.ev("audit hook alive")


warm = []


def case(rng, idx, mon):
    if not warm:
        # imports done late are no effect of parsing: let them happen first
        warm.append(1)
        with Watch() as w:
            for _ in range(20):
                watch(rng, mon, False)
        for k in ("modules", "registries", "library", "logging", "atexit"):
            w.changed.pop(k, None)
        del w.events[:]
        if w.report():
            mon.fail("parsing has effects (first use): " + w.report())
    x = rng.random()
    if x < .005:
        alive(rng, mon)
    elif x < .009:
        settings(rng, mon)
    elif x < .06:
        lexing(rng, mon)
    else:
        watch(rng, mon)
