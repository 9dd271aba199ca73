"""Results: repeated unwrap, mapping laws, error texts."""
import reparsec as rp
from reparsec.lexer import LexError, split_tokens

from .. import real
from ..build import build
from ..common import (
    Cfg, Input, all_inputs, dense, enlarge, gen_grammar, lazy, ref, str_input)
from ..impl import items, parse
from ..scale import size
from ..show import show

ID = "C17"
LEVEL = "exploration"
COUNTS = {"quick": 65000, "thorough": 800000}
MIN = {"unwraps": 400000, "mapped results": 60000, "mapped, recovered": 12000,
       "mapped, failed": 12000, "messages": 80000, "messages with repair":
       25000, "constructed messages": 20000, "3+ expectations": 15000,
       "2+ errors": 6000, "no expectations": 3000, "skip 1": 2000,
       "skip n": 2000, "inserted": 6000}
RULE = (
    "random recovery grammars and inputs, plain and recovering, with default,"
    " text, token and random user location formats: every result is unwrapped"
    " in random orders, mapped with random (composed, identity, constant)"
    " functions before and after, in trees of mappings, and compared with the"
    " function applied to the value and with unchanged errors; each message"
    " and exception text is compared with one written by a reference printer"
    " from the reported fields, also for error items made by hand (any labels,"
    " counts, locations). Non-trivial: distinct (grammar, input, mode) and"
    " hand-made items.")
ASSUMPTIONS = ["runs beyond the model's step budget are left out"]


def text(loc_str, expected, op):
    n = len(expected)
    if n == 0:
        t = "unexpected input"
    else:
        t = "expected "
        for i, x in enumerate(expected):
            if i:
                t += " or " if i == n - 1 else ", "
            t += x
    if type(op) is rp.Skip:
        t += " (skipped " + str(op.count) + (
            " token)" if op.count == 1 else " tokens)")
    elif op is not None:
        t += " (inserted " + op.label + ")"
    return "at " + loc_str + ": " + t


def check_text(mon, e, what):
    want = []
    for x in e.errors:
        t = text(x.loc_str, list(x.expected), x.op)
        want.append(t)
        mon.ev("messages")
        mon.ev("messages with repair", x.op is not None)
        mon.ev("3+ expectations", len(x.expected) > 2)
        mon.ev("no expectations", not x.expected)
        if type(x.op) is rp.Skip:
            mon.ev("skip 1" if x.op.count == 1 else "skip n")
        elif x.op is not None:
            mon.ev("inserted")
        if x.msg != t or type(x.msg) is not str:
            mon.fail("message {!r} for {!r}, should be {!r}\n{}".format(
                x.msg, x, t, what))
    mon.ev("2+ errors", len(want) > 1)
    if str(e) != ", ".join(want):
        mon.fail("exception text {!r}, should be {!r}\n{}".format(
            str(e), ", ".join(want), what))


def get(r, recover):
    try:
        return ("value", show(r.unwrap(recover=True) if recover
                              else r.unwrap()))
    except rp.ParseError as e:
        return ("error", items(e), str(e))


FNS = [lambda v: (v,), lambda v: [v, v], lambda v: show(v), lambda v: None,
       lambda v: v, lambda v: ("tag", v), lambda v: not v, lambda v: 7]


def laws(rng, mon, r, what):
    """r: a fresh result."""
    want = [get(r, False), get(r, True)]
    mapped = [(r, None, want)]
    v = base = None
    has = want[1][0] == "value"
    if has:
        base = r.unwrap(recover=True)

    def again(n):
        for _ in range(n):
            q, _, w = rng.choice(mapped)
            k = rng.randrange(2)
            mon.ev("unwraps")
            got = get(q, k == 1)
            if got != w[k]:
                mon.fail("unwrap(recover={}) changed\n{}\n first: {}\n later:"
                         " {}".format(k == 1, what, w[k], got))
    again(4)
    n = rng.choice([1, 2, 4])
    if rng.random() < .003:
        n = 40
    for _ in range(n):
        q, path, w = rng.choice(mapped)
        path = path or []
        f = rng.choice(FNS)
        m = q.fmap(f)
        if has:
            v = base
            for g in path + [f]:
                v = g(v)
            v = show(v)
        w2 = [("value", v) if x[0] == "value" else x for x in want]
        mon.ev("mapped results")
        mon.ev("mapped, recovered", want[0][0] == "error" and
               want[1][0] == "value")
        mon.ev("mapped, failed", want[1][0] == "error")
        for k in rng.sample([0, 1], 2):
            got = get(m, k == 1)
            if got != w2[k]:
                mon.fail("mapped result, unwrap(recover={})\n{}\n expected: {}"
                         "\n observed: {}".format(k == 1, what, w2[k], got))
        mapped.append((m, path + [f], w2))
        again(3)
    again(4)
    for k in (False, True):
        try:
            r.unwrap(recover=k)
        except rp.ParseError as e:
            check_text(mon, e, what)
    # the flag may also be given by position
    if get(r, True)[:2] != _pos(r):
        mon.fail("unwrap(True) differs from unwrap(recover=True)\n" + str(
            what))


def _pos(r):
    try:
        return ("value", show(r.unwrap(True)))
    except rp.ParseError as e:
        return ("error", items(e))


FMT = [lambda l: "<{},{},{}>".format(*l), lambda l: "", lambda l: "line %d" % (
    l.line), lambda l: "a, b or c", lambda l: str(tuple(l))]


def random_case(rng, mon):
    if rng.random() < .3:
        g = dense(rng, True)
        every = list(all_inputs("abc", 3))
        inps = [str_input(g, s) for s in rng.sample(every, 6)]
    else:
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .8,
                                 layout=rng.random() < .1))
        g, take = enlarge(rng, g, top=1500)
        inps = [Input(g, rng, take()) for _ in range(4)]
    p = build(g, rng)
    for inp in inps:
        recover = rng.random() < .7
        mi = 5
        kw = {}
        if inp.how == "default" or rng.random() < .3:
            if rng.random() < .3:
                mi = kw["max_insertions"] = rng.choice([0, 1, 2, 3, 4, 7])
            if rng.random() < .3:
                kw["fmt_loc"] = rng.choice(FMT)
        want = ref(mon, g, inp, recover, mi)
        if want is None or want.kind == "exc":
            continue
        r = parse(p, inp.stream, recover, inp.how, **kw)()
        what = lazy(g, inp, recover, want)
        mon.case((repr(g), repr(inp), recover, mi, bool(kw)), sample=what)
        laws(rng, mon, r, what)


LABS = ["x", "'a'", "", "end of file", "a, b", "b or c", "(x)", "é", "\n",
        "%s", "{}", "{0}", "0", "\\"]


def by_hand(rng, mon):
    errs = []
    n = rng.choice([0, 1, 1, 2, 3, 6])
    if rng.random() < .01:
        n = size(rng, 1200)
    for _ in range(n):
        op = rng.choice([
            None, rp.Skip(1), rp.Skip(0), rp.Skip(rng.randrange(1, 300)),
            rp.Skip(size(rng, 10**7)),
            rp.Insert(rng.choice(LABS))])
        exp = [rng.choice(LABS) for _ in range(rng.choice(
            [0, 1, 2, 2, 3, 4, 9]) if rng.random() < .98 else size(
                rng, 300))]
        loc = rp.Loc(rng.randrange(99), rng.randrange(9), rng.randrange(9))
        ls = rng.choice(["1:2", "", "at", "7", "x: y", repr(loc)])
        if op is None and rng.random() < .5:
            errs.append(rp.ErrorItem(loc, ls, exp))
        else:
            errs.append(rp.ErrorItem(loc, ls, exp, op))
    mon.ev("constructed messages", len(errs))
    e = rp.ParseError(errs)
    if e.errors != errs or not isinstance(e, Exception):
        mon.fail("ParseError does not keep its errors: {!r}".format(errs))
    mon.case(repr(errs), sample=repr(errs))
    check_text(mon, e, "made by hand")


def case(rng, idx, mon):
    if rng.random() < .6:
        random_case(rng, mon)
    else:
        for _ in range(3):
            by_hand(rng, mon)
