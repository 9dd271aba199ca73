"""Tokens, locations and reported errors are plain values."""
import copy
import pickle

import reparsec as rp
from reparsec.lexer import LexError, Token, split_tokens
from reparsec.sequence import eof, sym

from ..build import build
from ..common import (
    BIG, Cfg, Input, all_inputs, dense, enlarge, gen_grammar, lazy, ref,
    str_input)
from ..gen import L_SPEC
from ..impl import items, parse
from ..show import show

ID = "C25"
LEVEL = "exploration"
COUNTS = {"quick": 36000, "thorough": 600000}
MIN = {"errors copied": 60000, "errors with repairs": 25000,
       "equal errors compared": 30000, "changed items compared": 60000,
       "tokens copied": 40000, "lexing errors copied": 2500,
       "errors in containers": 10000, "large reports": 900, "assignments refused": 20000}
RULE = (
    "errors of random parses (text, token and plain locations, with and"
    " without repairs) are parsed twice and compared, compared with themselves"
    " after one reported fact was changed, and copied, deep copied and"
    " pickled (all protocols), alone and inside containers: type, message,"
    " items, locations by name and repairs are the same, changing a deep"
    " copy leaves the original alone; the same for tokens, which are equal"
    " and hash alike iff kind and value are, keep their locations and refuse"
    " assignment, and for lexing errors. Non-trivial: distinct (grammar,"
    " input, mode) and (source).")
ASSUMPTIONS = ["runs beyond the model's step budget are left out"]


def clones(mon, x, rng):
    try:
        yield from copies(x, rng)
    except Exception as e:
        mon.fail("copying or pickling {!r} raises {!r}".format(x, e))


def copies(x, rng):
    yield "copy", copy.copy(x)
    yield "deepcopy", copy.deepcopy(x)
    for p in rng.sample(range(pickle.HIGHEST_PROTOCOL + 1), 2):
        yield "pickle {}".format(p), pickle.loads(pickle.dumps(x, p))


def full(e):
    """All that an error reports, by attribute."""
    return [(type(i).__name__, type(i.loc).__name__, i.loc.pos, i.loc.line,
             i.loc.col) + x + (i.msg,) for i, x in zip(e.errors, items(e))]


def changed(rng, i):
    """The item with one reported fact changed."""
    j = copy.deepcopy(i)
    k = rng.randrange(6)
    if k == 0:
        j.loc = rp.Loc(j.loc.pos + 1, j.loc.line, j.loc.col)
    elif k == 1:
        j.loc = rp.Loc(j.loc.pos, j.loc.line, j.loc.col + 1)
    elif k == 2:
        j.loc_str = j.loc_str + " "
    elif k == 3:
        j.expected = j.expected + ["more"]
    elif type(j.op) is rp.Skip:
        j.op = rp.Skip(j.op.count + 1) if k == 4 else None
    elif type(j.op) is rp.Insert:
        j.op = rp.Insert(j.op.label + "'") if k == 4 else None
    else:
        j.op = rp.Skip(1) if k == 4 else rp.Insert("x")
    return j


NAMES = ["x", "x ", "\n", "{}", "\u00e9", "e\u0301", "\0", "\ud800", "",
         "y" * 300, "at 1:1: ", "a, b or c"]


def huge(rng):
    """Many expectations, many errors, long and strange labels."""
    n = int(2 ** rng.uniform(0, 8.5))
    names = [rng.choice(NAMES + [str(i)] * 8) for i in range(n)]
    p = sym(0).label(names[0])
    for i in range(1, n):
        p = p | sym(i).label(names[i])
    p = rng.choice([p, p.recover_with(-5, rng.choice(NAMES)), p.recover()])
    p = rng.choice([p, (p << sym(-1, rng.choice(NAMES))).many()]) << eof()
    m = int(2 ** rng.uniform(0, 6))
    s = [rng.choice([0, -1, -2, n - 1]) for _ in range(m)]
    s[rng.randrange(m):] = [-2] * rng.choice([1, 1, 2, 1000])
    return "{} alternatives".format(n), p, [str_input(None, s)]


def errors(rng, mon):
    if rng.random() < .06:
        g, p, inps = huge(rng)
        mon.ev("large reports")
    elif rng.random() < .15:
        g = dense(rng, True)
        inps = [str_input(g, rng.choice(list(all_inputs("abc", 3))))
                for _ in range(3)]
    else:
        g = gen_grammar(rng, Cfg(recovery=True, layout=rng.random() < .2))
        g, take = enlarge(rng, g, BIG, None, 300)
        inps = [Input(g, rng, take(fuel=30)) for _ in range(3)]
    if type(g) is not str:
        p = build(g, rng)
    for inp in inps:
        for recover in (False, True):
            if type(g) is not str:
                want = ref(mon, g, inp, recover, budget=8000)
                if want is None or want.kind not in ("fail", "rec"):
                    continue

            def get():
                try:
                    parse(p, inp.stream, recover, inp.how)().unwrap()
                except rp.ParseError as e:
                    return e
            e, e2 = get(), get()
            if e is None or e2 is None:
                continue
            what = "\n grammar: {}\n input: {}\n recover: {}".format(
                g, inp, recover)
            mon.case((repr(g), repr(inp), recover), True, lazy(g, inp, e))
            mon.ev("errors with repairs", e.errors[0].op is not None)
            mon.ev("equal errors compared")
            if not (e.errors == e2.errors) or e.errors != e2.errors:
                mon.fail("errors of equal parses are not equal: {!r} / {!r}{}"
                         .format(e.errors, e2.errors, what))
            for n, i in enumerate(e.errors[:20]):
                j = changed(rng, i)
                mon.ev("changed items compared")
                if i == j or not i != j:
                    mon.fail("different items are equal: {!r} / {!r}{}".format(
                        i, j, what))
            text, was = str(e), full(e)
            box = None
            if rng.random() < .3:
                mon.ev("errors in containers")
                box = [e, {"again": e}]
            for name, c in clones(mon, e if box is None else box, rng):
                if box is not None:
                    if c[0] is not c[1]["again"]:
                        mon.fail("{}: identity lost{}".format(name, what))
                    c = c[0]
                mon.ev("errors copied")
                if type(c) is not rp.ParseError or str(c) != text \
                        or full(c) != was or c.errors != e.errors:
                    mon.fail("{} of an error differs: {} / {}{}".format(
                        name, c, text, what))
                if name != "copy":
                    for i in c.errors:
                        i.expected.append("CHANGED")
                        i.loc_str = "CHANGED"
                        if type(i.op) is rp.Skip:
                            i.op.count += 1
                        elif i.op is not None:
                            i.op.label += "'"
                    c.errors.append(None)
                    if full(e) != was or str(e) != text:
                        mon.fail("{} shares parts with the original{}".format(
                            name, what))


def tokens(rng, mon):
    src = "".join(rng.choice(["a", "bc", "1", "23", " ", "\n", "+", "(", ")",
                              " \n ", ",", "?"] if rng.random() < .95 else
                             ["a"]) for _ in range(rng.randint(1, 12)))
    if rng.random() < .7:
        src = src.replace("?", "")
    mon.case(src, bool(src), src)
    try:
        ts = split_tokens(src, L_SPEC)
    except LexError as e:
        for name, c in clones(mon, e, rng):
            mon.ev("lexing errors copied")
            if type(c) is not LexError or str(c) != str(e) or c.loc != e.loc \
                    or type(c.loc) is not rp.Loc:
                mon.fail("{} of a lexing error differs: {} / {} ({!r})".format(
                    name, c, e, src))
        return
    if rng.random() < .2:
        odd = NAMES + [src, "x" * 5000]
        ts = [Token(rng.choice(odd), rng.choice(odd), *[
            rp.Loc(*[rng.choice([0, 1, 7, 10 ** 12, -1]) for _ in range(3)])
            for _ in range(rng.randint(0, 2))]) for _ in range(3)] * 2 + ts
        mon.ev("odd tokens")
    for t in ts[:6]:
        for name, c in clones(mon, t, rng):
            mon.ev("tokens copied")
            if type(c) is not Token or show(c) != show(t) or c != t \
                    or hash(c) != hash(t) or not (c == t):
                mon.fail("{} of a token differs: {} / {} ({!r})".format(
                    name, show(c), show(t), src))
        for u in (Token(t.kind, t.value), Token(t.kind, t.value, t.end,
                                                t.start)):
            if u != t or not u == t or hash(u) != hash(t) or len({u, t}) != 1:
                mon.fail("tokens of the same kind and value differ: {} / {}"
                         .format(show(u), show(t)))
        for u in (Token(t.kind + "x", t.value), Token(t.kind, t.value + "x"),
                  Token(t.value, t.kind) if t.value != t.kind else None,
                  (t.kind, t.value)):
            if u == t or not u != t:
                mon.fail("different tokens are equal: {!r} / {!r}".format(
                    u, t))
        was = show(t)
        for n in ("kind", "value", "start", "end"):
            mon.ev("assignments refused")
            try:
                setattr(t, n, getattr(t, n))
            except AttributeError:
                pass
            else:
                mon.fail("a token's {} can be assigned".format(n))
            try:
                delattr(t, n)
            except AttributeError:
                pass
            else:
                mon.fail("a token's {} can be deleted".format(n))
        if show(t) != was:
            mon.fail("a token changed: {} / {}".format(was, show(t)))
    by = {}
    for n, t in enumerate(ts):
        by.setdefault(t, []).append(n)
    want = {}
    for n, t in enumerate(ts):
        want.setdefault((t.kind, t.value), []).append(n)
    if [(k.kind, k.value, v) for k, v in by.items()] != [
            k + (v,) for k, v in want.items()]:
        mon.fail("tokens as dictionary keys: {} / {}".format(by, want))


def case(rng, idx, mon):
    if rng.random() < .25:
        tokens(rng, mon)
    else:
        errors(rng, mon)
