"""Locations: true lines and columns, and the location function protocol."""
import re

import reparsec as rp
from reparsec import scannerless
from reparsec.scannerless import literal, regexp
from reparsec.sequence import sym

from .. import real
from ..build import build
from ..common import (
    Cfg, Input, enlarge, fmt_linecol, gen_grammar, kinds, lazy, limit, ref,
    wrapped)
from ..gen import text_loc
from ..impl import items
from ..scale import size
from ..steps import StepLimit, Steps

ID = "C09"
LEVEL = "exploration"
COUNTS = {"quick": 65000, "thorough": 900000}
MIN = {"text reports": 25000, "multi-line errors": 8000, "later errors": 4000,
       "default reports": 15000, "protocol calls": 100000,
       "custom reports": 15000, "long texts": 150,
       "texts over 500": 800, "odd texts": 2500, "odd texts over 1000": 100}
RULE = (
    "random grammars over strings with many newlines (literals, patterns and"
    " symbols spanning them, layout, recovery) on corrupted multi-line inputs,"
    " plain and recovering: with the text helper each reported location is"
    " compared with line and column counted from the text, with the default"
    " parse it is the bare offset and both report the same offsets; an"
    " incremental user location function (weighted columns, over strings and"
    " arbitrary sequences) checks each call's arguments and its results are"
    " compared with a computation from scratch; a user formatter is compared"
    " for every error. Texts of control characters, other line separators,"
    " combining characters and surrogates, consumed in pieces of any size."
    " Long JSON texts with late errors. Non-trivial: distinct"
    " failing (grammar, input, mode).")
ASSUMPTIONS = ["the offsets themselves are judged by C02 and C08"]


def errors_of(r):
    try:
        r.unwrap()
    except rp.ParseError as e:
        return items(e), e.errors
    return None, None


def check_text(mon, what, t, recover, errs, raw):
    mon.ev("text reports")
    for i, ((loc, s, _, _), e) in enumerate(zip(errs, raw)):
        true = text_loc(t, loc[0]) if 0 <= loc[0] <= len(t) else None
        mon.ev("later errors", i > 0)
        mon.ev("multi-line errors", loc[1] > 0)
        if loc != true or s != fmt_linecol(true) or type(
                e.loc) is not rp.Loc or e.loc != rp.Loc(*true):
            mon.fail("wrong location in a text\n grammar: {}\n text: {!r}\n"
                     " recover: {}\n reported: {} {}\n true: {}\n errors: {}"
                     .format(what, t, recover, loc, s, true, errs))


def text_case(rng, mon):
    lay = rng.random() < .3
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .8, layout=lay), "S")
    if rng.random() < .5:
        g.alphabet = g.alphabet + ["\n", "a\n", "\n\n"]
    g, take = enlarge(rng, g, top=3000)
    if rng.random() < .4:
        g = wrapped(rng, g)
    p = build(g, rng)
    lay = bool({"block", "aligned", "indented"} & kinds(g))
    for _ in range(4):
        xs = take(rng.choice([1, 1, 2, 3]), fuel=40)
        if rng.random() < .5:
            xs.insert(rng.randint(0, len(xs)), "\n")
        inp = Input(g, rng, xs, "text")
        t = inp.stream
        mon.ev("texts over 500", len(t) > 500)
        for recover in (False, True):
            # long texts cost more than the model's steps say
            want = ref(mon, g, inp, recover, budget=min(
                20000, 60000 - 30 * len(t)))
            if want is None or want.kind == "exc":
                continue
            errs, raw = errors_of(scannerless.parse(p, t, recover))
            if errs is None:
                continue
            mon.case((repr(g), t, recover), sample=lazy(g, t, errs))
            check_text(mon, g, t, recover, errs, raw)
            if lay:
                continue
            kw = {} if rng.random() < .7 else {"fmt_loc": lambda l: repr(
                ("at", tuple(l)))}
            d, _ = errors_of(p.parse(t, recover, **kw))
            mon.ev("default reports")
            exp = [((e[0][0], 0, 0), repr(("at", (e[0][0], 0, 0))) if kw
                    else str(e[0][0]), e[2], e[3]) for e in errs]
            if d != exp:
                mon.fail("plain parse reports other locations than the bare"
                         " offsets of the text helper\n grammar: {}\n text:"
                         " {!r}\n recover: {}\n text helper: {}\n observed:"
                         " {}".format(g, t, recover, errs, d))


def weight(x):
    return {"\t": 8, "\u00e9": 2}.get(x, 1) if isinstance(x, str) else 3


FORMATS = [lambda *a: "<{}.{}.{}>".format(*a)] * 4 + [
    lambda *a: "", lambda *a: " ", lambda *a: "0", lambda *a: "{}%s{0}",
    lambda p, l, c: "x" * (p % 5), lambda *a: "\n".join(map(str, a)),
    lambda *a: repr(a), lambda p, *a: str(-p)]


def advance(line, col, x, isnl, style):
    """User locations: line and weighted column; only lines; only columns;
    strange numbers."""
    if style == "far":
        return line - 10 ** 12 * isnl(x), 0 if isnl(x) else \
            col + 10 ** 9 * weight(x)
    if style == "negative":
        return line - isnl(x), -7 if isnl(x) else col - weight(x)
    if style == "lines":
        return line + isnl(x), 0
    if style == "columns":
        return 0, col + weight(x)
    return (line + 1, 0) if isnl(x) else (line, col + weight(x))


def scratch(stream, pos, isnl, style):
    """User locations by definition."""
    line = col = 0
    for i in range(pos):
        line, col = advance(line, col, stream[i], isnl, style)
    return (pos, line, col)


def protocol_case(rng, mon):
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .7,
                             layout=rng.random() < .3), "TTS")
    nl = rng.choice(g.alphabet) if g.fam == "T" else "\n"
    g, take = enlarge(rng, g, top=1200)
    p = build(g, rng)

    def isnl(x):
        return type(x) is type(nl) and x == nl

    for _ in range(4):
        xs = take(rng.choice([0, 1, 1, 2]), fuel=40)
        inp = Input(g, rng, xs, "default")
        s = inp.stream
        style = rng.choice(["both", "both", "lines", "columns", "far",
                            "negative"])
        text = rng.choice(FORMATS)
        inp.locf = lambda pos: scratch(s, pos, isnl, style)
        for recover in (False, True):
            mi = limit(rng) if recover else 5
            want = ref(mon, g, inp, recover, mi)
            if want is None or want.kind == "exc":
                continue
            issued = {(0, 0, 0)}
            bad = []
            fmts = []

            def get_loc(loc, stream, pos):
                mon.ev("protocol calls")
                if stream is not s or tuple(loc) not in issued \
                        or not loc.pos <= pos <= len(s):
                    bad.append((tuple(loc), pos))
                _, line, col = loc
                for i in range(loc.pos, pos):
                    line, col = advance(line, col, s[i], isnl, style)
                issued.add((pos, line, col))
                return rp.Loc(pos, line, col)

            def fmt(loc):
                fmts.append(tuple(loc))
                return text(*loc)

            try:
                r = p.parse(s, recover, max_insertions=mi,
                            get_loc=get_loc, fmt_loc=fmt)
                errs, _ = errors_of(r)
            except RuntimeError:
                continue

            def fail(msg, x):
                mon.fail("{}\n grammar: {}\n input: {!r}\n recover: {}\n {}"
                         .format(msg, g, s, recover and mi, x))
            if bad:
                fail("location function asked to advance from a location it"
                     " did not return or backwards", bad[:3])
            mon.ev("custom reports", errs is not None)
            if errs is not None:
                mon.case((repr(g), repr(s), recover, "protocol"),
                         sample=lazy(g, s, errs))
            for loc, ls, _, _ in errs or ():
                true = scratch(s, loc[0], isnl, style)
                if loc != true:
                    fail("location is not the one the user's function gives"
                         " for the offset", (loc, true))
                if ls != text(*true):
                    fail("location not formatted by the user's formatter",
                         (loc, ls))


ODD = ["\n", "\n", "a", "\t", "\r\n", "\r", "\f", "\v", "\x1c", "\x1d", "\x1e",
       "\x85", "\u2028", "\u2029", "\0", "\b", "\x1a", "\ufeff", "\xa0", " ",
       "\u00e9", "e\u0301", "\U0001f600", "\ud83d", "\u200d", "\u4e2d",
       "\u202e", "\\n", "\x7f"]


def odd_case(rng, mon):
    """Any text consumed in any pieces up to a failure."""
    few = rng.sample(ODD, rng.randint(1, 5)) + ["\n"]
    n = rng.randint(1, 12)
    if rng.random() < .08:
        n = size(rng, 3000)
    t = "".join(rng.choice(few) for _ in range(n))
    if rng.random() < .05:
        i = rng.randrange(len(t) + 1)
        t = t[:i] + rng.choice(few) * rng.choice([
            127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097,
            65535, 65536, 65537]) + t[i:]
    p = None
    pos = 0
    many = False
    while pos < len(t):
        k = rng.randrange(5)
        m = rng.choice([1, 1, 2, 3, len(t), rng.randint(1, len(t))])
        x = t[pos:pos + m]
        pos += len(x)
        if k == 0:
            q = literal(x)
        elif k == 1:
            q = regexp("(?s).{%d}" % len(x) if len(x) < 60000
                       else re.escape(x))
        elif k == 2 and len(x) < 30:
            q = sym(x[0])
            for c in x[1:]:
                q = q + sym(c)
        elif k == 3 and not many:
            many = True
            q = regexp("(?s).").many()
            pos = len(t)
        else:
            q = regexp("(?s)(.{%d})" % len(x) if len(x) < 60000
                       else re.escape(x), 0)
        p = q if p is None else p + q
    at = [len(t)]
    tail = rng.choice(["", "", "x" if many else rng.choice(ODD) * 2])
    if many:
        tail = ""
    s = t + tail
    p = p + literal("\x01 never")
    recover = rng.random() < .4
    r = scannerless.parse(p, s, recover)
    errs, raw = errors_of(r)
    mon.ev("odd texts")
    mon.ev("odd texts over 1000", len(t) > 1000)
    mon.case(("odd", s, recover), sample=lazy(s, errs))
    if errs is None or [e[0][0] for e in errs] != at:
        mon.fail("the error is not where the text ends that was accepted:"
                 " {!r} {}".format(t, errs))
    check_text(mon, "pieces of the text", s, recover, errs, raw)


_J = {}


def long_case(rng, mon):
    if not _J:
        _J["p"] = real.make_json_text()
    p = _J["p"]
    m = 6 if rng.random() < .8 else rng.choice([30, 100])
    t = real.dump_json(rng, [real.gen_json(rng, 3) for _ in range(m)])
    t = t.rstrip() + rng.choice(["", "\n\n", " \n"])
    k = rng.randrange(4)
    if k == 0:
        t += rng.choice(["x", "]", "\n]\nx"])
    elif k == 1:
        t = t[:rng.randint(len(t) // 2, len(t))]
    else:
        t = real.corrupt(rng, t, 1)
    mon.ev("long texts")
    for recover in (False, True):
        try:
            with Steps(200000 + 100 * len(t)):
                r = scannerless.parse(p, t, recover)
        except StepLimit:
            mon.ev("left out: too many repairs")
            continue
        errs, raw = errors_of(r)
        if errs is not None:
            mon.case(("json", t, recover))
            check_text(mon, "json text", t, recover, errs, raw)


def case(rng, idx, mon):
    x = rng.random()
    if x < .02:
        long_case(rng, mon)
    elif x < .1:
        odd_case(rng, mon)
    elif x < .6:
        text_case(rng, mon)
    else:
        protocol_case(rng, mon)
