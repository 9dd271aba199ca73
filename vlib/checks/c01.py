"""Plain parsing against the reference semantics and independent oracles."""
import json
import re

from reparsec import ParseError
from reparsec.primitive import Pure
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof

from ..common import (
    MODEL, Cfg, dense_inputs, grammar_inputs, layout_dense, lazy, observe,
    parse, ref, run)
from .. import real
from ..show import show

ID = "C01"
LEVEL = "exploration"
COUNTS = {"quick": 100000, "thorough": 1500000}
MIN = {"expected ok": 40000, "expected fail": 25000, "json accepted": 600,
       "json rejected": 600, "expr accepted": 400, "huge matches": 200}
RULE = (
    "random grammars over every documented primitive and combinator (sequence,"
    " string and lexer-token families, shared parser objects, forward"
    " declarations, layout), 40% inside a context that makes consumption or"
    " the stopping position visible; inputs derived from the grammar then"
    " mutated; small grammars on all inputs up to length 3; JSON and"
    " arithmetic against json and direct evaluation; matches of lengths around"
    " every power of two up to 131073. Non-trivial: the oracle"
    " gave a verdict on a distinct (grammar, input).")
ASSUMPTIONS = [MODEL]


def plain_value(o):
    return (o.kind, o.value, o.exc)


def judge(mon, g, inp, want, got):
    if want.kind == "exc":
        return      # repetition of an empty match: C15
    mon.case((repr(g), repr(inp)), sample=lazy(g, inp, want))
    if plain_value(want) != plain_value(got):
        mon.fail("plain parse differs from the documented semantics\n grammar:"
                 " {}\n input: {}\n expected: {}\n observed: {}".format(
                     g, inp, want, got))


_J = {}


def parsers():
    if not _J:
        _J["tok"] = [real.make_json(True), real.make_json(False)]
        _J["text"] = real.make_json_text()
        _J["expr"] = [real.make_expr(False), real.make_expr(True)]
    return _J


def json_case(rng, mon):
    t = real.dump_json(rng, real.gen_json(rng, 4))
    if rng.random() < .55:
        t = real.corrupt(rng, t)
    try:
        want = ("ok", show(real.json_pairs(t)))
    except json.JSONDecodeError:
        want = ("fail", None)
    mon.ev("json accepted" if want[0] == "ok" else "json rejected")
    j = parsers()
    toks = real.json_tokens(t)
    obs = [(p, toks, "tokens") for p in j["tok"]] + [(j["text"], t, "text")]
    for p, s, how in obs:
        got = observe(parse(p, s, False, how), False)
        mon.case(("json", how, t), sample=repr(t))
        if (got.kind, got.value) != want:
            mon.fail("JSON document parsed differently from json.loads ({})\n"
                     " text: {!r}\n expected: {}\n observed: {}".format(
                         how, t, want, got))


def expr_case(rng, mon):
    t, v = real.gen_expr(rng, rng.choice([1, 2, 3]))
    mon.ev("expr accepted")
    for p in parsers()["expr"]:
        for how in ("default", "text"):
            got = observe(parse(p, t, False, how), False)
            mon.case(("expr", how, t), sample=repr(t))
            if (got.kind, got.value) != ("ok", show(v)):
                mon.fail("arithmetic expression evaluated wrongly\n text: {!r}"
                         "\n expected: {}\n observed: {}".format(t, v, got))


def huge(rng, mon):
    """Matches of lengths around every power of two."""
    n = (1 << rng.randint(5, 17)) + rng.choice([-1, 0, 0, 1])
    t = "".join(rng.choice("ab") for _ in range(7)) * (n // 7 + 1)
    t = t[:n]
    m = rng.choice([
        lambda: literal(t), lambda: regexp("[ab]*"), lambda: regexp("[ab]+"),
        lambda: regexp("(?s)((.)[ab]*)", 1), lambda: regexp(re.escape(t)),
        lambda: literal(t[:n // 2]) + literal(t[n // 2:]),
        lambda: regexp("[ab]{%d}" % (n // 2)) + regexp("[ab]*")])()
    m = m.fmap(lambda v: v if type(v) is str else "".join(v))
    k = rng.randrange(5)
    if k == 0:
        p, s, want = m << eof(), t, t
    elif k == 1:
        p, s, want = (m >> literal("!")) | Pure(1), t, None
    elif k == 2:
        p, s, want = m.maybe() + literal("!"), t + "!", (t, "!")
    elif k == 3:
        p, s = (m >> literal("!")).attempt() | regexp("(?s).*"), t
        want = t
    else:
        p, s, want = (m << literal(";")).many(), (t + ";") * 2, [t, t]
    if rng.random() < .3:
        q, s = literal("<" * n) >> p, "<" * n + s
    else:
        q = p
    how = rng.choice(["default", "text"])
    try:
        got = parse(q, s, False, how)().unwrap()
    except ParseError:
        got = None
    mon.ev("huge matches")
    mon.case(("huge", n, k, t[:7], how))
    if got != want:
        mon.fail("form {} with a match of {} characters: {:.100} instead of"
                 " {:.100}".format(k, n, repr(got), repr(want)))


def case(rng, idx, mon):
    x = rng.random()
    if rng.random() < .004:
        return huge(rng, mon)
    if x < .06:
        json_case(rng, mon)
    elif x < .1:
        expr_case(rng, mon)
    elif x < .26:
        it = dense_inputs(rng, rng.random() < .2) if x < .2 else \
            layout_dense(rng, rng.random() < .2)
        for g, p, inp in it:
            want = ref(mon, g, inp, False)
            if want is not None:
                judge(mon, g, inp, want, run(p, inp, False))
    else:
        cfg = Cfg(recovery=rng.random() < .3, layout=rng.random() < .25,
                  nullable_many=.04 if rng.random() < .1 else 0)
        for g, p, inp in grammar_inputs(rng, cfg):
            want = ref(mon, g, inp, False)
            if want is not None:
                judge(mon, g, inp, want, run(p, inp, False))
