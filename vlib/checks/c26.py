"""The same parser at the start of the input and far behind."""
import re

import reparsec as rp
from reparsec.layout import block
from reparsec.lexer import Token, token
from reparsec.scannerless import literal, regexp
from reparsec.sequence import satisfy, sym

from ..build import Builder
from ..common import (
    Cfg, Grammar, Input, all_inputs, dense, enlarge, gen_grammar, kinds,
    layout_dense, lazy, locf_default, locf_text, observe, parse, pieces, ref,
    str_input, wrapped)
from ..gast import PATS, walk
from ..gen import anything
from ..impl import fmt_default, fmt_linecol
from ..scale import size

ID = "C26"
LEVEL = "exploration"
COUNTS = {"quick": 22000, "thorough": 330000}
MIN = {"compared": 150000, "compared valid": 20000, "compared failed": 50000,
       "compared recovered": 20000, "behind more than 1000": 20000,
       "behind more than 100000": 1500, "with layout": 8000,
       "true line and column": 15000, "token locations": 5000,
       "other limits": 15000, "long skips": 80}
RULE = (
    "random grammars (with recovery, layout, forward declarations, all kinds"
    " of input) on random inputs, plainly and recovering with several limits:"
    " at the start of the input, and behind a prefix of 1 to 300000 elements"
    " consumed by a literal, a regular expression, a single or repeated"
    " element parsers, combined by every sequencing form. Acceptance, value,"
    " expectations and repairs must be the same and every location must be"
    " moved by the prefix (true line and column; unchanged for tokens, which"
    " bring their locations along). Non-trivial: distinct (grammar, input,"
    " prefix, mode).")
ASSUMPTIONS = [
    "regular expressions that look at the text before them (^, \\b, look"
    "behind) are left out, and with line and column tracking layout parsers"
    " are moved by whole lines only",
    "the reference semantics only bounds the size of a case here; verdicts"
    " compare real runs"]

BACK = {i for i, p in enumerate(PATS)
        if "^" in p[0].replace("[^", "") or "\\b" in p[0] or "(?<" in p[0]}
LAYOUT = {"block", "aligned", "indented"}


class Shifted(Builder):
    base = 0

    def b_rwf(self, p, k, lab):
        def fn(stream, pos):
            return ("RF", k, pos - self.base)
        if lab is None:
            return self.un("recover_with_fn", p, fn)
        return self.un("recover_with_fn", p, fn, lab)


def looks_back(g):
    return any(n[0] == "rx" and n[1] in BACK
               for r in [g.root] + g.defs for n in walk(r))


def subject(rng):
    x = rng.random()
    if x < .2:
        g = dense(rng, True)
        return g, [str_input(g, s)
                   for s in rng.sample(list(all_inputs("abc", 3)), 6)]
    if x < .32:
        it = list(layout_dense(rng, True))
        return it[0][0], [x[2] for x in it]
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .8,
                             layout=rng.random() < .25,
                             depth=rng.choice([2, 3, 4])))
    if rng.random() < .3:
        g = wrapped(rng, g)
    if rng.random() < .06:
        g, take = enlarge(rng, g, .5, None, 400)
        xss = [take() for _ in range(2)]
        for xs in xss:
            # a stretch that has to be skipped
            if rng.random() < .7:
                i = rng.randrange(len(xs) + 1)
                xs[i:i] = [anything(rng, g)] * size(rng, 400)
        return g, [Input(g, rng, xs) for xs in xss]
    return g, [Input(g, rng, pieces(rng, g)) for _ in range(5)]


def length(rng, top):
    x = rng.random()
    if x < .3:
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
    elif x < .6:
        n = (1 << rng.randint(3, 18)) + rng.choice([-1, 0, 1, 2])
    else:
        n = int(2 ** rng.uniform(1, 18.2))
    return max(1, min(n, top))


def text_prefix(rng, lines):
    n = length(rng, 300000)
    unit = rng.choice(["z", "z\n", "zzzz\n", "é~z", "\n", "z\r\n", "\t\n",
                       "(\U0001f600\n"])
    t = (unit * (n // len(unit) + 1))[:n]
    if lines:
        t = t[:-1] + "\n"
    k = rng.randrange(4)
    if len(t) > 20000:
        k = rng.randrange(2)
    if k == 0:
        p = literal(t)
    elif k == 1:
        p = regexp("(?s).{%d}" % len(t))
    elif k == 2:
        p = satisfy(lambda c: c != "\x01").many() << literal("\x01")
        t += "\x01"
        if lines:
            p = p << sym("\n")
            t += "\n"
    else:
        m = len(t) // 2
        p = literal(t[:m]) + regexp(re.escape(t[m:])) if m else literal(t)
    return t, p


class Mark:
    """Equal to itself only."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return self.name


def list_prefix(rng, mk):
    n = length(rng, 300000 if rng.random() < .003 else 3000)
    z, m = Mark("z"), Mark("m")
    if n <= 3 and rng.random() < .7:
        xs = [z] * (n - 1) + [m]
        p = sym(m)
        if n > 1:
            p = sym(z) >> p
        if n > 2:
            p = satisfy(lambda x: x is z) >> p
        return mk(xs), p
    if rng.random() < .5:
        p = satisfy(lambda x: x is not m).many()
    else:
        p = sym(z).many()
    if rng.random() < .5:
        p = p.attempt()
    return mk([z] * n + [m]), p << sym(m)


def token_prefix(rng):
    n = length(rng, 2000)
    z = Token("zz", "z", rp.Loc(rng.choice([0, 0, 7]), 0, rng.choice([0, 4])),
              rp.Loc(9, 3, 2))
    m = Token("mark", "")
    return [z] * n + [m], token("zz").many() >> token("mark")


JOIN = [
    ("seqr", lambda a, p: a >> p),
    ("seq", lambda a, p: (a + p).fmap(lambda v: v[1])),
    ("then", lambda a, p: a.seql(a_pure()).then(p).then(a_pure()).apply(
        lambda x, v, y: v)),
    ("bind", lambda a, p: a.bind(lambda _: p)),
    ("between", lambda a, p: p.between(a, a_pure())),
    ("alt", lambda a, p: (a >> p) | a_pure()),
    ("attempt", lambda a, p: a.attempt() >> p),
    ("label", lambda a, p: a.label("prefix") >> p),
    ("recover", lambda a, p: (a >> p).recover_with("never")),
    ("maybe", lambda a, p: a.maybe() >> p)]


def a_pure():
    from reparsec.primitive import Pure
    return Pure(None)


def moved(o, locf, fmt, n, same):
    """The outcome of a run at the start, as it should be n elements later."""
    if o.errors is None:
        return o.key()
    errs = o.errors
    if not same:
        errs = []
        for loc, loc_str, exp, op in o.errors:
            at = locf(loc[0] + n)
            errs.append((tuple(at), fmt(at), exp, op))
    a = type(o)(o.kind, o.value, errs, o.recovered, o.exc)
    return a.key()


def case(rng, idx, mon):
    g, inps = subject(rng)
    if looks_back(g):
        mon.ev("looks back")
        return
    lay = bool(LAYOUT & kinds(g))
    b = Shifted(g, rng)
    name, join = rng.choice(JOIN)
    pre = None
    for inp in inps:
        x = inp.stream
        if not len(x) and g.fam == "L":
            continue
        lines = lay and inp.how == "text"
        if pre is None or lines or isinstance(x, str) != pre[3] or \
                rng.random() < .2:
            if g.fam == "L":
                t, a = token_prefix(rng)
            elif g.fam == "S":
                t, a = text_prefix(rng, lines)
            elif isinstance(x, str):
                t, a = text_prefix(rng, False)
            else:
                t, a = list_prefix(rng, list)
            p = join(a, b.parser)
            if lay and inp.how == "text" and rng.random() < .3:
                p = block(p)
            pre = (t, p, len(t), isinstance(x, str))
        t, p, n, _ = pre
        if isinstance(x, str):
            s = t + x
        else:
            s = rng.choice([list, tuple])(list(t) + list(x))
        for recover in (False, True):
            mi = rng.choice([5, 5, 0, 1, 2, 3, 4, 7, 9]) if recover else 5
            if ref(mon, g, inp, recover, mi) is None:
                continue
            kw = {} if mi == 5 else {"max_insertions": mi}
            b.base = 0
            want = observe(parse(b.parser, x, recover, inp.how, **kw),
                           recover)
            b.base = n
            got = observe(parse(p, s, recover, inp.how, **kw), recover)
            if "Recursion" in str(want.exc) or "Recursion" in str(got.exc):
                mon.ev("too deep")
                continue
            locf, fmt = locf_default, fmt_default
            if inp.how == "text":
                locf, fmt = locf_text(s), fmt_linecol
            exp = moved(want, locf, fmt, n, inp.how == "tokens")
            mon.case((repr(g), repr(inp), recover, mi, n, name, t[:3]),
                     sample=lazy(g, inp, recover, n, name, want))
            mon.ev("compared")
            mon.ev("compared valid", want.kind == "ok")
            mon.ev("compared failed", want.kind == "fail")
            mon.ev("compared recovered", want.kind == "rec")
            mon.ev("long skips", any(
                e[3] and e[3][0] == "skip" and e[3][1] > 60 for e in want.errors or ()))
            mon.ev("behind more than 1000", n > 1000)
            mon.ev("behind more than 100000", n > 100000)
            mon.ev("with layout", lay)
            mon.ev("true line and column", inp.how == "text")
            mon.ev("token locations", inp.how == "tokens")
            mon.ev("other limits", mi != 5)
            if got.key() != exp:
                mon.fail("the outcome depends on the position in the input"
                         " (recover={}, limit {})\n grammar: {}\n input: {}\n"
                         " prefix: {} elements like {!r}, joined by {}\n at"
                         " the start: {}\n behind the prefix: {}".format(
                             recover, mi, g, inp, n, t[:6], name, want, got))
