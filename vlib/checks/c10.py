"""The lexer against a reference lexer computed from the source text."""
import re

import reparsec as rp
from reparsec.lexer import LexError, Token, split_tokens

from .. import real
from ..common import lazy
from ..gen import L_SPEC, ref_tokens
from ..scale import size
from ..steps import StepLimit, Steps

ID = "C10"
BOUNDED = True
LEVEL = "exploration"
COUNTS = {"quick": 60000, "thorough": 900000}
MIN = {"lexed": 12000, "lexing errors": 8000, "error after line 1": 1500,
       "empty match at a position": 2000, "dropped matches": 3500,
       "multi-line tokens": 1500, "token pairs": 5000,
       "long sources lexed": 400, "far errors": 120, "tokens over 65535": 5}
RULE = (
    "random specifications (alternatives of patterns in named, unnamed and"
    " nested groups, optional groups, anchors, look-around, flags, patterns"
    " that can match nothing, multi-line tokens) and random sources over"
    " their examples and noise: the token list (kind, value, start, end) or"
    " the error location is compared with a lexer computed from the source by"
    " definition; the executed steps are bounded; Token equality, hash and"
    " repr ignore locations. Non-trivial: distinct (specification, source) of"
    " at least one character.")
ASSUMPTIONS = ["Python's re decides what a specification matches"]

ATOMS = [
    (r"[0-9]+", ["0", "42"]), (r"[a-z]+", ["a", "xyz"]), (r"[-+*/]", ["+"]),
    (r"\n", ["\n"]), (r"[ \t]+", [" ", "\t "]), (r"\s+", [" \n ", "\n\n"]),
    (r"\"(?:[^\"\\]|\\.)*\"", ['"a\nb"', '""']), (r"#[^\n]*", ["#c", "#"]),
    (r"/\*[\s\S]*?\*/", ["/*x*/", "/*\n\n*/"]), (r"if|else", ["if"]),
    (r"a*", ["aa", ""]), (r"(?:)", [""]), (r"x?", ["x", ""]),
    (r"\b", [""]), (r"(?=[a-z])", [""]), (r"^", [""]), (r"$", [""]),
    (r"(?<=a)b", ["ab"]), (r"^a", ["a"]), (r"(?<!x)y", ["y", "xy"]),
    (r"A", ["A", "a"]), (r"a(?:\n)b", ["a\nb"]), (r".", ["@", "\u00e9"]),
    (r"\u00e9|\U0001F600", ["\u00e9", "\U0001F600"]), (r"0(?!\d)", ["0"]),
    (r"\r\n|\r", ["\r\n", "\r"]), (r"a [b]", ["a b"]),
    (r"[^\n]", ["\0", "\ufeff", "\xa0", "\u200b", "\ud800", "\x1a"]),
    (r"\W+", ["\0", "\xa0", " ;", "\x1c"]),
    (r"'[^']*'", ["'\0'", "' '", "'a\t'", "'\ufeff'"]),
]


def spec(rng):
    """(pattern text, flags, examples)"""
    alts = []
    ex = []
    name = 0
    n = rng.randint(1, 6)
    if rng.random() < .02:
        n = size(rng, 120)
    for _ in range(n):
        parts = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            a, e = rng.choice(ATOMS)
            ex += e
            k = rng.randrange(10)
            if k < 5:
                name += 1
                a = "(?P<t{}>{})".format(name, a)
            elif k == 5:
                a = "({})".format(a)
            elif k == 6:
                name += 2
                b, e = rng.choice(ATOMS)
                ex += e
                a = "(?P<t{}>(?P<t{}>{})(?:{}))".format(name - 1, name, a, b)
            elif k == 7:
                name += 1
                a = "(?P<t{}>{})?".format(name, a)
            elif k == 8:
                name += 1
                a = "((?P<t{}>{})|{})".format(name, a, rng.choice(ATOMS)[0])
            else:
                a = "(?:{})".format(a)
            parts.append(a)
        alts.append("".join(parts))
    if rng.random() < .15:
        # what a sloppy treatment of the pattern text would lose
        x = rng.choice([" ", " +", "\n", "\t", "\\ ", "\n+", "#", " #"])
        i = rng.choice([0, len(alts)])
        alts.insert(i, x)
        ex += [x.strip("+\\") or " "]
    flags = 0
    if rng.random() < .06:
        flags |= re.VERBOSE
    for f in (re.MULTILINE, re.DOTALL, re.IGNORECASE, re.ASCII):
        if rng.random() < .12:
            flags |= f
    return "|".join(alts), flags, ex


def source(rng, ex, sp):
    n = rng.choice([0, 1, 2, 4, 8, 16, 30])
    out = []
    if rng.random() < .04:
        # long sources and long tokens
        n = size(rng, 3000)
        clean = rng.choice([.85, .99, 1])
        ex = [x for x in ex + [" ", "\n", "a", "0"]
              if x and (m := sp.match(x)) and m.end() == len(x)] or ["a"]
        for _ in range(n):
            x = rng.choice(ex) if rng.random() < clean else "@"
            out.append(x * (size(rng, 3000) if x and rng.random() < .003
                            else 1))
        if rng.random() < .06:
            x = rng.choice(ex) * ((1 << rng.randint(12, 16))
                                  + rng.choice([-1, 0, 1]))
            m = sp.match(x)
            if m and m.end() == len(x):
                del out[30:]
                out.insert(rng.randrange(len(out) + 1), x)
        out = "".join(out)
        # patterns that backtrack take cubic time
        if max(a.count("+") + a.count("*")
               for a in sp.pattern.split("|")) > 1:
            out = out[:800]
        return out
    for _ in range(n):
        out.append(rng.choice(ex) if rng.random() < .85 else rng.choice(
            ["a", " ", "\n", "0", "z", "@", "\"", "\r", "\u2028", "\x0b",
             "\0", "\ufeff", "\xa0", "#"]))
    return "".join(out)


def judge(mon, what, sp, src):
    toks, err = ref_tokens(src, sp)

    def fail(msg, obs):
        mon.fail("{}\n specification: {}\n source: {!r}\n expected tokens: {}"
                 "\n expected error: {}\n observed: {}".format(
                     msg, what, src, toks, err, obs))
    try:
        with Steps(2000 + 200 * len(src)):
            got = split_tokens(src, sp)
    except StepLimit:
        fail("the lexer does not terminate", "steps exhausted")
    except LexError as e:
        mon.ev("lexing errors")
        mon.case((what, src), bool(src), lazy(what, src, err))
        if err is None:
            fail("unexpected lexing error", e)
        mon.ev("error after line 1", err[1] > 0)
        mon.ev("far errors", err[0] > 300)
        m = sp.match(src, err[0])
        mon.ev("empty match at a position", m is not None)
        if tuple(e.loc) != err or type(e.loc) is not rp.Loc:
            fail("lexing error at a wrong location", tuple(e.loc))
        if str(e) != "Lexing error at {}:{}".format(err[1] + 1, err[2] + 1):
            fail("lexing error displayed wrongly", str(e))
        return None
    mon.ev("lexed")
    mon.ev("long sources lexed", len(src) > 300)
    mon.ev("tokens over 65535", len(src) > 65535 and any(
        len(t[1]) > 65535 for t in toks))
    mon.case((what, src), bool(src), lazy(what, src, toks))
    if err is not None:
        fail("no lexing error", got)
    if type(got) is not list or any(type(t) is not Token for t in got):
        fail("not a list of tokens", got)
    obs = [(t.kind, t.value, tuple(t.start), tuple(t.end)) for t in got]
    if obs != toks:
        fail("wrong tokens", obs)
    covered = sum(t[3][0] - t[2][0] for t in toks)
    mon.ev("dropped matches", covered < len(src))
    mon.ev("multi-line tokens", any(t[2][1] != t[3][1] for t in toks))
    return got


def tokens_compare(rng, mon, toks):
    """Equality by kind and value only."""
    for _ in range(3):
        a = rng.choice(toks)
        b = rng.choice(toks)
        if rng.random() < .4:
            b = Token(a.kind, a.value, b.start, b.end)
        if rng.random() < .2:
            b = Token(b.kind, b.value)
        same = (a.kind, a.value) == (b.kind, b.value)
        mon.ev("token pairs")
        if (a == b) is not same or (a != b) is same or (
                same and hash(a) != hash(b)) or repr(b) != (
                    "Token(kind={!r}, value={!r})".format(b.kind, b.value)):
            mon.fail("tokens do not compare by kind and value: {} {} {}"
                     .format(a, b, a == b))


def case(rng, idx, mon):
    x = rng.random()
    if x < .04:
        t = real.dump_json(rng, real.gen_json(rng, 4))
        if rng.random() < .05:
            t = real.dump_json(rng, [real.gen_json(rng, 3) for _ in range(
                size(rng, 300))])
        if rng.random() < .5:
            t = real.corrupt(rng, t)
        judge(mon, "JSON", real.J_SPEC, t)
        return
    if x < .1:
        pat, flags, ex = L_SPEC.pattern, 0, ["12", "ab", "+", " ", "\n"]
    else:
        pat, flags, ex = spec(rng)
    try:
        sp = re.compile(pat, flags)
    except re.error:
        mon.ev("specification rejected by re")
        return
    for _ in range(4):
        toks = judge(mon, (pat, flags), sp, source(rng, ex, sp))
        if toks:
            tokens_compare(rng, mon, toks)
