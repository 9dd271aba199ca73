"""Token parsers and locations over token lists."""
import reparsec as rp

from reparsec.lexer import Token, split_tokens, token, token_ins

from ..build import build
from ..common import (
    MODEL, Cfg, Input, compare, enlarge, fmt_linecol, gen_grammar,
    lazy, limit, parse, ref, run, str_input, wrapped)
from ..gen import L_SPEC, locf_tokens, ref_tokens, render
from ..impl import items
from ..scale import size

ID = "C11"
LEVEL = "exploration"
COUNTS = {"quick": 100000, "thorough": 800000}
MIN = {"single tokens": 20000, "kind accepted": 4000, "kind refused": 8000,
       "token inserted": 3000, "grammars": 10000, "errors located": 30000,
       "at end of input": 5000, "empty input": 400, "later errors": 5000,
       "through the real lexer": 3000, "long token lists": 1500}
RULE = (
    "(a) single token/token_ins parsers over every short list of tokens with"
    " adversarial kinds and values (empty, equal to other values, unicode) and"
    " source locations: acceptance by kind, returned object, label, repair,"
    " inserted token's kind, value and location; (b) random token grammars"
    " with recovery and layout over lexed sources, plain and recovering,"
    " complete outcome against the reference semantics; each reported location"
    " must be the start of the token at the error or the end of the last"
    " token. Non-trivial: distinct (grammar, tokens, mode).")
ASSUMPTIONS = [MODEL]

KINDS = ["num", "id", "op", "", "1", "None", "\u00e9"]
VALS = ["", "0", "num", "x", "a b", "\n"]


def near(rng, k):
    """Another name that a sloppy comparison takes for the same."""
    return rng.choice([
        k.upper(), k.title(), k + " ", " " + k, k[:-1], k[1:], k + k, k + "0",
        k[::-1], k.replace("\u00e9", "e\u0301"), k + "\0", repr(k),
        k + "|op", k + "_", k.strip("e") or "None"])


def tok_list(rng, n):
    pos = rng.choice([0, 0, 3])
    line, col = rng.choice([(0, 0), (0, 3), (2, 1)])
    if not pos:
        line = col = 0
    out = []
    for _ in range(n):
        k, v = rng.choice(KINDS), rng.choice(VALS)
        s = rp.Loc(pos, line, col)
        pos += max(1, len(v))
        if rng.random() < .3:
            line, col = line + 1, rng.randrange(3)
        else:
            col += max(1, len(v))
        e = rp.Loc(pos, line, col)
        out.append(Token(k, v, s, e))
        pos += 1
        col += 1
    return out


def single(rng, mon):
    toks = tok_list(rng, rng.choice([0, 1, 1, 2, 3])
                    if rng.random() < .99 else size(rng, 1500))
    if rng.random() < .3:
        toks = tuple(toks)
    kind, val = rng.choice(KINDS), rng.choice(VALS)
    if toks and rng.random() < .4:
        kind = rng.choice(toks).kind
        if rng.random() < .35:
            kind = near(rng, kind)
    skip = rng.randint(0, min(len(toks), 60))
    mon.ev("long token lists", len(toks) > 50)
    ins = rng.random() < .5
    q = token_ins(kind, val) if ins else token(kind)
    p = q
    for t in reversed(toks[:skip]):
        p = token(t.kind) >> p
    how = rng.choice(["tokens", "tokens", "default"])
    inp = str_input(None, toks, how)
    at = toks[skip] if skip < len(toks) else None
    loc = tuple(at.start) if at else tuple(toks[-1].end) if toks else (0, 0, 0)
    rep = loc if how == "tokens" else (skip, 0, 0)
    mon.ev("single tokens")
    mon.ev("empty input", not toks)
    for recover in (False, True):
        r = parse(p, toks, recover, how)()
        what = "token{}({!r}{}) after {} tokens".format(
            "_ins" if ins else "", kind, ", %r" % val if ins else "", skip)
        mon.case((what, repr(inp), [(t.start, t.end) for t in toks], recover),
                 sample=lazy(what, inp))

        def fail(msg, *x):
            mon.fail("{}\n parser: {}\n tokens: {}\n locations: {}\n recover:"
                     " {}, helper: {}\n {}".format(
                         msg, what, toks,
                         [(tuple(t.start), tuple(t.end)) for t in toks],
                         recover, how, x))
        try:
            v = r.unwrap()
            err = None
        except rp.ParseError as e:
            err, raw = items(e), e.errors
        if at is not None and at.kind == kind:
            mon.ev("kind accepted")
            if err is not None or v is not at:
                fail("a token of the kind is not returned as it is", err)
            continue
        mon.ev("kind refused")
        if err is None:
            fail("a token of another kind is accepted", v)
        first = err[0][:3]
        fmt = fmt_linecol(rep) if how == "tokens" else str(skip)
        if first != (rep, fmt, [kind]):
            fail("wrong report", "expected {}".format((rep, fmt, [kind])),
                 err)
        # another token of the kind further on?
        far = [i for i in range(skip + 1, len(toks)) if toks[i].kind == kind]
        if not recover:
            continue
        try:
            v = r.unwrap(recover=True)
        except rp.ParseError:
            if ins or far:
                fail("no recovery", err)
            continue
        op = err[0][3]
        if ins and (not far or far[0] - skip > 1):
            mon.ev("token inserted")
            if op != ("ins", kind) or len(err) != 1:
                fail("the token is not inserted", err)
            if type(v) is not Token or (v.kind, v.value) != (kind, val):
                fail("another token inserted", v)
            if tuple(v.start) != loc or tuple(v.end) != loc:
                fail("inserted token not at the error's source location",
                     v.start, v.end, loc)
        elif far:
            if op != ("skip", far[0] - skip) or v is not toks[far[0]]:
                fail("next token of the kind not skipped to", err, v)
        else:
            fail("recovered without a way to", err, v)


def grammars(rng, mon):
    g = gen_grammar(rng, Cfg(recovery=True, layout=rng.random() < .3), "L")
    g, take = enlarge(rng, g, top=1500)
    if rng.random() < .3:
        g = wrapped(rng, g)
    p = build(g, rng)
    mon.ev("grammars")
    for _ in range(3):
        xs = take(rng.choice([0, 1, 1, 2, 3]), fuel=40)
        mon.ev("long token lists", len(xs) > 50)
        how = rng.choice(["tokens", "tokens", "default"])
        if rng.random() < .3:
            _, src = render(rng, g, xs)
            toks = split_tokens(src, L_SPEC)
            rt, _ = ref_tokens(src, L_SPEC)
            mon.ev("through the real lexer")
            if [(t.kind, t.value, tuple(t.start), tuple(t.end))
                    for t in toks] != rt:
                mon.fail("lexer result differs for {!r}".format(src))
            inp = str_input(g, toks, how)
            inp.src = src
        else:
            inp = Input(g, rng, xs, how)
        toks = inp.stream
        mon.ev("empty input", not toks)
        true = locf_tokens(toks)
        legal = {true(i) for i in range(len(toks) + 1)}
        for recover in (False, True):
            mi = limit(rng) if recover else 5
            want = ref(mon, g, inp, recover, mi)
            if want is None or want.kind == "exc":
                continue
            got = run(p, inp, recover, mi)
            mon.case((repr(g), repr(inp), recover), sample=lazy(
                g, inp, recover, want))
            for i, (loc, s, _, _) in enumerate(got.errors or ()):
                mon.ev("errors located")
                mon.ev("later errors", i > 0)
                if how != "tokens":
                    continue
                mon.ev("at end of input", bool(toks) and loc == true(
                    len(toks)))
                if loc not in legal or s != fmt_linecol(loc):
                    mon.fail("error not located at a token\n grammar: {}\n"
                             " input: {}\n observed: {}".format(g, inp, got))
            compare(mon, g, inp, want, got,
                    "token grammar differs from the documented semantics"
                    " (recover={})".format(recover))


def case(rng, idx, mon):
    if rng.random() < .5:
        for _ in range(4):
            single(rng, mon)
    else:
        grammars(rng, mon)
