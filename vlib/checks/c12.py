"""Layout: true columns against the enclosing block."""
import re

import reparsec as rp
from reparsec import lexer, scannerless
from reparsec.layout import aligned, block, indented
from reparsec.lexer import token
from reparsec.scannerless import regexp
from reparsec.sequence import eof

from ..build import build
from ..common import (
    MODEL, Cfg, Input, compare, enlarge, gen_grammar, kinds, layout_dense,
    layout_how, lazy, limit, mk_tokens, ref, run)
from ..gen import locf_tokens, text_loc
from ..impl import items
from ..scale import size
from ..show import show

ID = "C12"
LEVEL = "exploration"
COUNTS = {"quick": 90000, "thorough": 1200000}
MIN = {"layout grammars": 40000, "indentation errors": 12000,
       "recovered": 8000, "trees": 8000, "trees accepted": 2500,
       "trees refused": 2500, "depth 3 or more": 1000,
       "over tokens": 10000,
       "large trees": 400, "columns over 100": 200}
RULE = (
    "(a) random and small dense layout grammars (nested block, aligned,"
    " indented with deltas -1..4, inside alternatives, repetition, attempt,"
    " recovery) over multi-line texts and lexed token lists, plain and"
    " recovering, complete outcome against the reference semantics with"
    " columns counted from the source; (b) indentation trees of random shape"
    " and delta, intact and with perturbed indentation, against a direct"
    " interpreter of the line columns: value or location of the first line"
    " that does not fit. Non-trivial: distinct (grammar, input, mode).")
ASSUMPTIONS = [MODEL]


def judge(mon, g, p, inp, recover, mi=5):
    want = ref(mon, g, inp, recover, mi)
    if want is None or want.kind == "exc":
        return
    got = run(p, inp, recover, mi)
    mon.ev("layout grammars")
    mon.ev("recovered", want.kind == "rec")
    mon.ev("over tokens", inp.how == "tokens")
    mon.ev("indentation errors", want.errors is not None and any(
        "indentation" in e[1] or "indentation" in e[2] for e in want.errors))
    mon.case((repr(g), repr(inp), recover), sample=lazy(g, inp, want))
    compare(mon, g, inp, want, got,
            "layout differs from the true columns (recover={})".format(
                recover))


def random_case(rng, mon):
    fam = rng.choice("SL")
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .6, layout=True), fam)
    if not {"block", "aligned", "indented"} & kinds(g):
        g.root = rng.choice([("block", g.root), ("aligned", g.root),
                             ("indented", 1, g.root)])
    g, take = enlarge(rng, g, top=2500)
    p = build(g, rng)
    for _ in range(4):
        inp = Input(g, rng, take(), layout_how(g))
        for recover in (False, True):
            judge(mon, g, p, inp, recover, limit(rng)
                  if recover else 5)


def dense_case(rng, mon):
    rec = rng.random() < .5
    for g, p, inp in layout_dense(rng, rec):
        judge(mon, g, p, inp, rec and rng.random() < .7,
              limit(rng))


# --- indentation trees -------------------------------------------------------

def tree_parser(d, toks, early):
    if toks:
        word = token("id").fmap(lambda t: t.value)
    else:
        word = regexp(r"[a-z]+") << regexp(r"\s*")
    item = rp.Delay()
    body = indented(d, aligned(item).many()).maybe()
    definition = word + body
    if early:
        item.define(definition)
    root = block(aligned(item).many())
    if not early:
        item.define(definition)
    return root << eof()


_P = {}
L = re.compile(r"(?P<id>[a-z]+)|\s+")


def gen_tree(rng, depth):
    return [("abcdefgh"[rng.randrange(8)] * rng.choice([1, 1, 3]),
             gen_tree(rng, depth - 1) if depth and rng.random() < .5 else [])
            for _ in range(rng.choice([1, 1, 2, 3]))]


def lines(tree, col, d):
    for name, sub in tree:
        yield [col, name]
        yield from lines(sub, col + d, d)


def interpret(ls, d, endcol):
    """(value, index of the first line that does not fit, deepest level)"""
    cols = [c for c, _ in ls] + [endcol]
    n = len(ls)
    deep = [0]

    def items_(i, mark, lev):
        out = []
        deep[0] = max(deep[0], lev)
        while i < n and cols[i] == mark:
            name = ls[i][1]
            i += 1
            sub = None
            if cols[i] == mark + d:
                sub, i = items_(i, mark + d, lev + 1)
            out.append((name, sub))
        return out, i

    v, i = items_(0, cols[0], 0)
    return v, i, deep[0]


def tree_case(rng, mon):
    d = rng.choice([1, 2, 2, 3, 4, 0, -1, -2])
    toks = rng.random() < .5
    key = (d, toks, rng.random() < .5)
    if key not in _P:
        _P[key] = tree_parser(*key)
    p = _P[key]
    base = rng.choice([0, 0, 1, 4])
    if rng.random() < .05:
        base = size(rng, 1500)
    if d < 0:
        base += 8
    x = rng.random()
    t = gen_tree(rng, 3)
    if x < .03:
        # deep
        for i in range(rng.randint(4, 40)):
            t = [("z", t)] + gen_tree(rng, rng.choice([0, 0, 1]))
        if d < 0:
            base += 80
    elif x < .05:
        # long
        while len(t) < 120:
            t += gen_tree(rng, 1)
    ls = [x for x in lines(t, base, max(d, -2)) if x[0] >= 0]
    mon.ev("large trees", x < .05)
    mon.ev("columns over 100", ls[0][0] > 100)
    for _ in range(rng.choice([0, 0, 1, 2])):
        x = rng.choice(ls)
        x[0] = max(0, x[0] + rng.choice([-2, -1, 1, 2, d]))
    tail = rng.choice(["", "\n", "\n  ", "\n" + " " * (base + abs(d))])
    src = ""
    for i, (c, w) in enumerate(ls):
        if i:
            src += rng.choice(["\n", "\n", "\n\n", "\n \n"])
        elif not toks:
            c = ls[0][0] = 0
        src += " " * c + w
    src += tail
    if toks:
        stream = lexer.split_tokens(src, L)
        locf = locf_tokens(mk_tokens(src, L))
        mod = lexer
    else:
        stream = src
        mod = scannerless

        def locf(i):
            starts = [m.start() for m in re.finditer("[a-z]+", src)]
            return text_loc(src, (starts + [len(src)])[i])
    v, i, deep = interpret(ls, d, locf(len(ls))[2])
    mon.ev("trees")
    mon.ev("depth 3 or more", deep >= 3)
    ok = i == len(ls)
    mon.ev("trees accepted" if ok else "trees refused")
    mon.case(("tree", key, src), sample=lazy(key, src, v))

    def fail(msg, obs):
        mon.fail("{}\n delta {}, {}\n source:\n{}\n expected: {}\n observed:"
                 " {}".format(msg, d, "tokens" if toks else "text", src,
                              v if ok else locf(i), obs))
    for recover in (False, True):
        r = mod.parse(p, stream, recover)
        try:
            got = r.unwrap()
            if not ok:
                fail("accepted a line with wrong indentation", got)
            if show(got) != show(v):
                fail("wrong tree", got)
            continue
        except rp.ParseError as e:
            errs = items(e)
        if ok:
            fail("refused a correctly indented tree", errs)
        if errs[0][0] != locf(i) or "indentation" not in errs[0][2]:
            fail("indentation error at a wrong place", errs)
        if recover:
            # the rest is skipped
            n = len(ls) - i if toks else len(src) - locf(i)[0]
            if len(errs) != 1 or errs[0][3] != ("skip", n) or show(
                    r.unwrap(recover=True)) != show(v):
                fail("recovery does not keep the lines that fit", errs)


def case(rng, idx, mon):
    x = rng.random()
    if x < .35:
        random_case(rng, mon)
    elif x < .6:
        dense_case(rng, mon)
    else:
        tree_case(rng, mon)
