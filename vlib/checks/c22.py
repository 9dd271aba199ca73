"""Larger insertion limits against smaller ones, same parser and input."""
from ..build import build
from ..common import (
    EOF, Cfg, dense_inputs, grammar_inputs, lazy, ref, run, str_input)
from ..gast import Grammar
from ..scale import size

ID = "C22"
LEVEL = "exploration"
COUNTS = {"quick": 30000, "thorough": 500000}
LIMITS = [0, 1, 2, 3, 4, 5, 6, 8, 12, 1000]


def cost(o):
    return sum(op[1] if op[0] == "skip" else 1 for *_, op in o.errors)


def longest_run(o, inp):
    """Most insertions in a row in the report."""
    best = cur = 0
    last = None
    for loc, _, _, op in o.errors:
        if op[0] == "ins":
            cur = cur + 1 if loc == last else 1
            last = loc
            best = max(best, cur)
        else:
            cur, last = 0, None
    return best


def judge(mon, g, p, inp, limits):
    if ref(mon, g, inp, True, max(limits)) is None:
        return
    outs = []
    for mi in limits:
        o = run(p, inp, True, mi)
        if o.kind == "exc":
            return
        outs.append((mi, o))
    mon.case((repr(g), repr(inp), tuple(limits)), outs[0][1].kind != "ok",
             lazy(g, inp, outs))
    for (a, x), (b, y) in zip(outs, outs[1:]):
        what = ("\n grammar: {}\n input: {}\n limit {}: {}\n limit {}: {}"
                .format(g, inp, a, x, b, y))
        if x.kind != "rec":
            mon.ev("limit made it possible", y.kind == "rec")
            if x.kind == "ok" and y.key() != x.key():
                mon.fail("the limit changes a valid parse" + what)
            if y.kind == "ok" and x.kind != "ok":
                mon.fail("the limit hides an error" + what)
            if x.kind == "fail" and y.kind == "fail" and \
                    x.key() != y.key():
                mon.fail("the limit changes the error" + what)
            continue
        mon.ev("pairs")
        if y.kind != "rec":
            mon.fail("recovers with the smaller limit only" + what)
        if cost(y) > cost(x):
            mon.fail("recovery costs more with the larger limit" + what)
        mon.ev("cheaper", cost(y) < cost(x))
        mon.ev("same cost", cost(y) == cost(x))
        if longest_run(y, inp) <= a:
            mon.ev("same repairs within both")
            if x.key() != y.key():
                mon.fail("the limit matters although the repairs are within"
                         " the smaller one" + what)


def runs(rng, mon, limits):
    """Fixed sequences with a run of tokens missing, which a larger limit
    fills in where a smaller one has to skip ahead."""
    alpha = rng.choice(["ab", "abc", "abcdef"])
    long = rng.random() < .03
    xs = [rng.choice(alpha) for _ in range(
        size(rng, 700) + 2 if long else rng.randint(2, 14))]
    n = len(xs)
    if long:
        mon.ev("long runs", n > 100)
        limits = sorted(rng.sample(
            [0, 5, n // 2, n - 1, n, n + 1, 1000, 2000], 3))
    root = ("sym", xs[-1], None)
    for x in reversed(xs[:-1]):
        root = (rng.choice(["seq", "seqr", "seql"]), ("sym", x, None), root)
    if rng.random() < .3:
        root = ("recover", root)
    if rng.random() < .3:
        root = ("many", root)
    if rng.random() < .8:
        root = ("seql", root, EOF)
    g = Grammar("T", root, (), list(alpha))
    p = build(g, rng)
    for _ in range(4):
        ys = list(xs)
        i = rng.randint(0, len(ys))
        if long and rng.random() < .4:
            i = 0
        del ys[i:i + (n if long and rng.random() < .5 else
                      rng.randint(1, 9))]
        ys += [rng.choice(alpha) for _ in range(rng.choice([0, 0, 1, 3, 8]))]
        if rng.random() < .3:
            ys += xs
        judge(mon, g, p, str_input(g, "".join(ys)), limits)


def case(rng, idx, mon):
    limits = sorted(rng.sample(LIMITS, rng.choice([2, 3, 4])))
    if rng.random() < .15:
        for g, p, inp in dense_inputs(rng, True, cap=12):
            judge(mon, g, p, inp, limits)
        return
    if rng.random() < .25:
        runs(rng, mon, limits)
        return
    cfg = Cfg(recovery=rng.random() < .8, layout=rng.random() < .1,
              attempt=rng.random() < .7, depth=rng.choice([2, 3, 4, 4]))
    for g, p, inp in grammar_inputs(rng, cfg, n=4):
        judge(mon, g, p, inp, limits)


MIN = {"pairs": 80000, "cheaper": 700, "same repairs within both": 60000,
       "limit made it possible": 8000, "long runs": 80}
RULE = (
    "random recovery grammars, small grammars on short inputs and fixed"
    " sequences with missing runs, each input recovered with two to four"
    " insertion limits between 0 and 1000: a larger limit recovers whatever a"
    " smaller one does, at no higher cost (insertions plus skipped elements),"
    " gives the very same outcome if its repairs stay within the smaller"
    " limit, and never changes valid parses or hides errors. Non-trivial:"
    " distinct (grammar, input, limits) that do not parse.")
ASSUMPTIONS = [
    "the reference semantics only bounds the size of a case here: cases"
    " beyond its step budget are skipped and counted; verdicts compare real"
    " runs"]
