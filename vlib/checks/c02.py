"""The report of a failed plain parse against the reference semantics."""
from ..build import build
from ..common import (
    MODEL, Cfg, dense_inputs, gen_grammar, grammar_inputs, layout_dense, lazy,
    observe, parse, pieces, ref, run, small)
from ..gast import Grammar, kinds

ID = "C02"
LEVEL = "exploration"
COUNTS = {"quick": 100000, "thorough": 1500000}
MIN = {"expected fail": 30000, "several labels": 8000, "no label": 1500,
       "error past start": 12000, "continuations tried": 40000}
RULE = (
    "random grammars and inputs as in C01 with more corrupted inputs, plus"
    " small grammars on all inputs up to length 3, parsed plainly with all"
    " three location styles; the single error's location, displayed location,"
    " expectation list (with order and duplicates) and absence of a repair are"
    " compared. For grammars without attempt the list is also checked against"
    " the parser itself: every element of the alphabet is tried in place of the"
    " rest of the input, and the listed labels must be those of the elements"
    " that are accepted there. Non-trivial: a distinct (grammar, input) that fails.")
ASSUMPTIONS = [MODEL]


def judge(mon, g, p, inp):
    want = ref(mon, g, inp, False)
    if want is None or want.kind == "exc":
        return
    got = run(p, inp, False)
    mon.case((repr(g), repr(inp)), want.kind == "fail",
             lazy(g, inp, want))
    if want.kind == "fail":
        (loc, _, exp, _), = want.errors
        mon.ev("several labels", len(exp) > 1)
        mon.ev("no label", not exp)
        mon.ev("error past start", loc[0] > 0)
    if (want.kind, want.errors) != (got.kind, got.errors):
        mon.fail("plain parse reports a wrong error\n grammar: {}\n input: {}"
                 "\n expected: {}\n observed: {}".format(g, inp, want, got))


# --- the labels are exactly the possible continuations -----------------------

CONT_KINDS = ["seq", "seq", "seql", "alt", "alt", "maybe", "many", "sepby"]
CONT_OK = {"seq", "seql", "seqr", "alt", "maybe", "many", "sepby", "sym",
           "fmap", "between", "chainl", "chainr", "tup", "ref", "pure",
           "puren", "eof"}


def continuations(rng, mon):
    alpha = "abcd"
    if rng.random() < .6:
        labs = rng.choice([(None,) * 4, ("one", "two", "", "'a'")])
        leaves = [("sym", x, lab) for x, lab in zip(alpha, labs)]
        g = Grammar("T", small(rng, rng.randint(1, 7), CONT_KINDS, leaves),
                    (), alpha)
        label = {x: repr(x) if lab is None else lab
                 for x, lab in zip(alpha, labs)}
    else:
        g = gen_grammar(rng, Cfg(attempt=False, bind=False, label=False,
                                 eof_inside=False), "T")
        ks = kinds(g)
        if g.root[-1] == ("eof",):
            g.root = g.root[1]
        if not ks <= CONT_OK or not all(
                isinstance(x, str) and len(x) == 1 for x in g.alphabet):
            return
        alpha = "".join(g.alphabet)
        label = {x: repr(x) for x in alpha}
        if any(n[0] == "sym" and n[2] is not None or n[0] == "eof"
               for n in nodes(g)):
            return
    g.root = ("seql", g.root, ("eof",))
    p = build(g, rng)

    def go(s):
        return observe(parse(p, s, False), False)
    for _ in range(6):
        s = "".join(pieces(rng, g, rng.choice([1, 1, 2, 3]))
                    if rng.random() < .5 else
                    [rng.choice(alpha) for _ in range(rng.randint(0, 6))])
        o = go(s)
        if o.kind != "fail":
            continue
        (loc, _, exp, _), = o.errors
        k = loc[0]
        got = []
        for x in alpha:
            q = go(s[:k] + x)
            mon.ev("continuations tried")
            if q.kind == "exc":
                return      # repeats an empty match
            if q.kind == "ok" or q.errors[0][0][0] > k:
                got.append(label[x])
        q = go(s[:k])
        if q.kind == "exc":
            return
        if q.kind == "ok":
            got.append("end of file")
        mon.case(("cont", repr(g), s), sample=lazy(g, s, exp))
        if set(exp) != set(got):
            mon.fail("the expectations are not what could continue the parse"
                     "\n grammar: {}\n input: {!r}\n error at: {}\n listed:"
                     " {}\n accepted there: {}".format(g, s, k, exp, got))


def nodes(g):
    from ..gast import kids
    todo = [g.root, *g.defs]
    while todo:
        n = todo.pop()
        yield n
        todo += kids(n)


def case(rng, idx, mon):
    if rng.random() < .1:
        for _ in range(3):
            continuations(rng, mon)
    elif rng.random() < .12:
        for g, p, inp in dense_inputs(rng, rng.random() < .3):
            judge(mon, g, p, inp)
    elif rng.random() < .07:
        for g, p, inp in layout_dense(rng, rng.random() < .2):
            judge(mon, g, p, inp)
    else:
        cfg = Cfg(recovery=rng.random() < .3, layout=rng.random() < .25,
                  attempt=rng.random() < .8)
        mut = rng.choice([None, 1, 2, 3])
        for g, p, inp in grammar_inputs(rng, cfg, mutate=mut):
            judge(mon, g, p, inp)
