"""Recovery against the reference semantics: value, repairs, report."""
from ..common import (
    MODEL, Cfg, compare, dense_inputs, grammar_inputs, layout_dense, lazy, limit,
    ref, run)

ID = "C08"
LEVEL = "exploration"
COUNTS = {"quick": 90000, "thorough": 1200000}
MIN = {"recovered": 60000, "several candidates": 30000, "three or more"
       " candidates": 6000, "several errors": 15000, "ties on cost": 8000,
       "skip chosen": 20000, "insert chosen": 20000}
RULE = (
    "random recovery grammars (all combinators, layout, all insertion limits,"
    " all location styles) with corrupted inputs and small grammars on all"
    " inputs up to length 3; the complete outcome (value, errors with"
    " locations and expectations, repairs with counts and labels) is compared"
    " with the reference semantics, which enumerates every candidate repair"
    " and picks by (cost, end position, order). Non-trivial: distinct"
    " (grammar, input, limit) with at least one repair.")
ASSUMPTIONS = [MODEL]


def judge(mon, g, p, inp, mi):
    want = ref(mon, g, inp, True, mi)
    if want is None or want.kind == "exc":
        return
    got = run(p, inp, True, mi)
    rec = want.kind == "rec"
    mon.case((repr(g), repr(inp), mi), rec, lazy(g, inp, mi, want))
    if rec:
        mon.ev("recovered")
        mon.ev("several candidates", want.cands > 1)
        mon.ev("three or more candidates", want.cands > 2)
        mon.ev("ties on cost", want.ties)
        mon.ev("several errors", len(want.errors) > 1)
        ops = {e[3][0] for e in want.errors}
        mon.ev("skip chosen", "skip" in ops)
        mon.ev("insert chosen", "ins" in ops)
    compare(mon, g, inp, want, got,
            "recovery differs from the documented choice", mi)


def case(rng, idx, mon):
    x = rng.random()
    if x < .04:
        for g, p, inp in layout_dense(rng, True):
            judge(mon, g, p, inp, limit(rng))
    elif x < .18:
        for g, p, inp in dense_inputs(rng, True, cap=20):
            judge(mon, g, p, inp, rng.choice([0, 1, 2, 5]))
    else:
        cfg = Cfg(recovery=True, layout=rng.random() < .2,
                  attempt=rng.random() < .7, derived=rng.random() < .7,
                  depth=rng.choice([3, 4, 4, 5]))
        mut = rng.choice([None, 1, 2, 3])
        for g, p, inp in grammar_inputs(rng, cfg, mutate=mut,
                                        fuel=rng.choice([10, 30, 60])):
            mi = limit(rng)
            judge(mon, g, p, inp, mi)
