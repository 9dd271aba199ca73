"""Valid inputs: parsing with recovery enabled equals plain parsing."""
from ..common import (
    Cfg, dense_inputs, grammar_inputs, layout_dense, lazy,
    observe, parse, run, str_input)
from .. import real

ID = "C03"
LEVEL = "exploration"
COUNTS = {"quick": 65000, "thorough": 1000000}
MIN = {"valid": 35000, "valid, recovery features present": 15000,
       "compared": 90000}
RULE = (
    "random recovery grammars (recover, recover_with, recover_with_fn,"
    " token_ins, attempt, layout) and inputs derived from them; whenever the"
    " plain parse succeeds, the recovering parse is run for insertion limits"
    " 0, 1, 2, 5 (default and explicit), 50 and through the text/token"
    " helpers, and value and stopping position compared; both unwraps are"
    " checked. Also JSON documents. Non-trivial: distinct valid (grammar,"
    " input).")
ASSUMPTIONS = ["the plain parse is the oracle (C01 judges it); repetition of"
               " an empty match is excluded (C15)"]


def judge(mon, rng, g, p, inp, what=None):
    a = run(p, inp, False)
    if a.kind != "ok":
        return
    mon.ev("valid")
    s = what or repr(g)
    if "rw" in s or "recover" in s or "tokins" in s:
        mon.ev("valid, recovery features present")
    mon.case((s, repr(inp)), sample=lazy(what or g, inp, a))
    kws = [{}]
    if inp.how == "default" or rng.random() < .5:
        kws = [{}, {"max_insertions": rng.choice([0, 1, 2, 3, 4])},
               {"max_insertions": rng.choice([0, 5, 7, 50])}]
    for kw in kws:
        b = observe(parse(p, inp.stream, True, inp.how, **kw), True)
        mon.ev("compared")
        if (b.kind, b.value) != ("ok", a.value):
            mon.fail("enabling recovery changed the result of a valid input\n"
                     " grammar: {}\n input: {}\n options: {}\n plain: {}\n"
                     " recover: {}".format(s, inp, kw, a, b))


def json_case(rng, mon):
    t = real.dump_json(rng, real.gen_json(rng, 3))
    p = real.make_json(True)
    toks = real.json_tokens(t)
    for how in ("default", "tokens"):
        judge(mon, rng, None, p, str_input(None, toks, how), "json recover")
    q = real.make_json_text()
    for how in ("default", "text"):
        judge(mon, rng, None, q, str_input(None, t, how),
              "json text recover")


def case(rng, idx, mon):
    x = rng.random()
    if x < .04:
        return json_case(rng, mon)
    if x < .14:
        it = dense_inputs(rng, True)
    elif x < .26:
        it = layout_dense(rng, True, 24)
    else:
        cfg = Cfg(recovery=True, layout=rng.random() < .25)
        it = grammar_inputs(rng, cfg, mutate=rng.choice([0, 0, None]))
    for g, p, inp in it:
        judge(mon, rng, g, p, inp)
