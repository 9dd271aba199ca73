"""Invalid inputs: recovery reports every error and starts from the first."""
from ..common import (
    Cfg, dense_inputs, grammar_inputs, kinds, layout_dense, lazy, parse, ref,
    str_input)
from ..impl import items
from ..show import show
from ..steps import StepLimit, Steps
from .. import real
import reparsec as rp

ID = "C04"
LEVEL = "exploration"
COUNTS = {"quick": 75000, "thorough": 1000000}
MIN = {"invalid": 60000, "recovered": 30000, "not recovered": 12000,
       "first errors compared": 25000, "later errors": 4000}
RULE = (
    "random recovery grammars with corrupted inputs, small grammars on all"
    " inputs up to length 3 and corrupted JSON; whenever the plain parse fails"
    " the recovering parse is run for several insertion limits and both"
    " unwraps are observed: no value without recover=True, every error"
    " repaired iff a value is returned, otherwise exactly one error without a"
    " repair from both; for grammars without attempt the first error equals"
    " the plain one. Non-trivial: distinct invalid (grammar, input).")
ASSUMPTIONS = ["the plain parse is the oracle for the first error (C02 judges"
               " it); repetition of an empty match is excluded (C15)"]


def both(r):
    """(value or None, errors) for unwrap() and unwrap(recover=True)."""
    out = []
    for rec in (False, True):
        try:
            out.append((show(r.unwrap(recover=rec)), None))
        except rp.ParseError as e:
            out.append((None, items(e)))
    return out


def judge(mon, rng, what, p, inp, attempt_free, g=None):
    light = g is None
    try:
        pl = parse(p, inp.stream, False, inp.how)()
        (pv, perr), _ = both(pl)
    except RuntimeError:
        return
    if perr is None:
        return
    mon.ev("invalid")
    s = what
    kws = [{}]
    if inp.how == "default" or rng.random() < .4:
        kws = [{"max_insertions": rng.choice([0, 1, 2, 3, 4, 7])}]
        if not light:
            kws.append({})
    for kw in kws:
        if g is not None and ref(mon, g, inp, True, kw.get(
                "max_insertions", 5)) is None:
            continue    # too many repairs to choose from

        def fail(msg, obs):
            mon.fail("{}\n grammar: {}\n input: {}\n options: {}\n plain"
                     " error: {}\n observed: {}".format(
                         msg, s, inp, kw, perr, obs))
        try:
            if light:
                try:
                    with Steps(300000):
                        r = parse(p, inp.stream, True, inp.how, **kw)()
                except StepLimit:
                    mon.ev("left out: too many repairs")
                    continue
            else:
                r = parse(p, inp.stream, True, inp.how, **kw)()
            (v, err), (rv, rerr) = obs = both(r)
        except RuntimeError:
            return
        mon.case((s, repr(inp), repr(kw)), sample=lazy(s, inp, obs))
        if err is None:
            fail("recovery hides the error: unwrap() returns a value", obs)
        if not err:
            fail("no error reported", obs)
        if rerr is None:
            mon.ev("recovered")
            mon.ev("later errors", len(err) > 1)
            for _, _, _, op in err:
                if op is None or op[0] == "?":
                    fail("an error without a repair although a recovered"
                         " value exists", obs)
        else:
            mon.ev("not recovered")
            if len(err) != 1 or err[0][3] is not None or rerr != err:
                fail("without a repair both unwraps must raise one error"
                     " without a repair", obs)
        if attempt_free:
            mon.ev("first errors compared")
            if err[0][:3] != perr[0][:3]:
                fail("the first error differs from the one reported without"
                     " recovery", obs)


_J = {}


def json_case(rng, mon):
    if not _J:
        _J["tok"], _J["text"] = real.make_json(True), real.make_json_text()
    t = real.dump_json(rng, real.gen_json(rng, 2))[:60]
    toks = real.corrupt_tokens(rng, real.json_tokens(t), 1)
    judge(mon, rng, "json", _J["tok"],
          str_input(None, toks, rng.choice(["default", "tokens"])), True)
    t = real.corrupt(rng, t[:25], 1)
    judge(mon, rng, "json text", _J["text"],
          str_input(None, t, rng.choice(["default", "text"])), True)


def case(rng, idx, mon):
    x = rng.random()
    if x < .01:
        return json_case(rng, mon)
    if x < .12:
        it = dense_inputs(rng, True, cap=20)
    elif x < .2:
        it = layout_dense(rng, True)
    else:
        cfg = Cfg(recovery=True, layout=rng.random() < .2,
                  attempt=rng.random() < .4)
        it = grammar_inputs(rng, cfg, mutate=rng.choice([None, 1, 2, 3]),
                            fuel=30)
    for g, p, inp in it:
        judge(mon, rng, repr(g), p, inp, "attempt" not in kinds(g), g)
