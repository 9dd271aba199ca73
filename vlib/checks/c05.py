"""Replaying the reported repairs as edits of the input."""
from .. import real
from ..build import build
from ..common import (
    Input, lazy, parse, pieces, ref, str_input)
from ..gen import MySeq
from ..impl import observe, op_key
from ..ll1 import EXTRA, LL1, generate
from ..scale import Scaled
from ..show import show
from ..steps import StepLimit, Steps
import reparsec as rp

ID = "C05"
LEVEL = "exploration"
COUNTS = {"quick": 30000, "thorough": 400000}
MIN = {"replayed": 30000, "insertions": 25000, "skips": 15000,
       "several repairs": 10000, "json replayed": 150,
       "later errors": 20000, "enlarged grammars": 500}
RULE = (
    "random grammars checked by FIRST/FOLLOW to decide with one token of"
    " lookahead (sequences, prefix-free string literals; recursive"
    " definitions; value-dependent continuations; recover, token-valued"
    " recover_with) on corrupted inputs, and corrupted JSON token streams:"
    " whenever recovery returns a value, the reported repairs are applied to"
    " the input as edits, which must be ordered, disjoint and inside it, and"
    " the edited input is parsed plainly by the same parser: it must succeed"
    " with the recovered value; after each proper prefix of the repairs, the"
    " plain parse must report exactly the next reported error (position and"
    " expectations). Non-trivial: distinct recovered (grammar,"
    " input).")
ASSUMPTIONS = [
    "the FIRST/FOLLOW analysis in vlib/ll1.py decides which grammars are in"
    " scope", "runs beyond the model's step budget (exponentially many"
    " repairs) are skipped and counted"]


def edit(stream, errs, tokens, text):
    """Applies the repairs; returns (pieces, problem)."""
    out = []
    at = 0
    n = len(stream)
    for e in errs:
        pos = e.loc.pos
        if pos < at or pos > n:
            return None, "repair out of order, overlapping or outside"
        out += [stream[i] for i in range(at, pos)]
        at = pos
        op = op_key(e.op)
        if op is None or op[0] == "?":
            return None, "error without a repair"
        if op[0] == "skip":
            if op[1] < 1 or pos + op[1] > n:
                return None, "skip count outside the input"
            at = pos + op[1]
        elif op[1] not in tokens:
            return None, "inserted something the grammar cannot insert"
        else:
            t = tokens[op[1]]
            if text:
                out += t
            else:
                out.append(t)
    out += [stream[i] for i in range(at, n)]
    return out, None


def later(mon, p, inp, errs, tokens, text, fail):
    """Error i is what a plain parse of the input with the repairs before it
    applied reports."""
    s = inp.stream
    for i in range(1, len(errs)):
        new, _ = edit(s, errs[:i], tokens, text)
        at = len(new) - (len(s) - errs[i].loc.pos)
        if text:
            new = "".join(new)
        mon.ev("later errors")
        o = observe(parse(p, new, False), False)
        want = ("fail", at, errs[i].expected)
        got = (o.kind, o.errors and o.errors[0][0][0],
               o.errors and list(o.errors[0][2]))
        if got != want:
            fail("error {} is not the one that remains after the repairs"
                 " before it".format(i + 1), "\n reported: {}\n remains: {}"
                 "\n partly edited input: {!r}".format(want, got, new))


def judge(mon, what, p, inp, tokens, mi, text, limit=None):
    kw = {} if mi == 5 and inp.how != "default" else {
        "max_insertions": mi}
    try:
        if limit:
            with Steps(limit):
                r = parse(p, inp.stream, True, inp.how, **kw)()
        else:
            r = parse(p, inp.stream, True, inp.how, **kw)()
    except StepLimit:
        mon.ev("left out: too many repairs")
        return
    try:
        r.unwrap()
        mon.ev("valid input")
        return
    except rp.ParseError as e:
        errs = e.errors
    try:
        v = show(r.unwrap(recover=True))
    except rp.ParseError:
        mon.ev("not recovered")
        return
    ops = [(e.loc.pos, op_key(e.op)) for e in errs]
    s = inp.stream
    new, bad = edit(s, errs, tokens, text)

    def fail(msg, extra=""):
        mon.fail("{}\n grammar: {}\n input: {}\n repairs: {}\n recovered: {}"
                 "{}".format(msg, what, inp, ops, v, extra))
    if bad:
        fail(bad)
    later(mon, p, inp, errs, tokens, text, fail)
    if text:
        new = "".join(new)
    elif isinstance(s, tuple):
        new = tuple(new)
    elif isinstance(s, MySeq):
        new = MySeq(new)
    mon.ev("replayed")
    mon.ev("several repairs", len(ops) > 1)
    for _, o in ops:
        mon.ev("skips" if o[0] == "skip" else "insertions")
    mon.case((what, repr(inp), mi), sample=lazy(what, inp, ops, v))
    try:
        w = show(parse(p, new, False, inp.how)().unwrap())
    except rp.ParseError as e:
        fail("the repaired input is not valid",
             "\n edited input: {!r}\n error: {}".format(new, e))
    if w != v:
        fail("the repaired input has another value",
             "\n edited input: {!r}\n value: {}".format(new, w))


_J = {}


def json_case(rng, mon):
    if not _J:
        _J["p"] = real.make_json(True)
    t = real.dump_json(rng, real.gen_json(rng, 3))[:70]
    toks = real.corrupt_tokens(
        rng, real.json_tokens(t), rng.choice([1, 1, 2]))
    n = mon.events["replayed"]
    judge(mon, "json", _J["p"], str_input(None, toks), real.J_INSERT, 5,
          False, 400000)
    mon.ev("json replayed", mon.events["replayed"] - n)


def case(rng, idx, mon):
    if rng.random() < .03:
        return json_case(rng, mon)
    fam = rng.choice("TTTS")
    g, tokens = generate(rng, fam, rng.choice([3, 4, 4, 5]))
    if g is None:
        mon.ev("no grammar found")
        return
    mon.ev("grammars")
    big = None
    if rng.random() < .06:
        big = Scaled(rng, g, 1500)
        g = big.grammar
        tokens = dict(tokens)
        for x in "~", "~\n", "~~~", "~\u00e9", "~\r\n", "\n", "<", ">", "!":
            tokens[repr(x)] = x
        univ = list(tokens.values()) + EXTRA
        if not LL1(g, univ).ok:
            return mon.ev("not decided by one token")
        mon.ev("enlarged grammars")
    p = build(g, rng)
    for _ in range(8 if big is None else 3):
        xs = pieces(rng, g, rng.choice([1, 1, 2, 2, 3]), fuel=40) \
            if big is None else big(rng.choice([1, 1, 2, 3]))
        if rng.random() < .3:
            xs.insert(rng.randint(0, len(xs)), rng.choice(["z", "9"]))
        inp = Input(g, rng, xs)
        mi = rng.choice([1, 2, 3, 4, 5, 5, 5, 7])
        if ref(mon, g, inp, True, mi) is not None:
            judge(mon, repr(g), p, inp, tokens, mi, fam == "S")
