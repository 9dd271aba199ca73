"""The insertion limit: never exceeded, exactly reached, counted afresh."""
from .. import real
from ..build import build
from ..common import (
    Cfg, Grammar, Input, dense_inputs, grammar_inputs, lazy, observe, parse,
    ref, run, str_input)
from ..env import lexer
from ..scale import size
from ..steps import StepLimit, Steps

ID = "C06"
LEVEL = "exploration"
COUNTS = {"quick": 60000, "thorough": 800000}
MIN = {"runs within limit": 6000, "runs beyond limit": 4000,
       "runs exactly at limit": 2500, "several runs": 2500,
       "default limit": 3000, "reports monitored": 40000,
       "limit 0": 3000, "full run reported": 3000,
       "runs around skips": 1500, "items completed": 800,
       "long sequences": 100, "far into the input": 100}
RULE = (
    "(a) fixed sequences of distinct tokens in random shapes (nested sequences,"
    " tuples, between, labels, recover, attempt, forward declarations, unused optional"
    " parts in between; as sequence, string and lexer-token grammars) with"
    " runs of tokens removed: recovery must insert exactly the missing tokens"
    " iff every run is within the limit (0 to 8, and the default through every"
    " entry point); with foreign elements before present tokens it must"
    " still recover, no dearer than inserting the missing and skipping the"
    " foreign ones; (b) a monitor counting consecutive insertions in every"
    " report of random recovery grammars, small grammars on all short inputs,"
    " and JSON. Non-trivial: distinct (grammar, input, limit) that is"
    " invalid.")
ASSUMPTIONS = ["runs beyond the model's step budget (exponentially many"
               " repairs) are skipped and counted"]


def run_lengths(errs):
    """Lengths of runs of insertions with nothing consumed or skipped."""
    out = []
    last = None
    for loc, _, _, op in errs:
        if op is None or op[0] != "ins":
            last = None
            continue
        if out and last == loc[0]:
            out[-1] += 1
        else:
            out.append(1)
        last = loc[0]
    return out


def check_report(mon, what, inp, limit, got):
    if got.kind != "rec":
        return
    runs = run_lengths(got.errors)
    mon.ev("reports monitored")
    mon.ev("limit 0", limit == 0)
    mon.ev("full run reported", limit > 0 and limit in runs)
    mon.case((what, repr(inp), limit), sample=lazy(what, inp, limit, got))
    if runs and max(runs) > limit:
        mon.fail("{} insertions in a row with a limit of {}\n grammar: {}\n"
                 " input: {}\n observed: {}".format(
                     max(runs), limit, what, inp, got))


# --- fixed sequences ---------------------------------------------------------

NAMES = ["t%d" % i for i in range(14)]
CHARS = "abcdefghijklmn"
LITS = ["(", "if", "=", "+", "then", "fi", ")", "[", "do", "]", "{", "}",
        "@@", ";"]


def fixed(rng, leaves, unused):
    """A random shape whose leaves, in order, are ``leaves``."""
    def filler():
        u = unused()
        return rng.choice([("maybe", u), ("many", u), ("pure", 1),
                           ("sepby", u, u), ("alt", u, ("pure", 2))])

    def build(ls):
        if len(ls) == 1:
            n = ls[0]
        elif len(ls) == 3 and rng.random() < .4:
            n = ("between", ls[0], ls[2], ls[1])
        elif 2 <= len(ls) <= 8 and rng.random() < .3:
            n = ("tup", tuple(build([x]) for x in ls),
                 rng.choice([None, 1]))
        else:
            i = rng.randint(1, len(ls) - 1)
            a, b = build(ls[:i]), build(ls[i:])
            n = ("bind", a, (b,)) if rng.random() < .15 else (
                rng.choice(["seq", "seql", "seqr"]), a, b)
        x = rng.random()
        if x < .08:
            n = ("seql", n, filler())
        elif x < .16:
            n = ("seqr", filler(), n)
        elif x < .22:
            n = ("recover", n)
        elif x < .28:
            n = ("label", n, "lab")
        elif x < .34:
            n = ("fmap", 3, n)
        elif x < .38:
            n = ("bind", n, (("pure", 5),))
        elif x < .46:
            n = ("alt", n, unused())
        elif x < .53:
            n = ("attempt", n)
        return n
    return build(leaves)


def fixed_case(rng, mon):
    fam = rng.choice("TTSL")
    n = rng.randint(1, 14)
    big = fam in "TS" and rng.random() < .02
    if big:
        n = size(rng, 700)
        mon.ev("long sequences", n > 20)
    if big and fam == "T":
        pool = list(range(n)) if rng.random() < .5 else [
            "t%d" % i for i in range(n)]
        leaf = [("sym", x, None) for x in pool]
        gone = [repr(x) for x in pool]
        unused = lambda: ("sym", "unused", None)
    elif big:
        pool = ["k%d;" % i for i in range(n)]
        leaf = [("lit", x) for x in pool]
        gone = [repr(x) for x in pool]
        unused = lambda: ("lit", "?")
    elif fam == "T":
        pool = list(rng.choice([NAMES, CHARS, list(range(14))]))
        leaf = [("sym", x, None) for x in pool]
        gone = [repr(x) for x in pool]
        unused = lambda: ("sym", "unused", None)
    elif fam == "S":
        pool = list(LITS)
        leaf = [("lit", x) for x in pool]
        gone = [repr(x) for x in pool]
        unused = lambda: ("lit", "?")
    else:
        pool = [("op", c) for c in "+-*(),:"] + [
            ("id", c) for c in "abcdefg"]
        leaf = []
        gone = []
        for k, v in pool:
            leaf.append(("sym", lexer.Token(k, v), v))
            gone.append(v)
        unused = lambda: ("tok", "num")
    order = rng.sample(range(len(pool)), n)
    leaves = []
    for i in order:
        lf = leaf[i]
        if not big and rng.random() < .12:
            lf = ("rw", lf, pool[i] if fam != "L" else lf[1], gone[i])
        leaves.append(lf)
    root = fixed(rng, leaves, unused)
    defs = []
    if rng.random() < .2:
        defs, root = [root], ("ref", 0)
    if rng.random() < .7:
        root = ("seql", root, ("eof",))
    pre = []
    if rng.random() < .03:
        # far into the input
        e = {"T": "~", "S": "~", "L": ("id", "zzz")}[fam]
        pre = [e] * size(rng, 1500)
        root = ("seqr", ("many", {
            "T": ("sym", "~", None), "S": ("lit", "~"),
            "L": ("sym", lexer.Token("id", "zzz"), "zzz")}[fam]), root)
        mon.ev("far into the input", len(pre) > 50)
    g = Grammar(fam, root, defs, pool)
    p = build(g, rng)
    for _ in range(3):
        keep = 0 if big and rng.random() < .4 else rng.random()
        present = [rng.random() < keep for _ in order]
        xs = pre + [pool[i] for i, k in zip(order, present) if k]
        runs = []
        missing = []
        pos = len(pre)
        inp = Input(g, rng, xs)
        run_ = 0
        for i, k in zip(order, present):
            if k:
                if run_:
                    runs.append(run_)
                run_ = 0
                pos += len(pool[i]) if fam == "S" else 1
            else:
                run_ += 1
                missing.append((inp.locf(pos)[0], ("ins", gone[i])))
        if run_:
            runs.append(run_)
        if not runs:
            continue
        top = max(runs)
        if rng.random() < (.3 if inp.how == "default" else .6):
            limit, kw = 5, {}
            mon.ev("default limit")
        else:
            limit = max(0, rng.choice([top, top, top - 1, top + 1,
                                       rng.randint(0, 8)]))
            kw = {"max_insertions": limit}
        got = observe(parse(p, inp.stream, True, inp.how, **kw), True)
        mon.ev("runs within limit", top <= limit)
        mon.ev("runs beyond limit", top > limit)
        mon.ev("runs exactly at limit", top == limit)
        mon.ev("several runs", len(runs) > 1)
        mon.ev("limit 0", limit == 0)
        mon.case((repr(g), repr(inp), limit),
                 sample=lazy(g, inp, limit, missing))

        def fail(msg):
            mon.fail("{}\n grammar: {}\n input: {}\n limit: {} {}\n missing:"
                     " {}\n observed: {}".format(
                         msg, g, inp, limit, kw, missing, got))
        if top <= limit:
            if got.kind != "rec":
                fail("missing tokens within the limit are not inserted")
            ops = [(e[0][0], e[3]) for e in got.errors]
            if ops != missing:
                fail("the insertions are not the missing tokens")
        elif got.kind != "fail":
            fail("more tokens inserted in a row than the limit allows")
        if top <= limit and rng.random() < .6:
            garbage(rng, mon, g, p, fam, order, present, pool, limit, kw)


def garbage(rng, mon, g, p, fam, order, present, pool, limit, kw):
    """The same with foreign elements before tokens that are there: skipping
    them starts the count afresh, so the runs still fit."""
    bad = {"T": "garbage", "S": "~", "L": ("id", "zz")}[fam]
    xs = []
    cost = spots = 0
    for i, k in zip(order, present):
        if not k:
            cost += 1
            continue
        if spots < 3 and rng.random() < .4:
            m = rng.choice([1, 1, 2, 3])
            if rng.random() < .02:
                m = size(rng, 600)
            xs += [bad] * m
            cost += m
            spots += 1
        xs.append(pool[i])
    if not spots:
        return
    inp = Input(g, rng, xs, "default" if kw else None)
    if inp.how == "default" and not kw:
        limit = 5
    try:
        with Steps(400000):
            got = observe(parse(p, inp.stream, True, inp.how, **kw), True)
    except StepLimit:
        return mon.ev("left out: too many repairs")
    mon.ev("runs around skips")

    def fail(msg):
        mon.fail("{}\n grammar: {}\n input: {}\n limit: {} {}\n observed: {}"
                 .format(msg, g, inp, limit, kw, got))
    if got.kind != "rec":
        fail("missing tokens within the limit are not inserted around skips")
    done = sum(1 if e[3][0] == "ins" else e[3][1] for e in got.errors)
    if done > cost:
        fail("recovery uses {} insertions and skips where {} suffice".format(
            done, cost))
    if max(run_lengths(got.errors), default=0) > limit:
        fail("more tokens inserted in a row than the limit allows")


def repeat_case(rng, mon):
    """Items of a repetition with missing tokens: each item's runs are within
    the limit, whatever earlier items needed."""
    k = rng.randint(2, 4)
    fam = rng.choice("TTS")
    pool = list("abcd;,") if fam == "T" else ["a", "if", "c", "then", ";",
                                             ","]
    leaf = [("sym" if fam == "T" else "lit", x) + (
        (None,) if fam == "T" else ()) for x in pool]
    item = leaf[0]
    for lf in leaf[1:k]:
        item = (rng.choice(["seq", "seql", "seqr"]), item, lf)
    if rng.random() < .3:
        item = ("fmap", 1, item)
    elif rng.random() < .2:
        item = ("bind", item, (("pure", 5),))
    form = rng.randrange(4)
    sep = form in (1, 2)
    if form == 0:
        root = ("many", item)
    elif form == 1:
        root = ("sepby", item, leaf[5])
    elif form == 2:
        root = (rng.choice(["chainl", "chainr"]), item, leaf[5])
    else:
        root = ("seq", item, ("many", item))
    root = ("seql", root, rng.choice([leaf[4], ("eof",)]))
    g = Grammar(fam, root, [], pool)
    p = build(g, rng)
    for _ in range(2):
        m = rng.randint(2, 4)
        xs = []
        runs = []
        cost = 0
        bare = rng.random() < .5
        for i in range(m):
            if sep and i:
                xs.append(pool[5])
            xs.append(pool[0])
            run_ = 0
            for t in pool[1:k]:
                if bare or rng.random() < .4:
                    run_ += 1
                    cost += 1
                else:
                    if run_:
                        runs.append(run_)
                    run_ = 0
                    xs.append(t)
            if run_:
                runs.append(run_)
        if root[2] != ("eof",):
            xs.append(pool[4])
        if not runs:
            continue
        inp = Input(g, rng, xs, "default")
        limit = max(runs) + rng.choice([0, 0, 0, 1])
        try:
            with Steps(400000):
                got = observe(parse(p, inp.stream, True,
                                    max_insertions=limit), True)
        except StepLimit:
            mon.ev("left out: too many repairs")
            continue
        mon.ev("items completed")
        mon.case((repr(g), repr(inp), limit), sample=lazy(g, inp, limit))

        def fail(msg):
            mon.fail("{}\n grammar: {}\n input: {}\n limit: {}\n observed: {}"
                     .format(msg, g, inp, limit, got))
        if got.kind != "rec":
            fail("missing tokens of items within the limit are not inserted")
        done = sum(1 if e[3][0] == "ins" else e[3][1] for e in got.errors)
        if done > cost:
            fail("recovery uses {} insertions and skips where {} suffice"
                 .format(done, cost))
        if max(run_lengths(got.errors), default=0) > limit:
            fail("more tokens inserted in a row than the limit allows")
        if limit > 1 and bare and not sep:
            # nothing to skip to: not with one insertion less
            limit -= 1
            got = observe(parse(p, inp.stream, True, max_insertions=limit),
                          True)
            if max(run_lengths(got.errors), default=0) > limit:
                fail("more tokens inserted in a row than the limit allows")


_J = {}


def case(rng, idx, mon):
    x = rng.random()
    if x < .34:
        return fixed_case(rng, mon)
    if x < .4:
        return repeat_case(rng, mon)
    if x < .41:
        if not _J:
            _J["p"] = real.make_json(True)
        t = real.dump_json(rng, real.gen_json(rng, 3))[:60]
        toks = real.corrupt_tokens(rng, real.json_tokens(t))
        inp = str_input(None, toks)
        mi = rng.choice([0, 1, 2, 4, 5, 7])
        try:
            with Steps(200000):
                got = observe(parse(_J["p"], toks, True, max_insertions=mi),
                              True)
        except StepLimit:
            return mon.ev("left out: too many repairs")
        return check_report(mon, "json", inp, mi, got)
    if x < .5:
        it = dense_inputs(rng, True, cap=15)
    else:
        it = grammar_inputs(rng, Cfg(
            recovery=True, layout=rng.random() < .15,
            attempt=rng.random() < .5), mutate=rng.choice([1, 2, 3]),
            fuel=rng.choice([4, 20, 40]))
    for g, p, inp in it:
        mi = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 5, 7])
        if ref(mon, g, inp, True, mi) is None:
            continue
        check_report(mon, repr(g), inp, mi, run(p, inp, True, mi))
