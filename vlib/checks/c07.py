"""Availability of recovery: end of input, fixed tokens, replacements."""
import reparsec as rp
from reparsec.sequence import eof, satisfy, sym

from ..build import Builder, build
from ..common import (
    REST, Cfg, Grammar, Input, core, enlarge, gen_grammar, kinds, lazy, observe, parse,
    pieces, ref, run, small)
from ..gast import Shared
from ..gen import anything
from ..impl import items
from ..scale import simple_pad, size
from ..show import show

ID = "C07"
LEVEL = "exploration"
COUNTS = {"quick": 75000, "thorough": 1000000}
MIN = {"rest skipped": 8000, "fixed recovered": 20000,
       "replacement available": 9000, "replacement chosen": 6000,
       "function called": 2500, "never called, valid": 8000,
       "never called, recovery off": 8000, "limit 0": 1000,
       "replacement after an insertion": 1500, "long rests": 100,
       "replacements far into the input": 80}
RULE = (
    "(a) random grammars with an end-of-input parser after them on valid"
    " inputs followed by garbage: value, single error, skip count, position"
    " and label; (b) random fixed-token grammars with an insertion limit of at"
    " least their expanded size on random inputs: recovery must return a"
    " value; (c) random attempt-free grammars that fail without consuming"
    " (seen by an alternative), wrapped in recover_with(_fn) at the start,"
    " after a prefix or before more input: recovery must succeed, with"
    " identity of the value, label, and the arguments of the call observed;"
    " (d) a call log of replacement functions on valid inputs and without"
    " recovery. Non-trivial: distinct (grammar, input) per clause.")
ASSUMPTIONS = ["runs beyond the model's step budget (exponentially many"
               " repairs) are skipped and counted"]


def say(g, inp, *xs):
    return "\n grammar: {}\n input: {}\n {}".format(
        g, inp, "\n ".join(map(str, xs)))


# --- (a) ---------------------------------------------------------------------

def trailing(rng, mon):
    cfg = Cfg(recovery=rng.random() < .5, layout=rng.random() < .2,
              eof_inside=False)
    g = gen_grammar(rng, cfg)
    if "eof" in kinds(g):
        g.root = ("alt", g.root[1], ("pure", 0)) if g.root[0] in (
            "seq", "seql") and g.root[2] == ("eof",) else g.root
        if "eof" in kinds(g):
            return
    g, take = enlarge(rng, g, only=["prefix", "items", "nest", "sep"])
    pg = build(g, rng)
    end = rng.choice([
        lambda p: p << eof(), lambda p: p.seql(eof()),
        lambda p: rp.seql(p, eof()), lambda p: (p + eof()).fmap(
            lambda v: v[0]), lambda p: p.bind(
                lambda v: eof().fmap(lambda _: v))])
    pe = end(pg)
    rest = build(Grammar(g.fam, ("seq", g.root, REST), g.defs, g.alphabet))
    for _ in range(3):
        xs = take(rng.choice([0, 0, 1]))
        m = rng.choice([1, 1, 2, 4, 9])
        if rng.random() < .04:
            m = size(rng)
            mon.ev("long rests", m > 100)
        xs += [anything(rng, g) for _ in range(m)]
        inp = Input(g, rng, xs)
        if ref(mon, g, inp, True) is None:
            continue
        try:
            v, left = parse(rest, inp.stream, False, inp.how)().unwrap()
        except (rp.ParseError, RuntimeError):
            continue
        if not left:
            continue
        stop = len(inp.stream) - len(left)
        kw = {}
        if inp.how == "default" or rng.random() < .5:
            kw["max_insertions"] = rng.choice([0, 1, 4, 5, 7])
        plain = observe(parse(pe, inp.stream, False, inp.how), False)
        got = observe(parse(pe, inp.stream, True, inp.how, **kw), True)
        loc = tuple(inp.locf(stop))
        mon.ev("rest skipped")
        mon.case(("eof", repr(g), repr(inp)), sample=lazy(g, inp, got))
        ok = (got.kind == "rec" and len(got.errors) == 1
              and got.recovered == show(v)
              and got.errors[0][0] == loc
              and got.errors[0][1] == inp.fmt(loc)
              and got.errors[0][2][-1:] == ["end of file"]
              and got.errors[0][3] == ("skip", len(left)))
        if not ok:
            mon.fail("trailing input is not skipped up to the end" + say(
                g, inp, "value: " + show(v), "rest: {!r}".format(left),
                "options: {}".format(kw), "observed: {}".format(got)))
        if plain.kind != "fail" or plain.errors[0][:3] != got.errors[0][:3]:
            mon.fail("trailing input reported differently without recovery"
                     + say(g, inp, plain, got))


# --- (b) ---------------------------------------------------------------------

FKINDS = ["seq", "seq", "seql", "seqr", "alt", "alt", "maybe", "many",
          "attempt", "label", "fmap", "recover", "sepby", "chain", "between",
          "tup", "bind"]


def fixed(rng, d, leaf, need):
    if d <= 0 or rng.random() < .15:
        if not need and rng.random() < .12:
            return rng.choice([("pure", 0), ("eof",)])
        return leaf()
    k = rng.choice(FKINDS)
    N = lambda need: fixed(rng, d - 1, leaf, need)
    if k in ("seq", "seql", "seqr"):
        return (k, N(need), N(False))
    if k == "alt":
        return (k, N(need), N(need))
    if k in ("maybe", "many"):
        if need:
            return ("seqr", leaf(), (k, N(True)))
        return (k, N(True))
    if k in ("attempt", "recover"):
        return (k, N(need))
    if k == "label":
        return (k, N(need), "lab")
    if k == "fmap":
        return (k, 1, N(need))
    if k == "bind":
        return (k, N(need), (N(False),) * rng.choice([1, 2]))
    if k == "sepby":
        if need:
            return ("seq", leaf(), (k, N(True), leaf()))
        return (k, N(True), leaf())
    if k == "chain":
        return (rng.choice(["chainl", "chainr"]), N(True), leaf())
    if k == "between":
        return (k, leaf(), leaf(), N(False))
    return (k, (N(need), leaf(), N(False))[:rng.choice([2, 3])], None)


def core_size(n):
    if n[0] in ("sym", "lit"):
        return 1
    return sum(core_size(x) if isinstance(x, tuple) and x and isinstance(
        x[0], str) else sum(map(core_size, x)) if isinstance(
            x, tuple) and x and isinstance(x[0], tuple) else 0
        for x in n[1:])


def fixed_tokens(rng, mon):
    fam = rng.choice("TTS")
    pool = list("abc") if fam == "T" else ["a", "b", "ab", "(", "\n"]
    pool = rng.sample(pool, rng.randint(2, len(pool)))

    def leaf():
        x = rng.choice(pool)
        return ("sym", x, None) if fam == "T" else ("lit", x)

    root = fixed(rng, rng.choice([2, 3, 3]), leaf, False)
    if rng.random() < .4:
        root = ("seql", root, ("eof",))
    if core_size(core(root, {})) > 12:
        return
    g, take = enlarge(rng, Grammar(fam, root, (), pool), only=[
        "prefix", "prefix", "garbage"], top=800)
    n = core_size(core(g.root, {}))
    root = g.root
    if rng.random() < .2:
        g = Grammar(fam, ("ref", 0), (root,), pool)
    p = build(g, rng)
    for _ in range(5):
        xs = take(rng.choice([1, 2, 4]), fuel=25)
        if rng.random() < .3:
            xs.insert(rng.randint(0, len(xs)), "z")
        inp = Input(g, rng, xs)
        if inp.how != "default" and n <= 5 and rng.random() < .5:
            mi = 5
        else:
            mi = max(1, n) + rng.choice([0, 0, 1, 3])
        want = ref(mon, g, inp, True, mi)
        if want is None or want.kind == "exc":
            continue
        got = run(p, inp, True, mi)
        mon.case(("fixed", repr(g), repr(inp), mi), got.kind != "ok",
                 lazy(g, inp, mi, got))
        mon.ev("fixed recovered", got.kind == "rec")
        if got.kind not in ("ok", "rec"):
            mon.fail("a grammar of {} fixed tokens does not recover with {}"
                     " insertions allowed".format(n, mi)
                     + say(g, inp, "observed: {}".format(got)))


# --- (c) ---------------------------------------------------------------------

MISSING = "not in the input"
SENT = "no match, nothing consumed"


def replacement(rng, mon):
    if rng.random() < .5:
        leaves = [("sym", "a", None), ("sat", "cd"), ("sat", "none"),
                  ("unexp", "u")]
        root = small(rng, rng.randint(0, 3), [
            "seq", "alt", "label", "recover", "seql"], leaves)
        g = Grammar("T", root, (), "abc")
    else:
        g = gen_grammar(rng, Cfg(recovery=True, attempt=False,
                                 depth=rng.choice([2, 3])))
    bare = build(g, rng)
    probe = bare | satisfy(lambda x: False) | rp.primitive.Pure(SENT)
    val = rng.choice([
        Shared(1), Shared(2), None, 0, "", [], ("t",), rp.Insert("x")])
    lab = rng.choice([None, None, "lbl", "", "two words"])
    args = [] if lab is None else [lab]
    calls = []

    def fn(stream, pos):
        calls.append((stream, pos))
        return val

    use_fn = rng.random() < .5
    if use_fn:
        w = rng.choice([
            lambda p: p.recover_with_fn(fn, *args),
            lambda p: rp.recover_with_fn(p, fn, *args)])(bare)
    else:
        w = rng.choice([
            lambda p: p.recover_with(val, *args),
            lambda p: rp.recover_with(p, val, *args)])(bare)
    anyp = satisfy(lambda x: True)
    head = ("sat", "any")
    ctx = rng.randrange(5)
    pre = []
    if rng.random() < .04:
        node, piece, el = simple_pad(g)
        pre = [piece] * size(rng, 1200)
        anyp = satisfy(lambda x: x == el).many()
        head = ("many", node)
        ctx = rng.choice([1, 3])
        mon.ev("replacements far into the input", len(pre) > 50)
    full = w
    if ctx == 1:
        full = anyp >> w
    elif ctx == 2:
        full = w << anyp.many()
    elif ctx == 3:
        full = rp.seqr(anyp, w.recover())
    elif ctx == 4:
        # after an inserted token, in the same run
        full = sym(MISSING) >> w
    own = {"sym", "lit", "rw", "rwf", "tokins"} & kinds(g)
    for _ in range(4):
        xs = pieces(rng, g, rng.choice([1, 2, 4]), fuel=12)
        start = 0
        if g.fam == "T" and rng.random() < .5:
            xs = xs[:rng.randint(0, 2)]
        inp = Input(g, rng, pre + xs)
        if ctx in (1, 3):
            if not len(inp.stream):
                continue
            start = len(pre) or 1
        try:
            pr = (probe if not start else anyp >> probe)
            seen = parse(pr, inp.stream, False, inp.how)().unwrap()
        except (rp.ParseError, RuntimeError):
            continue
        if seen != SENT:
            continue
        sub = ("seq", head, g.root) if start else g.root
        gg = Grammar(g.fam, ("seq", sub, REST), g.defs, g.alphabet)
        want = ref(mon, gg, inp, True, 5)
        if want is None or want.kind == "exc":
            continue
        if inp.how == "default" or rng.random() < .5:
            mi = rng.choice([0, 1, 1, 2, 3, 4, 5, 7])
            kw = {"max_insertions": mi}
        else:
            mi, kw = 5, {}
        for recover in (False, True):
            del calls[:]
            r = parse(full, inp.stream, recover, inp.how, **kw)()
            try:
                r.unwrap()
                errs = None
            except rp.ParseError as e:
                errs = e.errors
            obs = items(Holder(errs)) if errs else None

            def fail(msg, *more):
                mon.fail(msg + say(
                    g, inp, "context {} {} label {!r} recover={} {}".format(
                        ctx, "fn" if use_fn else "value", lab, recover, kw),
                    "errors: {}".format(obs), *more))
            if errs is None:
                fail("the failing parser's error is not reported")
            if not recover:
                mon.ev("never called, recovery off")
                if calls:
                    fail("replacement function called without recovery")
                continue
            if ctx == 4 and mi == 1:
                continue
            if mi == 0:
                mon.ev("limit 0")
                if any(o[3] and o[3][0] == "ins" for o in obs):
                    fail("insertion with a limit of 0")
                continue
            try:
                v = r.unwrap(recover=True)
            except rp.ParseError:
                fail("no recovery although a replacement is given")
            mon.ev("replacement available")
            mon.case(("rw", repr(g), repr(inp), ctx, use_fn, lab, mi),
                     sample=lazy(g, inp, ctx, obs))
            if use_fn:
                mon.ev("function called", bool(calls))
                for s, pos in calls:
                    if s is not inp.stream or pos != start:
                        fail("replacement function called with wrong"
                             " arguments", "{!r} {}".format(s, pos))
            if ctx == 4:
                mon.ev("replacement after an insertion")
                if obs[0][3] != ("ins", repr(MISSING)):
                    fail("the missing token is not inserted first")
                obs = obs[1:]
            if not own:
                # nothing else could insert: the replacement, or a skip
                if obs[0][3][0] == "ins":
                    mon.ev("replacement chosen")
                    if v is not val or use_fn and not calls:
                        fail("another value than the replacement returned",
                             "value: {!r}".format(v))
                    name = repr(val) if lab is None else lab
                    loc = tuple(inp.locf(start))
                    if obs[0][0] != loc or obs[0][3] != ("ins", name):
                        fail("the replacement is not described as given",
                             "expected {} at {}".format(name, loc))


class Holder:
    def __init__(self, errors):
        self.errors = errors


# --- (d) ---------------------------------------------------------------------

def calls(rng, mon):
    g = gen_grammar(rng, Cfg(recovery=True, layout=rng.random() < .2))
    if "rwf" not in kinds(g):
        g.root = ("rwf", g.root, 99, None)
    g, take = enlarge(rng, g)
    log = []

    def event(name, *a):
        if name == "rwf":
            log.append(a)
    p = Builder(g, rng, event).parser
    for _ in range(5):
        inp = Input(g, rng, take(rng.choice([0, 0, 1])))
        del log[:]
        a = run(p, inp, False)
        mon.ev("never called, recovery off")
        if log:
            mon.fail("replacement function called without recovery" + say(
                g, inp, a, log))
        if a.kind != "ok":
            continue
        b = run(p, inp, True)
        mon.ev("never called, valid")
        mon.case(("calls", repr(g), repr(inp)), sample=lazy(g, inp, b))
        if log:
            mon.fail("replacement function called on a valid input" + say(
                g, inp, b, log))


def case(rng, idx, mon):
    rng.choice([trailing, fixed_tokens, replacement, replacement, calls])(
        rng, mon)
