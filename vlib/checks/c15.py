"""Termination, linear work and constant stack depth, on logical counts."""
import gc
import re
import sys

import reparsec as rp
from reparsec.lexer import Token, token
from reparsec.primitive import Pure, PureFn
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof, letter, satisfy, sym
from reparsec.layout import aligned, block, indented

from ..alloc import allocated
from ..build import build
from ..common import (
    Cfg, Grammar, Input, all_inputs, compare, gen_grammar, kinds, lazy, mk_tokens,
    observe, parse, enlarge, ref, run, small, str_input, LEAVES, EOF)
from ..steps import StepLimit, Steps

ID = "C15"
BOUNDED = True
LEVEL = "exploration"
COUNTS = {"quick": 13500, "thorough": 260000}
MIN = {"empty repetition refused": 10000, "refused in recovery mode": 4000,
       "refused after items": 1500, "repetitions accepted": 20000,
       "scaling runs": 700, "errors described": 250, "steps": 5000000,
       "predicate calls": 50000, "refused in place": 2500,
       "allocation runs": 150, "nests": 150, "nests with an error": 40, "recovery runs": 350,
       "lists recovered": 300}
RULE = (
    "(a) random grammars in which repetition of an empty parser is reachable"
    " (in every repeating combinator, context and mode), with a step limit:"
    " RuntimeError exactly when the reference semantics repeats an empty"
    " match; (b) items (library of shapes, nested repetitions, alternatives)"
    " repeated n, 2n and 4n times by every repeating combinator: executed"
    " library steps, predicate calls and the text a location function is"
    " asked to walk over (literals and regular expressions) grow at most"
    " linearly, call depth is"
    " the same for all three, bytes allocated grow linearly (500 to 3200"
    " items), also when the input ends in an error that is"
    " described; (c) lists of statements of which one or two are broken (no"
    " end, junk, no item), recovered: the same for steps, predicate calls,"
    " bytes and depth; (d) bracketed expressions (all combinators without"
    " backtracking) nested n, 2n and 4n deep, valid or wrong at the bottom,"
    " and plain brackets with one error to recover from: steps, predicate"
    " calls and depth grow at most linearly. Non-trivial: (a) a repetition was refused; (b) every"
    " run; (c) an error was reported.")
ASSUMPTIONS = [
    "steps are function starts, generator resumptions and backward jumps of"
    " Python code; copying inside one C call is counted as bytes allocated,"
    " in-place scanning of a string is observed only through the distances a"
    " user-supplied location function is given",
    "growth is linear if the second doubling costs at most 1.3 times what"
    " twice the first doubling costs"]
LIMIT = 400000


# --- (a) ---------------------------------------------------------------------

NULL = [("pure", 0), ("puren", 1), ("eof",), ("maybe", ("sym", "a", None)),
        ("many", ("sym", "a", None)), ("maybe", ("sym", "b", None)),
        ("sepby", ("sym", "a", None), ("sym", "b", None)),
        ("alt", ("sym", "a", None), ("pure", 1)),
        ("label", ("maybe", ("sym", "a", None)), "x"),
        ("attempt", ("maybe", ("sym", "a", None))),
        ("fmap", 1, ("maybe", ("sym", "a", None))),
        ("seq", ("pure", 0), ("maybe", ("sym", "b", None))),
        ("block", ("maybe", ("sym", "a", None))),
        ("recover", ("maybe", ("sym", "a", None))),
        ("rw", ("maybe", ("sym", "b", None)), "R", None),
        ("rw", ("sym", "a", None), "R", None),
        ("bind", ("pure", 0), (("pure", 1), ("maybe", ("sym", "a", None)))),
        ("tup", (("maybe", ("sym", "a", None)), ("pure", 0),
                 ("maybe", ("sym", "b", None))), None),
        ("ref", 0)]
A, B = LEAVES[:2]


def repeated(rng):
    p = rng.choice(NULL)
    k = rng.randrange(6)
    if k <= 1:
        r = ("many", p)
    elif k == 2:
        r = ("sepby", p, rng.choice(NULL))
    elif k == 3:
        r = (rng.choice(["chainl", "chainr"]), p, rng.choice(NULL))
    elif k == 4:
        r = ("sepby", p, rng.choice([A, B]))
    else:
        r = ("many", ("alt", rng.choice([A, B]), p))
    for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
        k = rng.randrange(12)
        q = rng.choice([A, B, ("pure", 0), ("many", A)])
        r = [("seq", q, r), ("seqr", q, r), ("alt", r, q), ("alt", q, r),
             ("maybe", r), ("attempt", r), ("label", r, "x"),
             ("between", A, B, r), ("seql", r, q), ("block", r),
             ("recover", r), ("bind", q, (r, A))][k]
    if rng.random() < .4:
        r = ("seql", r, EOF)
    return Grammar("T", r, [rng.choice([A, ("maybe", A), ("many", B),
                                        ("pure", 3)])], "ab")


def empties(rng, mon):
    x = rng.random()
    if x < .6:
        g = repeated(rng)
        every = list(all_inputs("ab", 4))
        inps = [str_input(g, s) for s in rng.sample(every, 7)]
    else:
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .5,
                                 nullable_many=.7,
                                 layout=rng.random() < .2))
        g, take = enlarge(rng, g)
        inps = [Input(g, rng, take()) for _ in range(4)]
    p = build(g, rng)
    for inp in inps:
        for recover in (False, True):
            want = ref(mon, g, inp, recover)
            if want is None:
                continue
            if recover and want.kind in ("rec", "fail") and want.steps > 4000:
                continue
            exc = want.kind == "exc"
            mon.case((repr(g), repr(inp), recover), exc,
                     sample=lazy(g, inp, recover))
            try:
                with Steps(LIMIT) as st:
                    got = run(p, inp, recover)
            except StepLimit:
                mon.fail("no answer after {} steps (recover={})\n grammar: {}"
                         "\n input: {}\n expected: {}".format(
                             LIMIT, recover, g, inp, want))
                continue
            mon.ev("steps", st.n)
            if exc:
                mon.ev("empty repetition refused")
                mon.ev("refused in recovery mode", recover)
                mon.ev("refused after items", len(inp.stream) > 1)
                if want.exc != "RuntimeError" or got.kind != "exc" \
                        or got.exc != "RuntimeError":
                    mon.fail("repetition of a parser that accepts nothing does"
                             " not raise RuntimeError (recover={})\n grammar:"
                             " {}\n input: {}\n observed: {}".format(
                                 recover, g, inp, got))
            elif kinds(g) & {"many", "sepby", "chainl", "chainr"}:
                mon.ev("repetitions accepted")
                if got.kind == "exc":
                    mon.fail("unexpected {} (recover={})\n grammar: {}\n"
                             " input: {}\n expected: {}".format(
                                 got.exc, recover, g, inp, want))


class Calls:
    def __init__(self):
        self.n = self.scan = 0

    def walked(self):
        """Location tracking that counts the text it walks over."""
        def get_loc(loc, s, pos):
            self.scan += abs(pos - loc.pos)
            nl = s.count("\n", loc.pos, pos)
            return rp.Loc(pos, loc.line + nl, (
                pos - s.rfind("\n", loc.pos, pos) - 1) if nl
                else loc.col + pos - loc.pos)
        return {"get_loc": get_loc}


def on_text(fam, ex):
    """Only literals and regular expressions, which keep track of the
    location (single elements of a string do not)."""
    return fam == "S" and ex != ["q", "\n"]


def in_place(rng, mon):
    """Constructs outside the random grammars: strings, tokens, layout."""
    n = rng.choice([0, 1, 3, 20])
    fam = rng.choice("SLT")
    if fam == "S":
        p = rng.choice([
            lambda: regexp("[0-9]*"), lambda: regexp(r"(?=[^0-9]|$)|[0-9]"),
            lambda: literal("1").maybe(), lambda: regexp("1?"),
            lambda: regexp("1|()"), lambda: block(literal("1").maybe()),
            lambda: aligned(Pure(0)) | literal("1"),
            lambda: regexp("1(x*)", 1).maybe(),
            lambda: regexp("1").sep_by(literal(","))])()
        s, how = "1" * n, rng.choice(["default", "text"])
        if rng.random() < .3:
            s += "!"
    elif fam == "L":
        p = rng.choice([
            lambda: token("num").maybe(), lambda: token("num").many(),
            lambda: rp.lexer.token_ins("num", "0").maybe(),
            lambda: token("num") | Pure(1),
            lambda: block(token("num").maybe()),
            lambda: rp.attempt(token("num") >> token("num")).maybe() >>
            token("num").maybe()])()
        s, how = mk_tokens("1 " * n), "tokens"
    else:
        p = rng.choice([
            lambda: satisfy(lambda x: x == 1).maybe(),
            lambda: sym(1) | PureFn(lambda: 0),
            lambda: eof() | sym(1), lambda: Pure(0),
            lambda: sym(1).maybe().recover_with(5),
            lambda: Pure(sym(1).maybe()).bind(lambda q: q),
            lambda: sym(1).many().label("x"),
            lambda: rp.recover(rp.alt(sym(1), Pure(1)))])()
        s, how = [1] * n, "default"
    form = rng.randrange(6)
    end = rng.choice([lambda q: q, lambda q: q << eof(),
                      lambda q: q.label("all"), rp.attempt, rp.maybe,
                      lambda q: Pure(0) >> q, lambda q: q | Pure(9),
                      lambda q: q.recover(),
                      lambda q: q.recover_with([])])
    # sep_by and the chain combinators repeat "separator, item"
    none = Pure(max)
    q = [lambda: p.many(), lambda: rp.many(p),
         lambda: rp.sep_by(p, Pure(",")),
         lambda: rp.chainl1(p.fmap(lambda v: 0), none),
         lambda: rp.chainr1(p.fmap(lambda v: 0), none),
         lambda: (p.many()).sep_by(literal(";") if fam == "S" else sym(";"))
         ][form]()
    q = end(q)
    for recover in (False, True):
        mon.case((fam, form, n, how, rng.random()))
        try:
            with Steps(LIMIT) as st:
                got = observe(parse(q, s, recover, how), recover)
        except StepLimit:
            mon.fail("repeating an empty parser does not stop (form {},"
                     " recover={}, input {!r})".format(form, recover, s))
            continue
        mon.ev("steps", st.n)
        mon.ev("refused in place")
        if got.kind != "exc" or got.exc != "RuntimeError":
            mon.fail("repeating an empty parser does not raise RuntimeError"
                     " (family {}, form {}, recover={}, input {!r}): {}"
                     .format(fam, form, recover, s, got))


# --- (b) ---------------------------------------------------------------------

class Reads:
    """User-defined sequence; its methods count as executed steps."""

    def __init__(self, xs):
        self.xs = xs

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, i):
        return self.xs[i]

    def __repr__(self):
        return "Reads({!r}...)".format(self.xs[:12])


def item_T(rng, c, depth):
    """(parser, list of example items) without a common first element."""
    def test(f):
        def t(x):
            c.n += 1
            return f(x)
        return satisfy(t)
    num = test(lambda x: isinstance(x, int))
    k = rng.randrange(12 if depth else 8)
    if k == 0:
        return num, [[1], [2]]
    if k == 1:
        return sym("a") | sym("b") | num, [["a"], ["b"], [4]]
    if k == 2:
        return rp.attempt(num + sym("x")) | (num + sym("y")), [
            [1, "x"], [2, "y"]]
    if k == 3:
        return num + sym("a").maybe(), [[1], [2, "a"]]
    if k == 4:
        return (num.bind(lambda v: sym("b") if v % 2 else sym("a"))).label(
            "it"), [[1, "b"], [2, "a"]]
    if k == 5:
        return num.fmap(lambda v: -v).recover_with(0), [[1]]
    if k == 6:
        return num.then(sym("a").maybe()).then(sym("b").maybe()).apply(
            lambda *a: a), [[1], [1, "a", "b"], [2, "b"]]
    if k == 7:
        return (num << sym("a").many()).recover(), [[1], [1, "a", "a"]]
    p, ex = item_T(rng, c, depth - 1)
    flat = [x for e in ex for x in e]
    if k == 8:
        return p.sep_by(sym(",")).between(sym("("), sym(")")), [
            ["("] + ex[0] + [","] + ex[-1] + [")"], ["(", ")"]]
    if k == 9:
        return sym("[") >> p.many() << sym("]"), [["["] + flat + ["]"],
                                                  ["[", "]"]]
    if k == 10:
        if "{" in flat:
            return p, ex
        e = rp.Delay()
        e.define(p | e.between(sym("{"), sym("}")))
        return e, [["{"] * 3 + ex[0] + ["}"] * 3, ex[-1]]
    return block(p) | sym("!"), [ex[0], ["!"]]


def item_S(rng, c, depth):
    k = rng.randrange(8)
    num = regexp("[0-9]+").fmap(int)
    if k == 0:
        return num << literal(";"), ["1;", "22;"]
    if k == 1:
        return literal("ab") | literal("cd") | literal("\n"), [
            "ab", "cd", "\n"]
    if k == 2:
        return rp.attempt(num << literal("x")) | num << literal("y"), [
            "1x", "2y"]
    if k == 3:
        return literal("a") + literal("b").maybe(), ["a", "ab"]
    if k == 4:
        return regexp("[a-z]") << regexp(r"\s*"), ["a \n", "b", "c  "]
    if k == 5:
        return letter | sym("\n"), ["q", "\n"]
    if k == 6:
        return block(aligned(literal("<")) >> num << literal(">")), [
            "<1>", "<23>"]
    return literal("{") >> num.sep_by(literal("/")) << literal("}"), [
        "{}", "{1/2/3}"]


def item_L(rng, c, depth):
    k = rng.randrange(5)
    t = token("num")
    if k == 0:
        return t, ["1 "]
    if k == 1:
        return t | token("id"), ["1 ", "x "]
    if k == 2:
        return t + token("id").many(), ["1 a b ", "1 \n"]
    if k == 3:
        return rp.lexer.token_ins("num", "0").label("n"), ["1 "]
    return t.fmap(lambda v: v.value) << block(token("id")), ["1 x ", "1 y\n"]


def repetition(rng):
    fam = rng.choice("TTSL")
    c = Calls()
    p, ex = {"T": item_T, "S": item_S, "L": item_L}[fam](rng, c, 2)
    form = rng.choice(["many", "sep_by", "chainl1", "chainr1", "nested"])
    if fam == "T":
        sep = sym(",")
    else:
        sep = literal(",") if fam == "S" else token("op")
    opf = sep.fmap(lambda _: lambda a, b: b)
    q = {
        "many": lambda: p.many(), "sep_by": lambda: p.sep_by(sep),
        "chainl1": lambda: p.chainl1(opf), "chainr1": lambda: p.chainr1(opf),
        "nested": lambda: p.sep_by(sep).many().label("x"),
    }[form]()
    if form == "nested":
        # rows of three items, so that the inner lists are not empty
        row = (p + sep) + p
        q = (row.fmap(lambda v: v) << sep).many()
    bad = rng.random() < .35
    ctx = rng.randrange(4)
    if ctx == 1:
        q = rp.Delay().bind(lambda v: v) if False else q.fmap(lambda v: v)
    elif ctx == 2:
        d = rp.Delay()
        q, d0 = d, q
        d.define(d0)
    elif ctx == 3:
        q = Pure(0) >> q
    q = q << eof()
    sepx = {"T": [","], "S": ",", "L": ", "}[fam]
    zero = {"T": [], "S": "", "L": ""}[fam]
    wrong = {"T": ["?"], "S": "?", "L": "* * "}[fam]

    def data(m):
        s = zero
        for i in range(m):
            if i and (form in ("sep_by", "chainl1", "chainr1")
                      or form == "nested" and i % 2):
                s = s + sepx
            s = s + ex[i % len(ex)]
            if form == "nested" and i % 2:
                s = s + sepx
        if bad:
            s = s + wrong
        return s

    how = rng.choice([{"T": "default", "S": "text", "L": "tokens"}[fam],
                      "default"])
    return fam, c, ex, form, q, bad, data, how


def limits(rng, recover):
    """Insertion limits for valid inputs."""
    if not recover or rng.random() < .5:
        return {}
    return {"max_insertions": rng.choice([0, 1, 2, 3, 4, 6, 7, 9, 100])}


def copying(rng, mon):
    """Bytes allocated: what C calls copy is not executed steps."""
    fam, c, ex, form, q, bad, data, how = repetition(rng)
    n = rng.choice([500, 800])
    for recover in ((False,) if bad else (False, True)):
        obs = []
        kw = limits(rng, recover)
        for m in (n, 2 * n, 4 * n):
            s = data(m)
            if fam == "L":
                s = mk_tokens(s)
            if fam == "T":
                s = Reads(s)

            def go():
                try:
                    return parse(q, s, recover, how, **kw)().unwrap(), None
                except rp.ParseError as e:
                    return None, (e, str(e))

            gc.collect()
            gc.disable()
            try:
                (v, e), size = allocated(go)
            finally:
                gc.enable()
            if bad != (e is not None):
                mon.fail("{} of {} items: {} (recover={})\n items: {!r}"
                         .format(form, m, e or v, recover, ex))
            if size is None:
                mon.ev("no C compiler: allocations not observed")
                return
            obs.append(size)
            mon.ev("kilobytes allocated", size >> 10)
        mon.ev("allocation runs")
        a, b, d = obs
        what = "{} over {!r} (n={}, recover={}, error={}, family {}, {}):" \
            " bytes allocated for n, 2n, 4n: {}".format(
                form, ex, n, recover, bad, fam, how, obs)
        mon.case(what, sample=what)
        if d - b > 1.3 * 2 * (b - a) + 50000:
            mon.fail("copying is not linear: " + what)


def scaling(rng, mon):
    fam, c, ex, form, q, bad, data, how = repetition(rng)
    walk = on_text(fam, ex) and rng.random() < .7
    n = rng.choice([40, 60, 100]) if mon.tier == "quick" else \
        rng.choice([40, 100, 400, 1500])
    for recover in ((False,) if bad else (False, True)):
        obs = []
        kw = limits(rng, recover)
        for m in (n, 2 * n, 4 * n):
            m += m % 2
            s = data(m)
            if fam == "L":
                s = mk_tokens(s)
            if fam == "T":
                s = Reads(s)
            c.n = c.scan = 0
            limit = 3000 * m + 100000
            th = parse(q, s, recover, "default", **c.walked(), **kw) \
                if walk else parse(q, s, recover, how, **kw)
            try:
                with Steps(limit, roots=(SRC, __file__), depth=True) as st:
                    try:
                        r = th()
                        v = r.unwrap()
                        err = None
                    except rp.ParseError as e:
                        err = e
                        text = str(e)
            except StepLimit:
                mon.fail("{} of {} items takes more than {} steps (recover={})"
                         "\n item: {!r}".format(form, m, limit, recover, ex))
                return
            if bad != (err is not None):
                mon.fail("{} of {} items: {} (recover={})\n items: {!r}\n"
                         " input: {!r}".format(form, m, err or v, recover, ex,
                                               s))
            if err is not None:
                mon.ev("errors described")
                if len(err.errors) != 1:
                    mon.fail("{} errors".format(len(err.errors)))
                obs.append((st.n, c.n, st.max_depth, len(
                    err.errors[0].expected), len(text) // 40, c.scan))
            else:
                obs.append((st.n, c.n, st.max_depth, 0, 0, c.scan))
            mon.ev("characters walked for locations", c.scan)
            mon.ev("steps", st.n)
            mon.ev("predicate calls", c.n)
        mon.ev("scaling runs")
        a, b, d = obs
        what = "{} over {!r} (n={}, recover={}, error={}, family {}): " \
            "(steps, predicate calls, depth, expected, text, text walked for" \
            " locations) for n, 2n, 4n: {}".format(form, ex, n, recover, bad, fam, obs)
        mon.case(what, sample=what)
        for i, name in ((0, "work"), (1, "predicate calls"),
                        (5, "text walked for locations")):
            if d[i] - b[i] > 1.3 * 2 * (b[i] - a[i]) + 60:
                mon.fail(name + " is not linear: " + what)
        if not a[2] >= d[2] - 2 or d[2] > a[2] + 2:
            mon.fail("call depth grows with the number of items: " + what)
        if d[3] > a[3] + 2:
            mon.fail("the description of the error grows: " + what)


def with_errors(rng):
    """Lists of statements, k of them broken, and their parser."""
    fam = rng.choice("TTSL")
    c = Calls()
    p, ex = {"T": item_T, "S": item_S, "L": item_L}[fam](rng, c, 1)
    end = {"T": lambda: sym(";"), "S": lambda: literal(";\n"),
           "L": lambda: sym(Token("op", ":"), "colon")}[fam]()
    endx = {"T": [";"], "S": ";\n", "L": ":\n"}[fam]
    junk = {"T": ["?"], "S": "?", "L": "* "}[fam]
    zero = {"T": [], "S": "", "L": ""}[fam]
    stmt = p << end
    if rng.random() < .2:
        stmt = block(aligned(stmt)) if fam != "T" else block(stmt)
    q = rng.choice([
        lambda: stmt.many(), lambda: (stmt + stmt).many(),
        lambda: stmt.fmap(lambda v: v).label("stmt").many(),
        lambda: stmt.recover_with("BAD").many(),
        lambda: stmt.many().recover(),
        lambda: p.sep_by(end) << end,
        lambda: p.chainl1(end.fmap(lambda _: lambda a, b: b)) << end])()
    q = q << eof()
    k = rng.choice([1, 1, 1, 2])
    kinds_ = [rng.choice(["no end", "junk", "no item", "junk first", "twice"])
              for _ in range(k)]
    where = sorted(rng.choice([0, .3, .5, .9]) for _ in range(k))

    def data(m):
        m += m % 2
        at = {int(m * w) + i: x
              for i, (w, x) in enumerate(zip(where, kinds_))}
        s = zero
        for i in range(m):
            x, kind = ex[i % len(ex)], at.get(i)
            s = s + {None: x + endx, "no end": x, "junk": x + junk + endx,
                     "no item": endx, "junk first": junk + x + endx,
                     "twice": x + endx + endx}[kind]
        return s
    how = rng.choice([{"T": "default", "S": "text", "L": "tokens"}[fam],
                      "default"])
    what = "{} errors {} at {}, items {!r}, family {}, {}".format(
        k, kinds_, where, ex, fam, how)
    walk = on_text(fam, ex) and rng.random() < .7
    return fam, c, q, data, how, walk, what


def recovering(rng, mon):
    """Recovering from a fixed number of errors in ever longer lists."""
    fam, c, q, data, how, walk, what = with_errors(rng)
    n = rng.choice([40, 60, 100]) if mon.tier == "quick" else \
        rng.choice([40, 100, 400, 1500])
    bytes_ = rng.random() < .1
    if bytes_:
        n = rng.choice([500, 800])
    obs = []
    for m in (n, 2 * n, 4 * n):
        s = data(m)
        if fam == "L":
            s = mk_tokens(s)
        if fam == "T":
            s = Reads(s)
        c.n = c.scan = 0
        th = parse(q, s, True, "default", **c.walked()) \
            if walk else parse(q, s, True, how)

        def go():
            r = th()
            try:
                r.unwrap()
                return "valid"
            except rp.ParseError as e:
                str(e)
            try:
                r.unwrap(recover=True)
                return "recovered"
            except rp.ParseError:
                return "failed"

        if bytes_:
            gc.collect()
            gc.disable()
            try:
                kind, size = allocated(go)
            finally:
                gc.enable()
            if size is None:
                mon.ev("no C compiler: allocations not observed")
                return
            obs.append((size, 0, 0, 0))
        else:
            limit = 30000 * m + 100000
            try:
                with Steps(limit, roots=(SRC, __file__), depth=True) as st:
                    kind = go()
            except StepLimit:
                mon.fail("recovery in a list of {} items takes more than {}"
                         " steps\n {}".format(m, limit, what))
                return
            obs.append((st.n, c.n, st.max_depth, c.scan))
            mon.ev("steps", st.n)
            mon.ev("characters walked for locations", c.scan)
    mon.ev("lists " + kind)
    mon.ev("recovery runs")
    a, b, d = obs
    what = "{} (n={}): {} for n, 2n, 4n: {}".format(
        what, n, "bytes allocated" if bytes_ else
        "(steps, predicate calls, depth, text walked for locations)", obs)
    mon.case(what, kind != "valid", what)
    for i, slack in ((0, 50000 if bytes_ else 100), (1, 100), (3, 300)):
        if d[i] - b[i] > 1.3 * 2 * (b[i] - a[i]) + slack:
            mon.fail("recovery is not linear in the number of items: " + what)
    if abs(d[2] - a[2]) > 2:
        mon.fail("call depth of recovery grows with the number of items: "
                 + what)


NEST = re.compile(r"(?P<num>[0-9]+)|(?P<op>\S)|\s+")


def nest(rng, simple=False):
    """Bracketed expressions without backtracking: (parser, data, what)."""
    fam = rng.choice("TTSL")
    c = Calls()
    if fam == "T":
        def test(f):
            def t(x):
                c.n += 1
                return f(x)
            return satisfy(t)
        one, zero = sym, []
        atom, ax = test(lambda x: isinstance(x, int)), [[1], [2]]
        wrap = list
    elif fam == "S":
        one, zero, wrap = literal, "", str
        atom, ax = regexp("[0-9]+"), ["1", "22"]
    else:
        def one(x):
            return sym(Token("op", x))
        zero, wrap = "", lambda x: x + " "
        atom, ax = token("num"), ["1 ", "2 "]
    e = rp.Delay()
    how_ = []

    def inner(k):
        how_.append(k)
        if k == "one":
            return e, zero, zero
        if k == "sep":
            a = rng.random() < .5
            b = rng.random() < .5
            return e.sep_by(one(",")), ax[0] + wrap(",") if a else zero, \
                wrap(",") + ax[1] if b else zero
        if k == "many":
            return e.many(), rng.choice([zero, ax[0] + wrap("+")]) \
                if fam == "T" else zero, zero
        if k == "many;":
            return (e << one(";")).many(), ax[0] + wrap(";"), wrap(";")
        if k == "chainl":
            return e.chainl1(one("+").fmap(lambda _: lambda a, b: b)), \
                ax[0] + wrap("+"), wrap("+") + ax[1]
        if k == "chainr":
            return e.chainr1(one("+").fmap(lambda _: lambda a, b: b)), \
                ax[0] + wrap("+"), wrap("+") + ax[1]
        if k == "maybe":
            return (e + (one("*") >> e).maybe()), zero, wrap("*") + ax[0]
        if k == "second":
            return (one("*") >> e).maybe(), wrap("*"), zero
        if k == "bind":
            return atom.bind(lambda v: one("*") >> e), ax[0] + wrap("*"), zero
        raise AssertionError(k)

    def deco(q):
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            k = rng.choice(["label", "fmap", "recover", "rw", "block",
                            "delay", "pure", "rwf"])
            how_.append(k)
            if k == "label":
                q = q.label("x")
            elif k == "fmap":
                q = q.fmap(lambda v: 0)
            elif k == "recover":
                q = q.recover()
            elif k == "rw":
                q = q.recover_with(0)
            elif k == "rwf":
                q = q.recover_with_fn(lambda s, p: 0)
            elif k == "block":
                q = block(q)
            elif k == "delay":
                d = rp.Delay()
                d.define(q)
                q = d
            else:
                q = Pure(0) >> q
        return q

    pairs = ["()", "[]", "{}"][:rng.choice([1, 1, 2, 3])]
    alts = []
    lv = []
    for a, b in pairs:
        k = rng.choice(["one", "sep", "many;", "chainl", "chainr", "maybe",
                        "second", "bind"] + ["many"] * (fam != "L"))
        if simple:
            k = "one"
        q, pre, post = inner(k)
        if k == "many":
            pre = zero
        alts.append(deco(q.between(one(a), one(b))))
        lv.append((wrap(a) + pre, post + wrap(b)))
    alts.insert(rng.randint(0, len(alts)), deco(atom))
    q = alts[0]
    for x in alts[1:]:
        q = q | x
    e.define(deco(q))
    bad = rng.random() < .35
    bare = rng.random() < .4
    w = rng.choice([lambda q: q << eof(), lambda q: q,
                    lambda q: q.many() if not bad else q << eof()])(e)

    broken = rng.choice(["core", "no end", "junk", "other", "twice"])
    at = rng.choice([0, .3, .6, .9])

    def data(m):
        s = zero
        t = zero
        for i in range(m):
            x, y = lv[i % len(lv)]
            s = s + x
            if simple and broken != "core" and i == int(at * m):
                y = {"no end": zero, "junk": wrap("?") + y,
                     "other": ax[0] + y, "twice": y + y}[broken]
            t = y + t
        if simple and broken != "core":
            return s + ax[0] + t
        core = wrap("?") if bad else ax[0]
        return s + core + t
    what = "brackets {} with {}, items {!r}, family {}, wrong={}".format(
        pairs, how_, lv, fam, bad)
    how = "default" if bare else {"T": "default", "S": "text", "L": "tokens"}[
        fam]
    return fam, c, w, data, how, bad, what


def nesting(rng, mon):
    simple = rng.random() < .35
    fam, c, q, data, how, bad, what = nest(rng, simple)
    if simple:
        # one error somewhere in plainly nested brackets, to recover from
        what += ", with an error"
    n = rng.choice([6, 10, 15]) if mon.tier == "quick" else \
        rng.choice([6, 15, 40])
    old = sys.getrecursionlimit()
    if simple:
        n = 6 * (n // 6)
    for recover in (True,) if simple else (False,) if bad else (False, True):
        obs = []
        kw = {} if simple else limits(rng, recover)
        for m in (n, 2 * n, 4 * n):
            s = data(m)
            if fam == "L":
                s = mk_tokens(s, NEST)
            c.n = 0
            th = parse(q, s, recover, how, **kw)
            limit = 4000 * m + 100000
            sys.setrecursionlimit(20000)
            try:
                with Steps(limit, roots=(SRC, __file__), depth=True) as st:
                    try:
                        th().unwrap()
                        err = None
                    except rp.ParseError as e:
                        err = e
                        str(e)
            except StepLimit:
                mon.fail("nesting of depth {} takes more than {} steps"
                         " (recover={})\n {}".format(m, limit, recover, what))
                return
            finally:
                sys.setrecursionlimit(old)
            if not simple and bad != (err is not None):
                mon.fail("nesting of depth {} (recover={}): {}\n {}\n input:"
                         " {!r}".format(m, recover, err, what, s))
                return
            obs.append((st.n, c.n, st.max_depth))
            mon.ev("steps", st.n)
        mon.ev("nests with an error" if simple else "nests")
        a, b, d = obs
        w = "{} (n={}, recover={}): (steps, predicate calls, depth) for n," \
            " 2n, 4n: {}".format(what, n, recover, obs)
        mon.case(w, sample=w)
        for i, name in ((0, "work"), (1, "predicate calls"),
                        (2, "call depth")):
            if d[i] - b[i] > 1.3 * 2 * (b[i] - a[i]) + 60:
                mon.fail(name + " is not linear in the depth of nesting: "
                         + w)


from ..env import SRC  # noqa: E402


def case(rng, idx, mon):
    x = rng.random()
    if x < .6:
        empties(rng, mon)
    elif x < .85:
        in_place(rng, mon)
    elif x < .93:
        scaling(rng, mon)
    elif x < .95:
        nesting(rng, mon)
    elif x < .985:
        recovering(rng, mon)
    else:
        copying(rng, mon)
