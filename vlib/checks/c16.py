"""Forward declarations: transparency, unfolding, misuse."""
import reparsec as rp
from reparsec.primitive import Pure, PureFn
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof, satisfy, sym

from ..build import Builder
from ..common import (
    Cfg, Grammar, Input, all_inputs, dense, gen_grammar, kinds, layout_dense,
    lazy, observe, parse, pieces, ref, str_input, wrapped, enlarge, FLAT)
from ..gast import kids
from ..runner import Inconclusive
from ..sched import Deadlock, Sched
from ..show import show

ID = "C16"
LEVEL = "exploration"
COUNTS = {"quick": 35000, "thorough": 420000}
MIN = {"wrapped, compared": 40000, "wrapped, recovered": 8000,
       "unfolded, compared": 15000, "unfolded, recovered": 4000,
       "deep recursions": 1500, "very deep recursions": 40, "levels": 60000, "undefined uses": 5000,
       "undefined uses in recovery mode": 2400, "refused definitions": 3000,
       "parses around definitions": 14000, "defined while parsing": 600,
       "failed definitions": 300, "built while being defined": 600,
       "parsed while being defined": 500}
RULE = (
    "(a) random grammars in which random subterms are replaced by forward"
    " declarations defined before, after or between their uses, nested,"
    " compared with the grammar without any; (b) random recursive grammars"
    " compared with their unfolding (a fresh copy of the definition at every"
    " level, no forward declarations); (c) recursion to random depth against"
    " the value built from the input; (d) histories of definitions, refused"
    " definitions and parses over several mutually recursive declarations,"
    " where every outcome is predicted from the set defined so far, also after"
    " definitions by something that is not a parser; (e) threads under a"
    " deterministic scheduler that define a declaration, build with it and"
    " parse at the same time."
    " Non-trivial: distinct (grammar, input, mode[, history]).")
ASSUMPTIONS = ["unfoldings that run out of levels and runs beyond the model's"
               " step budget are left out",
               "left recursion is outside the property"]


# --- (a) ---------------------------------------------------------------------

def punch(rng, n, defs, prob):
    """Replaces subterms by references; inner ones get smaller numbers."""
    k = n[0]

    def f(x):
        return punch(rng, x, defs, prob)
    if k in ("fmap", "indented"):
        n = (k, n[1], f(n[2]))
    elif k == "bind":
        n = (k, f(n[1]), tuple(f(q) for q in n[2]))
    elif k in ("seq", "seql", "seqr", "alt", "sepby", "chainl", "chainr",
               "between"):
        n = (k, *(f(x) for x in n[1:]))
    elif k == "tup":
        n = (k, tuple(f(p) for p in n[1]), n[2])
    elif kids(n) and k != "echo":
        n = (k, f(n[1]), *n[2:])
    if rng.random() < prob:
        defs.append(n)
        n = ("ref", len(defs) - 1)
        while rng.random() < .12:
            # a declaration of a declaration
            defs.append(n)
            n = ("ref", len(defs) - 1)
    return n


def transparent(rng, mon):
    if rng.random() < .3:
        g = dense(rng, True)
        every = list(all_inputs("abc", 3))
        inps = [str_input(g, s) for s in rng.sample(every, 6)]
    elif rng.random() < .12:
        it = list(layout_dense(rng, True))
        g = it[0][0]
        inps = [x[2] for x in it]
    else:
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .7, delay=False,
                                 layout=rng.random() < .25))
        if rng.random() < .3:
            g = wrapped(rng, g)
        g, take = enlarge(rng, g, only=FLAT)
        inps = [Input(g, rng, take()) for _ in range(4)]
    defs = []
    root = punch(rng, g.root, defs, rng.choice([.15, .3, .6]))
    if not defs or rng.random() < .3:
        defs.append(root)
        root = ("ref", len(defs) - 1)
    g2 = Grammar(g.fam, root, defs, g.alphabet)
    direct = Builder(g, rng).parser
    ps = [("defined first", Builder(g2, rng, late=False).parser),
          ("defined last", Builder(g2, rng, late=True).parser),
          ("mixed", Builder(g2, rng).parser)]
    for inp in inps:
        for recover in (False, True):
            want = ref(mon, g, inp, recover)
            if want is None:
                continue
            first = observe(parse(direct, inp.stream, recover, inp.how),
                            recover)
            mon.case((repr(g2), repr(inp), recover),
                     sample=lazy(g2, inp, recover, first))
            for name, p in ps:
                mon.ev("wrapped, compared")
                mon.ev("wrapped, recovered", first.kind == "rec")
                got = observe(parse(p, inp.stream, recover, inp.how), recover)
                if got.key() != first.key():
                    mon.fail("with forward declarations ({}, recover={})\n"
                             " grammar: {}\n input: {}\n without: {}\n with:"
                             " {}".format(name, recover, g2, inp, first, got))


# --- (b) ---------------------------------------------------------------------

class Bottom(Exception):
    pass


def bottom():
    raise Bottom


class Level(Builder):
    def __init__(self, g, rng, below):
        self.below = below
        Builder.__init__(self, Grammar(g.fam, ("pure", 0), (), g.alphabet),
                         rng)

    def b_ref(self, i):
        return self.below[i]


def unfold(g, rng, k):
    below = [PureFn(bottom) for _ in g.defs]
    for _ in range(k):
        lv = Level(g, rng, below)
        below = [lv.build(d) for d in g.defs]
    return Level(g, rng, below).build(g.root)


def unfolded(rng, mon):
    for _ in range(20):
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .75,
                                 layout=rng.random() < .2))
        if "ref" in kinds(g):
            break
    else:
        return
    g, take = enlarge(rng, g, only=FLAT)
    p = Builder(g, rng).parser
    u = unfold(g, rng, rng.choice([8, 14, 25]))
    for _ in range(5):
        inp = Input(g, rng, take())
        for recover in (False, True):
            want = ref(mon, g, inp, recover)
            if want is None:
                continue
            a = observe(parse(p, inp.stream, recover, inp.how), recover)
            b = observe(parse(u, inp.stream, recover, inp.how), recover)
            if b.kind == "exc" and b.exc.startswith("Bottom"):
                mon.ev("unfolding ran out of levels")
                continue
            mon.ev("unfolded, compared")
            mon.ev("unfolded, recovered", a.kind == "rec")
            mon.case((repr(g), repr(inp), recover),
                     sample=lazy(g, inp, recover, a))
            if a.key() != b.key():
                mon.fail("recursion and its unfolding differ (recover={})\n"
                         " grammar: {}\n input: {}\n recursive: {}\n unfolded:"
                         " {}".format(recover, g, inp, a, b))


# --- (c) ---------------------------------------------------------------------

def deep(rng, mon):
    n = rng.choice([0, 1, 2, 5, 20, 60, 100, 150])
    if rng.random() < .06:
        n = rng.randrange(150, 900)
        mon.ev("very deep recursions")
    d = rp.Delay()
    S = rng.random() < .5
    t = literal if S else sym
    k = rng.randrange(7)
    if k == 0:
        d.define(t("x") | d.between(t("("), t(")")).fmap(lambda v: [v]))
        xs, want = ["("] * n + ["x"] + [")"] * n, "x"
        for _ in range(n):
            want = [want]
    elif k == 1:
        d.define((t("a") + d).maybe())
        xs, want = ["a"] * n, None
        for _ in range(n):
            want = ("a", want)
    elif k == 2:
        d.define(t("a").bind(lambda v: d) | t("b"))
        xs, want = ["a"] * n + ["b"], "b"
    elif k == 3:
        d.define(d.sep_by(t(",")).between(t("["), t("]")))
        xs, want = ["[", "]"], []
        for i in range(n):
            if i % 5 == 4:
                xs, want = ["[", *xs, ",", "[", "]", "]"], [want, []]
            else:
                xs, want = ["[", *xs, "]"], [want]
    elif k == 4:
        e = rp.Delay()
        e.define(t("b") >> d | t("."))
        d.define(t("a") >> e | t("!"))
        xs, want = ["a", "b"] * n + ["!"], "!"
    elif k == 5:
        op = t("^").fmap(lambda _: lambda a, b: (a, b))
        d.define((t("1") | t("(") >> d << t(")")).chainr1(op))
        xs, want = ["1"], "1"
        for i in range(n):
            if i % 2:
                xs, want = ["1", "^", *xs], ("1", want)
            else:
                xs, want = ["(", *xs, ")", "^", "1"], (want, "1")
    else:
        d.define(rp.attempt(t("a").then(d).then(t("b")).apply(
            lambda a, v, b: (v,))) | Pure(None))
        xs, want = ["a"] * n + ["b"] * n, None
        for _ in range(n):
            want = (want,)
    p = d << eof()
    for recover in (False, True):
        s = "".join(xs) if S else rng.choice([list, tuple])(xs)
        if k == 6 and recover and n > 12:
            continue  # attempt runs its operand again at every level
        mon.ev("deep recursions")
        mon.ev("levels", n)
        mon.case(("deep", k, n, repr(s)))
        how = "text" if S and rng.random() < .5 else "default"
        got = observe(parse(p, s, recover, how), recover)
        if got.kind != "ok" or got.value != show(want):
            mon.fail("recursion {} of depth {} (recover={}) on {!r}:\n"
                     " expected {}\n observed {}".format(
                         k, n, recover, s, show(want), got))
    if n >= 5 and k in (0, 3):
        # the innermost error of a deep recursion
        i = xs.index({0: "x", 3: "]"}[k])
        ys = xs[:i] + ["?"] + xs[i + 1:]
        s = "".join(ys) if S else ys
        exp = {0: ["'x'", "'('"], 3: ["'['", "']'"]}[k]
        got = observe(parse(p, s, False), False)
        if got.kind != "fail" or [(e[0][0], e[2]) for e in got.errors] != [
                (i, exp)]:
            mon.fail("error in recursion {} of depth {} on {!r}: {}".format(
                k, n, s, got))


# --- (d) ---------------------------------------------------------------------

class Steps_(Builder):
    """A builder whose declarations are defined by the caller."""

    def __init__(self, g, rng, delays):
        self.keep = delays
        Builder.__init__(self, Grammar(g.fam, ("pure", 0), (), g.alphabet),
                         rng)
        self.delays = delays


def history(rng, mon):
    for _ in range(30):
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .6))
        if "ref" in kinds(g):
            break
    else:
        return
    n = len(g.defs)
    delays = [rp.Delay() for _ in g.defs]
    b = Steps_(g, rng, delays)
    roots = [(g.root, b.build(g.root))]
    for i in range(n):
        roots.append((("ref", i), delays[i]))
        if rng.random() < .5:
            r = rng.choice([("seq", ("ref", i), ("ref", (i + 1) % n)),
                            ("maybe", ("ref", i)), ("label", ("ref", i), "x"),
                            ("seql", ("ref", i), ("eof",)),
                            ("alt", ("ref", i), ("pure", 1)),
                            ("recover", ("ref", i)),
                            ("rw", ("ref", i), "R", None)])
            roots.append((r, b.build(r)))
    bad = [None, 5, "ab", rp.Parser, Refusing(), Refusing(True), lambda: 0]
    defined = [False] * n
    log = []
    inps = [Input(g, rng, pieces(rng, g)) for _ in range(4)]
    for _ in range(14):
        x = rng.random()
        if x < .25:
            i = rng.randrange(n)
            if not defined[i] and rng.random() < .3:
                other = rng.choice(bad)
                log.append("define {} as {!r}".format(i, other))
                mon.ev("failed definitions")
                try:
                    delays[i].define(other)
                except Exception:
                    continue
                except BaseException as e:
                    if type(other) is Refusing:
                        continue
                    raise e
                # accepted: nothing is known about this declaration any more
                return
            if defined[i]:
                other = rng.choice([
                    lambda: Pure("other"), lambda: delays[i],
                    lambda: roots[0][1], lambda: b.build(g.defs[i]),
                    lambda: rp.Delay()])()
                log.append("redefine {}".format(i))
                mon.ev("refused definitions")
                try:
                    delays[i].define(other)
                except RuntimeError:
                    continue
                except Exception as e:
                    mon.fail("second definition raises {!r}\n{}: {}".format(
                        e, g, log))
                mon.fail("second definition is not refused\n{}: {}".format(
                    g, log))
            else:
                log.append("define {}".format(i))
                delays[i].define(b.build(g.defs[i]))
                defined[i] = True
            continue
        root, p = rng.choice(roots)
        inp = rng.choice(inps)
        recover = rng.random() < .5
        now = Grammar(g.fam, root, [
            d if ok else ("undef",) for d, ok in zip(g.defs, defined)],
            g.alphabet)
        plain = ref(mon, now, inp, False)
        want = ref(mon, now, inp, recover)
        if want is None or plain is None:
            continue
        if recover and want.kind == "exc" and plain.kind != "exc":
            # how far recovery looks around is not part of this property
            continue
        got = observe(parse(p, inp.stream, recover, inp.how), recover)
        log.append((root if root != g.root else "root", repr(inp), recover,
                    got))
        mon.ev("parses around definitions")
        mon.case((repr(now), repr(inp), recover, repr(log[:-1])),
                 sample=lazy(g, log))
        if want.kind == "exc":
            if not all(defined):
                mon.ev("undefined uses")
                mon.ev("undefined uses in recovery mode", recover)
            if got.kind != "exc" or got.exc != "RuntimeError":
                mon.fail("use of an undefined declaration gives {}\n grammar:"
                         " {}\n history: {}".format(got, g, log))
        elif got.key() != want.key():
            mon.fail("wrong outcome after definitions\n grammar: {}\n now: {}"
                     "\n history: {}\n expected: {}".format(
                         g, now, log, want))


class Stop(BaseException):
    pass


class Refusing(rp.Delay):
    """A parser that cannot be had."""

    def __init__(self, base=False):
        rp.Delay.__init__(self)
        self.base = base

    def to_fns(self):
        raise Stop if self.base else KeyError("refused")

    parse_fast_fn = parse_fn = None

    def __repr__(self):
        return "Refusing({})".format(self.base)


def meanwhile(rng, mon):
    """One thread defines, others build with the declaration and parse."""
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .6, delay=False, depth=3))
    d = rp.Delay()
    direct = Builder(g, rng).parser
    inner = Builder(g, rng).parser
    inps = [Input(g, rng, pieces(rng, g, fuel=12)) for _ in range(3)]
    runs = []
    for inp in inps:
        recover = rng.random() < .5
        if ref(mon, g, inp, recover, budget=2500) is None:
            continue
        runs.append((inp, recover))
    if not runs:
        return
    shapes = [
        ("itself", lambda p: p), ("fmap", lambda p: p.fmap(lambda v: (v, 1))),
        ("pair", lambda p: p + p.maybe()), ("label", lambda p: p.label("x")),
        ("alt", lambda p: p | Pure(7)), ("many", lambda p: (p + p).many()),
        ("attempt", lambda p: p.attempt() | p), ("eof", lambda p: p << eof()),
        ("bind", lambda p: p.bind(lambda v: p.fmap(lambda w: (v, w)))),
        ("rw", lambda p: p.recover_with("R")), ("recover", rp.recover)]
    pick = [rng.choice(shapes) for _ in range(3)]
    early = pick[0][1](d)
    made = []
    seen = []

    def user():
        for name, f in pick[1:]:
            made.append(f(d))

    def parser():
        for inp, recover in runs:
            seen.append(observe(
                parse(early, inp.stream, recover, inp.how), recover))

    sch = Sched(rng, rng.choice([.5, .3, .1]))
    try:
        out = sch.run([lambda: d.define(inner), user] + [parser] * (
            rng.random() < .5))
    except Deadlock:
        raise Inconclusive("threads under the scheduler do not finish")
    for kind, e in out:
        if kind == "raised":
            mon.fail("defining and building at the same time raises {!r}\n"
                     " grammar: {}".format(e, g))
    mon.ev("built while being defined")
    mon.ev("switches around definitions", sch.switches)

    def wanted(k):
        out = []
        for inp, recover in runs:
            out.append(observe(parse(pick[k][1](direct), inp.stream, recover,
                                     inp.how), recover))
        return out

    for got, want, (inp, recover) in zip(seen, wanted(0), runs):
        mon.ev("parsed while being defined")
        if got.key() != want.key() and (
                got.kind != "exc" or got.exc != "RuntimeError"):
            mon.fail("parsing while it is defined\n grammar: {} in {}\n input:"
                     " {} {}\n direct: {}\n observed: {}".format(
                         g, pick[0][0], inp, recover, want, got))
    for k, p in enumerate([early] + made):
        for want, (inp, recover) in zip(wanted(k), runs):
            if want.kind == "exc" and "Recursion" in want.exc:
                continue
            got = observe(parse(p, inp.stream, recover, inp.how), recover)
            mon.case((repr(g), pick[k][0], repr(inp), recover,
                      sch.trace_hash), sch.switches > 0)
            if got.key() != want.key():
                mon.fail("built {} its definition in another thread\n grammar:"
                         " {} in {}\n input: {} {}\n direct: {}\n observed:"
                         " {}".format("during" if k else "before", g,
                                      pick[k][0], inp, recover, want, got))


def while_parsing(rng, mon):
    """Defined by a user function while a parse is running."""
    d = rp.Delay()
    inner = rng.choice([lambda: sym("b"), lambda: literal("b"),
                        lambda: satisfy(lambda x: x == "b"),
                        lambda: sym("b").many().fmap(lambda v: v and v[0])])()
    calls = []

    def now(v):
        calls.append(v)
        if len(calls) == 1:
            d.define(inner)
        return v

    k = rng.randrange(4)
    first = sym("a").fmap(now)
    p = [lambda: first >> d, lambda: first.bind(lambda v: d),
         lambda: (first + d).fmap(lambda v: v[1]),
         lambda: first.maybe().bind(lambda v: d.label("bee"))][k]()
    p = p << eof()
    recover = rng.random() < .5
    before = observe(parse(p, "b", recover), recover)
    mon.ev("defined while parsing")
    if recover is False and (k == 3) != (before.kind == "exc"):
        mon.fail("undefined declaration, form {}: {}".format(k, before))
    if calls:
        return
    for i in range(2):
        got = observe(parse(p, "ab", recover), recover)
        mon.case(("while", k, recover, i, rng.random()))
        if got.kind != "ok" or got.value != "str:'b'":
            mon.fail("declaration defined while parsing, form {}: {}".format(
                k, got))
    got = observe(parse(p, "ac", False), False)
    if got.kind != "fail":
        mon.fail("declaration defined while parsing, form {}: {}".format(
            k, got))


def case(rng, idx, mon):
    x = rng.random()
    if x < .4:
        transparent(rng, mon)
    elif x < .6:
        unfolded(rng, mon)
    elif x < .72:
        deep(rng, mon)
    elif x < .88:
        history(rng, mon)
    elif x < .94:
        meanwhile(rng, mon)
    else:
        while_parsing(rng, mon)
