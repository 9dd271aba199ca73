"""Values are opaque to the parsers: nothing about them changes a parse."""
import random
import zlib

import reparsec as rp
from reparsec import Delay, Loc
from reparsec.lexer import Token
from reparsec.primitive import Pure, PureFn
from reparsec.sequence import satisfy, sym

from ..build import Builder
from ..common import (
    Cfg, Grammar, Input, dense, enlarge, gen_grammar, lazy, parse, ref,
    str_input, wrapped, all_inputs)
from ..gast import PREDS
from ..impl import items
from ..show import show

ID = "C23"
LEVEL = "exploration"
COUNTS = {"quick": 26000, "thorough": 450000}
MIN = {"pairs compared": 60000, "pairs ok": 18000, "pairs failed": 10000,
       "pairs recovered": 15000, "user calls compared": 150000,
       "touchy values seen": 60000, "mapped results": 8000,
       "odd truth values": 60000}
RULE = (
    "random grammars whose user functions, Pure, PureFn, recover_with and"
    " recover_with_fn produce (a) fresh plain objects, (b) values from a pool"
    " of hostile ones: objects whose every operation but repr records and"
    " raises, None, False, empty and nested tuples and lists, NaN,"
    " exceptions, parsers, undefined declarations, results, errors, repairs,"
    " generators, classes; predicates answer with odd truthy and falsy"
    " objects. Every observable, the calls of user functions and what they"
    " are given must be the same up to that renaming, and no hostile value"
    " may have been touched. Non-trivial: distinct (grammar, input, mode,"
    " pool).")
ASSUMPTIONS = [
    "the reference semantics only bounds the size of a case: cases beyond its"
    " step budget are skipped and counted; verdicts compare two real runs"]

LOG = []


class Touched(BaseException):
    pass


def _touch(name):
    def f(self, *a, **k):
        LOG.append(name)
        raise Touched(name)
    return f


class Touchy:
    """Only identity, type() and repr() may be used."""

    def __init__(self, k):
        object.__setattr__(self, "k", k)

    def __repr__(self):
        return "<touchy {}>".format(object.__getattribute__(self, "k"))


for _n in ("eq ne lt le gt ge hash bool len iter getitem contains str format"
           " call add radd or ror and rshift lshift rlshift rrshift enter exit"
           " next index int float copy deepcopy reduce reduce_ex getattribute"
           " getattr setattr setitem delattr await del_ reversed bytes"
           " instancecheck").split():
    if _n != "del_":
        setattr(Touchy, "__" + _n + "__", _touch(_n))


class TouchyList(list):
    pass


class TouchyTuple(tuple):
    pass


class TouchyInt(int):
    pass


for _c in (TouchyList, TouchyTuple, TouchyInt):
    for _n in "eq ne lt le gt ge bool len iter getitem contains add radd" \
            " call index".split():
        setattr(_c, "__" + _n + "__", _touch(_n))
    _c.__hash__ = _touch("hash")
    _c.__repr__ = lambda self: "<" + type(self).__name__ + ">"


def _gen():
    yield 1


def internals():
    out = []
    try:
        from reparsec.core import repair, result
        loc = Loc(0, 0, 0)
        out = [lambda: result.Error(loc, ["x"]),
               lambda: result.Ok(1, 0, None),
               lambda: result.Recovered([], None, loc),
               lambda: repair.Skip(1)]
    except (ImportError, AttributeError, TypeError):
        pass
    return out


POOL = [
    lambda: None, lambda: False, lambda: True, lambda: 0, lambda: (),
    lambda: [], lambda: {}, lambda: "", lambda: float("nan"),
    lambda: NotImplemented, lambda: Ellipsis, lambda: ValueError("x"),
    lambda: StopIteration(1), lambda: KeyboardInterrupt(), lambda: sym("z"),
    lambda: Pure(1), lambda: Delay(), lambda: sym("a").parse("a"),
    lambda: sym("a").parse("b"), lambda: rp.ParseError([]),
    lambda: rp.ParseError, lambda: Token("id", "a"), lambda: Loc(0, 0, 0),
    lambda: rp.Skip(1), lambda: rp.Insert("x"), lambda: (1, 2),
    lambda: ((1, 2), 3), lambda: (1, 2, 3, 4, 5, 6, 7, 8), lambda: [[1], 2],
    lambda: [(1, [2])], lambda: {1: 2}, lambda: b"", lambda: object(),
    lambda: int, lambda: _gen, lambda: _gen(), lambda: iter([1]),
    lambda: (lambda *a: 1), lambda: print, lambda: TouchyList(),
    lambda: TouchyList([1]), lambda: TouchyTuple(), lambda: TouchyTuple((1, 2)),
    lambda: TouchyInt(0), lambda: bytearray(), lambda: set(),
    lambda: type("E", (Exception,), {})(), lambda: type(sym("a")),
] + internals()
TRUE = [True, 1, "0", [0], (None,), 0.5, object(), float("nan"), {0: 0},
        b"x", rp, Loc(0, 0, 0)]
FALSE = [False, 0, "", [], (), None, 0.0, {}, b"", set(), range(0)]


class K:
    """A plain value standing for the i-th value of the pool."""

    def __init__(self, i, text):
        self.i = i
        self.text = text

    def __repr__(self):
        return self.text


class Values:
    """n values produced under a plain or a hostile reading."""

    def __init__(self, rng):
        n = rng.choice([1, 2, 4])
        kind = rng.random()
        if kind < .4:
            self.odd = [Touchy(i) for i in range(n)]
        elif kind < .5:
            self.odd = [rng.choice(POOL)()] * n
        else:
            self.odd = [Touchy(i) if rng.random() < .3 else rng.choice(POOL)()
                        for i in range(n)]
        self.touchy = sum(type(x) is Touchy for x in self.odd)
        self.name = {}
        for i, x in enumerate(self.odd):
            self.name.setdefault(id(x), i)
        self.plain = [K(self.name[id(x)], repr(x)) for x in self.odd]

    def show(self, v):
        i = self.name.get(id(v))
        if i is not None:
            return "#{}".format(i)
        if type(v) is K:
            return "#{}".format(v.i)
        if type(v) is tuple:
            return "(" + ",".join(map(self.show, v)) + ",)"
        if type(v) is list:
            return "[" + ",".join(map(self.show, v)) + "]"
        return show(v)


class Readings(Builder):
    """Builds the same parser twice; only the values differ."""

    def __init__(self, g, seed, vals, odd, leaves):
        self.vals = vals
        self.odd = odd
        self.leaves = leaves
        self.log = []
        self.truth = random.Random(seed)
        super().__init__(g, random.Random(seed))

    def v(self, *key):
        i = zlib.crc32(repr(key).encode()) % len(self.vals.odd)
        return (self.vals.odd if self.odd else self.vals.plain)[i]

    def note(self, name, *a):
        self.log.append((name,) + tuple(map(self.vals.show, a)))

    def leaf(self, p, *key):
        x = zlib.crc32(repr(key).encode())
        if not self.leaves or x % 3 == 0:
            return p
        v = self.v("leaf", *key)

        def fn(_):
            return v
        return p.fmap(fn)

    def b_sym(self, el, lab):
        return self.leaf(super().b_sym(el, lab), el, lab)

    def b_lit(self, s):
        return self.leaf(super().b_lit(s), s)

    def b_rx(self, i):
        return self.leaf(super().b_rx(i), i)

    def b_tok(self, kind):
        return self.leaf(super().b_tok(kind), kind)

    def b_eof(self):
        return self.leaf(super().b_eof(), "eof")

    def b_sat(self, name):
        fn = PREDS[name]

        def test(x):
            r = bool(fn(x))
            self.note("sat", name)
            if self.odd:
                return self.truth.choice(TRUE if r else FALSE)
            return r
        return self.leaf(satisfy(test), name)

    def b_pure(self, v):
        return Pure(self.v("pure", v))

    def b_puren(self, k):
        def fn():
            self.note("puren", k)
            return self.v("puren", k)
        return PureFn(fn)

    def b_fmap(self, k, p):
        def fn(v):
            self.note("fmap", v)
            return self.v("fmap", k)
        p = self.build(p)
        return p.fmap(fn) if self.coin() == 0 else rp.fmap(p, fn)

    def b_bind(self, p, qs):
        q = self.build(qs[0])

        def fn(v):
            self.note("bind", v)
            return q
        p = self.build(p)
        return p.bind(fn) if self.coin() == 0 else rp.bind(p, fn)

    def b_rw(self, p, v, lab):
        return super().b_rw(p, self.v("rw", v), lab)

    def b_rwf(self, p, k, lab):
        def fn(stream, pos):
            self.note("rwf", pos)
            return self.v("rwf", k)
        args = (fn,) if lab is None else (fn, lab)
        return self.un("recover_with_fn", p, *args)

    def _op(self, op, name):
        def mk(v):
            self.note("mkop", v)

            def fn(a, b):
                self.note("op", v, a, b)
                return self.v("op", name)
            return fn
        return self.build(op).fmap(mk)

    def b_tup(self, ps, k):
        t = super().b_tup(ps, None)
        if k is None:
            return t

        def fn(*args):
            self.note("apply", *args)
            return self.v("apply", k)
        return t.apply(fn)


def simple(n):
    """One choice for bind; echo (which compares its value) dropped."""
    if not isinstance(n, tuple):
        return n
    if n and n[0] == "echo":
        return simple(n[1])
    if n and n[0] == "bind":
        return ("bind", simple(n[1]), (simple(n[2][0]),))
    if n and isinstance(n[0], str) and n[0] in ("sym", "pure", "lit", "rx",
                                                "tok", "tokins"):
        return n
    if n and n[0] == "rw":
        return ("rw", simple(n[1]), n[2], n[3])
    return tuple(simple(x) for x in n)


def look(vals, r, recover):
    """Everything a user can observe, values by their names."""
    out = []
    for rec in (False, True):
        try:
            out.append(("value", vals.show(r.unwrap(recover=rec))))
        except rp.ParseError as e:
            out.append(("error", items(e)))
    return out


def attempt(b, inp, recover, kw, fn):
    try:
        r = parse(b.parser, inp.stream, recover, inp.how, **kw)()
        out = look(b.vals, r, recover)
        if fn is not None:
            r2 = r.fmap(fn)
            out += look(b.vals, r2, recover)
    except RuntimeError as e:
        out = [type(e).__name__]
    except Exception as e:
        out = [type(e).__name__, str(e)[:200]]
    log, b.log = b.log, []
    return out, log


def case(rng, idx, mon):
    if rng.random() < .15:
        g = dense(rng, True)
        if rng.random() < .5:
            g = wrapped(rng, g)
        every = list(all_inputs("abc", 4))
        inps = [str_input(g, rng.choice(every)) for _ in range(3)]
        g = Grammar(g.fam, simple(g.root), list(map(simple, g.defs)),
                    g.alphabet)
    else:
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .8,
                                 layout=rng.random() < .15))
        g = Grammar(g.fam, simple(g.root), list(map(simple, g.defs)),
                    g.alphabet)
        g, take = enlarge(rng, g, top=400)
        inps = [Input(g, rng, take(fuel=rng.choice([15, 40])))
                for _ in range(3)]
    vals = Values(rng)
    seed = rng.random()
    leaves = rng.random() < .5
    a = Readings(g, seed, vals, False, leaves)
    b = Readings(g, seed, vals, True, leaves)
    for inp in inps:
        for recover in (False, True):
            mi = rng.choice([5, 5, 0, 1, 2, 3, 4, 7])
            want = ref(mon, g, inp, recover, mi, budget=10000)
            if want is None or want.kind == "exc":
                continue
            kw = {} if mi == 5 else {"max_insertions": mi}
            mapped = rng.random() < .15

            def over(x, mapped=mapped):
                def fn(v):
                    x.note("map", v)
                    return x.v("map")
                return fn if mapped else None
            del LOG[:]
            oa, la = attempt(a, inp, recover, kw, over(a))
            try:
                ob, lb = attempt(b, inp, recover, kw, over(b))
            except Touched as e:
                ob, lb = ["touched", str(e)], b.log
                b.log = []
            mon.case((repr(g), repr(inp), recover, mi, repr(vals.odd)), True,
                     lazy(g, inp, vals.odd))
            mon.ev("pairs compared")
            mon.ev({"value": "pairs ok"}.get(oa[0][0]) or (
                "pairs recovered" if len(oa) > 1 and oa[1][0] == "value"
                else "pairs failed"))
            mon.ev("user calls compared", len(la))
            mon.ev("mapped results", mapped)
            mon.ev("touchy values seen", vals.touchy)
            mon.ev("odd truth values", sum(x[0] == "sat" for x in la))
            if oa != ob or la != lb or LOG:
                what = "a value was touched: " + ",".join(LOG) if LOG else \
                    "outcomes differ" if oa != ob else "calls differ"
                mon.fail(
                    "values are not opaque: {}\n grammar: {}\n input: {}\n"
                    " recover: {} max_insertions: {}\n values: {}\n with"
                    " plain values: {}\n  calls: {}\n with hostile values:"
                    " {}\n  calls: {}".format(
                        what, g, inp, recover, mi, list(map(repr, vals.odd)),
                        oa, la[:30], ob, lb[:30]))
