"""Builds real reparsec parsers from grammar syntax, through the public API
only.  With an rng, methods, operators and function forms are mixed at random,
equal subterms sometimes share one parser object, and forward declarations are
defined before or after their uses."""
import functools

from . import env
from .gast import PATS, PREDS, pick
import reparsec as rp
from reparsec.layout import aligned, block, indented
from reparsec.lexer import token, token_ins
from reparsec.primitive import Pure, PureFn, unexpected
from reparsec.scannerless import literal, regexp
from reparsec.sequence import digit, eof, letter, satisfy, sym


def ident(name, *args):
    pass


def trap(*args):
    raise AssertionError("a function wrapped by the user's was called: "
                         "{!r}".format(args))


class Callable_:
    """An object to call, of no use for anything else."""
    __hash__ = None

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *args):
        return self.fn(*args)

    def __len__(self):
        return 0

    def __eq__(self, other):
        raise AssertionError("a user function was compared")

    def method(self, *args):
        return self.fn(*args)


def as_class(fn):
    class K:
        def __new__(cls, *args):
            return fn(*args)
    return K


def decorated(fn):
    @functools.wraps(trap)
    def g(*args):
        return fn(*args)
    return g


DRESS = [Callable_, lambda fn: Callable_(fn).method, functools.partial,
         as_class, decorated]


def dress(rng, fn):
    """The same function as another kind of callable."""
    return rng.choice(DRESS)(fn)


class Builder:
    def __init__(self, grammar, rng=None, event=None, share=0.5, late=None):
        self.g = grammar
        self.rng = rng
        self.event = event or ident
        self.memo = {}
        self.share = share
        self.delays = [rp.Delay() for _ in grammar.defs]
        late = [
            (rng.random() < .5 if rng and late is None else bool(late))
            for _ in grammar.defs
        ]
        for i, d in enumerate(grammar.defs):
            if not late[i]:
                self.delays[i].define(self.build(d))
        self.parser = self.build(grammar.root)
        order = [i for i in range(len(late)) if late[i]]
        if rng:
            rng.shuffle(order)
        for i in order:
            self.delays[i].define(self.build(grammar.defs[i]))

    def coin(self, n=2):
        return self.rng.randrange(n) if self.rng else 0

    def fun(self, fn):
        """A user function, as a plain function or something else to call."""
        if self.rng and self.rng.random() < .12:
            return dress(self.rng, fn)
        return fn

    def build(self, n):
        if self.rng and self.share:
            p = self.memo.get(id(n))
            if p is not None and self.rng.random() < self.share:
                return p[1]
        p = getattr(self, "b_" + n[0])(*n[1:])
        self.memo[id(n)] = (n, p)
        return p

    # primitives
    def b_sym(self, el, lab):
        if lab is None:
            return sym(el)
        return sym(el, lab) if self.coin() else sym(el, label=lab)

    def b_sat(self, name):
        fn = PREDS[name]
        ev = self.event

        def test(x):
            ev("sat", name, x)
            return fn(x)
        return satisfy(self.fun(test))

    def b_letter(self):
        return letter

    def b_digit(self):
        return digit

    def b_eof(self):
        return eof()

    def b_pure(self, v):
        return Pure(v)

    def b_puren(self, k):
        ev = self.event

        def fn():
            ev("puren", k)
            return ("PF", k)
        return PureFn(self.fun(fn))

    def b_unexp(self, lab):
        return unexpected(lab)

    def b_lit(self, s):
        return literal(s)

    def b_rx(self, i):
        pat, group = PATS[i][:2]
        if group == 0 and self.coin():
            return regexp(pat)
        return regexp(pat, group)

    def b_tok(self, kind):
        return token(kind)

    def b_tokins(self, kind, val):
        return token_ins(kind, val)

    # combinators
    def b_fmap(self, k, p):
        ev = self.event

        def fn(v):
            ev("fmap", k, v)
            return (k, v)
        p = self.build(p)
        fn = self.fun(fn)
        return p.fmap(fn) if self.coin() == 0 else rp.fmap(p, fn)

    def b_bind(self, p, qs):
        ev = self.event
        ps = [self.build(q) for q in qs]

        def fn(v):
            ev("bind", len(qs), v)
            return ps[pick(v, len(ps))]
        p = self.build(p)
        fn = self.fun(fn)
        return p.bind(fn) if self.coin() == 0 else rp.bind(p, fn)

    def b_echo(self, p):
        ev = self.event

        def fn(v):
            ev("echo", v)
            return sym(v)
        p = self.build(p)
        fn = self.fun(fn)
        return p.bind(fn) if self.coin() == 0 else rp.bind(p, fn)

    def b_seq(self, p, q):
        p, q = self.build(p), self.build(q)
        return p + q if self.coin() == 0 else rp.seq(p, q)

    def b_seql(self, p, q):
        p, q = self.build(p), self.build(q)
        return [lambda: p << q, lambda: p.seql(q), lambda: rp.seql(p, q)][
            self.coin(3)]()

    def b_seqr(self, p, q):
        p, q = self.build(p), self.build(q)
        return [lambda: p >> q, lambda: p.seqr(q), lambda: rp.seqr(p, q)][
            self.coin(3)]()

    def b_alt(self, p, q):
        p, q = self.build(p), self.build(q)
        return p | q if self.coin() == 0 else rp.alt(p, q)

    def un(self, name, p, *args):
        p = self.build(p)
        if self.coin():
            return getattr(rp, name)(p, *args)
        return getattr(p, name)(*args)

    def b_maybe(self, p):
        return self.un("maybe", p)

    def b_many(self, p):
        return self.un("many", p)

    def b_attempt(self, p):
        return self.un("attempt", p)

    def b_label(self, p, x):
        return self.un("label", p, x)

    def b_recover(self, p):
        return self.un("recover", p)

    def b_rw(self, p, v, lab):
        if lab is None:
            return self.un("recover_with", p, v)
        return self.un("recover_with", p, v, lab)

    def b_rwf(self, p, k, lab):
        ev = self.event

        def fn(stream, pos):
            ev("rwf", k, stream, pos)
            return ("RF", k, pos)
        fn = self.fun(fn)
        if lab is None:
            return self.un("recover_with_fn", p, fn)
        return self.un("recover_with_fn", p, fn, lab)

    def b_sepby(self, p, s):
        p, s = self.build(p), self.build(s)
        return p.sep_by(s) if self.coin() == 0 else rp.sep_by(p, s)

    def b_between(self, o, c, p):
        o, c, p = self.build(o), self.build(c), self.build(p)
        return p.between(o, c) if self.coin() == 0 else rp.between(o, c, p)

    def _op(self, op, name):
        ev = self.event

        def mk(v):
            ev("mkop", name, v)

            def fn(a, b):
                ev("op", name, v, a, b)
                return (name, v, a, b)
            return wrap(fn) if wrap else fn
        wrap = None
        if self.rng and self.rng.random() < .12:
            wrap = self.rng.choice(DRESS)
        return self.build(op).fmap(self.fun(mk))

    def b_chainl(self, p, op):
        p, op = self.build(p), self._op(op, "L")
        return p.chainl1(op) if self.coin() == 0 else rp.chainl1(p, op)

    def b_chainr(self, p, op):
        p, op = self.build(p), self._op(op, "R")
        return p.chainr1(op) if self.coin() == 0 else rp.chainr1(p, op)

    def b_tup(self, ps, k):
        ev = self.event
        ps = [self.build(p) for p in ps]
        t = ps[0]
        if not hasattr(t, "then") or isinstance(
                t, (rp.Tuple2, rp.Tuple3, rp.Tuple4, rp.Tuple5, rp.Tuple6,
                    rp.Tuple7, rp.Tuple8)):
            # tuple parsers extend themselves on then(): start afresh
            t = rp.seql(t, Pure(None))
        for p in ps[1:]:
            t = t.then(p)
        if k is None:
            return t

        def fn(*args):
            ev("apply", k, args)
            return (k, args)
        return t.apply(self.fun(fn))

    def b_ref(self, i):
        return self.delays[i]

    def b_block(self, p):
        return block(self.build(p))

    def b_aligned(self, p):
        return aligned(self.build(p))

    def b_indented(self, d, p):
        return indented(d, self.build(p))


def build(grammar, rng=None, event=None, share=0.5, late=None):
    return Builder(grammar, rng, event, share, late).parser
