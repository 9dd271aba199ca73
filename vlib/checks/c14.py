"""Derived combinators: values at any length, alias forms, expansions."""
import reparsec as rp
from reparsec.lexer import Token, token
from reparsec.primitive import Pure
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof, satisfy, sym

from ..build import Builder
from ..common import (
    Cfg, Input, dense, gen_grammar, kinds, lazy, observe, parse, enlarge, ref,
    all_inputs, str_input)
from ..gen import MySeq
from ..show import show

ID = "C14"
LEVEL = "exploration"
COUNTS = {"quick": 55000, "thorough": 700000}
MIN = {"built inputs": 8000, "items": 150000, "long inputs": 450,
       "zero items": 400, "huge inputs": 60, "more than 65536 items": 4, "tuples": 1200, "forms compared": 25000,
       "expansions compared": 25000, "recovered, compared": 8000}
RULE = (
    "(a) inputs assembled from known values (0 to 400 items, thorough 3000;"
    " random item and separator parsers; nested) for many, sep_by, between,"
    " chainl1, chainr1 and then/apply of two to eight, and up to 131074 items"
    " around every power of two, plain and recovering,"
    " against the value computed from the parts; (b) one random grammar built"
    " from methods only, operators only and functions only; (c) the same"
    " grammar with derived combinators replaced by their expansions into"
    " basic ones: all outcomes with and without recovery must be equal."
    " Non-trivial: distinct (parser, input).")
ASSUMPTIONS = ["inputs of (b) and (c) beyond the model's step budget are left"
               " out"]


# --- (a) ---------------------------------------------------------------------

class Lang:
    """Items and separators over one kind of stream."""

    def __init__(self, rng):
        self.kind = rng.choice(["list", "str", "tok"])
        self.rng = rng
        if self.kind == "list":
            self.sep, self.op = ",", ("+", "-")
            self.s = sym
            self.br = ("(", ")")
        elif self.kind == "str":
            self.sep, self.op = ",", ("+", "-")
            self.s = literal
            self.br = ("(", ")")
        else:
            self.sep, self.op = Token("op", ","), (
                Token("op", "+"), Token("op", "-"))
            self.s = sym
            self.br = Token("op", "("), Token("op", ")")
        self.shape = rng.randrange(3)

    def item(self):
        """(parser, function giving (pieces, value) for a number)"""
        if self.kind == "list":
            if self.shape == 0:
                return (satisfy(lambda x: isinstance(x, int)),
                        lambda i: ([i], i))
            if self.shape == 1:
                return (sym("k") >> satisfy(lambda x: isinstance(x, int)),
                        lambda i: (["k", i], i))
            return (satisfy(lambda x: isinstance(x, int)) + (
                sym("a") | sym("b")).maybe(), lambda i: (
                    [i] + ["a", "b"][i % 3:i % 3 + 1],
                    (i, (["a", "b"][i % 3:] or [None])[0])))
        if self.kind == "str":
            if self.shape == 0:
                return (regexp("[0-9]+").fmap(int), lambda i: ([str(i)], i))
            if self.shape == 1:
                return (literal("<") >> regexp("[0-9]+") << literal(">"),
                        lambda i: (["<%d>" % i], str(i)))
            return (regexp("[0-9]+").fmap(int) << regexp(r"\s*"),
                    lambda i: ([str(i) + " \n"[:i % 3]], i))
        t = token("num")
        if self.shape == 0:
            return (t.fmap(lambda x: int(x.value)),
                    lambda i: ([Token("num", str(i))], i))
        if self.shape == 1:
            return (t << token("id"), lambda i: (
                [Token("num", str(i)), Token("id", "x")],
                Token("num", str(i))))
        return (t + token("id").many(), lambda i: (
            [Token("num", str(i))] + [Token("id", "x")] * (i % 3),
            (Token("num", str(i)), [Token("id", "x")] * (i % 3))))

    def stream(self, xs):
        if self.kind == "str":
            return "".join(xs)
        return self.rng.choice([list, tuple, MySeq])(xs)


def built(rng, mon):
    L = Lang(rng)
    p, mk = L.item()
    big = [400] if mon.tier == "quick" else [400, 3000]
    n = rng.choice([0, 1, 2, 3, 4, 6, 9, 17, 60] + big)
    k = rng.choice(["many", "sep_by", "chainl1", "chainr1", "between",
                    "tuple", "tuple", "nested", "sum"])
    sep, op = L.s(L.sep), [L.s(o) for o in L.op]
    nums = [rng.randrange(1000) for _ in range(n)]
    parts = [mk(i) for i in nums]

    def joined(seps):
        out = []
        for i, (xs, _) in enumerate(parts):
            if i:
                out.append(seps[i - 1])
            out += xs
        return out

    vals = [v for _, v in parts]
    if k == "many":
        if L.kind == "str" and L.shape != 1:
            p, parts = p << literal(";"), [(xs + [";"], v)
                                           for xs, v in parts]
        q = rng.choice([lambda: p.many(), lambda: rp.many(p)])()
        xs = [x for a, _ in parts for x in a]
        want = vals
    elif k == "sep_by":
        q = rng.choice([lambda: p.sep_by(sep), lambda: rp.sep_by(p, sep)])()
        xs, want = joined([L.sep] * n), vals
    elif k in ("chainl1", "chainr1", "sum"):
        if not n:
            n, nums = 1, [5]
            parts = [mk(5)]
            vals = [parts[0][1]]
        ops = [rng.randrange(2) for _ in range(n - 1)]
        fs = [lambda a, b: ("+", a, b), lambda a, b: ("-", b, a)]
        if k == "sum":
            # flat values, so that long chains can be compared
            fs = [lambda a, b: (hash(("p", a, b)) % 1000003),
                  lambda a, b: (hash(("m", a, b)) % 1000003)]
            p = p.fmap(lambda v: hash(show(v)) % 1009)
            vals = [hash(show(v)) % 1009 for v in vals]
            k = rng.choice(["chainl1", "chainr1"])
        elif n > 60:
            n = 60
            parts, vals, ops = parts[:n], vals[:n], ops[:n - 1]
        o = op[0].fmap(lambda _: fs[0]) | op[1].fmap(lambda _: fs[1])
        q = rng.choice([lambda: getattr(p, k)(o),
                        lambda: getattr(rp, k)(p, o)])()
        xs = joined([L.op[i] for i in ops])
        if k == "chainl1":
            want = vals[0]
            for i, v in zip(ops, vals[1:]):
                want = fs[i](want, v)
        else:
            want = vals[-1]
            for i, v in zip(reversed(ops), reversed(vals[:-1])):
                want = fs[i](v, want)
    elif k == "between":
        a, b = L.s(L.br[0]), L.s(L.br[1])
        inner = p.sep_by(sep)
        q = rng.choice([lambda: inner.between(a, b),
                        lambda: rp.between(a, b, inner)])()
        xs = [L.br[0]] + joined([L.sep] * n) + [L.br[1]]
        want = vals
    elif k == "nested":
        # lists of lists
        a, b = L.s(L.br[0]), L.s(L.br[1])
        row = p.sep_by(sep).between(a, b)
        use_sep = rng.random() < .5
        q = row.sep_by(op[0]) if use_sep else row.many()
        m = rng.choice([0, 1, 2, 5])
        xs, want = [], []
        for i in range(m):
            if i and use_sep:
                xs.append(L.op[0])
            parts = [mk(rng.randrange(99)) for _ in range(
                rng.choice([0, 0, 1, 2, 4]))]
            xs += [L.br[0]] + joined([L.sep] * len(parts)) + [L.br[1]]
            want.append([v for _, v in parts])
    else:
        m = rng.randint(2, 8)
        parts = [mk(rng.randrange(99)) for _ in range(m)]
        if L.kind == "str" and L.shape != 1:
            p, parts = p << literal(";"), [(xs + [";"], v)
                                           for xs, v in parts]
        # every component has its own value
        ps = [p.fmap(lambda v, i=i: (i, v)) for i in range(m)]
        q = ps[0].then(ps[1])
        for x in ps[2:]:
            q = q.then(x)
        plus = ps[0] + ps[1]
        xs = [x for a, _ in parts for x in a]
        want = tuple((i, v) for i, (_, v) in enumerate(parts))
        if rng.random() < .5:
            def f(*args):
                return ("applied", len(args), args)
            q = q.apply(f)
            want = ("applied", m, want)
        elif m == 2 and rng.random() < .5:
            q = rng.choice([lambda: plus, lambda: rp.seq(*ps)])()
        mon.ev("tuples")
    mon.ev("built inputs")
    mon.ev("items", n)
    mon.ev("long inputs", n >= 300)
    mon.ev("zero items", n == 0)
    q = q << eof()
    s = L.stream(xs)
    mon.case((L.kind, L.shape, k, repr(s)), sample=lazy(k, s, show(want)))
    for recover in (False, True):
        how = rng.choice(["default", {"list": "default", "str": "text",
                                      "tok": "tokens"}[L.kind]])
        if type(s) is MySeq and how == "tokens":
            how = "default"
        got = observe(parse(q, s, recover, how), recover)
        if got.kind != "ok" or got.value != show(want):
            mon.fail("{} gives another value than its definition (recover={})"
                     "\n items: {} {}\n input: {!r}\n expected: {}\n observed:"
                     " {}".format(k, recover, L.kind, L.shape, s, show(want),
                                  got))


def near_power(rng, lo, hi):
    return (1 << rng.randint(lo, hi)) + rng.choice([-1, 0, 0, 1, 2])


def huge(rng, mon):
    """Numbers of items around every power of two."""
    n = near_power(rng, 6, 17 if rng.random() < .5 else 13)
    text = rng.random() < .5
    item = rng.choice([lambda: satisfy(lambda x: x in "012"),
                       lambda: sym("0") | sym("1") | sym("2")]
                      + [lambda: regexp("[012]")] * text)()
    sep = rng.choice([sym, literal] if text else [sym])(",")
    period = rng.choice([1, 2, 3, 7, 64])
    unit = [rng.choice("012") for _ in range(period)]
    vals = (unit * (n // period + 1))[:n]
    k = rng.randrange(5)
    fs = {"+": lambda a, b: (a * 31 + int(b)) % 1000003,
          "-": lambda a, b: (a * 17 + 5 - int(b)) % 999983}
    if k == 0:
        q, xs, want = item.many(), vals, vals
    elif k < 3:
        q = item.sep_by(sep)
        if k == 2:
            q = q.between(sym("("), sym(")"))
        xs = ",".join(vals)
        xs = list("(" + xs + ")" if k == 2 else xs)
        want = vals
    else:
        ops = [rng.choice("+-") for _ in range(17)]
        ops = (ops * (n // 17 + 1))[:n - 1]
        o = rng.choice([lambda: sym("+") | sym("-"), lambda: satisfy(
            lambda x: x in "+-")])()
        right = k == 4
        arg = item.fmap(int)
        if right:
            o = o.fmap(lambda c: lambda a, b: fs[c](b, a))
            q = arg.chainr1(o)
            want = int(vals[-1])
            for c, v in zip(reversed(ops), reversed(vals[:-1])):
                want = fs[c](want, int(v))
        else:
            o = o.fmap(lambda c: fs[c])
            q = arg.chainl1(o)
            want = int(vals[0])
            for c, v in zip(ops, vals[1:]):
                want = fs[c](want, int(v))
        xs = [x for p in zip(vals, ops + [""]) for x in p if x]
    q = q << eof()
    s = "".join(xs) if text else list(xs)
    recover = rng.random() < .3
    mon.ev("huge inputs")
    mon.ev("more than 65536 items", n > 65536)
    mon.case(("huge", n, k, tuple(unit), text, recover))
    try:
        got = parse(q, s, recover)().unwrap()
    except rp.ParseError as e:
        got = e
    if got != want:
        at = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                  None) if type(got) is list and type(want) is list else None
        mon.fail("form {} gives another value for {} items (recover={}): {}"
                 " items, first difference at {}: {:.200}".format(
                     k, n, recover, len(got) if type(got) is list else 1, at,
                     str(got)))


# --- (b), (c) ----------------------------------------------------------------

class Forms(Builder):
    def __init__(self, g, form):
        self.form = form
        Builder.__init__(self, g, share=0)

    def coin(self, n=2):
        return min(self.form, n - 1)


def fst(v):
    return v[0]


def snd(v):
    return v[1]


class Expanded(Builder):
    """Derived combinators by their expansions."""

    def __init__(self, g, style):
        self.style = style
        Builder.__init__(self, g, share=0)

    def two(self, p, q, f):
        if self.style:
            return p.bind(lambda a: q.fmap(lambda b: f((a, b))))
        return rp.fmap(rp.seq(p, q), f)

    def b_seq(self, p, q):
        p, q = self.build(p), self.build(q)
        return self.two(p, q, lambda v: v)

    def b_seql(self, p, q):
        return self.two(self.build(p), self.build(q), fst)

    def b_seqr(self, p, q):
        return self.two(self.build(p), self.build(q), snd)

    def b_maybe(self, p):
        return rp.alt(self.build(p), Pure(None))

    def b_between(self, o, c, p):
        o, c, p = self.build(o), self.build(c), self.build(p)
        return self.two(o, self.two(p, c, fst), snd)

    def b_sepby(self, p, s):
        p, s = self.build(p), self.build(s)
        return rp.alt(self.two(p, self.two(s, p, snd).many(), lambda v: [
            v[0], *v[1]]), rp.primitive.PureFn(list))

    def chain(self, p, op, right):
        p, op = self.build(p), self._op(op, "R" if right else "L")

        def fold(v):
            head, tail = v
            if not right:
                for f, x in tail:
                    head = f(head, x)
                return head
            xs = [head] + [x for _, x in tail]
            acc = xs.pop()
            for f, _ in reversed(tail):
                acc = f(xs.pop(), acc)
            return acc
        return self.two(p, self.two(op, p, lambda v: v).many(), fold)

    def b_chainl(self, p, op):
        return self.chain(p, op, False)

    def b_chainr(self, p, op):
        return self.chain(p, op, True)

    def b_tup(self, ps, k):
        ps = [self.build(p) for p in ps]
        t = self.two(ps[0], ps[1], lambda v: v)
        for p in ps[2:]:
            t = self.two(t, p, lambda v: (*v[0], v[1]))
        if k is None:
            return t
        return t.fmap(lambda args: (k, args))


def twins(rng, mon):
    if rng.random() < .25:
        g = dense(rng, True)
        every = list(all_inputs("abc", 3))
        inps = [str_input(g, s) for s in rng.sample(every, 8)]
    else:
        g = gen_grammar(rng, Cfg(recovery=rng.random() < .7,
                                 layout=rng.random() < .15))
        g, take = enlarge(rng, g)
        inps = [Input(g, rng, take()) for _ in range(4)]
    variants = [("methods or operators", Forms(g, 0).parser),
                ("functions", Forms(g, 1).parser)]
    if {"seql", "seqr"} & kinds(g):
        variants.append(("third form", Forms(g, 2).parser))
    ex = [("expansion", Expanded(g, 0).parser),
          ("expansion into bind", Expanded(g, 1).parser)]
    rng.shuffle(variants)
    for inp in inps:
        for recover in (False, True):
            want = ref(mon, g, inp, recover)
            if want is None or want.kind == "exc":
                continue
            outs = [(name, observe(parse(p, inp.stream, recover, inp.how),
                                   recover)) for name, p in variants + ex]
            first = outs[0]
            mon.ev("forms compared", len(variants) - 1)
            mon.ev("expansions compared", len(ex))
            mon.ev("recovered, compared", first[1].kind == "rec")
            mon.case((repr(g), repr(inp), recover),
                     sample=lazy(g, inp, recover, first[1]))
            for name, o in outs[1:]:
                if o.key() != first[1].key():
                    mon.fail("{} and {} differ (recover={})\n grammar: {}\n"
                             " input: {}\n {}\n {}".format(
                                 first[0], name, recover, g, inp, first[1],
                                 o))


def case(rng, idx, mon):
    x = rng.random()
    if x < .002:
        huge(rng, mon)
    elif x < .55:
        built(rng, mon)
    else:
        twins(rng, mon)
