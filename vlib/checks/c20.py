"""Algebraic laws: two ways of writing the same parser, run side by side."""
import reparsec as rp
from reparsec.layout import aligned, block, indented
from reparsec.primitive import Pure, PureFn, unexpected

from ..build import Builder
from ..common import (
    EOF, LEAVES, REST, Cfg, Input, Scaled, lazy, pieces, ref, run, small)
from ..gast import Grammar, consumes, walk
from ..gen import Gen

ID = "C20"
LEVEL = "exploration"
COUNTS = {"quick": 60000, "thorough": 900000}


def pair(a, b):
    return ("P", a, b)


def fst(a):
    return a[0]


def snd(a):
    return a[1]


def tag(k):
    return lambda v: (k, v)


def choice(*ps):
    from ..gast import pick
    return lambda v: ps[pick(v, len(ps))]


# name -> (arity, syntax tree of the left side for the reference run, left and
# right side as real parsers).  "c" marks parsers that must consume input.
LAWS = {}


def law(name, args, ast, left, right, **kw):
    LAWS[name] = (args, ast, left, right, kw)


law("fmap identity", "p", lambda p: ("seql", p, ("pure", 0)),
    lambda p: p.fmap(lambda v: v), lambda p: p)
law("fmap composition", "p", lambda p: ("fmap", 2, ("fmap", 1, p)),
    lambda p: p.fmap(tag(1)).fmap(tag(2)),
    lambda p: p.fmap(lambda v: (2, (1, v))))
law("fmap over alt", "pq", lambda p, q: ("fmap", 1, ("alt", p, q)),
    lambda p, q: (p | q).fmap(tag(1)),
    lambda p, q: p.fmap(tag(1)) | q.fmap(tag(1)))
law("fmap under label", "p", lambda p: ("label", ("fmap", 1, p), "x"),
    lambda p: p.fmap(tag(1)).label("x"), lambda p: p.label("x").fmap(tag(1)))
law("fmap under attempt", "p", lambda p: ("attempt", ("fmap", 1, p)),
    lambda p: p.fmap(tag(1)).attempt(), lambda p: p.attempt().fmap(tag(1)))
law("fmap under recover", "p", lambda p: ("recover", ("fmap", 1, p)),
    lambda p: p.fmap(tag(1)).recover(), lambda p: p.recover().fmap(tag(1)))
law("fmap under recover_with", "p",
    lambda p: ("fmap", 1, ("rw", p, "R", "l")),
    lambda p: p.recover_with("R", "l").fmap(tag(1)),
    lambda p: p.fmap(tag(1)).recover_with((1, "R"), "l"))
law("fmap over seq left", "pq", lambda p, q: ("seq", ("fmap", 1, p), q),
    lambda p, q: p.fmap(tag(1)) + q,
    lambda p, q: (p + q).fmap(lambda v: ((1, v[0]), v[1])))
law("fmap over seq right", "pq", lambda p, q: ("seq", p, ("fmap", 1, q)),
    lambda p, q: p + q.fmap(tag(1)),
    lambda p, q: (p + q).fmap(lambda v: (v[0], (1, v[1]))))
law("fmap in many", "c", lambda p: ("many", ("fmap", 1, p)),
    lambda p: p.fmap(tag(1)).many(),
    lambda p: p.many().fmap(lambda vs: [(1, v) for v in vs]))
law("fmap is bind", "p", lambda p: ("fmap", 1, p),
    lambda p: p.bind(lambda v: Pure((1, v))), lambda p: p.fmap(tag(1)))

law("seq associative", "pqr", lambda p, q, r: ("tup", (p, q, r), None),
    lambda p, q, r: ((p + q) + r).fmap(lambda v: (v[0], v[1], v[2])
                                       if len(v) == 3 else (*v[0], v[1])),
    lambda p, q, r: rp.seq(p, rp.seq(q, r)).fmap(
        lambda v: (v[0], v[1][0], v[1][1])))
law("seql associative", "pqr", lambda p, q, r: ("seql", ("seql", p, q), r),
    lambda p, q, r: (p << q) << r, lambda p, q, r: p << (q << r))
law("seqr associative", "pqr", lambda p, q, r: ("seqr", ("seqr", p, q), r),
    lambda p, q, r: (p >> q) >> r, lambda p, q, r: p >> (q >> r))
law("seqr then seql", "pqr", lambda p, q, r: ("seql", ("seqr", p, q), r),
    lambda p, q, r: (p >> q) << r, lambda p, q, r: p >> (q << r))
law("seql is seq", "pq", lambda p, q: ("seql", p, q),
    lambda p, q: p << q, lambda p, q: rp.seq(p, q).fmap(fst))
law("seqr is seq", "pq", lambda p, q: ("seqr", p, q),
    lambda p, q: p >> q, lambda p, q: rp.seq(p, q).fmap(snd))
law("seq as bind", "pq", lambda p, q: ("seq", p, q),
    lambda p, q: rp.seq(p, q),
    lambda p, q: p.bind(lambda a: q.fmap(lambda b: (a, b))))
law("seqr as bind", "pq", lambda p, q: ("seqr", p, q),
    lambda p, q: p >> q, lambda p, q: p.bind(lambda _: q))
law("Pure left", "p", lambda p: ("seqr", ("pure", 0), p),
    lambda p: Pure(0) >> p, lambda p: p)
law("Pure right", "p", lambda p: ("seql", p, ("pure", 0)),
    lambda p: p << Pure(0), lambda p: p)
law("Pure value", "p", lambda p: ("seqr", p, ("pure", "v")),
    lambda p: p >> Pure("v"), lambda p: p.fmap(lambda _: "v"))
law("PureFn", "p", lambda p: ("seqr", p, ("pure", "v")),
    lambda p: p >> PureFn(lambda: "v"), lambda p: p >> Pure("v"))
law("bind left identity", "pq", lambda p, q: ("bind", ("pure", 0), (p, q)),
    lambda p, q: Pure(0).bind(choice(p, q)), lambda p, q: choice(p, q)(0))
law("bind right identity", "p", lambda p: ("seql", p, ("pure", 0)),
    lambda p: p.bind(Pure), lambda p: p)
law("bind associative", "pqr",
    lambda p, q, r: ("bind", ("bind", p, (q, r)), (r, q)),
    lambda p, q, r: p.bind(choice(q, r)).bind(choice(r, q)),
    lambda p, q, r: p.bind(lambda v: choice(q, r)(v).bind(choice(r, q))))
law("bind after fmap", "pqr",
    lambda p, q, r: ("bind", ("fmap", 1, p), (q, r)),
    lambda p, q, r: p.fmap(tag(1)).bind(choice(q, r)),
    lambda p, q, r: p.bind(lambda v: choice(q, r)((1, v))))

law("alt associative", "pqr", lambda p, q, r: ("alt", ("alt", p, q), r),
    lambda p, q, r: (p | q) | r, lambda p, q, r: p | (q | r))
law("Pure absorbs alt", "p", lambda p: ("alt", ("pure", 0), p),
    lambda p: Pure(0) | p, lambda p: Pure(0))
law("maybe is alt", "p", lambda p: ("maybe", p),
    lambda p: p.maybe(), lambda p: p | Pure(None))
law("maybe absorbs alt", "pq", lambda p, q: ("alt", ("maybe", p), q),
    lambda p, q: p.maybe() | q, lambda p, q: p.maybe())
law("maybe twice", "p", lambda p: ("maybe", ("maybe", p)),
    lambda p: p.maybe().maybe(), lambda p: p.maybe())
law("maybe of many", "c", lambda p: ("maybe", ("many", p)),
    lambda p: p.many().maybe(), lambda p: p.many())
law("many unfolds", "c", lambda p: ("many", p),
    lambda p: p.many(),
    lambda p: rp.seq(p, p.many()).fmap(lambda v: [v[0], *v[1]])
    | PureFn(list))
law("many by recursion", "c", lambda p: ("many", p),
    lambda p: p.many(), lambda p: recursive(p))
law("sep_by", "cq", lambda p, q: ("sepby", p, q),
    lambda p, q: p.sep_by(q),
    lambda p, q: rp.seq(p, (q >> p).many()).fmap(
        lambda v: [v[0], *v[1]]) | PureFn(list))

law("attempt twice", "p", lambda p: ("attempt", ("attempt", p)),
    lambda p: p.attempt().attempt(), lambda p: p.attempt())
law("recover twice", "p", lambda p: ("recover", ("recover", p)),
    lambda p: p.recover().recover(), lambda p: p.recover())
law("label twice", "p", lambda p: ("label", ("label", p, "x"), "y"),
    lambda p: p.label("x").label("y"), lambda p: p.label("y"))
law("attempt of one token", "t", lambda p: ("attempt", p),
    lambda p: p.attempt(), lambda p: p)
law("failure absorbs seq", "p", lambda p: ("seq", ("unexp", "u"), p),
    lambda p: rp.seq(unexpected("u"), p), lambda p: unexpected("u"))
law("failure absorbs fmap", "", lambda: ("fmap", 1, ("unexp", "u")),
    lambda: unexpected("u").fmap(tag(1)).attempt().recover(),
    lambda: unexpected("u"))
law("failure labelled", "", lambda: ("label", ("unexp", "u"), "v"),
    lambda: unexpected("u").label("v"), lambda: unexpected("v"))
law("failure in alt", "p", lambda p: ("alt", ("unexp", "u"), ("fmap", 1, p)),
    lambda p: (unexpected("u") | p).fmap(tag(1)),
    lambda p: unexpected("u") | p.fmap(tag(1)))
law("maybe of failure", "", lambda: ("maybe", ("unexp", "u")),
    lambda: unexpected("u").maybe(), lambda: unexpected("u") | Pure(None))
law("between", "pqr", lambda p, q, r: ("between", p, q, r),
    lambda p, q, r: r.between(p, q), lambda p, q, r: p >> (r << q))
law("then", "pqr", lambda p, q, r: ("tup", (p, q, r), None),
    lambda p, q, r: (p << Pure(0)).then(q).then(r),
    lambda p, q, r: rp.seq(p, rp.seq(q, r)).fmap(
        lambda v: (v[0], v[1][0], v[1][1])))
law("apply", "pqr", lambda p, q, r: ("tup", (p, q, r), 4),
    lambda p, q, r: (p << Pure(0)).then(q).then(r).apply(
        lambda a, b, c: (4, (a, b, c))),
    lambda p, q, r: p.bind(lambda a: q.bind(lambda b: r.fmap(
        lambda c: (4, (a, b, c))))))
law("chainl1", "cq", lambda p, q: ("chainl", p, q),
    lambda p, q: p.chainl1(q.fmap(oper("L"))),
    lambda p, q: rp.seq(p, rp.seq(q.fmap(oper("L")), p).many()).fmap(
        lambda v: foldl(v[0], v[1])))
law("chainr1", "cq", lambda p, q: ("chainr", p, q),
    lambda p, q: p.chainr1(q.fmap(oper("R"))),
    lambda p, q: rp.seq(p, rp.seq(q.fmap(oper("R")), p).many()).fmap(
        lambda v: foldr(v[0], v[1])))
law("chainl1 by recursion", "cq", lambda p, q: ("chainl", p, q),
    lambda p, q: p.chainl1(q.fmap(oper("L"))),
    lambda p, q: p.bind(lambda v: more(p, q, v)))
law("bind over alt", "pqr",
    lambda p, q, r: ("fmap", 1, ("alt", p, q)),
    lambda p, q, r: (p | q).fmap(tag(1)).bind(Pure),
    lambda p, q, r: (p.fmap(tag(1)) | q.fmap(tag(1))).bind(Pure))
law("recover and label", "p", lambda p: ("label", ("recover", p), "x"),
    lambda p: p.recover().label("x"), lambda p: p.label("x").recover())
law("recover and attempt", "p", lambda p: ("attempt", ("recover", p)),
    lambda p: p.recover().attempt(), lambda p: p.attempt().recover())
law("recover_with_fn", "p", lambda p: ("rw", p, "R", "l"),
    lambda p: p.recover_with("R", "l"),
    lambda p: p.recover_with_fn(lambda s, i: "R", "l"))
law("declared", "p", lambda p: p, lambda p: p, lambda p: declared(p))

law("block twice", "p", lambda p: ("block", ("block", p)),
    lambda p: block(block(p)), lambda p: block(p), layout=1)
law("aligned block", "p", lambda p: ("block", ("aligned", p)),
    lambda p: block(aligned(p)), lambda p: block(p), layout=1)
law("aligned twice", "p", lambda p: ("aligned", ("aligned", p)),
    lambda p: aligned(aligned(p)), lambda p: aligned(p), layout=1)
law("block aligned", "p", lambda p: ("aligned", ("block", p)),
    lambda p: aligned(block(p)), lambda p: aligned(p), layout=1)
law("indented zero", "p", lambda p: ("indented", 0, p),
    lambda p: indented(0, p), lambda p: aligned(p), layout=1)
law("aligned in indented", "p", lambda p: ("indented", 2, ("aligned", p)),
    lambda p: indented(2, aligned(p)), lambda p: indented(2, p), layout=1)
law("block in indented", "p", lambda p: ("indented", 1, ("block", p)),
    lambda p: indented(1, block(p)), lambda p: indented(1, p), layout=1)
law("label under block", "p", lambda p: ("label", ("block", p), "x"),
    lambda p: block(p).label("x"), lambda p: block(p.label("x")), layout=1)
law("attempt under layout", "p", lambda p: ("attempt", ("aligned", p)),
    lambda p: aligned(p).attempt(), lambda p: aligned(p.attempt()),
    layout=1)
law("attempt under indented", "p", lambda p: ("attempt", ("indented", 1, p)),
    lambda p: indented(1, p).attempt(), lambda p: indented(1, p.attempt()),
    layout=1)
law("recover under layout", "p", lambda p: ("recover", ("indented", 2, p)),
    lambda p: indented(2, p).recover(), lambda p: indented(2, p.recover()),
    layout=1)
law("block restores", "pq", lambda p, q: ("aligned", ("seq", ("block", p),
                                                      ("aligned", q))),
    lambda p, q: aligned(rp.seq(block(p), aligned(q))),
    lambda p, q: rp.seq(aligned(p), aligned(q)), layout=1)
law("seq under block", "pq", lambda p, q: ("block", ("seq", p, q)),
    lambda p, q: block(rp.seq(p, q)),
    lambda p, q: block(p.bind(lambda a: q.fmap(lambda b: (a, b)))),
    layout=1)
law("block alone", "n", lambda p: ("block", p),
    lambda p: block(p), lambda p: p, layout=1)
law("block of a part", "np", lambda p, q: ("seq", ("block", p), q),
    lambda p, q: rp.seq(block(p), q), lambda p, q: rp.seq(p, q), layout=1)
law("block after", "pn", lambda p, q: ("seq", p, ("block", q)),
    lambda p, q: rp.seq(p, block(q)), lambda p, q: rp.seq(p, q), layout=1)
law("block as alternative", "np", lambda p, q: ("alt", ("block", p), q),
    lambda p, q: block(p) | q, lambda p, q: p | q, layout=1)
law("fmap under layout", "p", lambda p: ("block", ("fmap", 1, p)),
    lambda p: block(p.fmap(tag(1))), lambda p: block(p).fmap(tag(1)),
    layout=1)


def oper(side):
    return lambda v: lambda a, b: (side, v, a, b)


def foldl(a, rest):
    for op, b in rest:
        a = op(a, b)
    return a


def foldr(a, rest):
    if not rest:
        return a
    op, b = rest[0]
    return op(a, foldr(b, rest[1:]))


def more(p, q, v):
    return rp.seq(q, p).bind(
        lambda w: more(p, q, oper("L")(w[0])(v, w[1]))) | Pure(v)


def recursive(p):
    d = rp.Delay()
    d.define(rp.seq(p, d).fmap(lambda v: [v[0], *v[1]]) | PureFn(list))
    return d


def declared(p):
    d = rp.Delay()
    d.define(p)
    return d


NAMES = sorted(LAWS)


class Contexts(Builder):
    def b_hole(self):
        return self.hole


def fill(n, x):
    """The tree with every hole replaced."""
    if n == ("hole",):
        return x
    return tuple(
        fill(c, x) if isinstance(c, tuple) and c and isinstance(c[0], str)
        else tuple(fill(d, x) for d in c)
        if isinstance(c, tuple) and c and isinstance(c[0], tuple) else c
        for c in n)


def context(rng, gen, need):
    n = ("hole",)
    for _ in range(rng.choice([0, 0, 1, 1, 2, 2, 3])):
        x = gen.node(rng.choice([0, 0, 1]), True, False)
        ops = ["pre", "post", "post", "rest", "altl", "altr", "maybe",
               "attempt", "label", "recover", "rw", "fmap", "bind"]
        if need:
            ops += ["many", "many", "sepby"]
        if gen.cfg.layout:
            ops += ["block", "aligned", "indented"]
        k = rng.choice(ops)
        if k == "pre":
            n, need = (rng.choice(["seq", "seqr", "seql"]), x, n), True
        elif k == "post":
            n, need = (rng.choice(["seq", "seql", "seqr"]), n, x), True
        elif k == "rest":
            n, need = ("seq", n, rng.choice([REST, EOF])), need
        elif k == "altl":
            n = ("alt", n, x)
        elif k == "altr":
            n = ("alt", x, n)
        elif k == "label":
            n = ("label", n, "ctx")
        elif k == "rw":
            n = ("rw", n, "CR", None)
        elif k == "fmap":
            n = ("fmap", 9, n)
        elif k == "bind":
            n = ("bind", n, (x, ("pure", 1)))
        elif k == "sepby":
            n, need = ("sepby", n, x), False
        elif k == "indented":
            n = ("indented", rng.choice([0, 1, 2]), n)
        else:
            n = (k, n)
            if k in ("maybe", "many"):
                need = False
    if rng.random() < .5:
        n = (rng.choice(["seql", "seq"]), n, EOF)
    return n


def layoutless(rng, gen):
    """A parser to which the mark makes no difference."""
    for _ in range(12):
        n = gen.node(rng.choice([0, 1, 2]), rng.random() < .5, False)
        if not {x[0] for x in walk(n)} & {"block", "aligned", "indented",
                                          "ref"}:
            return n
    return gen.leaf(True)


TINY = ["alt", "alt", "alt", "recover", "recover", "rw", "seql"]


def case(rng, idx, mon):
    name = NAMES[idx % len(NAMES)] if rng.random() < .7 else rng.choice(NAMES)
    args, ast, left, right, kw = LAWS[name]
    layout = bool(kw.get("layout")) or rng.random() < .1
    cfg = Cfg(recovery=True, layout=layout, attempt=rng.random() < .7,
              depth=rng.choice([1, 2, 2, 3]))
    gen = Gen(rng, rng.choice("SSL" if layout else "TTTSSL"), cfg)
    subs = []
    shared = False
    # alternatives of repairable symbols: many repairs to choose from
    tiny = gen.fam == "T" and not layout and rng.random() < .25
    for a in args:
        subs.append(
            gen.leaf(True) if a == "t" else
            layoutless(rng, gen) if a == "n" else
            small(rng, rng.randint(0, 4), TINY, LEAVES) if tiny else
            gen.node(cfg.depth, a == "c" or rng.random() < .6, False))
    if len(subs) > 1 and rng.random() < .1:
        # one parser in two places
        i, j = rng.sample(range(len(subs)), 2)
        if args[i] == args[j] or args[i] not in "tn" \
                and args[j] not in "ctn":
            subs[j] = subs[i]
            shared = True
    node = ast(*subs)
    defs = [gen.node(cfg.depth - 1, need, False) for need in gen.defneed]
    hole = context(rng, gen, consumes(node, gen.defneed))
    g = Grammar(gen.fam, fill(hole, node), defs, gen.pool)
    b = Contexts(Grammar(gen.fam, ("pure", 0), defs, gen.pool), rng)
    b.share = 0

    def side(make):
        b.hole = make(*real)
        return b.build(hole)

    def made():
        ps = []
        for i, s in enumerate(subs):
            at = [j for j in range(i) if subs[j] is s]
            ps.append(ps[at[0]] if shared and at else b.build(s))
        return ps

    real = made()
    mon.ev("one parser in two places", shared)
    lhs = side(left)
    if rng.random() < .4:
        real = made()
    rhs = side(right)
    how = {"S": "text", "L": "tokens", "T": None}[g.fam] if layout else None
    long = consumes(fill(hole, node), gen.defneed) and rng.random() < .05
    if long:
        b.hole = lhs
        lhs = b.build(("many", ("hole",)))
        b.hole = rhs
        rhs = b.build(("many", ("hole",)))
        g.root = ("many", g.root)
    for _ in range(rng.choice([4, 6, 8])):
        xs = []
        for _ in range(rng.choice([5, 20, 80]) if long else 0):
            xs += pieces(rng, g, 0, 10)
        xs += pieces(rng, g, None, rng.choice([10, 30, 60]))
        inp = Input(g, rng, xs, how)
        mon.ev("long inputs", len(xs) > 100)
        for recover in (False, True):
            mi = 5
            if recover and (inp.how == "default" or rng.random() < .6):
                mi = rng.choice([5, 5, 0, 1, 2, 3, 4, 7])
            want = ref(mon, g, inp, recover, mi)
            if want is None or want.kind == "exc":
                continue
            a = run(lhs, inp, recover, mi)
            c = run(rhs, inp, recover, mi)
            mon.case((name, repr(g), repr(inp), recover, mi), True,
                     lazy(name, g, inp, a))
            mon.ev("law: " + name)
            mon.ev("reference differs (not judged here)",
                   want.key() != a.key())
            mon.ev("{} {}".format("recovering" if recover else "plain",
                                  a.kind))
            if a.key() != c.key():
                mon.fail(
                    "law '{}' does not hold\n parts: {}\n context: {} where"
                    " {}\n input: {}\n {}max_insertions: {}\n one side: {}\n"
                    " other side: {}".format(
                        name, subs, hole, defs, inp,
                        "recovery on, " if recover else "", mi, a, c))


MIN = {"plain ok": 20000, "plain fail": 20000, "recovering rec": 20000, "long inputs": 500,
       "one parser in two places": 1000}
MIN.update({"law: " + n: 2000 for n in NAMES})
RULE = (
    "each law is a pair of parser expressions built from the same random"
    " sub-parsers and placed in the same random context; both are run on"
    " sentences and corrupted sentences, plain and recovering, with several"
    " insertion limits, and every observable (value, errors, locations,"
    " expectations, repairs, recovered value) must be equal. Non-trivial:"
    " distinct (law, grammar, input, mode, limit).")
ASSUMPTIONS = [
    "the reference semantics only bounds the size of a case here: cases"
    " beyond its step budget are skipped and counted; verdicts compare two"
    " real runs"]
