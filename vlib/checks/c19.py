"""Independence of the kind of sequence and of element types."""
import array
import collections
import re
from fractions import Fraction

from reparsec import lexer

from ..build import build
from ..common import (
    BIG, Cfg, Grammar, Input, compare, dense, enlarge, gen_grammar, kinds,
    lazy, mk_tokens, observe, parse, pieces, ref,
    run, small, wrapped, EOF, PLAIN_KINDS, REC_KINDS)
from ..gast import PREDS, walk
from ..gen import MySeq, render

ID = "C19"
LEVEL = "exploration"
COUNTS = {"quick": 55000, "thorough": 700000}
MIN = {"kinds compared": 120000, "recovered, compared": 30000,
       "as str": 15000, "as own sequence": 15000, "as bytes or array": 4000,
       "token sequences": 10000, "object streams": 25000,
       "objects recovered": 5000, "objects ok": 5000, "comparisons": 80000,
       "input elements returned": 10000, "grammar elements inserted": 1500,
       "never equal to themselves": 2000, "streams unchanged": 100000,
       "other class than the grammar's": 6000, "rare elements": 2000}
RULE = (
    "(a) random grammars over element pools with falsy values, None, tuples,"
    " equal values of other types: each input as list, tuple, deque, str,"
    " bytes, array, UserList and minimal user-defined sequences, plain and"
    " recovering: outcomes equal; (b) elements that are objects with only"
    " __eq__ (unhashable; falsy; refusing bool(); answering == with a"
    " non-bool; not equal to themselves), equal and distinct: outcomes,"
    " including which object is returned or inserted, are those of the"
    " reference semantics; after each parse the input has the same elements."
    " Non-trivial: distinct (grammar, input, kind, mode).")
ASSUMPTIONS = [
    "runs beyond the model's step budget are left out",
    "user-defined sequences answer len() and integer indices as the built-in"
    " ones do"]


class Bare:
    """Only what indexing needs; no slices, no iteration, no equality."""
    __hash__ = None

    def __init__(self, xs):
        self._xs = list(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        if not isinstance(i, int):
            raise TypeError("integer indices only")
        return self._xs[i]

    def __iter__(self):
        return iter(self._xs)

    def __eq__(self, other):
        raise TypeError("streams are not comparable")

    def __repr__(self):
        return "Bare({!r})".format(self._xs)


class Seq(collections.abc.Sequence):
    def __init__(self, xs):
        self._xs = tuple(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        return self._xs[i]

    def __repr__(self):
        return "Seq({!r})".format(self._xs)


class SubList(list):
    pass


class SubTuple(tuple):
    pass


GENERAL = [("list", list), ("tuple", tuple), ("MySeq", MySeq), ("Bare", Bare),
           ("Seq", Seq), ("deque", collections.deque),
           ("UserList", collections.UserList), ("SubList", SubList),
           ("SubTuple", SubTuple)]


RARE = [
    [[], [1], [1, 2], [[]]], [{}, {"a": 1}, {1: []}],
    [set(), {1}, frozenset((1,)), frozenset()],
    [b"", b"a", bytearray(b"b"), "a"], [int, str, list, type],
    [..., NotImplemented, None, False], [1.5, -0.0, 0, 10 ** 30, 2j],
    [range(0), range(2), slice(1), slice(None)],
    [KeyError, ValueError, len, print], ["", "\0", "a" * 300, "\ud800"],
    [re.compile("a"), re.compile("b"), "a"],
    [collections.Counter(), collections.Counter("a"), {}],
    [lexer.Token("a", "b"), ("a", "b"), "a"],
]


def forms(rng, xs):
    out = rng.sample(GENERAL, 4)
    if all(type(x) is str and len(x) == 1 for x in xs):
        out += [("str", "".join), ("UserString", lambda v:
                                   collections.UserString("".join(v)))]
        out[-1:] = []
    if xs and all(type(x) is int and 0 <= x < 256 for x in xs):
        out += rng.sample([("bytes", bytes), ("bytearray", bytearray),
                           ("array", lambda v: array.array("B", v)),
                           ("memoryview", lambda v: memoryview(bytes(v)))], 2)
        if list(xs) == list(range(len(xs))):
            out.append(("range", lambda v: range(len(v))))
    return out


def unchanged(mon, s, ids, what):
    mon.ev("streams unchanged")
    if len(s) != len(ids) or any(
            s[i] is not x for i, x in enumerate(ids)):
        mon.fail("parsing changed its input: {}".format(what))


def kinds_case(rng, mon):
    if rng.random() < .25:
        g = dense(rng, True)
        inputs = [list(rng.choice(["", "a", "ab", "ba", "abc", "cab", "aabb",
                                   "ca", "bc", "cba"])) for _ in range(3)]
    else:
        if rng.random() < .3:
            g = gen_grammar(rng, Cfg(recovery=rng.random() < .75,
                                     pool=rng.choice(RARE)), "T")
            mon.ev("rare elements")
        else:
            g = gen_grammar(rng, Cfg(recovery=rng.random() < .75), "TTTS")
        if g.fam == "S" and kinds(g) & {"lit", "rx"}:
            g = gen_grammar(rng, Cfg(recovery=True), "T")
        g, take = enlarge(rng, g, BIG if g.fam == "T" else 0)
        inputs = [take() for _ in range(3)]
        if g.fam == "S":
            inputs = [list("".join(map(str, xs))) for xs in inputs]
    p = build(g, rng)
    for xs in inputs:
        if rng.random() < .3:
            xs = [equal(rng, x) for x in xs]
        for recover in (False, True):
            mi = rng.choice([5, 5, 0, 1, 2, 3, 4, 7])
            inp = plain_input(list(xs))
            want = ref(mon, g, inp, recover, mi)
            if want is None:
                continue
            for name, make in forms(rng, xs):
                s = make(xs)
                exact = name not in (
                    "str", "bytes", "bytearray", "array", "memoryview",
                    "range", "UserString")
                got = observe(parse(p, s, recover, max_insertions=mi), recover)
                mon.ev("kinds compared")
                mon.ev("as str", name == "str")
                mon.ev("as own sequence", name in ("MySeq", "Bare", "Seq"))
                mon.ev("as bytes or array", name in (
                    "bytes", "bytearray", "array", "memoryview"))
                mon.ev("recovered, compared", want.kind == "rec")
                mon.case((repr(g), repr(s), recover, mi),
                         sample=lazy(g, s, recover, want))
                compare(mon, g, plain_input(s), want, got,
                        "as {} (recover={})".format(name, recover), mi)
                if exact:
                    unchanged(mon, s, xs, (g, s))
                else:
                    mon.ev("streams unchanged")
                    if list(s) != list(xs):
                        mon.fail("parsing changed its input {!r}".format(s))


class SubStr(str):
    pass


def equal(rng, x):
    """An equal element of another type."""
    if type(x) is int:
        return rng.choice([float, Fraction, int, complex]
                          + [bool] * (x in (0, 1)))(x)
    if type(x) is str:
        return SubStr(x)
    return x


def plain_input(s):
    inp = Input.__new__(Input)
    inp.src = None
    inp.stream = s
    inp.set("default")
    return inp


def tokens_case(rng, mon):
    g = gen_grammar(rng, Cfg(recovery=rng.random() < .75,
                             layout=rng.random() < .3), "L")
    g, take = enlarge(rng, g)
    p = build(g, rng)
    for _ in range(3):
        src = render(rng, g, take())[1]
        toks = mk_tokens(src)
        recover = rng.random() < .6
        inp = plain_input(toks)
        inp.set(rng.choice(["tokens", "tokens", "default"]))
        want = ref(mon, g, inp, recover)
        if want is None:
            continue
        for name, make in rng.sample(GENERAL, 4):
            s = make(toks)
            got = observe(parse(p, s, recover, inp.how), recover)
            mon.ev("kinds compared")
            mon.ev("token sequences")
            mon.ev("recovered, compared", want.kind == "rec")
            mon.case((repr(g), repr(s), recover, inp.how))
            compare(mon, g, inp, want, got, "tokens as {} (recover={})".format(
                name, recover))
            unchanged(mon, s, toks, (g, s))


# --- objects -----------------------------------------------------------------

class Count:
    n = 0


class El:
    """Comparable with == only."""
    __slots__ = "key", "serial"
    __hash__ = None
    made = 0

    def __init__(self, key):
        El.made += 1
        self.key = key
        self.serial = El.made

    def __eq__(self, other):
        Count.n += 1
        return isinstance(other, El) and self.key == other.key

    def __repr__(self):
        return "e{}".format(self.key)

    def own_show(self):
        return "e{}#{}".format(self.key, self.serial)


class Falsy(El):
    __slots__ = ()

    def __bool__(self):
        return False


class NoBool(El):
    __slots__ = ()

    def __bool__(self):
        raise AssertionError("elements have no truth value")


class Empty(El):
    __slots__ = ()

    def __len__(self):
        return 0


class Loose(El):
    """Answers == with something that is only truthy or falsy."""
    __slots__ = ()

    def __eq__(self, other):
        Count.n += 1
        return ["yes"] if isinstance(other, El) and self.key == other.key \
            else ""


class Odd(El):
    """Key 0 is not equal to itself."""
    __slots__ = ()

    def __eq__(self, other):
        Count.n += 1
        return isinstance(other, El) and self.key == other.key != 0


def _key(*ks):
    return lambda x: x.key in ks


class Duck:
    """No relation to the other classes but equality."""
    __hash__ = None

    def __init__(self, key):
        El.made += 1
        self.key = key
        self.serial = El.made

    def __eq__(self, other):
        Count.n += 1
        return self.key == getattr(other, "key", None)

    def own_show(self):
        return "d{}#{}".format(self.key, self.serial)

    def __repr__(self):
        return "d{}".format(self.key)


class Reflected(El):
    """Leaves == to the other operand."""
    __slots__ = ()

    def __eq__(self, other):
        return NotImplemented


PREDS["k01"] = _key(0, 1)
PREDS["k2"] = _key(2)


def swap(rng, n, cls):
    """The same grammar over objects."""
    if not isinstance(n, tuple) or not n:
        return n
    if n[0] == "sym" and len(n) == 3:
        return ("sym", cls(n[1]), n[2])
    if n[0] == "sat":
        return ("sat", rng.choice(["any", "none", "k01", "k2", "k01"]))
    if n[0] in ("pure", "unexp", "eof", "puren", "ref"):
        return n
    if n[0] in ("rw", "rwf", "label"):
        return (n[0], swap(rng, n[1], cls), *n[2:])
    if n[0] == "tup":
        return ("tup", tuple(swap(rng, p, cls) for p in n[1]), n[2])
    if n[0] == "bind":
        return ("bind", swap(rng, n[1], cls), tuple(
            swap(rng, p, cls) for p in n[2]))
    return (n[0], *(swap(rng, x, cls) for x in n[1:]))


def objects_case(rng, mon):
    cls, ecls = rng.choice([
        (El, El), (Falsy, Falsy), (NoBool, NoBool), (Empty, Empty),
        (Loose, Loose), (Odd, Odd), (El, Duck), (Duck, Duck),
        (Duck, Reflected), (Reflected, Duck)])
    recover_on = rng.random() < .75
    for _ in range(20):
        if rng.random() < .3:
            leaves = [("sym", i, None) for i in range(3)]
            root = small(rng, rng.randint(2, 6),
                         REC_KINDS if recover_on else PLAIN_KINDS, leaves)
            if rng.random() < .6:
                root = ("seql", root, EOF)
            g = Grammar("T", root, (), [0, 1, 2])
        else:
            g = gen_grammar(rng, Cfg(recovery=recover_on), "T")
        if g.alphabet in ([0, 1, 2], [0, 1, 2, 3]):
            break
    else:
        return
    ints = [pieces(rng, g) for _ in range(4)]
    if any(not isinstance(x, int) for xs in ints for x in xs):
        ints = [[x for x in xs if isinstance(x, int)] for xs in ints]
    g2 = Grammar("T", swap(rng, g.root, cls),
                 [swap(rng, d, cls) for d in g.defs], ())
    p = build(g2, rng)
    inside = [n[1] for r in [g2.root, *g2.defs] for n in walk(r)
              if n[0] == "sym"]
    for xs in ints:
        els = [ecls(x) for x in xs]
        if len(els) > 1 and rng.random() < .2:
            els[-1] = els[0]        # the same object twice
        if inside and els and rng.random() < .2:
            i = rng.randrange(len(els))
            els[i] = rng.choice(inside)     # an object of the grammar
        s = rng.choice([list, tuple, Bare, MySeq])(els)
        inp = plain_input(s)
        for recover in (False, True):
            mi = rng.choice([5, 5, 0, 1, 2, 3, 4, 7])
            want = ref(mon, g2, inp, recover, mi)
            if want is None:
                continue
            Count.n = 0
            got = observe(parse(p, s, recover, max_insertions=mi), recover)
            mon.ev("object streams")
            mon.ev("comparisons", Count.n)
            mon.ev("objects ok", want.kind == "ok")
            mon.ev("objects recovered", want.kind == "rec")
            mon.ev("never equal to themselves", cls is Odd)
            mon.ev("other class than the grammar's", cls is not ecls)
            v = want.value or want.recovered or ""
            for e in els:
                if e.own_show() in v:
                    mon.ev("input elements returned")
            mon.ev("grammar elements inserted", want.recovered is not None
                   and any(e.own_show() in v for e in inside))
            mon.case((cls.__name__, ecls.__name__, repr(g), xs, type(s), recover, mi),
                     sample=lazy(g, xs, cls.__name__, recover, want))
            compare(mon, g2, inp, want, got, "elements of class {}, "
                    "in the grammar {} (recover={})".format(
                        ecls.__name__, cls.__name__, recover), mi)
            unchanged(mon, s, els, (g2, s))


def case(rng, idx, mon):
    x = rng.random()
    if x < .45:
        kinds_case(rng, mon)
    elif x < .6:
        tokens_case(rng, mon)
    else:
        objects_case(rng, mon)
