"""Lookahead: which elements a parse looks at, and what it may depend on."""
import reparsec as rp
from reparsec.sequence import satisfy

from ..build import build
from ..common import Cfg, Input, Scaled, lazy, pieces, ref
from ..gast import Grammar, kids, kinds, walk
from ..gen import anything, gen_grammar, mk_tokens
from ..impl import observe, parse

ID = "C21"
LEVEL = "exploration"
COUNTS = {"quick": 60000, "thorough": 900000}


class Looked(Exception):
    pass


class Watched:
    """A sequence that logs which elements are asked for.  Elements from
    ``end`` on are not there to be looked at."""

    def __init__(self, xs, end=None, length=None):
        self.xs = xs
        self.n = len(xs) if length is None else length
        self.end = len(xs) if end is None else end
        self.log = []

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        if type(i) is not int:
            raise Looked("asked for {!r}".format(i))
        if i == self.n:
            # asking for the end is another way to find out about it
            raise IndexError(i)
        self.log.append(i)
        if not 0 <= i < self.n:
            raise Looked("asked for position {} of {}".format(i, self.n))
        if i >= self.end:
            raise Looked("asked for position {}, stuck before {}".format(
                i, self.end))
        return self.xs[i]

    def __repr__(self):
        return "Watched({!r}, {}, {})".format(self.xs, self.end, self.n)


def narrow(n):
    """Without regular expressions, which look as far as they like."""
    if n[0] == "rx":
        return ("sat", ["alpha", "digit", "any"][n[1] % 3])
    if not kids(n):
        return n
    return tuple(
        narrow(c) if isinstance(c, tuple) and c and isinstance(c[0], str)
        and n[0] not in ("rw",) or i == 1 and n[0] == "rw" else
        tuple(narrow(d) for d in c)
        if isinstance(c, tuple) and c and isinstance(c[0], tuple) else c
        for i, c in enumerate(n))


def expected_reach(g):
    """How many characters one terminal looks at."""
    if g.fam != "S":
        return 1
    m = 1
    for r in [g.root, *g.defs]:
        for n in walk(r):
            if n[0] == "lit":
                m = max(m, len(n[1]))
    return m


def tails(rng, g, inp, stop):
    """Streams that agree with the input up to and including ``stop``."""
    s = inp.stream
    keep = s[:stop]
    rest = s[stop:]
    yield keep
    if g.fam == "L":
        src = " ".join(anything(rng, g)[1] for _ in range(rng.randint(1, 6)))
        yield list(keep) + mk_tokens(src)
        yield list(keep) + list(rest) + mk_tokens(src)
        return
    new = [anything(rng, g) for _ in range(rng.choice([1, 2, 5, 40]))]
    if g.fam == "S":
        new = "".join(new)
        yield keep + new
        yield keep + rest + new
        yield keep + rest[::-1]
        return
    if isinstance(s, str):
        if all(isinstance(x, str) and len(x) == 1 for x in new):
            yield keep + "".join(new)
            yield keep + "".join(new) * 30
        return
    yield list(keep) + new
    yield tuple(keep) + tuple(rest) + tuple(new)
    yield list(keep) + list(rest)[::-1]


def go(p, inp, stream, recover=False):
    return observe(parse(p, stream, recover, inp.how), recover)


def case(rng, idx, mon):
    attempt = rng.random() < .15
    cfg = Cfg(recovery=rng.random() < .4, layout=rng.random() < .15,
              attempt=attempt, depth=rng.choice([2, 3, 3, 4]))
    g = gen_grammar(rng, cfg)
    g = Grammar(g.fam, narrow(g.root), [narrow(d) for d in g.defs],
                g.alphabet)
    if g.root[0] in ("seql", "seq") and g.root[2] == ("eof",) \
            and rng.random() < .5:
        g.root = g.root[1]
    scaled = rng.random() < .03
    if scaled:
        s = Scaled(rng, g, 800)
        g = s.grammar
    attempt = "attempt" in kinds(g)
    reach = expected_reach(g)
    p = build(g, rng)
    whole = rp.seq(p, satisfy(lambda _: True).many())
    for _ in range(2 if scaled else 6):
        xs = s() if scaled else pieces(rng, g)
        if rng.random() < .5:
            xs = xs + [anything(rng, g) for _ in range(rng.randint(1, 8))]
        inp = Input(g, rng, xs)
        if g.fam == "T" and not isinstance(inp.stream, (str, list, tuple)):
            inp.stream = list(inp.stream)
        if ref(mon, g, inp, False) is None:
            continue
        n = len(inp.stream)
        o = go(p, inp, inp.stream)
        if o.kind == "exc":
            continue
        what = "\n grammar: {}\n input: {}".format(g, inp)
        # how far the parse got, by its own account
        log = None
        if g.fam == "T":
            w = Watched(inp.stream)
            if go(p, inp, w).key() != o.key():
                mon.fail("a logging sequence changes the outcome" + what)
            log = w.log
        if o.kind == "ok":
            stop = n - len(parse(
                whole, inp.stream, False, inp.how)().unwrap()[1])
        else:
            stop = o.errors[0][0][0]
            if inp.how == "tokens":
                stop = next((i for i, t in enumerate(inp.stream)
                             if tuple(t.start) == o.errors[0][0]), n)
        mon.ev("plain " + o.kind)
        mon.ev("long inputs", n > 200)
        if log is not None:
            mon.ev("elements looked at", len(log))
            if not attempt:
                if any(a > b for a, b in zip(log, log[1:])):
                    mon.fail("an element is looked at again after a later"
                             " one{}\n looked at: {}".format(what, log))
                if log and log[-1] > stop:
                    mon.fail("looked at element {} although the parse"
                             " stopped at {}{}".format(log[-1], stop, what))
            else:
                # an abandoned attempt may have checked for the end of the
                # input after the last element it looked at
                mon.ev("with attempt")
                stop = max([i + 1 for i in log] + [stop])
        elif attempt:
            continue
        mon.case((repr(g), repr(inp)), stop < n, lazy(g, inp, o, stop))
        if o.kind == "ok" and cfg.recovery:
            # on valid input recovery looks no further
            if log is not None:
                w = Watched(inp.stream)
                if go(p, inp, w, True).key() != o.key():
                    mon.fail("recovery changes a valid parse" + what)
                mon.ev("recovery on valid input")
                if max(w.log + [0]) > max(log + [0]) or not attempt and any(
                        a > b for a, b in zip(w.log, w.log[1:])):
                    mon.fail("with recovery on, a valid parse looks at {},"
                             " without at {}{}".format(w.log, log, what))
        if stop >= n:
            continue
        if g.fam == "T":
            for length in (n, n + 1, 2 ** 40):
                w = Watched(inp.stream, stop + 1, length)
                o2 = go(p, inp, w)
                mon.ev("hidden rests")
                if o2.key() != o.key():
                    mon.fail(
                        "what comes after {} is looked at or matters{}\n"
                        " sequence: {}\n outcome: {}\n was: {}".format(
                            stop, what, w, o2, o))
        if stop + reach > n:
            continue
        for t in tails(rng, g, inp, stop + reach):
            o2 = go(p, inp, t)
            mon.ev("other rests")
            if o2.key() != o.key():
                mon.fail(
                    "what comes after {} matters{}\n other input: {!r}\n"
                    " outcome: {}\n was: {}".format(stop, what, t, o2, o))


MIN = {"plain ok": 30000, "plain fail": 40000, "elements looked at": 100000,
       "hidden rests": 60000, "other rests": 100000, "with attempt": 3000,
       "recovery on valid input": 4000, "long inputs": 200}
RULE = (
    "random grammars without regular expressions over sequences, strings and"
    " tokens; every element access of the real parse is logged by the input"
    " sequence (in range, never backwards without `attempt`, never beyond"
    " the place where the parse stopped or got stuck, the same with recovery"
    " on for valid input), and the parse is repeated with everything after"
    " that place dropped, replaced, extended, reversed, hidden (looking"
    " raises) or followed by 2^40 further elements. Non-trivial: distinct"
    " (grammar, input) with something after the stopping place.")
ASSUMPTIONS = [
    "for strings the longest literal of the grammar bounds how far one token"
    " looks; the stopping place is taken from the parse itself (error offset,"
    " or what a following `many` gets)",
    "the reference semantics only bounds the size of a case here"]
