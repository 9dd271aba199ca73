"""Workload pieces shared by the checks."""
import itertools

from . import env
from .build import build
from .gast import Grammar, kinds, size
from .gen import (
    Cfg, Gen, MySeq, gen_grammar, locf_default, locf_text, locf_tokens,
    mk_tokens, pieces, render)
from .impl import (
    expect, fmt_default, fmt_linecol, observe, op_key, parse)
from .model import Model, Outcome, Skip, core, outcome
from .scale import Scaled

REST = ("many", ("sat", "any"))
EOF = ("eof",)


class Input:
    """A stream with the way to parse it and its true locations."""

    def __init__(self, g, rng, xs, how=None):
        stream, src = render(rng, g, xs)
        self.src = src
        if g.fam == "L":
            stream = mk_tokens(src)
            if rng.random() < .2:
                stream = tuple(stream)
        self.stream = stream
        if how is None:
            how = "default"
            if g.fam == "S" and rng.random() < .5:
                how = "text"
            if g.fam == "L" and rng.random() < .6:
                how = "tokens"
        self.set(how)

    def set(self, how):
        self.how = how
        if how == "text":
            self.locf, self.fmt = locf_text(self.stream), fmt_linecol
        elif how == "tokens":
            self.locf, self.fmt = locf_tokens(self.stream), fmt_linecol
        else:
            self.locf, self.fmt = locf_default, fmt_default

    def __repr__(self):
        if self.src is not None and self.how != "text":
            return "{!r} (source {!r}, {})".format(
                self.stream, self.src, self.how)
        return "{!r} ({})".format(self.stream, self.how)


def layout_how(g):
    return {"S": "text", "L": "tokens", "T": None}[g.fam]


def reference(g, inp, recover, mi=5, event=None, budget=20000):
    m = Model(g, inp.stream, inp.locf, event,
              budget + 30 * len(inp.stream))
    return expect(outcome(m, recover, mi), inp.locf, inp.fmt)


def run(parser, inp, recover, mi=5, **kw):
    if mi != 5 or kw.pop("explicit", False):
        kw["max_insertions"] = mi
    return observe(parse(parser, inp.stream, recover, inp.how, **kw), recover)


def wrapped(rng, g):
    """Contexts that make stopping position and consumption observable."""
    k = rng.randrange(7)
    r = g.root
    if k == 0:
        r = ("seq", r, REST)
    elif k == 1:
        r = ("alt", r, ("pure", "ALT"))
    elif k == 2:
        r = ("seq", ("maybe", r), REST)
    elif k == 3:
        r = ("seq", ("alt", r, ("pure", "ALT")), REST)
    elif k == 4:
        r = ("seq", ("alt", ("attempt", r), ("pure", "ALT")), REST)
    elif k == 5 and g.fam == "T":
        r = ("seq", ("sat", "any"), ("alt", r, ("pure", "ALT")))
    return Grammar(g.fam, r, g.defs, g.alphabet)


# --- dense exploration: small grammars, all short inputs ---------------------

def small(rng, n, kinds_, leaves):
    """A random tree with n inner nodes."""
    if n <= 0:
        return rng.choice(leaves)
    k = rng.choice(kinds_)
    if k in ("maybe", "many", "attempt", "recover", "block", "aligned"):
        return (k, small(rng, n - 1, kinds_, leaves))
    if k == "indented":
        return (k, rng.choice([0, 1, 1, 2, -1]),
                small(rng, n - 1, kinds_, leaves))
    if k == "label":
        return (k, small(rng, n - 1, kinds_, leaves), "x")
    if k == "fmap":
        return (k, 1, small(rng, n - 1, kinds_, leaves))
    if k == "rw":
        return (k, small(rng, n - 1, kinds_, leaves), "R", None)
    i = rng.randint(0, n - 1)
    return (k, small(rng, i, kinds_, leaves),
            small(rng, n - 1 - i, kinds_, leaves))


LEAVES = [("sym", "a", None), ("sym", "b", None), ("sym", "c", None)]
PLAIN_KINDS = ["seq", "seq", "alt", "alt", "maybe", "many", "attempt", "label",
               "sepby"]
REC_KINDS = PLAIN_KINDS + ["seql", "recover", "rw", "alt"]


def all_inputs(alpha, n):
    for k in range(n + 1):
        for t in itertools.product(alpha, repeat=k):
            yield "".join(t)


def dense(rng, recovery):
    leaves = LEAVES + [("pure", 0)] * (rng.random() < .3) + \
        [("eof",)] * (rng.random() < .2) + \
        [("sat", "ab")] * (rng.random() < .3) + \
        [("unexp", "u")] * (rng.random() < .1)
    root = small(rng, rng.randint(2, 6),
                 REC_KINDS if recovery else PLAIN_KINDS, leaves)
    if rng.random() < .6:
        root = ("seql", root, EOF)
    return Grammar("T", root, (), "abc")


LAYOUT_KINDS = ["seq", "seq", "seql", "alt", "alt", "many", "maybe",
                "attempt", "block", "block", "aligned", "aligned", "aligned",
                "indented", "indented", "indented"]


def layout_dense(rng, rec, n=8):
    """Small layout grammars on short multi-line inputs."""
    toks = rng.random() < .4
    ks = LAYOUT_KINDS + (["recover", "rw"] if rec else [])
    if toks:
        t = env.lexer.Token
        leaves = [("tok", "id"), ("sym", t("id", "a"), "a"),
                  ("sym", t("op", "+"), "+"), ("tokins", "num", "0")]
    else:
        leaves = [("lit", "a"), ("lit", "b"), ("rx", 2), ("rx", 4),
                  ("rx", 3), ("seql", ("lit", "a"), ("rx", 2)),
                  ("seql", ("lit", "b"), ("rx", 2))]
    g = Grammar("L" if toks else "S", small(rng, rng.randint(2, 7), ks,
                                            leaves))
    if rng.random() < .5:
        g.root = ("seql", g.root, EOF)
    if rng.random() < .3:
        g.root = ("seqr", leaves[0], g.root)
    p = build(g, rng)
    for _ in range(n):
        src = "".join(rng.choice(["a", "b", "a", "b", "\n", "\n ", "\n  ",
                                  " ", "1" if toks else "ab",
                                  "+" if toks else "  "])
                      for _ in range(rng.randint(1, 9)))
        if toks:
            inp = str_input(g, mk_tokens(src), "tokens")
            inp.src = src
        else:
            inp = str_input(g, src, "text")
        yield g, p, inp


def str_input(g, s, how="default"):
    inp = Input.__new__(Input)
    inp.src = None
    inp.stream = s
    inp.set(how)
    return inp


def limit(rng):
    """An insertion limit: often the default, small ones, any other."""
    return rng.choice([5, 5, 5, 0, 1, 2, 3, 4, rng.randint(6, 60)])


def compare(mon, g, inp, want, got, what, mi=5):
    if want.key() != got.key():
        mon.fail(
            "{}\n grammar: {}\n input: {}\n max_insertions: {}\n"
            " expected: {}\n observed: {}".format(
                what, g, inp, mi, want, got))


def grammar_inputs(rng, cfg, n=6, ctx=True, how=None, fuel=60, mutate=None):
    """A random grammar (sometimes in an observing context), its parser and
    some inputs for it."""
    if rng.random() < BIG:
        yield from big_inputs(rng, cfg, ctx, how, mutate)
        return
    g = gen_grammar(rng, cfg)
    if ctx and rng.random() < .4:
        g = wrapped(rng, g)
    p = build(g, rng)
    for _ in range(n):
        xs = pieces(rng, g, mutate, fuel)
        inp = Input(g, rng, xs, how and how(g))
        if bearable(g, inp):
            yield g, p, inp


def bearable(g, inp):
    """Not an exponential amount of backtracking?"""
    if len(inp.stream) > 7:
        s = repr(g)
        if "'attempt'" in s and "('ref'" in s:
            try:
                reference(g, inp, False, budget=60000)
            except Skip:
                return False
    return True


BIG = .04
FLAT = ["prefix", "prefix", "items", "sep", "garbage", "suffix", "chain"]


def big_inputs(rng, cfg, ctx=True, how=None, mutate=None, n=2, top=2500):
    """Long or deep inputs for an enlarged random grammar."""
    cfg.depth = rng.choice([1, 2, 3])
    s = Scaled(rng, gen_grammar(rng, cfg), top)
    g = s.grammar
    if ctx and rng.random() < .3:
        g = wrapped(rng, g)
    p = build(g, rng)
    for _ in range(n):
        inp = Input(g, rng, s(mutate), how and how(g))
        if bearable(g, inp):
            yield g, p, inp


def enlarge(rng, g, prob=BIG, only=None, top=2500):
    """(grammar, function (mutate, fuel) -> pieces of an input): usually the
    grammar itself, sometimes an enlarged one with big inputs."""
    if rng.random() < prob:
        s = Scaled(rng, g, top, only)
        return s.grammar, lambda mutate=None, fuel=60: s(mutate)
    return g, lambda mutate=None, fuel=60: pieces(rng, g, mutate, fuel)


def dense_inputs(rng, recovery, n=3, cap=None):
    g = dense(rng, recovery)
    p = build(g, rng)
    every = list(all_inputs("abc", n))
    if cap is not None and len(every) > cap:
        every = rng.sample(every, cap)
    for s in every:
        yield g, p, str_input(g, s)


def ref(mon, g, inp, recover, mi=5, event=None, budget=20000):
    """Reference outcome, or None if the model gave up (counted)."""
    try:
        want = reference(g, inp, recover, mi, event, budget)
    except Skip:
        mon.ev("skipped: beyond the model's budget")
        return None
    mon.ev("expected " + want.kind)
    return want


class Rendered:
    """Defers building a description until it is needed."""

    def __init__(self, fn):
        self.fn = fn

    def __str__(self):
        return self.fn()


def lazy(*a):
    return Rendered(lambda: " | ".join(map(repr, a)))


MODEL = ("the reference semantics in vlib/model.py, written from the"
         " documentation, is the specification; runs beyond its step budget"
         " are skipped and counted")
