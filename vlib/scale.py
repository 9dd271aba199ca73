"""Blows a random grammar and its inputs up: long prefixes, long garbage, many
items, deep nesting, so that behaviour that changes with size is executed."""
from .gast import Grammar
from .gen import Sampler, mutate_once

EOF = ("eof",)


def size(rng, top=2500):
    """Log-uniform, so that every order of magnitude is visited."""
    lo, hi = 3, top.bit_length() - 1 + (top / (1 << top.bit_length() - 1) - 1)
    n = int(2 ** rng.uniform(lo, hi))
    if rng.random() < .15:
        n = max(1, min(top, rng.choice([-1, 0, 1]) + (1 << n.bit_length())))
    return n


def _pad(rng, g):
    """(node, function giving a piece)"""
    if g.fam == "L":
        from .env import lexer
        return ("sym", lexer.Token("op", "*"), "'*'"), lambda: ("op", "*")
    if g.fam == "T":
        return ("sym", "~", None), lambda: "~"
    k = rng.randrange(4)
    if k == 0:
        c = rng.choice(["~", "~\n", "~~~", "~é", "~\r\n"])
        return ("lit", c), lambda: c
    if k == 1:
        return ("sym", "~", None), lambda: "~"
    m = rng.choice([.5, .1, .02])
    return ("alt", ("lit", "~"), ("lit", "\n")), \
        lambda: "\n" if rng.random() < m else "~"


def simple_pad(g):
    """(node, piece, element of the stream)"""
    if g.fam == "L":
        from .env import lexer
        t = lexer.Token("op", "*")
        return ("sym", t, "'*'"), ("op", "*"), t
    return ("sym", "~", None), "~", "~"


def _brackets(g):
    if g.fam == "L":
        from .env import lexer
        return (("sym", lexer.Token("op", "-"), None), ("op", "-"),
                ("sym", lexer.Token("op", ":"), "':'"), ("op", ":"))
    if g.fam == "T":
        return ("sym", "<", None), "<", ("sym", ">", None), ">"
    return ("lit", "<"), "<", ("lit", ">"), ">"


class Scaled:
    """``grammar`` is the enlarged grammar; calling gives the pieces of an
    input for it."""

    def __init__(self, rng, g, top=2500, only=None):
        self.r = rng
        self.base = root = g.root
        tail = None
        if root[0] in ("seq", "seql") and root[2] == EOF:
            self.base, tail = root[1], root[0]
        root = self.base
        self.old = Grammar(g.fam, root, g.defs, g.alphabet)
        self.defs = list(g.defs)
        self.node, self.piece = _pad(rng, g)
        self.top = top
        k = self.k = rng.choice(only or [
            "prefix", "prefix", "prefix", "items", "items", "sep", "garbage",
            "suffix", "nest", "chain"])
        if k == "prefix":
            root = (rng.choice(["seqr", "seqr", "seq"]),
                    ("many", self.node), root)
        elif k == "items":
            root = ("many", ("seqr", self.node, root))
        elif k == "chain":
            root = ("seq", root, ("many", ("seqr", self.node, root)))
        elif k == "sep":
            root = ("sepby", ("seq", self.node, root),
                    self.node if g.fam != "S" else ("lit", "!"))
        elif k == "suffix":
            root = (rng.choice(["seql", "seq"]), root, ("many", self.node))
        elif k == "nest":
            a, self.a, b, self.b = _brackets(g)
            n = len(self.defs)
            self.defs.append(("alt", ("between", a, b, ("ref", n)), root))
            root = ("ref", n)
        if tail:
            root = (tail, root, EOF)
        self.grammar = Grammar(g.fam, root, self.defs, g.alphabet)

    def one(self, fuel=30):
        s = Sampler(self.r, self.old)
        s.fuel = fuel
        return s.s(self.base, 4)[:40]

    def __call__(self, mutate=None):
        r = self.r
        k = self.k
        n = size(r, self.top)
        if mutate is None:
            mutate = r.choice([0, 0, 1, 1, 1, 2])
        if k in ("items", "sep", "chain"):
            out = []
            tot = 0
            kinds_ = [self.one(8) for _ in range(5)]
            sep = self.piece() if self.old.fam != "S" else "!"
            m = 0
            while tot < n and m < 400:
                x = r.choice(kinds_)
                if k == "items" or m and k == "chain":
                    out.append(self.piece())
                elif k == "sep":
                    if m:
                        out.append(sep)
                    out.append(self.piece())
                out += x
                tot += len(x) + 1
                m += 1
        else:
            out = self.one()
            if k == "nest":
                n = min(n, 70) if n < 600 else n % 70
                out = [self.a] * n + out + [self.b] * n
            elif k == "prefix":
                out = [self.piece() for _ in range(n)] + out
            elif k == "suffix":
                out = out + [self.piece() for _ in range(n)]
        for _ in range(mutate):
            if r.random() < .6 and len(out) > 12:
                # near one end, where the grammar itself is at work
                h = r.randint(0, 12)
                cut = len(out) - h
                if k == "suffix":
                    out = mutate_once(r, self.grammar, out[:h]) + out[h:]
                else:
                    out = out[:cut] + mutate_once(r, self.grammar, out[cut:])
            else:
                out = mutate_once(r, self.grammar, out)
        if k == "garbage":
            i = r.randint(0, len(out))
            out[i:i] = [self.piece() for _ in range(n)]
        return out
