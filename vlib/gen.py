"""Random grammars and inputs."""
import re
import unicodedata

from .gast import CPATS, PATS, PREDS, Grammar, consumes, kids

# --- configuration ----------------------------------------------------------

T_POOLS = [
    ["a", "b", "c", "d"],
    ["a", "b", "c"],
    ["a", "b"],
    ["a", "b", "c", "d", "e", "(", ")", ","],
    [0, 1, 2, 3],
    [0, None, "", "a", 1000000007, (1, 2)],
    [1, "1", 2, -1, (), None],
]
S_LITS = ["a", "b", "c", "ab", "ba", "(", ")", ",", "\n", "if", "a\n", "abc",
          "\n\n", "é", "0", "A", "ß", "\r\n", "\r", "\t", "\u0663", "\u00b2",
          "\U0001f600", "e\u0301"]
L_TOKS = [("num", "1"), ("num", "23"), ("id", "a"), ("id", "bc"),
          ("op", "+"), ("op", "("), ("op", ")"), ("op", ",")]
L_SPEC = re.compile(r"(?P<num>[0-9]+)|(?P<id>[a-z]+)|(?P<op>[-+*(),:])|\s+")

NULLABLE = [i for i, p in enumerate(PATS) if p[3]]
LABELS = ["x", "thing", "value", "", "'a'", "a b"] * 4 + [
    " x", "x ", "\n", "\tx\n", "{}", "{0}%s", "X", "x or y", "x, y", "\u00e9",
    "e\u0301", "end of file", "indentation"]


class Cfg:
    def __init__(self, **kw):
        self.recovery = False
        self.attempt = True
        self.layout = False
        self.bind = True
        self.delay = True
        self.label = True
        self.eof_inside = True
        self.nullable_many = 0.0
        self.depth = 4
        self.side = True      # PureFn etc.
        self.derived = True
        self.insert_only = False
        self.pool = None      # elements of sequences
        for k, v in kw.items():
            assert hasattr(self, k), k
            setattr(self, k, v)


class Gen:
    def __init__(self, rng, fam, cfg):
        self.r = rng
        self.fam = fam
        self.cfg = cfg
        self.fk = 0
        self.made = []        # subterms to use again: (term, depth, left refs)
        if fam == "T":
            self.pool = cfg.pool or rng.choice(T_POOLS)
            if rng.random() < .02:
                s = "ab" * int(2 ** rng.uniform(2, 9))
                self.pool = [s, s + "a", "b" + s, s.upper(),
                             10 ** 40, 10 ** 40 + 1]
        elif fam == "L":
            self.pool = rng.sample(L_TOKS, rng.randint(3, len(L_TOKS)))
        else:
            self.pool = rng.sample(S_LITS, rng.randint(3, 6))
            if rng.random() < .02:
                # long literals that differ near their ends
                s = rng.choice("abk") * int(2 ** rng.uniform(3, 10.3))
                i = rng.randrange(len(s))
                self.pool = rng.sample([
                    s, s + "x", s + "y", "x" + s, s[:i] + "(" + s[i:],
                    s[:i] + "," + s[i + 1:], s + "\n"], 4)
        nd = 0
        if cfg.delay and rng.random() < .45:
            nd = rng.choice([1, 1, 2])
        self.defneed = [rng.random() < .85 for _ in range(nd)]

    def grammar(self):
        defs = []
        for i, need in enumerate(self.defneed):
            defs.append(self.node(self.cfg.depth - 1, need, False))
        root = self.node(self.cfg.depth, self.r.random() < .6, True)
        if self.defneed and self.r.random() < .4:
            root = ("ref", 0)
        if self.r.random() < .45:
            root = (self.r.choice(["seql", "seq"]), root, ("eof",))
        return Grammar(self.fam, root, defs, self.pool)

    def lab(self):
        return self.r.choice(LABELS)

    def k(self):
        self.fk += 1
        return self.fk

    # terminals
    def leaf(self, need):
        r = self.r
        if not need and r.random() < .25:
            return self.nleaf()
        if self.fam == "T":
            if r.random() < .78:
                return ("sym", r.choice(self.pool),
                        None if r.random() < .8 else self.lab())
            return ("sat", r.choice(
                ["any", "alpha", "digit", "ab", "cd", "falsy", "even",
                 "isint", "truthy", "none"]))
        if self.fam == "L":
            x = r.random()
            if x < .45:
                t = r.choice(self.pool)
                from .env import lexer
                return ("sym", lexer.Token(*t),
                        repr(t[1]) if r.random() < .8 else None)
            if x < .7:
                return ("tok", r.choice(["num", "id", "op"]))
            if x < .88 and self.cfg.recovery or x < .8:
                k = r.choice(["num", "id", "op"])
                return ("tokins", k, r.choice(["0", "z", ""]))
            return ("sat", r.choice(["any", "tnum", "tid", "tnotop",
                                     "tshort"]))
        x = r.random()
        if x < .5:
            return ("lit", r.choice(self.pool))
        if x < .6:
            return ("sym", r.choice("abc(),\n0"), None)
        if x < .64:
            return (r.choice(["letter", "digit"]),)
        if x < .7:
            return ("sat", r.choice(
                ["any", "alpha", "digit", "space", "ab", "notnl"]))
        while True:
            i = r.randrange(len(PATS))
            if not (need and PATS[i][3]):
                return ("rx", i)

    def nleaf(self):
        r = self.r
        x = r.random()
        if x < .35:
            return ("pure", r.choice([0, None, "p", (), 1.5]))
        if x < .55 and self.cfg.side:
            return ("puren", self.k())
        if x < .65:
            return ("unexp", self.lab())
        if x < .8 and self.cfg.eof_inside:
            return ("eof",)
        if self.fam == "S":
            return ("rx", r.choice(NULLABLE))
        return ("pure", 7)

    def node(self, d, need, refok):
        if self.made and d < self.cfg.depth and self.r.random() < .07:
            n, nd, nref = self.r.choice(self.made[-4:])
            if nd <= d + 1 and (refok or not nref) and (
                    not need or consumes(n, self.defneed)):
                return n
        n = self.fresh(d, need, refok)
        self.made.append((n, d, refok))
        return n

    def fresh(self, d, need, refok):
        r = self.r
        cfg = self.cfg
        if refok and self.defneed and r.random() < .18:
            i = r.randrange(len(self.defneed))
            if self.defneed[i] or not need:
                return ("ref", i)
        if d <= 0 or r.random() < .12:
            return self.leaf(need)
        ops = ["seq"] * 4 + ["seql", "seqr"] * 2 + ["alt"] * 6 + ["fmap"]
        if cfg.label:
            ops += ["label"] * 2
        if cfg.attempt:
            ops += ["attempt"] * 2
        if cfg.bind:
            ops += ["bind", "echo"]
        if cfg.derived:
            ops += ["between", "chainl", "chainr", "tup"]
        if cfg.layout:
            ops += ["block", "aligned", "aligned", "indented", "indented"]
        if cfg.recovery:
            ops += ["recover"] * 2 + ["rw", "rwf"]
        if not need:
            ops += ["maybe"] * 3 + ["many"] * 4
            if cfg.derived:
                ops += ["sepby"] * 2
        k = r.choice(ops)
        N = self.node
        if k in ("seq", "seql", "seqr"):
            first = need and r.random() < .7
            a = N(d - 1, first, refok)
            ca = consumes(a, self.defneed)
            b = N(d - 1, need and not ca, refok or ca)
            return (k, a, b)
        if k == "alt":
            return (k, N(d - 1, need, refok), N(d - 1, need, refok))
        if k in ("maybe", "many"):
            nm = k == "many" and r.random() >= cfg.nullable_many
            return (k, N(d - 1, nm or r.random() < .7, refok))
        if k in ("attempt", "recover", "block", "aligned"):
            return (k, N(d - 1, need, refok))
        if k == "indented":
            return (k, r.choice([0, 1, 2, 2, 4, -1]), N(d - 1, need, refok))
        if k == "label":
            return (k, N(d - 1, need, refok), self.lab())
        if k == "fmap":
            return (k, self.k(), N(d - 1, need, refok))
        if k == "rw":
            # parser, value, label
            return (k, N(d - 1, need, refok),
                    r.choice([("R", self.k()), None, 0, "", ()]),
                    None if r.random() < .5 else self.lab())
        if k == "rwf":
            return (k, N(d - 1, need, refok), self.k(),
                    None if r.random() < .5 else self.lab())
        if k == "bind":
            a = N(d - 1, need and r.random() < .7, refok)
            ca = consumes(a, self.defneed)
            qs = tuple(N(d - 2, need and not ca, refok or ca)
                       for _ in range(r.choice([1, 2, 3])))
            return (k, a, qs)
        if k == "echo":
            if self.fam == "S":
                return (k, ("sat", "notnl"))
            if self.fam == "L":
                return (k, ("tok", r.choice(["num", "id", "op"])))
            return (k, ("sat", "any"))
        if k == "between":
            o = N(d - 2, True, refok)
            return (k, o, N(d - 2, True, True), N(d - 1, False, True))
        if k in ("chainl", "chainr"):
            p = N(d - 1, True, refok)
            return (k, p, N(d - 2, r.random() < .8, True))
        if k == "sepby":
            p = N(d - 1, True, refok)
            return (k, p, N(d - 2, r.random() < .8, True))
        if k == "tup":
            m = r.choice([2, 2, 3, 3, 4, 5, 8])
            ps = [N(d - 2, need, refok)]
            ok = refok or consumes(ps[0], self.defneed)
            for _ in range(m - 1):
                ps.append(N(d - 2 if m < 4 else 0, False, ok))
                ok = ok or consumes(ps[-1], self.defneed)
            return (k, tuple(ps), None if r.random() < .5 else self.k())
        raise AssertionError(k)


# --- inputs -----------------------------------------------------------------

class Sampler:
    """Derives random (near-)sentences of a grammar: a list of pieces."""

    def __init__(self, rng, g):
        self.r = rng
        self.g = g
        self.fuel = 60

    def s(self, n, d):
        r = self.r
        k = n[0]
        self.fuel -= 1
        if self.fuel < 0:
            return []
        if k == "sym":
            if self.g.fam == "L":
                return [(n[1].kind, n[1].value)]
            return [n[1]]
        if k == "lit":
            return [n[1]]
        if k == "rx":
            x = r.choice(PATS[n[1]][2])
            if r.random() < .02 and n[1] < 5:
                x *= r.choice([10, 30, 100, 300])
            return [x]
        if k == "tok":
            c = [t for t in L_TOKS if t[0] == n[1]]
            return [r.choice(c)]
        if k == "tokins":
            return self.s(("tok", n[1]), d)
        if k == "sat":
            return self.sat(n[1])
        if k in ("letter", "digit"):
            return [r.choice("ab\u00e9\u00df" if k == "letter"
                             else "01\u0663\u00b2")]
        if k in ("eof", "pure", "puren", "unexp"):
            return []
        if k in ("seq", "seql", "seqr"):
            return self.s(n[1], d) + self.s(n[2], d)
        if k == "alt":
            return self.s(r.choice(n[1:3]), d)
        if k == "maybe":
            return self.s(n[1], d) if r.random() < .6 else []
        if k == "many":
            m = r.choice([0, 1, 1, 2, 2, 3, 5])
            if r.random() < .02:
                m = r.choice([9, 17, 33])
            return [x for _ in range(m) for x in self.s(n[1], d)]
        if k == "sepby":
            m = r.choice([0, 1, 2, 2, 3, 4])
            out = []
            for i in range(m):
                if i:
                    out += self.s(n[2], d)
                out += self.s(n[1], d)
            return out
        if k in ("chainl", "chainr"):
            out = self.s(n[1], d)
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                out += self.s(n[2], d) + self.s(n[1], d)
            return out
        if k == "between":
            return self.s(n[1], d) + self.s(n[3], d) + self.s(n[2], d)
        if k == "tup":
            return [x for p in n[1] for x in self.s(p, d)]
        if k == "bind":
            return self.s(n[1], d) + self.s(r.choice(n[2]), d)
        if k == "echo":
            x = self.s(n[1], d)
            return x + x
        if k == "ref":
            if d <= 0:
                return []
            return self.s(self.g.defs[n[1]], d - 1)
        return self.s(kids(n)[0], d)

    def sat(self, name):
        r = self.r
        fam = self.g.fam
        if fam == "L":
            c = [t for t in L_TOKS if name == "any"
                 or name == "tnum" and t[0] == "num"
                 or name == "tid" and t[0] == "id"
                 or name == "tnotop" and t[0] != "op"
                 or name == "tshort" and len(t[1]) == 1]
            return [r.choice(c)]
        pool = list(self.g.alphabet) if fam == "T" else []
        pool += list("abcd019 \n") if fam == "S" else ["a", "b", "1", 2, 0]
        if fam == "S":
            pool = [p for p in pool if len(p) == 1]
        c = [x for x in pool if PREDS[name](x)]
        return [r.choice(c)] if c else []


def pieces(rng, g, mutate=None, fuel=60):
    s = Sampler(rng, g)
    s.fuel = fuel
    out = s.s(g.root, 4)[:80]
    if mutate is None:
        mutate = rng.choice([0, 0, 1, 1, 1, 2, 2, 3])
    for _ in range(mutate):
        out = mutate_once(rng, g, out)
    return out


def anything(rng, g):
    if g.fam == "T":
        return rng.choice(list(g.alphabet) + (
            ["a", "1"] if rng.random() < .3 else []))
    if g.fam == "L":
        return rng.choice(L_TOKS)
    if rng.random() < .1:
        return rng.choice("AZ_'\"\r\x0b\x85\u2028\u00b2\u0663\u00e9")
    return rng.choice(list(g.alphabet) + list("ab01 (\n,"))


def look_alike(rng, s):
    """A string that a sloppy comparison takes for the same one."""
    return rng.choice([
        s.swapcase(), s.casefold(), s + "\0", s[:-1], s + s[-1:], s[::-1],
        unicodedata.normalize("NFD", s), unicodedata.normalize("NFKC", s),
        "".join(chr(ord(c) + 0xfee0) if "!" <= c <= "~" else c for c in s),
        "\ufeff" + s, s.replace(" ", "\xa0"), s.replace("\n", "\r"),
        s.replace("\r", "\n"), s.replace(" ", ""), s + " "])


def mutate_once(rng, g, xs):
    xs = list(xs)
    k = rng.randrange(6)
    i = rng.randint(0, len(xs))
    if k == 0 and xs:
        del xs[rng.randrange(len(xs))]
    elif k == 1:
        xs.insert(i, anything(rng, g))
    elif k == 2 and xs:
        j = rng.randrange(len(xs))
        if g.fam != "L" and isinstance(xs[j], str) and rng.random() < .3:
            xs[j] = look_alike(rng, xs[j])
        else:
            xs[j] = anything(rng, g)
    elif k == 3 and xs:
        xs = xs[:i]
    elif k == 4 and len(xs) > 1:
        j = rng.randrange(len(xs) - 1)
        xs[j], xs[j + 1] = xs[j + 1], xs[j]
    else:
        xs.append(anything(rng, g))
    return xs


WS = [" ", " ", " ", "\n", "  ", "\n  ", " \n", "\t"]


class MySeq:
    """A plain user-defined sequence."""

    def __init__(self, xs):
        self._xs = tuple(xs)

    def __len__(self):
        return len(self._xs)

    def __getitem__(self, i):
        return self._xs[i]

    def __repr__(self):
        return "MySeq({!r})".format(list(self._xs))


def render(rng, g, xs):
    """Pieces to (stream, source text or None)."""
    if g.fam == "S":
        t = "".join(x if isinstance(x, str) else str(x) for x in xs)
        return t, t
    if g.fam == "L":
        src = rng.choice(["", "", " ", "\n", "  "])
        for i, (k, v) in enumerate(xs):
            if i:
                src += rng.choice(WS)
            src += v
        src += rng.choice(["", "", " ", "\n"])
        return None, src
    if xs and all(isinstance(x, str) and len(x) == 1 for x in xs) \
            and rng.random() < .6:
        return "".join(xs), None
    return rng.choice([list, tuple, MySeq])(xs), None


# --- true locations ---------------------------------------------------------

def text_loc(src, pos):
    """Line and column by definition."""
    return (pos, src.count("\n", 0, pos), pos - (src.rfind("\n", 0, pos) + 1))


def locf_default(pos):
    return (pos, 0, 0)


def locf_text(src):
    return lambda pos: text_loc(src, pos)


def locf_tokens(tokens):
    def f(pos):
        if pos < len(tokens):
            return tuple(tokens[pos].start)
        if len(tokens):
            return tuple(tokens[-1].end)
        return (pos, 0, 0)
    return f


def ref_tokens(src, spec):
    """Reference lexer.  Returns (tokens as (kind, value, start, end), error
    location or None); locations by definition from the source text."""
    out = []
    pos = 0
    while pos < len(src):
        m = spec.match(src, pos)
        if m is None or m.end() <= pos:
            return out, text_loc(src, pos)
        if m.lastgroup is not None:
            out.append((m.lastgroup, m.group(m.lastgroup),
                        text_loc(src, pos), text_loc(src, m.end())))
        pos = m.end()
    return out, None


def mk_tokens(src, spec=L_SPEC):
    from .env import lexer, reparsec
    Loc = reparsec.Loc
    toks, err = ref_tokens(src, spec)
    assert err is None, (src, err)
    return [lexer.Token(k, v, Loc(*s), Loc(*e)) for k, v, s, e in toks]


def gen_grammar(rng, cfg, fams="TTTSSL"):
    fam = rng.choice(fams)
    return Gen(rng, fam, cfg).grammar()
