"""Grammar abstract syntax: the common description that is (a) built into a
real reparsec parser through its public API (build.py) and (b) interpreted by
the independent reference model (model.py).

Nodes are tuples; the first element is the kind:

 ("sym", el, label|None)  ("sat", name)  ("eof",)
 ("pure", v)  ("puren", k)  ("unexp", label)
 ("letter",)  ("digit",)  ("lit", s)  ("rx", index into PATS)
 ("tok", kind)  ("tokins", kind, value)
 ("fmap", k, p)  ("bind", p, (q, ...))  ("echo", p)
 ("seq", p, q)  ("seql", p, q)  ("seqr", p, q)
 ("alt", p, q)  ("maybe", p)  ("many", p)  ("attempt", p)
 ("label", p, x)  ("recover", p)
 ("rw", p, value, label|None)  ("rwf", p, k, label|None)
 ("sepby", p, sep)  ("between", open, close, p)
 ("chainl", p, op)  ("chainr", p, op)
 ("tup", (p, ...), k|None)
 ("ref", i)
 ("block", p)  ("aligned", p)  ("indented", delta, p)
"""
import re
import zlib


class Grammar:
    def __init__(self, fam, root, defs=(), alphabet=()):
        self.fam = fam            # "T" sequence, "S" string, "L" lexer tokens
        self.root = root
        self.defs = list(defs)
        self.alphabet = list(alphabet)

    def __repr__(self):
        s = "{}:{!r}".format(self.fam, self.root)
        for i, d in enumerate(self.defs):
            s += " where ref{}={!r}".format(i, d)
        return s


# --- named user functions ---------------------------------------------------

def _even(x):
    return isinstance(x, int) and not isinstance(x, bool) and x % 2 == 0


# name -> predicate.  One returns a truthy non-bool on purpose.
PREDS = {
    "any": lambda x: True,
    "none": lambda x: False,
    "alpha": lambda x: isinstance(x, str) and x.isalpha(),
    "digit": lambda x: isinstance(x, str) and x.isdigit(),
    "space": lambda x: isinstance(x, str) and x.isspace(),
    "ab": lambda x: isinstance(x, str) and x in ("a", "b"),
    "cd": lambda x: isinstance(x, str) and x in ("c", "d"),
    "falsy": lambda x: not x,
    "even": _even,
    "isint": lambda x: isinstance(x, int),
    "truthy": lambda x: [x] if x == "a" or x == 1 else [],
    "notnl": lambda x: x != "\n",
    "tnum": lambda t: t.kind == "num",
    "tid": lambda t: t.kind == "id",
    "tnotop": lambda t: t.kind != "op",
    "tshort": lambda t: len(t.value) == 1,
}

# (pattern, group, examples, may succeed without consuming)
PATS = [
    (r"[0-9]+", 0, ["0", "12", "345"], False),
    (r"[a-z]+", 0, ["a", "bc", "xyz"], False),
    (r"\s*", 0, ["", " ", "\n", " \n  "], True),
    (r"\s+", 0, [" ", "\n", "\n  ", "\t"], False),
    (r"\n\s*", 0, ["\n", "\n  ", "\n\n "], False),
    (r"[ ]*", 0, ["", " ", "  "], True),
    (r"a(.)", 1, ["ab", "ac", "a1"], False),
    (r"(?P<x>[ab])(?P<y>[0-9])?", "y", ["a1", "b2", "a"], False),
    (r"(?P<x>[ab])(?P<y>[0-9])?", "x", ["a1", "b2", "a"], False),
    (r"(a)|(b)|c", 2, ["b", "a", "c"], False),
    (r"(x*)y", 1, ["y", "xy", "xxy"], False),
    (r"(?=[ab])", 0, [""], True),
    (r"a?", 0, ["", "a"], True),
    (r"^a", 0, ["a"], False),
    (r"(?m)^a", 0, ["a"], False),
    (r"a$", 0, ["a"], False),
    (r"\bb", 0, ["b"], False),
    (r"(?<=a)b", 0, ["b"], False),
    (r"(?<!a)b+", 0, ["b", "bb"], False),
    (r"\w+", 0, ["\u00e9", "a_1", "\u00df2", "b"], False),
    (r"\d+", 0, ["1", "\u0663", "07"], False),
    (r"(?i)ab", 0, ["ab", "aB", "AB"], False),
    (r".", 0, ["a", "\r", "\u2028", "\U0001f600"], False),
    (r"(?s).", 0, ["\n", "b"], False),
    (r"[^ab\n]+", 0, ["c", "12", "(,"], False),
    (r"(a)(?!b)", 1, ["a"], False),
    (r"((a)|(b))+", 3, ["ab", "ba", "b", "aa"], False),
    (r"a|ab", 0, ["a", "ab"], False),
    (r"(?P<q>['\"])[^'\"]*(?P=q)", 0, ["'a'", '"b"', "''"], False),
    (r"(?P<q>['\"])([^'\"]*)(?P=q)", 2, ["'a'", '"b"', "''"], False),
    (r"^", 0, [""], True),
    (r"\b", 0, [""], True),
    (r"$", 0, [""], True),
    (r"()", 1, [""], True),
    (r"\"([^\"\n]*)\"", 1, ["\"\"", "\"a b\"", "\"(\""], False),
    (r"(?s:.)\n", 0, ["a\n", "\n\n"], False),
    (r"b*?c", 0, ["c", "bc", "bbc"], False),
    (r"()", 1, [""], True),
    (r"a b", 0, ["a b"], False),
    (r"#[^\n]*", 0, ["#", "#a b", "# "], False),
    (r"[ \t]+#?", 0, [" ", "\t #", " #"], False),
    (r"(?=(a+))a", 1, ["a", "aa"], False),
    (r"b(?=(a*))", 1, ["b", "ba"], False),
    (r"(?=([ab]*))", 1, ["", "ab"], True),
    (r"(?<=(a))b", 1, ["b"], False),
    (r"a(?=(b)?)", 1, ["a", "ab"], False),
    (r"((a)b?)+", 1, ["a", "ab", "aba"], False),
    (r"é+|\U0001F600", 0, ["é", "éé", "\U0001F600"], False),
]
CPATS = [re.compile(p[0]) for p in PATS]


def rx_group(m, group):
    return m.group(group)


def pick(v, n):
    """Deterministic choice by value, used by bind."""
    from .show import show
    return zlib.crc32(show(v).encode("utf-8", "surrogatepass")) % n


class Shared:
    """Opaque value whose identity can be observed."""

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "Shared({})".format(self.k)


def kids(n):
    k = n[0]
    if k in ("fmap", "indented"):
        return [n[2]]
    if k == "bind":
        return [n[1], *n[2]]
    if k in ("seq", "seql", "seqr", "alt", "sepby", "chainl", "chainr"):
        return [n[1], n[2]]
    if k == "between":
        return [n[1], n[2], n[3]]
    if k == "tup":
        return list(n[1])
    if k in ("echo", "maybe", "many", "attempt", "label", "recover", "rw",
             "rwf", "block", "aligned"):
        return [n[1]]
    return []


def walk(n):
    yield n
    for c in kids(n):
        yield from walk(c)


def kinds(g):
    out = set()
    for n in [g.root, *g.defs]:
        out.update(x[0] for x in walk(n))
    return out


def size(g):
    return sum(1 for r in [g.root, *g.defs] for _ in walk(r))


def consumes(n, defneed):
    """True only if success of ``n`` always consumes input."""
    k = n[0]
    if k in ("sym", "sat", "lit", "tok", "tokins", "letter", "digit"):
        return True
    if k == "rx":
        return not PATS[n[1]][3]
    if k in ("eof", "pure", "puren", "maybe", "many", "sepby"):
        return False
    if k == "unexp":
        return True
    if k == "ref":
        return defneed[n[1]]
    if k == "alt":
        return consumes(n[1], defneed) and consumes(n[2], defneed)
    if k in ("seq", "seql", "seqr"):
        return consumes(n[1], defneed) or consumes(n[2], defneed)
    if k in ("chainl", "chainr"):
        return consumes(n[1], defneed)
    if k == "between":
        return any(consumes(x, defneed) for x in n[1:4])
    if k == "tup":
        return any(consumes(x, defneed) for x in n[1])
    if k == "bind":
        return consumes(n[1], defneed) or all(
            consumes(q, defneed) for q in n[2])
    if k == "echo":
        return True
    return consumes(kids(n)[0], defneed)
