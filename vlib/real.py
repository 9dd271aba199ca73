"""Realistic grammars (built on the public API, independent of the
repository's tests) with random documents and independent oracles."""
import json
import re

from .env import reparsec as rp
from reparsec import Delay
from reparsec.lexer import Token, split_tokens, token
from reparsec.scannerless import literal, regexp
from reparsec.sequence import eof, sym

# --- arithmetic --------------------------------------------------------------


def make_expr(rec=False):
    sp = regexp(r"\s*")
    num = regexp(r"\d+").fmap(int).label("number") << sp
    if rec:
        num = num.recover_with(0)
    ops = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
           "*": lambda a, b: a * b}
    mul = regexp("[*]").label("'*'").fmap(ops.get) << sp
    add = regexp("[-+]").label("'+'").fmap(ops.get) << sp
    pw = literal("^").fmap(lambda _: lambda a, b: a - 2 * b) << sp
    e = Delay()
    atom = num | e.between(literal("(") << sp, literal(")") << sp)
    e.define(atom.chainr1(pw).chainl1(mul).chainl1(add))
    return (sp >> e << eof())


def gen_expr(rng, d):
    """(text, value)"""
    def ws():
        return rng.choice(["", "", " ", "\n", "  "])

    def atom(d):
        if d <= 0 or rng.random() < .5:
            n = rng.randrange(100)
            return str(n) + ws(), n
        t, v = expr(d - 1)
        return "(" + ws() + t + ")" + ws(), v

    def powr(d):
        t, v = atom(d)
        if rng.random() < .2:
            t2, v2 = powr(d)
            return t + "^" + ws() + t2, v - 2 * v2
        return t, v

    def mul(d):
        t, v = powr(d)
        for _ in range(rng.choice([0, 0, 1, 2])):
            t2, v2 = powr(d)
            t, v = t + "*" + ws() + t2, v * v2
        return t, v

    def expr(d):
        t, v = mul(d)
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            t2, v2 = mul(d)
            if rng.random() < .5:
                t, v = t + "+" + ws() + t2, v + v2
            else:
                t, v = t + "-" + ws() + t2, v - v2
        return t, v

    t, v = expr(d)
    return ws() + t, v


# --- JSON --------------------------------------------------------------------

J_SPEC = re.compile(r"""
[ \n\r\t]+
|(?P<punct>[{}:,[\]])
|(?P<bool>true|false)
|(?P<null>null)
|(?P<float>-?(?:0|[1-9][0-9]*)(?:
    (?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)|(?:\.[0-9]+)
))
|(?P<integer>-?(?:0|[1-9][0-9]*))
|"(?P<string>(?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*)"
|(?P<_>.)
""", re.VERBOSE)


def unesc(s):
    return json.loads('"' + s + '"')


def make_json(rec=True):
    """JSON over tokens.  Every recover_with value is the value of a token
    named by its label."""
    def punct(x):
        return sym(Token("punct", x), repr(x))

    value = Delay()
    string = token("string").fmap(lambda t: unesc(t.value))
    integer = token("integer").fmap(lambda t: int(t.value))
    number = token("float").fmap(lambda t: float(t.value))
    boolean = token("bool").fmap(lambda t: t.value == "true")
    null = token("null").fmap(lambda t: None)
    scalar = integer | number | boolean | null | string
    key = string
    if rec:
        scalar = scalar.recover_with(1)
        key = key.recover_with("a", "'\"a\"'")
    obj = ((key << punct(":")) + value).sep_by(punct(",")).fmap(
        lambda v: [list(x) for x in v]).fmap(lambda v: ("obj", v)).between(
        punct("{"), punct("}")).label("object")
    lst = value.sep_by(punct(",")).between(
        punct("["), punct("]")).label("list")
    if rec:
        obj, lst = obj.recover(), lst.recover()
    value.define((scalar | obj | lst).label("value"))
    return value << eof()


J_INSERT = {
    "1": Token("integer", "1"), "'\"a\"'": Token("string", "a"),
    **{repr(c): Token("punct", c) for c in "{}:,[]"},
}


def make_json_text():
    """Scannerless JSON."""
    ows = regexp(r"[ \n\r\t]*")

    def tok(pat):
        return regexp(pat + r"[ \n\r\t]*", 1)

    def punct(p):
        return literal(p) << ows

    value = Delay()
    string = tok(
        r'"((?:[^"\\\x00-\x1f]|\\(?:["\\/bfnrt]|u[0-9a-fA-F]{4}))*)"'
    ).label("string").fmap(unesc)
    number = tok(
        r"(-?(?:0|[1-9][0-9]*)(?:(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)"
        r"|(?:\.[0-9]+)))").label("number").fmap(float)
    integer = tok(r"(-?(?:0|[1-9][0-9]*))").label("integer").fmap(int)
    boolean = tok(r"(true|false)").label("bool").fmap(lambda s: s == "true")
    null = tok(r"(null)").label("null").fmap(lambda _: None)
    obj = ((string.recover_with("a", "'\"a\"'") << punct(":")) + value
           ).sep_by(punct(",")).fmap(lambda v: ("obj", [list(x) for x in v])
                                     ).between(
        punct("{"), punct("}")).label("object")
    lst = value.sep_by(punct(",")).between(
        punct("["), punct("]")).label("list")
    value.define((
        (number | integer | boolean | null | string).recover_with(1)
        | obj.recover() | lst.recover()).label("value"))
    return ows >> value << eof()


def json_pairs(s):
    return json.loads(
        s, object_pairs_hook=lambda ps: ("obj", [list(p) for p in ps]))


def gen_json(rng, d):
    r = rng.random()
    if d <= 0 or r < .35:
        return rng.choice([
            0, 1, -7, 12345, 1.5, -2.25e10, 3e-5, True, False, None, "",
            "a", "key", "x y", "q\"uote", "nl\n", "\\", "\u00e9", "\U0001F600",
            "\u2028", "{", "]"])
    if r < .7:
        return [gen_json(rng, d - 1) for _ in range(rng.choice(
            [0, 1, 1, 2, 3, 5]))]
    return {
        rng.choice(["a", "b", "k1", "", "\t"]) + str(i): gen_json(rng, d - 1)
        for i in range(rng.choice([0, 1, 1, 2, 3]))}


def dump_json(rng, v):
    t = json.dumps(v, indent=rng.choice([None, None, 0, 1, 2]),
                   ensure_ascii=rng.random() < .5)
    if rng.random() < .3:
        t = t.replace(",", " ,\n ")  # also inside no string: none has a comma
    return rng.choice(["", " ", "\n"]) + t + rng.choice(["", "\n"])


def corrupt(rng, t, n=None):
    xs = list(t)
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        k = rng.randrange(3)
        if k == 0 and xs:
            del xs[rng.randrange(len(xs))]
        elif k == 1:
            xs.insert(rng.randint(0, len(xs)), rng.choice('{}[],:1a" \n(+*'))
        elif xs:
            xs[rng.randrange(len(xs))] = rng.choice('{}[],:1a" \n)+*')
    return "".join(xs)


def corrupt_tokens(rng, toks, n=None):
    xs = list(toks)
    for _ in range(n or rng.choice([1, 1, 2, 3])):
        k = rng.randrange(3)
        if k == 0 and xs:
            del xs[rng.randrange(len(xs))]
        else:
            t = rng.choice([
                Token("punct", c) for c in "{}:,[]"] + [
                Token("integer", "5"), Token("string", "s"), Token("_", "@")])
            i = rng.randint(0, len(xs))
            if k == 1:
                xs.insert(i, t)
            elif i < len(xs):
                xs[i] = t
    return xs


def json_tokens(text):
    return split_tokens(text, J_SPEC)
