"""Random grammars that decide with one token of lookahead, checked by FIRST
and FOLLOW sets, in which every repair names the token it inserts."""
from .gast import PREDS, Grammar, kids

END = "<end>"


class LL1:
    def __init__(self, g, universe):
        self.g = g
        self.u = universe
        nd = len(g.defs)
        self.dn = [False] * nd
        self.df = [frozenset()] * nd
        self.dfol = [frozenset()] * nd
        while True:
            a = [self.nullable(self.exp(d)) for d in g.defs]
            b = [self.first(self.exp(d)) for d in g.defs]
            if a == self.dn and b == self.df:
                break
            self.dn, self.df = a, b
        while True:
            old = list(self.dfol)
            ok = self.check(self.exp(g.root), frozenset([END])) and all([
                self.check(self.exp(d), self.dfol[i])
                for i, d in enumerate(g.defs)])
            if not ok or old == self.dfol:
                self.ok = ok
                break

    def cls(self, n):
        if n[0] == "sat":
            return frozenset(repr(x) for x in self.u if PREDS[n[1]](x))
        return frozenset([repr(n[1])])

    def exp(self, n):
        """Derived combinators by their expansions."""
        k = n[0]
        e = self.exp
        if k == "sepby":
            return ("maybe", ("seq", e(n[1]), ("many", (
                "seq", e(n[2]), e(n[1])))))
        if k in ("chainl", "chainr"):
            return ("seq", e(n[1]), ("many", ("seq", e(n[2]), e(n[1]))))
        if k == "between":
            return ("seq", e(n[1]), ("seq", e(n[3]), e(n[2])))
        if k == "tup":
            t = e(n[1][0])
            for p in n[1][1:]:
                t = ("seq", t, e(p))
            return t
        if k in ("seq", "seql", "seqr"):
            return ("seq", e(n[1]), e(n[2]))
        if k == "alt":
            return (k, e(n[1]), e(n[2]))
        if k == "bind":
            return (k, e(n[1]), tuple(map(e, n[2])))
        if k in ("maybe", "many"):
            return (k, e(n[1]))
        if k in ("label", "fmap", "recover", "attempt", "rw", "rwf"):
            return e(kids(n)[0])
        return n

    def nullable(self, n):
        k = n[0]
        if k in ("sym", "sat", "lit"):
            return False
        if k in ("maybe", "many", "eof", "pure"):
            return True
        if k == "seq":
            return self.nullable(n[1]) and self.nullable(n[2])
        if k == "alt":
            return self.nullable(n[1]) or self.nullable(n[2])
        if k == "bind":
            return self.nullable(n[1]) and any(map(self.nullable, n[2]))
        return self.dn[n[1]]

    def first(self, n):
        k = n[0]
        if k in ("sym", "sat", "lit"):
            return self.cls(n)
        if k == "eof":
            return frozenset([END])
        if k == "pure":
            return frozenset()
        if k in ("maybe", "many"):
            return self.first(n[1])
        if k == "seq":
            f = self.first(n[1])
            return f | self.first(n[2]) if self.nullable(n[1]) else f
        if k == "alt":
            return self.first(n[1]) | self.first(n[2])
        if k == "bind":
            f = self.first(n[1])
            if self.nullable(n[1]):
                for q in n[2]:
                    f |= self.first(q)
            return f
        return self.df[n[1]]

    def check(self, n, fol):
        k = n[0]
        if k in ("sym", "sat", "lit", "eof", "pure"):
            return True
        if k == "seq":
            f = self.first(n[2])
            if self.nullable(n[2]):
                f |= fol
            return self.check(n[1], f) and self.check(n[2], fol)
        if k == "alt":
            a, b = self.first(n[1]), self.first(n[2])
            if a & b or self.nullable(n[1]):
                return False
            if self.nullable(n[2]) and a & fol:
                return False
            return self.check(n[1], fol) and self.check(n[2], fol)
        if k in ("maybe", "many"):
            f = self.first(n[1])
            if self.nullable(n[1]) or f & fol:
                return False
            return self.check(n[1], fol | f if k == "many" else fol)
        if k == "bind":
            f = frozenset()
            for q in n[2]:
                f |= self.first(q)
                if self.nullable(q):
                    f |= fol
            return self.check(n[1], f) and all(
                self.check(q, fol) for q in n[2])
        self.dfol[n[1]] |= fol
        return True


POOLS = [list("abcdefgh"), list(range(1, 10)),
         [0, None, "", "a", (1, 2), -1, 2.5, "zz"],
         ["(", ")", "[", "]", ",", ":", "a", "b", "1"]]
LITS = ["if", "else", "for", "(", ")", ";", "=", "x1", "+"]
EXTRA = ["z", "9", "a", "b", "1", 2, 0]     # what inputs may also contain
SATS = ["ab", "cd", "digit", "alpha", "isint", "even", "falsy"]


def generate(rng, fam, depth=4):
    """(grammar, label -> inserted piece)"""
    pool = list(LITS if fam == "S" else rng.choice(POOLS))
    univ = pool + [x for x in EXTRA if x not in pool]
    leaf = "lit" if fam == "S" else "sym"
    ndefs = rng.choice([0, 0, 1, 1, 2])
    labels = None
    if fam == "T" and rng.random() < .3:
        # every element under a label of its own, some like another element
        labels = rng.sample(
            [str(x) for x in pool if type(x) is str and x] + list("PQRSTUV*~")
            + ["a b", "x\n", "'", "item", "the end", "\u00e9"], len(pool))
    for _ in range(400):
        free = rng.sample(pool, len(pool))

        def tok():
            if free and rng.random() < .85:
                return free.pop()
            return rng.choice(pool)

        def node(d, top):
            if d <= 0 or rng.random() < .15:
                if fam == "T" and rng.random() < .12:
                    name = rng.choice(SATS)
                    c = [x for x in pool if PREDS[name](x)]
                    if c and rng.random() < .6:
                        c = rng.choice(c)
                        return ("rw", ("sat", name), c,
                                labels and labels[pool.index(c)])
                    return ("sat", name)
                t = tok()
                lab = labels and labels[pool.index(t)]
                n = (leaf, t, lab) if leaf == "sym" else (leaf, t)
                if rng.random() < .12:
                    return ("rw", n, t, lab)
                return n
            if not top and ndefs and rng.random() < .2:
                return ("ref", rng.randrange(ndefs))
            k = rng.choice(["seq"] * 4 + ["seql", "seqr"] + ["alt"] * 4 + [
                "maybe", "many", "many", "sepby", "between", "between",
                "chainl", "chainr", "tup", "label", "fmap", "recover",
                "recover", "bind"])
            if k in ("seq", "seql", "seqr"):
                a = node(d - 1, top)
                return (k, a, node(d - 1, False))
            if k == "alt":
                return (k, node(d - 1, top), node(d - 1, top))
            if k in ("maybe", "many", "recover"):
                return (k, node(d - 1, top))
            if k == "label":
                return (k, node(d - 1, top), rng.choice(["x", "thing"]))
            if k == "fmap":
                return (k, rng.randrange(9), node(d - 1, top))
            if k in ("sepby", "chainl", "chainr"):
                return (k, node(d - 1, top), node(0, False))
            if k == "between":
                return (k, node(0, False), node(0, False),
                        node(d - 1, False))
            if k == "bind":
                return (k, node(d - 2, top), tuple(
                    node(d - 2, False) for _ in range(rng.choice([1, 2]))))
            ps = [node(d - 2, top)]
            for _ in range(rng.choice([1, 2, 3])):
                ps.append(node(d - 2, False))
            return (k, tuple(ps), rng.choice([None, 3]))

        defs = [node(depth - 1, True) for _ in range(ndefs)]
        root = node(depth, True)
        if ndefs and rng.random() < .6:
            root = ("ref", 0)
        if rng.random() < .85:
            root = ("seql", root, ("eof",))
        g = Grammar(fam, root, defs, pool)
        # a left-recursive reference is excluded by ``top``; nullable heads
        # could still reach one
        try:
            a = LL1(g, univ)
        except RecursionError:
            continue
        if a.ok and not left_recursive(a):
            return g, dict(zip(labels or map(repr, pool), pool))
    return None, None


def left_recursive(a):
    def heads(n):
        k = n[0]
        if k == "ref":
            return {n[1]}
        if k in ("maybe", "many"):
            return heads(n[1])
        if k == "alt":
            return heads(n[1]) | heads(n[2])
        if k == "seq":
            h = heads(n[1])
            return h | heads(n[2]) if a.nullable(n[1]) else h
        if k == "bind":
            h = heads(n[1])
            if a.nullable(n[1]):
                for q in n[2]:
                    h |= heads(q)
            return h
        return set()

    step = [heads(a.exp(d)) for d in a.g.defs]
    for i in range(len(step)):
        seen, todo = set(), list(step[i])
        while todo:
            j = todo.pop()
            if j == i:
                return True
            if j not in seen:
                seen.add(j)
                todo += step[j]
    return False
