"""Reference semantics of reparsec, written from its documentation, over
immutable data and without looking at how the library is organised.

``plain``   parsing without recovery
``rec``     parsing with recovery

Derived combinators are expanded to their definitions first (``core``).
A step budget bounds every run; a run that exceeds it is *skipped*, never
judged.
"""
from .gast import CPATS, PATS, PREDS, pick
from .env import lexer

Token = lexer.Token


class Skip(Exception):
    """The model gave up: case too large.  Not a verdict."""


class ManyEmpty(Exception):
    """Repetition of a parser that succeeded without consuming."""


class Ok:
    __slots__ = "v", "pos", "exp", "cons"

    def __init__(self, v, pos, exp=(), cons=False):
        self.v = v
        self.pos = pos
        self.exp = exp
        self.cons = cons


class Err:
    __slots__ = "pos", "exp", "cons"

    def __init__(self, pos, exp=(), cons=False):
        self.pos = pos
        self.exp = exp
        self.cons = cons


class Rep:
    """A candidate repair. ops: tuple of (op, pos, expected, settled)."""
    __slots__ = "cost", "user", "ins", "ops", "v", "pos", "exp", "cons"

    def __init__(self, cost, user, ins, ops, v, pos, exp, cons):
        self.cost = cost
        self.user = user    # may be used as a non-first alternative
        self.ins = ins      # insertions left
        self.ops = ops
        self.v = v
        self.pos = pos
        self.exp = exp
        self.cons = cons

    def but(self, **kw):
        r = Rep(self.cost, self.user, self.ins, self.ops, self.v, self.pos,
                self.exp, self.cons)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Rec:
    __slots__ = "reps", "pos", "exp", "cons"

    def __init__(self, reps, pos, exp=(), cons=False):
        self.reps = reps
        self.pos = pos
        self.exp = exp
        self.cons = cons


# --- expansion of derived combinators ---------------------------------------

def _cons(v):
    return [] if v is None else [v[0]] + v[1]


def core(n, memo):
    """Expands derived combinators.  ("map", fn, p) is fmap with a meta
    function; ("pair", merge, p, q) is sequencing."""
    hit = memo.get(id(n))
    if hit is not None:
        return hit[1]
    c = _core(n, lambda x: core(x, memo))
    memo[id(n)] = (n, c)
    return c


def _fst(a, b):
    return a


def _snd(a, b):
    return b


def _pair(a, b):
    return (a, b)


def _snoc(a, b):
    return (*a, b)


def _core(n, f):
    k = n[0]
    if k == "seq":
        return ("pair", _pair, f(n[1]), f(n[2]))
    if k == "seql":
        return ("pair", _fst, f(n[1]), f(n[2]))
    if k == "seqr":
        return ("pair", _snd, f(n[1]), f(n[2]))
    if k == "sepby":
        p, s = f(n[1]), f(n[2])
        return ("map", _cons, ("maybe", (
            "pair", _pair, p, ("many", ("pair", _snd, s, p)))))
    if k == "between":
        o, c, p = f(n[1]), f(n[2]), f(n[3])
        return ("pair", _snd, o, ("pair", _fst, p, c))
    if k in ("chainl", "chainr"):
        p, op = f(n[1]), ("mkop", "L" if k == "chainl" else "R", f(n[2]))
        return ("fold", k, ("pair", _pair, p, (
            "many", ("pair", _pair, op, p))))
    if k == "tup":
        ps = [f(p) for p in n[1]]
        t = ("pair", _pair, ps[0], ps[1])
        for p in ps[2:]:
            t = ("pair", _snoc, t, p)
        return t if n[2] is None else ("apply", n[2], t)
    if k == "letter":
        return ("label", ("satf", str.isalpha), k)
    if k == "digit":
        return ("label", ("satf", str.isdigit), k)
    if k == "tok":
        return ("label", ("satk", n[1]), n[1])
    if k == "tokins":
        return ("tokins", f(("tok", n[1])), n[1], n[2])
    if k in ("fmap",):
        return ("fmap", n[1], f(n[2]))
    if k == "indented":
        return ("indented", n[1], f(n[2]))
    if k == "bind":
        return ("bind", f(n[1]), tuple(f(q) for q in n[2]))
    if k == "alt":
        return ("alt", f(n[1]), f(n[2]))
    if k in ("echo", "maybe", "many", "attempt", "label", "recover", "rw",
             "rwf", "block", "aligned"):
        return (k, f(n[1]), *n[2:])
    return n


class Model:
    """locf(pos) -> (pos, line, col) is the true location of a position."""

    def __init__(self, grammar, stream, locf, event=None, budget=20000):
        memo = {}
        self.memo = memo
        self.root = core(grammar.root, memo)
        self.defs = [core(d, memo) for d in grammar.defs]
        self.s = stream
        self.n = len(stream)
        self.locf = locf
        self.event = event
        self.budget = budget
        self.steps = 0

    def tick(self, k=1):
        self.steps += k
        if self.steps > self.budget:
            raise Skip

    def ev(self, *a):
        if self.event is not None:
            self.event(*a)

    # -- user functions -----------------------------------------------------
    def fn(self, n, v):
        k = n[0]
        if k == "map":
            return n[1](v)
        if k == "fmap":
            self.ev("fmap", n[1], v)
            return (n[1], v)
        if k == "mkop":
            self.ev("mkop", n[1], v)
            return ("OP", n[1], v)
        if k == "apply":
            self.ev("apply", n[1], v)
            return (n[1], v)
        if k == "fold":
            head, tail = v
            if n[1] == "chainl":
                acc = head
                for op, x in tail:
                    self.ev("op", op[1], op[2], acc, x)
                    acc = (op[1], op[2], acc, x)
                return acc
            xs = [head] + [x for _, x in tail]
            acc = xs[-1]
            for (op, _), x in zip(reversed(tail), reversed(xs[:-1])):
                self.ev("op", op[1], op[2], x, acc)
                acc = (op[1], op[2], x, acc)
            return acc
        raise AssertionError(k)

    def target(self, n, v):
        """Parser chosen by bind/echo."""
        if n[0] == "echo":
            self.ev("echo", v)
            return ("sym", v, None)
        self.ev("bind", len(n[2]), v)
        return n[2][pick(v, len(n[2]))]

    def term(self, n, pos):
        """Terminals: (value, end, consumed) or None."""
        k = n[0]
        s = self.s
        self.tick()
        if k == "sym":
            if pos < self.n and s[pos] == n[1]:
                return s[pos], pos + 1, True
        elif k == "sat":
            if pos < self.n:
                self.ev("sat", n[1], s[pos])
                if PREDS[n[1]](s[pos]):
                    return s[pos], pos + 1, True
        elif k == "satk":
            if pos < self.n and s[pos].kind == n[1]:
                return s[pos], pos + 1, True
        elif k == "satf":
            if pos < self.n and n[1](s[pos]):
                return s[pos], pos + 1, True
        elif k == "lit":
            if s[pos:pos + len(n[1])] == n[1]:
                return n[1], pos + len(n[1]), True
        elif k == "rx":
            m = CPATS[n[1]].match(s, pos)
            if m is not None:
                v = m.group(PATS[n[1]][1])
                if v is not None:
                    return v, m.end(), m.end() != pos
        return None

    @staticmethod
    def texp(n):
        k = n[0]
        if k == "sym":
            return (repr(n[1]) if n[2] is None else n[2],)
        if k == "lit":
            return (repr(n[1]),)
        return ()

    # -- plain parsing ------------------------------------------------------
    def plain(self, n, pos, mark):
        self.tick()
        k = n[0]
        if k in ("sym", "sat", "satk", "satf", "lit", "rx"):
            t = self.term(n, pos)
            if t is None:
                return Err(pos, self.texp(n))
            return Ok(t[0], t[1], (), t[2])
        if k == "eof":
            if pos == self.n:
                return Ok(None, pos)
            return Err(pos, ("end of file",))
        if k == "pure":
            return Ok(n[1], pos)
        if k == "puren":
            self.ev("puren", n[1])
            return Ok(("PF", n[1]), pos)
        if k == "unexp":
            return Err(pos, (n[1],))
        if k in ("map", "fmap", "mkop", "apply", "fold"):
            r = self.plain(n[2], pos, mark)
            if type(r) is Err:
                return r
            return Ok(self.fn(n, r.v), r.pos, r.exp, r.cons)
        if k in ("pair", "bind", "echo"):
            a = self.plain(n[2] if k == "pair" else n[1], pos, mark)
            if type(a) is Err:
                return a
            nxt = n[3] if k == "pair" else self.target(n, a.v)
            b = self.plain(nxt, a.pos, mark)
            exp = b.exp if b.cons else a.exp + b.exp
            cons = a.cons or b.cons
            if type(b) is Err:
                return Err(b.pos, exp, cons)
            v = n[1](a.v, b.v) if k == "pair" else b.v
            return Ok(v, b.pos, exp, cons)
        if k == "alt":
            a = self.plain(n[1], pos, mark)
            if type(a) is Ok or a.cons:
                return a
            b = self.plain(n[2], pos, mark)
            if b.cons:
                return b
            exp = a.exp + b.exp
            if type(b) is Ok:
                return Ok(b.v, b.pos, exp)
            return Err(a.pos, exp)
        if k == "maybe":
            r = self.plain(n[1], pos, mark)
            if type(r) is Ok or r.cons:
                return r
            return Ok(None, pos, r.exp)
        if k == "many":
            vals = []
            last = ()       # what could have continued the last item
            while True:
                r = self.plain(n[1], pos, mark)
                if type(r) is Err:
                    break
                if not r.cons:
                    raise ManyEmpty
                vals.append(r.v)
                pos = r.pos
                last = r.exp
            if r.cons:
                return r
            return Ok(vals, pos, last + r.exp, bool(vals))
        if k == "attempt":
            r = self.plain(n[1], pos, mark)
            return Err(r.pos, r.exp) if type(r) is Err else r
        if k == "label":
            r = self.plain(n[1], pos, mark)
            if r.cons:
                return r
            if type(r) is Err:
                return Err(r.pos, (n[2],))
            return Ok(r.v, r.pos, (n[2],))
        if k in ("recover", "rw", "rwf", "tokins"):
            return self.plain(n[1], pos, mark)
        if k == "undef":
            raise ManyEmpty
        if k == "ref":
            return self.plain(self.defs[n[1]], pos, mark)
        if k == "block":
            return self.plain(n[1], pos, self.locf(pos)[2])
        if k == "aligned":
            if self.locf(pos)[2] != mark:
                return Err(pos, ("indentation",))
            return self.plain(n[1], pos, mark)
        if k == "indented":
            col = self.locf(pos)[2]
            if col != mark + n[1]:
                return Err(pos, ("indentation",))
            return self.plain(n[2], pos, col)
        raise AssertionError(k)

    # -- parsing with recovery ----------------------------------------------
    # full: the insertion budget; left: insertions left, None = no recovery at
    # the start of this parser (it may still recover once input is consumed)

    def chain(self, a, full, nxt, merge):
        """Continue after every candidate repair in ``a``."""
        reps = []
        for r in a.reps:
            self.tick()
            b = nxt(r)
            if type(b) is Ok:
                reps.append(r.but(
                    ins=r.ins if b.pos == r.pos else full,
                    v=merge(r.v, b.v), pos=b.pos,
                    exp=b.exp if b.cons else r.exp + b.exp,
                    cons=r.cons or b.cons))
            elif type(b) is Rec:
                for q in b.reps:
                    self.tick()
                    ops = tuple(
                        o if o[3] else (o[0], o[1], r.exp + o[2], r.cons)
                        for o in q.ops)
                    reps.append(Rep(
                        r.cost + q.cost, r.user, q.ins, r.ops + ops,
                        merge(r.v, q.v), q.pos,
                        q.exp if q.cons else r.exp + q.exp,
                        r.cons or q.cons))
        return Rec(reps, a.pos, a.exp, a.cons)

    @staticmethod
    def prefix(r, exp, cons):
        """Outcome r of a parser that ran after one with (exp, cons)."""
        if type(r) is Ok:
            return r if r.cons else Ok(r.v, r.pos, exp + r.exp, cons)
        if type(r) is Err:
            return r if r.cons else Err(r.pos, exp + r.exp, cons)
        reps = []
        for q in r.reps:
            ops = tuple(o if o[3] else (o[0], o[1], exp + o[2], cons)
                        for o in q.ops)
            if q.cons:
                reps.append(q.but(ops=ops))
            else:
                reps.append(q.but(ops=ops, exp=exp + q.exp, cons=cons))
        if r.cons:
            return Rec(reps, r.pos, r.exp, True)
        return Rec(reps, r.pos, exp + r.exp, cons)

    @staticmethod
    def relabel(r, exp):
        if type(r) is Ok:
            return r if r.cons else Ok(r.v, r.pos, exp)
        if type(r) is Err:
            return r if r.cons else Err(r.pos, exp)
        reps = [
            q.but(ops=tuple(o if o[3] else (o[0], o[1], exp, False)
                            for o in q.ops),
                  exp=q.exp if q.cons else exp)
            for q in r.reps
        ]
        return Rec(reps, r.pos, r.exp if r.cons else exp, r.cons)

    def rec(self, n, pos, mark, full, left):
        self.tick()
        k = n[0]
        if k in ("sym", "sat", "satk", "satf", "lit", "rx"):
            t = self.term(n, pos)
            if t is not None:
                return Ok(t[0], t[1], (), t[2])
            exp = self.texp(n)
            if left is None:
                return Err(pos, exp)
            reps = []
            if k in ("sym", "lit") and left > 0:
                reps.append(Rep(1, False, left - 1, (
                    (("ins", exp[0]), pos, exp, False),), n[1], pos, (), True))
            for cur in range(pos + 1, self.n):
                t = self.term(n, cur)
                if t is not None:
                    reps.append(Rep(cur - pos, True, full, (
                        (("skip", cur - pos), pos, exp, False),),
                        t[0], t[1], (), True))
                    break
            if k in ("sym", "lit") or reps:
                return Rec(reps, pos, exp)
            return Err(pos, exp)
        if k == "eof":
            if pos == self.n:
                return Ok(None, pos)
            exp = ("end of file",)
            if left is None:
                return Err(pos, exp)
            cnt = self.n - pos
            return Rec([Rep(cnt, True, full, (
                (("skip", cnt), pos, exp, False),), None, self.n, (),
                False)], pos, exp)
        if k == "pure":
            return Ok(n[1], pos)
        if k == "puren":
            self.ev("puren", n[1])
            return Ok(("PF", n[1]), pos)
        if k == "unexp":
            return Err(pos, (n[1],))
        if k in ("map", "fmap", "mkop", "apply", "fold"):
            r = self.rec(n[2], pos, mark, full, left)
            if type(r) is Ok:
                return Ok(self.fn(n, r.v), r.pos, r.exp, r.cons)
            if type(r) is Rec:
                return Rec([q.but(v=self.fn(n, q.v)) for q in r.reps],
                           r.pos, r.exp, r.cons)
            return r
        if k in ("pair", "bind", "echo"):
            a = self.rec(n[2] if k == "pair" else n[1], pos, mark, full, left)
            if type(a) is Err:
                return a
            merge = n[1] if k == "pair" else _snd
            if type(a) is Rec:
                return self.chain(
                    a, full,
                    lambda r: self.rec(
                        n[3] if k == "pair" else self.target(n, r.v),
                        r.pos, mark, full, r.ins),
                    merge)
            nxt = n[3] if k == "pair" else self.target(n, a.v)
            b = self.rec(nxt, a.pos, mark, full, full if a.cons else left)
            if type(b) is Ok:
                b = Ok(merge(a.v, b.v), b.pos, b.exp, b.cons)
            elif type(b) is Rec:
                b = Rec([q.but(v=merge(a.v, q.v)) for q in b.reps],
                        b.pos, b.exp, b.cons)
            return self.prefix(b, a.exp, a.cons)
        if k == "alt":
            a = self.rec(n[1], pos, mark, full, None)
            if type(a) is Ok or a.cons:
                return a
            b = self.rec(n[2], pos, mark, full, None)
            if b.cons:
                return b
            exp = a.exp + b.exp
            if type(b) is Ok:
                return Ok(b.v, b.pos, exp)
            if left is not None:
                x = self.rec(n[1], pos, mark, full, left)
                y = self.rec(n[2], pos, mark, full, left)
                if type(x) is Rec and type(y) is Rec:
                    # automatic insertions do not start a later alternative
                    reps = x.reps + [q for q in y.reps if q.user]
                    if x.cons:
                        j = Rec(reps, x.pos, x.exp, True)
                    elif y.cons:
                        j = Rec(reps, y.pos, y.exp, True)
                    else:
                        j = Rec(reps, x.pos, x.exp + y.exp)
                    return self.relabel(j, exp)
                if type(x) is Rec:
                    return self.relabel(x, exp)
                if type(y) is Rec:
                    return self.relabel(y, exp)
            return Err(a.pos, exp)
        if k == "maybe":
            r = self.rec(n[1], pos, mark, full, None)
            if type(r) is Ok or r.cons:
                return r
            return Ok(None, pos, r.exp)
        if k == "many":
            return self.many(n, pos, mark, full)
        if k == "attempt":
            if left is not None:
                r = self.rec(n[1], pos, mark, full, left)
            else:
                r = self.plain(n[1], pos, mark)
            return Err(r.pos, r.exp) if type(r) is Err else r
        if k == "label":
            return self.relabel(
                self.rec(n[1], pos, mark, full, left), (n[2],))
        if k == "recover":
            r = self.rec(n[1], pos, mark, full, left)
            if type(r) is Rec:
                return Rec([q.but(user=True) for q in r.reps],
                           r.pos, r.exp, r.cons)
            return r
        if k in ("rw", "rwf", "tokins"):
            r = self.rec(n[1], pos, mark, full, left)
            if type(r) is Ok or r.cons or not left:
                return r
            if k == "rw":
                v = n[2]
                lab = repr(v) if n[3] is None else n[3]
            elif k == "rwf":
                self.ev("rwf", n[2], self.s, pos)
                v = ("RF", n[2], pos)
                lab = repr(v) if n[3] is None else n[3]
            else:
                # token_ins places the token in the stream, whatever the
                # location function of the parse
                from .env import reparsec
                from .gen import locf_tokens
                loc = reparsec.Loc(*locf_tokens(self.s)(pos))
                v = Token(n[2], n[3], loc, loc)
                lab = n[2]
            rep = Rep(1, True, left - 1,
                      ((("ins", lab), pos, r.exp, False),), v, pos, (), True)
            return Rec([rep] + (r.reps if type(r) is Rec else []),
                       pos, r.exp)
        if k == "undef":
            raise ManyEmpty
        if k == "ref":
            return self.rec(self.defs[n[1]], pos, mark, full, left)
        if k == "block":
            return self.rec(n[1], pos, self.locf(pos)[2], full, left)
        if k == "aligned":
            if self.locf(pos)[2] != mark:
                return Err(pos, ("indentation",))
            return self.rec(n[1], pos, mark, full, left)
        if k == "indented":
            col = self.locf(pos)[2]
            if col != mark + n[1]:
                return Err(pos, ("indentation",))
            return self.rec(n[2], pos, col, full, left)
        raise AssertionError(k)

    def many(self, n, pos, mark, full):
        vals = []
        last = ()
        while True:
            r = self.rec(n[1], pos, mark, full, None)
            if type(r) is not Ok:
                break
            if not r.cons:
                raise ManyEmpty
            vals.append(r.v)
            pos = r.pos
            last = r.exp
        if type(r) is Rec:
            return self.chain(
                r, full, lambda q: self.many(n, q.pos, mark, full),
                lambda a, b: [*vals, a, *b])
        if r.cons:
            return r
        return Ok(vals, pos, last + r.exp, bool(vals))


# --- outcomes ---------------------------------------------------------------

class Outcome:
    """Observable outcome of a parse: value or errors, and the value returned
    by unwrap(recover=True) if there is one."""
    __slots__ = ("kind", "value", "errors", "recovered", "exc", "cands",
                 "steps", "consumed", "ties")

    def __init__(self, kind, value=None, errors=None, recovered=None,
                 exc=None):
        self.kind = kind            # "ok", "fail", "rec", "exc"
        self.value = value          # ok: rendered value
        self.errors = errors        # fail/rec: [(pos, expected, op)]
        self.recovered = recovered  # rec: rendered recovered value
        self.exc = exc
        self.cands = 0
        self.ties = False
        self.steps = 0
        self.consumed = None

    def key(self):
        return (self.kind, self.value, self.errors, self.recovered, self.exc)

    def __repr__(self):
        if self.kind == "ok":
            return "ok {}".format(self.value)
        if self.kind == "exc":
            return "exc {}".format(self.exc)
        return "{} errors={} recovered={}".format(
            self.kind, self.errors, self.recovered)


def outcome(model, recover, max_insertions=5):
    """Runs the reference model; raises Skip if it is too large."""
    from .show import show
    # guard: callers raise the recursion limit, not the verdict
    try:
        if recover:
            r = model.rec(model.root, 0, 0, max_insertions, max_insertions)
        else:
            r = model.plain(model.root, 0, 0)
    except ManyEmpty:
        o = Outcome("exc", exc="RuntimeError")
        o.steps = model.steps
        return o
    except RecursionError:
        raise Skip
    if type(r) is Ok:
        o = Outcome("ok", show(r.v))
        o.consumed = r.pos
    elif type(r) is Err or not r.reps:
        o = Outcome("fail", errors=[(r.pos, list(r.exp), None)])
    else:
        best = r.reps[0]
        for q in r.reps[1:]:
            if (q.cost, -q.pos, not q.user) < (
                    best.cost, -best.pos, not best.user):
                best = q
        o = Outcome(
            "rec", errors=[(p, list(e), op) for op, p, e, _ in best.ops],
            recovered=show(best.v))
        o.cands = len(r.reps)
        o.ties = sum(q.cost == best.cost for q in r.reps) > 1
    o.steps = model.steps
    return o
