"""Behaviour-preserving rewrites of the library: every check must stay quiet.
refactor.py [NAMES]   (a development aid; works on scratch copies)"""
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
C, R, V, Q = ("core/combinators.py", "core/result.py", "core/recovery.py",
              "core/sequence.py")
L, T, P = "core/scannerless.py", "core/types.py", "parser.py"

RF = {}

RF["loc-from-start"] = [
    (L, '''    start, line, col = loc
    nlc = stream.count("\\n", start, pos)
    if nlc:
        line += nlc
        col = pos - stream.rfind("\\n", start, pos) - 1
    else:
        col += (pos - start)
    return Loc(pos, line, col)''', '''    line = stream.count("\\n", 0, pos)
    return Loc(pos, line, pos - stream.rfind("\\n", 0, pos) - 1)''')]

RF["eager-loc"] = [
    (Q, "return Ok(t, pos + 1, ctx, (), True)",
     "return Ok(t, pos + 1, ctx.update_loc(stream, pos + 1), (), True)", 4)]

RF["helper-sym"] = [
    (Q, '''            t = stream[pos]
            if t == s:
                return Ok(t, pos + 1, ctx, (), True)
''', '''            r = _match(stream, pos, ctx, lambda t: not (t != s))
            if r is not None:
                return r
''', 2),
    (Q, '''            t = stream[pos]
            if test(t):
                return Ok(t, pos + 1, ctx, (), True)
''', '''            r = _match(stream, pos, ctx, test)
            if r is not None:
                return r
''', 2),
    (Q, "def _eof_fast", '''def _match(stream, pos, ctx, test):
    t = stream[pos]
    if test(t):
        return Ok(t, pos + 1, ctx, (), True)
    return None


def _eof_fast''')]

RF["indexerror"] = [
    (Q, '''        if pos < len(stream):
            t = stream[pos]
            if t == s:
                return Ok(t, pos + 1, ctx, (), True)
''', '''        try:
            t = stream[pos]
        except IndexError:
            pass
        else:
            if t == s:
                return Ok(t, pos + 1, ctx, (), True)
''', 2),
    (Q, '''        if pos < len(stream):
            t = stream[pos]
            if test(t):
                return Ok(t, pos + 1, ctx, (), True)
''', '''        try:
            t = stream[pos]
        except IndexError:
            pass
        else:
            if test(t):
                return Ok(t, pos + 1, ctx, (), True)
''', 2)]

RF["for-search"] = [
    (Q, '''        cur = pos + 1
        while cur < len(stream):
            t = stream[cur]
            if t == s:
                reps.append(
                    make_skip(
                        ins, t, cur + 1, ctx.update_loc(stream, cur + 1), loc,
                        cur - pos, expected
                    )
                )
                return Recovered(reps, cur - pos, loc, expected)
            cur += 1
''', '''        for cur in range(pos + 1, len(stream)):
            t = stream[cur]
            if t != s:
                continue
            reps.append(
                make_skip(
                    ins, t, cur + 1, ctx.update_loc(stream, cur + 1), loc,
                    cur - pos, expected
                )
            )
            return Recovered(reps, cur - pos, loc, expected)
'''),
    (L, '''        cur = pos + 1
        while cur < len(stream):
            if stream.startswith(s, cur):
                reps.append(
                    make_skip(
                        ins, s, cur + ls, ctx.update_loc(stream, cur + ls),
                        loc, cur - pos, expected
                    )
                )
                return Recovered(reps, cur - pos, loc, expected)
            cur += 1
''', '''        cur = stream.find(s, pos + 1)
        if cur != -1:
            reps.append(
                make_skip(
                    ins, s, cur + ls, ctx.update_loc(stream, cur + ls),
                    loc, cur - pos, expected
                )
            )
            return Recovered(reps, cur - pos, loc, expected)
''')]

RF["eager-append"] = [
    ("core/chain.py", '''class Append(''', '''def Append(fst, snd):
    return (*fst, *snd)


class OldAppend(''')]

RF["list-append"] = [
    ("core/chain.py", '''class Append(''', '''def Append(fst, snd):
    if not fst:
        return snd
    if not snd:
        return fst
    return OldAppend(fst, snd)


class OldAppend('''),
    ("core/chain.py", "    __slots__ =", '''    def __bool__(self):
        for _ in self:
            return True
        return False

    __slots__ =''')]

RF["fast-first"] = [
    (P, '''        if recover:
            result = self.parse_fn(
                stream, 0, ctx, max_insertions, max_insertions
            )
        else:
            result = self.parse_fast_fn(stream, 0, ctx)
''', '''        result = self.parse_fast_fn(stream, 0, ctx)
        if recover and type(result) is not combinators.Ok:
            result = self.parse_fn(
                stream, 0, Ctx(0, Loc(0, 0, 0), get_loc), max_insertions,
                max_insertions
            )
''')]

RF["immutable"] = [
    (R, '''        if not self.consumed:
            self.expected = Append(expected, self.expected)
            self.consumed |= consumed
        return self


@final
class Error:''', '''        if not self.consumed:
            return Ok(
                self.value, self.pos, self.ctx,
                Append(expected, self.expected), consumed
            )
        return self


@final
class Error:'''),
    (R, '''    def set_ctx(self, ctx: Ctx[S]) -> "Ok[A_co, S]":
        self.ctx = ctx
        return self
''', '''    def set_ctx(self, ctx: Ctx[S]) -> "Ok[A_co, S]":
        return Ok(self.value, self.pos, ctx, self.expected, self.consumed)
'''),
    (R, '''    def set_expected(self, expected: Iterable[str]) -> "Error":
        if not self.consumed:
            self.expected = expected
        return self
''', '''    def set_expected(self, expected: Iterable[str]) -> "Error":
        if self.consumed:
            return self
        return Error(self.loc, expected)
''')]

RF["many-rewrite"] = [
    (C, '''        consumed = False
        value: List[A] = []
        r = parse_fn(stream, pos, ctx)
        while type(r) is Ok:
            if not r.consumed:
                raise RuntimeError("parser shouldn't accept empty string")
            consumed = True
            value.append(r.value)
            pos = r.pos
            ctx = r.ctx
            r = parse_fn(stream, pos, ctx).prepend_expected(r.expected, False)
        if r.consumed:
            return r
        return Ok(value, pos, ctx, r.expected, consumed)
''', '''        items = []
        while True:
            r = parse_fn(stream, pos, ctx)
            if type(r) is not Ok:
                break
            if r.pos == pos and not r.consumed:
                raise RuntimeError("empty")
            items.append(r)
            pos, ctx = r.pos, r.ctx
        if items:
            r = r.prepend_expected(items[-1].expected, False)
        if r.consumed:
            return r
        return Ok([i.value for i in items], pos, ctx, r.expected, bool(items))
'''),
    (P, '''        res, tail = v
        for op, arg in tail:
            res = op(res, arg)
        return res
''', '''        from functools import reduce
        return reduce(lambda a, t: t[0](a, t[1]), v[1], v[0])
'''),
    (P, '''        for arg, op in reversed(rassoc):
            res = op(arg, res)
        return res
''', '''        while rassoc:
            arg, op = rassoc.pop()
            res = op(arg, res)
        return res
'''),
    (P, "lambda v: [] if v is None else [v[0]] + v[1]",
     "lambda v: [] if v is None else [v[0], *v[1]]")]

RF["deeper"] = [
    (P, '''        return self._fns.fast_fn(stream, pos, ctx)

    def parse_fn(
            self, stream: S_contra, pos: int, ctx: Ctx[S_contra], ins: int,
            rem: Optional[int]) -> Result[A_co, S_contra]:
        return self._fns.fn(stream, pos, ctx, ins, rem)

    def to_fns(''', '''        return self._fast(stream, pos, ctx)

    def _fast(self, stream, pos, ctx):
        return self._fns.fast_fn(stream, pos, ctx)

    def parse_fn(
            self, stream: S_contra, pos: int, ctx: Ctx[S_contra], ins: int,
            rem: Optional[int]) -> Result[A_co, S_contra]:
        return self._slow(stream, pos, ctx, ins, rem)

    def _slow(self, stream, pos, ctx, ins, rem):
        return self._fns.fn(stream, pos, ctx, ins, rem)

    def to_fns('''),
    (C, '''        ra = parse_fn(stream, pos, ctx)
        if type(ra) is Error:
            return ra
        va = ra.value
        return second_fn(
            stream, ra.pos, ra.ctx
        ).fmap(
            lambda vb: merge(va, vb)
        ).prepend_expected(ra.expected, ra.consumed)
''', '''        ra = parse_fn(stream, pos, ctx)
        if type(ra) is Error:
            return ra

        def second():
            return second_fn(stream, ra.pos, ra.ctx)

        rb = second()
        if type(rb) is Error:
            return Error(
                rb.loc,
                rb.expected if rb.consumed
                else Append(ra.expected, rb.expected),
                ra.consumed or rb.consumed
            )
        return Ok(
            merge(ra.value, rb.value), rb.pos, rb.ctx,
            rb.expected if rb.consumed else Append(ra.expected, rb.expected),
            ra.consumed or rb.consumed
        )
''')]

RF["recovery-simpler"] = [
    (V, '''    min_prio = ra.min_prio
    if min_prio is not None:
        reps.extend(
            r for r in rb.repairs if r.prio is not None and r.prio < min_prio
        )
        if rb.min_prio is not None and rb.min_prio < min_prio:
            min_prio = rb.min_prio
    else:
        reps.extend(r for r in rb.repairs if r.prio is not None)
        min_prio = rb.min_prio
''', '''    min_prio = None
    for r in rb.repairs:
        if r.prio is None:
            continue
        reps.append(r)
'''),
    (V, '''                    r.cost, r.prio, r.ins if r.pos == rb.pos else ins, r.ops,
''', '''                    r.cost, r.prio, ins if rb.pos > r.pos else r.ins,
                    list(r.ops),
'''),
    ("types.py", '''        repair = min(
            self._result.repairs,
            key=lambda r: (r.cost, -r.pos, r.prio is None)
        )
''', '''        repair = sorted(
            self._result.repairs,
            key=lambda r: (r.cost, -r.pos, 1 if r.prio is None else 0)
        )[0]
'''),
    (C, '''            rra = parse_fn(stream, pos, ctx, ins, rem)
            rrb = second_fn(stream, pos, ctx, ins, rem)
''', '''            rrb = second_fn(stream, pos, ctx, ins, rem)
            rra = parse_fn(stream, pos, ctx, ins, rem)
''')]

RF["lexer-table"] = [
    ("lexer.py", '''    pos = 0
    line = 0
    col = 0
    loc = Loc(0, 0, 0)
    src_len''', '''    from bisect import bisect_right
    starts = [0] + [i + 1 for i, c in enumerate(src) if c == "\\n"]

    def at(p: int) -> Loc:
        line = bisect_right(starts, p) - 1
        return Loc(p, line, p - starts[line])

    pos = 0
    loc = Loc(0, 0, 0)
    src_len'''),
    ("lexer.py", '''        nl = src.count("\\n", pos, end)
        if nl:
            line += nl
            col = end - src.rfind("\\n", pos, end) - 1
        else:
            col += end - pos
        end_loc = Loc(end, line, col)
''', '''        end_loc = at(end)
'''),
    ("lexer.py", '''    return list(iter_tokens(src, spec))''',
     '''    out = []
    for t in iter_tokens(src, spec):
        out.append(t)
    return out'''),
    ("lexer.py", '''    if pos < len(stream):
        return stream[pos].start
    elif stream:
        return stream[-1].end
    return Loc(pos, 0, 0)''', '''    n = len(stream)
    if n == 0:
        return Loc(pos, 0, 0)
    if pos >= n:
        return stream[n - 1].end
    return stream[pos].start''')]

RF["delay-parser"] = [
    (P, '''        self._defined = True
        self._fns = parser.to_fns()''', '''        fns = parser.to_fns()
        self._fns, self._defined = fns, True'''),
    (P, '''    def to_fns(self) -> ParseFns[S_contra, A_co]:
        if self._defined:
            return self._fns
        return super().to_fns()
''', '''    def to_fns(self) -> ParseFns[S_contra, A_co]:
        return ParseFns(
            lambda s, p, c: self._fns.fast_fn(s, p, c),
            lambda s, p, c, i, r: self._fns.fn(s, p, c, i, r)
        )
''')]

RF["alt-rewrite"] = [
    (C, '''        ra = parse_fn(stream, pos, ctx)
        if type(ra) is Ok or ra.consumed:
            return ra
        rb = second_fn(stream, pos, ctx)
        if rb.consumed:
            return rb
        expected = Append(ra.expected, rb.expected)
        if type(rb) is Ok:
            return rb.set_expected(expected)
        return Error(ra.loc, expected)
''', '''        ra = parse_fn(stream, pos, ctx)
        if isinstance(ra, Error) and not ra.consumed:
            rb = second_fn(stream, pos, ctx)
            if not rb.consumed:
                if isinstance(rb, Error):
                    return Error(ra.loc, Append(ra.expected, rb.expected))
                rb.expected = Append(ra.expected, rb.expected)
            return rb
        return ra
'''),
    (C, '''        r = parse_fn(stream, pos, ctx)
        if r.consumed or type(r) is Ok:
            return r
        return Ok(None, pos, ctx, r.expected)

    return maybe


def _maybe(''', '''        r = parse_fn(stream, pos, ctx)
        if isinstance(r, Error) and not r.consumed:
            return Ok(None, pos, ctx, r.expected)
        return r

    return maybe


def _maybe('''),
    (C, '''        r = parse_fn(stream, pos, ctx, ins, rem)
        if type(r) is Ok or r.consumed:
            return r
        if rem:
            x = fn(stream, pos)
            loc = ctx.get_loc(stream, pos)
''', '''        r = parse_fn(stream, pos, ctx, ins, rem)
        if type(r) is Ok or r.consumed:
            return r
        if rem > 0:
            loc = ctx.get_loc(stream, pos)
            x = fn(stream, pos)
''')]

RF["layout-rewrite"] = [
    ("core/layout.py", '''        ctx = ctx.update_loc(stream, pos)
        return parse_fn(stream, pos, ctx.set_mark(ctx.loc.col)).set_ctx(ctx)
''', '''        col = ctx.get_loc(stream, pos).col
        mark = ctx.mark
        r = parse_fn(stream, pos, ctx.set_mark(col))
        if type(r) is Error:
            return r
        return r.set_ctx(r.ctx.set_mark(mark))
'''),
    ("core/layout.py", '''        level = ctx.loc.col
        if ctx.mark + delta == level:
            return parse_fn(stream, pos, ctx.set_mark(level)).set_ctx(ctx)
        return Error(ctx.loc, ["indentation"])
''', '''        level = ctx.loc.col
        if level - ctx.mark != delta:
            return Error(ctx.loc, ["indentation"])
        inner = ctx.set_mark(level)
        return parse_fn(stream, pos, inner).set_ctx(ctx)
''')]

RF["unwrap-rewrite"] = [
    ("types.py", '''        if type(self._result) is Error:
            raise ParseError([
                ErrorItem(
                    self._result.loc,
                    self._fmt_loc(self._result.loc),
                    list(self._result.expected),
                )
            ])

        if not self._result.repairs:
            raise ParseError([
                ErrorItem(
                    self._result.loc,
                    self._fmt_loc(self._result.loc),
                    list(self._result.expected)
                )
            ])
''', '''        if type(self._result) is Error or not self._result.repairs:
            loc = self._result.loc
            raise ParseError([
                ErrorItem(
                    loc, self._fmt_loc(loc), [*self._result.expected], None
                )
            ])

'''),
    ("types.py", '''        res = "at {}: ".format(self.loc_str)
        if not self.expected:
            res += "unexpected input"
        elif len(self.expected) == 1:
            res += "expected {}".format(self.expected[0])
        else:
            res += "expected {} or {}".format(
                ', '.join(self.expected[:-1]), self.expected[-1]
            )
''', '''        res = "at " + self.loc_str + ": "
        if self.expected:
            *most, last = self.expected
            res += "expected " + (
                ", ".join(most) + " or " if most else "") + last
        else:
            res += "unexpected input"
''')]


RF["derived"] = [
    (P, "    return maybe(seq(parser, many(seqr(sep, parser)))).fmap(\n"
        "        lambda v: [] if v is None else [v[0]] + v[1]\n    )",
     "    from .primitive import PureFn\n"
     "    some = fmap(\n        seq(parser, many(seqr(sep, parser))),\n"
     "        lambda v: [v[0], *v[1]])\n"
     "    return alt(some, PureFn(list))"),
    (P, "    return seqr(open, seql(parser, close))",
     "    return seql(seqr(open, parser), close)"),
    (P, "    return FnParser(combinators.maybe(parser.to_fns()))",
     "    from .primitive import Pure\n    return alt(parser, Pure(None))"),
    (P, "    return FnParser(combinators.recover_with(parser.to_fns(), x, label))",
     "    text = repr(x) if label is None else label\n"
     "    return FnParser(combinators.recover_with_fn(\n"
     "        parser.to_fns(), lambda _s, _p: x, text))"),
]

RF["ctx-dataclass"] = [
    (T, """    __slots__ = "mark", "loc", "_get_loc"

    def __init__(
            self, mark: int, loc: Loc,
            get_loc: Callable[[Loc, S_contra, int], Loc]):
        self.mark = mark
        self.loc = loc
        self._get_loc = get_loc
""", """    mark: int
    loc: Loc
    _get_loc: Callable[[Loc, S_contra, int], Loc]
"""),
    (T, "class Ctx(", "@__import__(\"dataclasses\").dataclass(frozen=True)\nclass Ctx("),
    (T, "return Ctx(mark, self.loc, self._get_loc)",
     "return __import__(\"dataclasses\").replace(self, mark=mark)"),
]

RF["ctx-memo"] = [
    (T, """    __slots__ = "mark", "loc", "_get_loc"
""", """    __slots__ = "mark", "loc", "_get_loc", "_last"
"""),
    (T, """        self._get_loc = get_loc

""", """        self._get_loc = get_loc
        self._last = None

"""),
    (T, """        return self._get_loc(self.loc, stream, pos)
""", """        last = self._last
        if last is not None and last[0] == pos:
            return last[1]
        loc = self._get_loc(self.loc, stream, pos)
        self._last = (pos, loc)
        return loc
"""),
]

RF["result-dicts"] = [
    (R, """    __slots__ = "value", "pos", "ctx", "expected", "consumed"

""", ""),
    (R, """    __slots__ = "loc", "expected", "consumed"

""", ""),
    (R, """    __slots__ = "repairs", "min_prio", "loc", "expected", "consumed"

""", ""),
]

RF["next-search"] = [
    (Q, """        cur = pos + 1
        while cur < len(stream):
            t = stream[cur]
            if test(t):
                return Recovered(
                    [
                        make_skip(
                            ins, t, cur + 1, ctx.update_loc(stream, cur + 1),
                            loc, cur - pos
                        ),
                    ], cur - pos, loc
                )
            cur += 1
        return Error(loc)
""", """        cur = next(
            (i for i in range(pos + 1, len(stream)) if test(stream[i])), None)
        if cur is None:
            return Error(loc)
        return Recovered(
            [
                make_skip(
                    ins, stream[cur], cur + 1,
                    ctx.update_loc(stream, cur + 1), loc, cur - pos
                ),
            ], cur - pos, loc
        )
"""),
    (L, """        cur = pos + 1
        while cur < len(stream):
            r = match(stream, pos=cur)
            if r is not None:
                v = r.group(group)
                if v is not None:
                    end = r.end()
                    return Recovered(
                        [
                            make_skip(
                                ins, v, end, ctx.update_loc(stream, end), loc,
                                cur - pos
                            )
                        ], cur - pos, loc
                    )
            cur += 1
        return Error(loc)
""", """        def tries():
            for i in range(pos + 1, len(stream)):
                m = match(stream, i)
                if m is None or m.group(group) is None:
                    continue
                yield i, m

        for cur, m in tries():
            end = m.end()
            rep = make_skip(
                ins, m.group(group), end, ctx.update_loc(stream, end), loc,
                cur - pos)
            return Recovered([rep], cur - pos, loc)
        return Error(loc)
"""),
]

RF["islice-search"] = [
    (Q, """        cur = pos + 1
        while cur < len(stream):
            t = stream[cur]
            if t == s:
                reps.append(
                    make_skip(
                        ins, t, cur + 1, ctx.update_loc(stream, cur + 1), loc,
                        cur - pos, expected
                    )
                )
                return Recovered(reps, cur - pos, loc, expected)
            cur += 1
""", """        from itertools import islice
        for cur, t in islice(enumerate(stream), pos + 1, None):
            if t == s:
                reps.append(
                    make_skip(
                        ins, t, cur + 1, ctx.update_loc(stream, cur + 1), loc,
                        cur - pos, expected
                    )
                )
                return Recovered(reps, cur - pos, loc, expected)
"""),
]

RF["generic-seq"] = [
    (C, """        ra = parse_fn(stream, pos, ctx, ins, rem)
        if type(ra) is Error:
            return ra
        if type(ra) is Recovered:
            return continue_parse(
                ra, ins, lambda _, p, c, r: second_fn(stream, p, c, ins, r),
                merge
            )
        va = ra.value
        return second_fn(
            stream, ra.pos, ra.ctx, ins, ins if ra.consumed else rem
        ).fmap(
            lambda vb: merge(va, vb)
        ).prepend_expected(ra.expected, ra.consumed)
""", """        def then(_: A, p: int, c: Ctx[S], r: Optional[int]) -> Result[B, S]:
            return second_fn(stream, p, c, ins, r)

        ra = parse_fn(stream, pos, ctx, ins, rem)
        if type(ra) is Recovered:
            return continue_parse(ra, ins, then, merge)
        if type(ra) is not Ok:
            return ra
        left = ins if ra.consumed else rem
        rb = then(ra.value, ra.pos, ra.ctx, left)
        merged = rb.fmap(lambda v: merge(ra.value, v))
        merged.prepend_expected(ra.expected, ra.consumed)
        return merged
"""),
    (C, """        r = parse_fn(stream, pos, ctx, ins, rem)
        if type(r) is Recovered:
            for p in r.repairs:
                if p.prio is None:
                    p.prio = 0
        return r
""", """        r = parse_fn(stream, pos, ctx, ins, rem)
        if type(r) is not Recovered:
            return r
        from .repair import Repair
        return Recovered(
            [
                Repair(
                    p.cost, 0 if p.prio is None else p.prio, p.ins, p.ops,
                    p.value, p.pos, p.ctx, p.expected, p.consumed)
                for p in r.repairs
            ], r.min_prio, r.loc, r.expected, r.consumed)
"""),
]

RF["texts"] = [
    ("types.py", """                repair = "skipped {} {}".format(
                    self.op.count, "token" if self.op.count == 1 else "tokens"
                )
""", """                n = self.op.count
                repair = f"skipped {n} token" + ("" if n == 1 else "s")
"""),
    ("types.py", "        raise ParseError(errors)\n",
     "        raise ParseError(errors) from None\n"),
    ("types.py", """        errors = [
            ErrorItem(
                item.loc, self._fmt_loc(item.loc), list(item.expected), item.op
            )
            for item in repair.ops
        ]
""", """        errors = []
        for item in repair.ops:
            text = self._fmt_loc(item.loc)
            errors.append(
                ErrorItem(item.loc, text, [x for x in item.expected], item.op))
"""),
    ("lexer.py", """        return "Lexing error at {}:{}".format(
            self.loc.line + 1, self.loc.col + 1
        )
""", """        _, line, col = self.loc
        return f"Lexing error at {line + 1}:{col + 1}"
"""),
    (Q, "    expected = [label_]\n", "    expected = (label_,)\n"),
    (L, "    expected = [repr(s)]\n", "    expected = (repr(s),)\n"),
    (C, "    expected = [x]\n", "    expected = (x,)\n"),
]

RF["many-loop"] = [
    (C, """        consumed = False
        value: List[A] = []
        r = parse_fn(stream, pos, ctx, ins, None)
        while type(r) is Ok:
            if not r.consumed:
                raise RuntimeError("parser shouldn't accept empty string")
            consumed = True
            value.append(r.value)
            pos = r.pos
            ctx = r.ctx
            r = parse_fn(
                stream, pos, ctx, ins, None
            ).prepend_expected(r.expected, False)
""", """        value: List[A] = []
        last = ()
        while True:
            r = parse_fn(stream, pos, ctx, ins, None)
            if value:
                r = r.prepend_expected(last, False)
            if type(r) is not Ok:
                break
            if not r.consumed:
                raise RuntimeError("parser shouldn't accept empty string")
            value += [r.value]
            pos, ctx, last = r.pos, r.ctx, r.expected
        consumed = len(value) > 0
"""),
    (C, "                lambda a, b: [*value, a, *b]",
     "                lambda a, b: value + [a] + b"),
]

RF["bound-fns"] = [
    (P, """    def to_fns(self) -> ParseFns[S_contra, A_co]:
        return self._fns

    def parse_fast_fn(""", """    def to_fns(self) -> ParseFns[S_contra, A_co]:
        return ParseFns(self.parse_fast_fn, self.parse_fn)

    def parse_fast_fn("""),
    (P, """        if self._defined:
            return self._fns
        return super().to_fns()
""", """        return ParseFns(
            lambda *a: self.parse_fast_fn(*a), lambda *a: self.parse_fn(*a))
"""),
    ]

RF["wrap-continue"] = [
    (V, """    for r in ra.repairs:
        rb = parse(r.value, r.pos, r.ctx, r.ins)
        if type(rb) is Ok:
            reps.append(
                Repair(
                    r.cost, r.prio, r.ins if r.pos == rb.pos else ins, r.ops,
                    merge(r.value, rb.value), rb.pos, rb.ctx,
                    _append_expected(r, rb.expected, rb.consumed),
                    r.consumed or rb.consumed
                )
            )
        elif type(rb) is Recovered:
            for rr in rb.repairs:
                reps.append(
                    Repair(
                        r.cost + rr.cost, r.prio, rr.ins, _join_ops(r, rr),
                        merge(r.value, rr.value), rr.pos, rr.ctx,
                        _append_expected(r, rr.expected, rr.consumed),
                        r.consumed or rr.consumed
                    )
                )

    return""", """    for r in ra.repairs:
        reps.extend(_continue(r, ins, parse, merge))
    return"""),
    (V, """def join_repairs(""", """def _continue(r, ins, parse, merge):
    def joined(q, cost, ins, ops):
        return Repair(
            cost, r.prio, ins, ops, merge(r.value, q.value), q.pos, q.ctx,
            _append_expected(r, q.expected, q.consumed),
            q.consumed or r.consumed)

    rb = parse(r.value, r.pos, r.ctx, r.ins)
    if isinstance(rb, Ok):
        left = ins
        if r.pos == rb.pos:
            left = r.ins
        yield joined(rb, r.cost, left, r.ops)
    elif isinstance(rb, Recovered):
        for rr in rb.repairs:
            yield joined(rr, rr.cost + r.cost, rr.ins, _join_ops(r, rr))


def join_repairs(""")]

RF["chain-stack"] = [
    ("core/chain.py", """        yield from self._fst
        yield from self._snd
""", """        todo = [self]
        while todo:
            x = todo.pop()
            if isinstance(x, Append):
                todo.append(x._snd)
                todo.append(x._fst)
            else:
                for y in x:
                    yield y
""")]

RF["len-once"] = [
    (Q, """        loc = ctx.get_loc(stream, pos)
        cur = pos + 1
        while cur < len(stream):
            t = stream[cur]
            if test(t):
""", """        loc = ctx.get_loc(stream, pos)
        end = len(stream)
        for cur in range(pos + 1, end):
            t = stream[cur]
            if test(t):
"""),
    (Q, """                    ], cur - pos, loc
                )
            cur += 1
""", """                    ], cur - pos, loc
                )
"""),
    (Q, """        if pos == len(stream):
            return Ok(None, pos, ctx)
""", """        if not pos < len(stream):
            return Ok(None, pos, ctx)
""", 2)]

RF["literal-slice"] = [
    (L, "        if stream.startswith(s, pos):\n",
     "        if stream[pos:pos + ls] == s:\n", 2),
    (L, "            if stream.startswith(s, cur):\n",
     "            if s == stream[cur:cur + ls]:\n")]

RF["loc-first"] = [
    (Q, """        if pos < len(stream):
            t = stream[pos]
            if test(t):
                return Ok(t, pos + 1, ctx, (), True)
        return Error(ctx.get_loc(stream, pos))
""", """        loc = ctx.get_loc(stream, pos)
        if pos >= len(stream):
            return Error(loc)
        t = stream[pos]
        return Ok(t, pos + 1, ctx, (), True) if test(t) else Error(loc)
"""),
    (Q, """        if pos < len(stream):
            t = stream[pos]
            if t == s:
                return Ok(t, pos + 1, ctx, (), True)
        return Error(ctx.get_loc(stream, pos), expected)
""", """        loc = ctx.get_loc(stream, pos)
        if pos >= len(stream):
            return Error(loc, expected)
        t = stream[pos]
        if not t == s:
            return Error(loc, expected)
        return Ok(t, pos + 1, ctx, (), True)
""")]

RF["helpers"] = [
    (C, """            if not r.consumed:
                raise RuntimeError("parser shouldn't accept empty string")
""", """            _check_progress(r)
""", 2),
    (C, """def _many_fast(""", """def _check_progress(r):
    if r.consumed:
        return
    raise RuntimeError("parser shouldn't accept empty string")


def _many_fast("""),
    (C, """        if type(r) is Error:
            return Error(r.loc, r.expected)
        return r

    return attempt
""", """        return _rewind(r)

    return attempt
""", 2),
    (C, """def _attempt_fast(""", """def _rewind(r):
    if type(r) is not Error:
        return r
    return Error(r.loc, r.expected, False)


def _attempt_fast("""),
    (C, """            rep = make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)
            if type(r) is Error:
                return Recovered([rep], None, loc, r.expected)
            return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
""", """            return _replaced(r, rem, x, pos, ctx, loc, vs)
"""),
    (C, """            rep = make_user_insert(
                rem, x, pos, ctx, loc, repr(x) if label is None else label,
                r.expected
            )
            if type(r) is Error:
                return Recovered([rep], None, loc, r.expected)
            return Recovered([rep, *r.repairs], r.min_prio, loc, r.expected)
""", """            vs = label
            if vs is None:
                vs = repr(x)
            return _replaced(r, rem, x, pos, ctx, loc, vs)
"""),
    (C, """def _recover_with_fast(""",
     """def _replaced(r, rem, x, pos, ctx, loc, vs):
    reps = [make_user_insert(rem, x, pos, ctx, loc, vs, r.expected)]
    prio = None
    if type(r) is Recovered:
        reps += r.repairs
        prio = r.min_prio
    return Recovered(reps, prio, loc, r.expected)


def _recover_with_fast(""")]

RF["lexer-scanner"] = [
    ("lexer.py", """        match = spec.match(src, pos=pos)
        if match is None or match.end() == pos:
            raise LexError(loc)

        end = match.end()
""", """        match = spec.match(src, pos)
        end = pos if match is None else match.end()
        if end == pos:
            raise LexError(loc)
"""),
    ("lexer.py", """    return list(iter_tokens(src, spec))
""", """    tokens = []
    for t in iter_tokens(src, spec):
        tokens.append(t)
    return tokens
"""),
    ("lexer.py", "    return label(satisfy(lambda t: t.kind == kind), kind)",
     "    def test(t: Token) -> bool:\n        return kind == t.kind\n\n"
     "    return satisfy(test).label(kind)"),
    ("lexer.py", """    if pos < len(stream):
        return stream[pos].start
    elif stream:
        return stream[-1].end
    return Loc(pos, 0, 0)
""", """    n = len(stream)
    if n == 0:
        return Loc(pos, 0, 0)
    return stream[pos].start if pos < n else stream[n - 1].end
""")]

RF["chains"] = [
    (P, """        res, tail = v
        for op, arg in tail:
            res = op(res, arg)
        return res
""", """        import functools
        return functools.reduce(lambda a, t: t[0](a, t[1]), v[1], v[0])
"""),
    (P, """        res, tail = v
        rassoc: List[Tuple[A, Callable[[A, A], A]]] = []
        for op, arg in tail:
            rassoc.append((res, op))
            res = arg
        for arg, op in reversed(rassoc):
            res = op(arg, res)
        return res
""", """        args = [v[0]] + [a for _, a in v[1]]
        ops = [o for o, _ in v[1]]
        res = args.pop()
        while ops:
            res = ops.pop()(args.pop(), res)
        return res
"""),
    (P, """        ctx = Ctx(0, Loc(0, 0, 0), get_loc)
        if recover:
            result = self.parse_fn(
                stream, 0, ctx, max_insertions, max_insertions
            )
        else:
            result = self.parse_fast_fn(stream, 0, ctx)
        return ResultWrapper(result, fmt_loc)
""", """        run = self._recovering if recover else self._plain
        ctx = Ctx(0, Loc(0, 0, 0), get_loc)
        return ResultWrapper(run(stream, ctx, max_insertions), fmt_loc)

    def _plain(self, stream, ctx, limit):
        return self.parse_fast_fn(stream, 0, ctx)

    def _recovering(self, stream, ctx, limit):
        return self.parse_fn(stream, 0, ctx, limit, limit)
""")]


RF["small-mix"] = [
    (P, """        lambda v: [] if v is None else [v[0]] + v[1]
""", """        _first_and_rest
"""),
    (P, """def sep_by(
        parser: ParseObj[S, A],
        sep""", """def _first_and_rest(v):
    if v is None:
        return list()
    first, items = v
    items.insert(0, first)
    return items


def sep_by(
        parser: ParseObj[S, A],
        sep"""),
    ("types.py", """        repair = min(
            self._result.repairs,
            key=lambda r: (r.cost, -r.pos, r.prio is None)
        )
""", """        repair = self._result.repairs[0]
        for r in self._result.repairs[1:]:
            if r.cost != repair.cost:
                better = r.cost < repair.cost
            elif r.pos != repair.pos:
                better = r.pos > repair.pos
            else:
                better = repair.prio is None and r.prio is not None
            if better:
                repair = r
"""),
    (C, """        if type(r) is Recovered:
            for p in r.repairs:
                if p.prio is None:
                    p.prio = 0
        return r
""", """        if type(r) is not Recovered:
            return r
        repairs = [p for p in r.repairs if p.prio is None]
        while repairs:
            repairs.pop().prio = 0
        return r
"""),
    (C, """        va = ra.value
        return second_fn(
            stream, ra.pos, ra.ctx, ins, ins if ra.consumed else rem
        ).fmap(
            lambda vb: merge(va, vb)
        ).prepend_expected(ra.expected, ra.consumed)
""", """        left = ins if ra.consumed else rem
        rb = second_fn(stream, ra.pos, ra.ctx, ins, left)
        rb = rb.prepend_expected(ra.expected, ra.consumed)
        return rb.fmap(functools.partial(merge, ra.value))
"""),
    (C, """from typing import Callable, Iterable, List, Optional, Tuple, TypeVar, Union
""", """import functools
from typing import Callable, Iterable, List, Optional, Tuple, TypeVar, Union
"""),
    (Q, """        if pos == len(stream):
            return Ok(None, pos, ctx)
        if rem is None:
            return Error(ctx.get_loc(stream, pos), ["end of file"])
        loc = ctx.get_loc(stream, pos)
        sl = len(stream)
        return Recovered(
            [
                make_pending_skip(
                    ins, None, sl, ctx, loc, sl - pos, ["end of file"]
                ),
            ], None, loc, ["end of file"]
        )
""", """        end = len(stream)
        rest = end - pos
        if not rest:
            return Ok(None, end, ctx)
        loc = ctx.get_loc(stream, pos)
        if rem is not None:
            skip = make_pending_skip(
                ins, None, end, ctx, loc, rest, ("end of file",))
            return Recovered([skip], None, loc, ("end of file",))
        return Error(loc, ("end of file",))
""")]


def main(names):
    only_tests = "-t" in names
    only = [n for n in names if n[0] == "C" and n[1:].isdigit()]
    names = [n for n in names if n != "-t" and n not in only]
    for name in names or RF:
        d = tempfile.mkdtemp(prefix="rf-", dir="/tmp")
        repo = d + "/repo"
        try:
            subprocess.run(["cp", "-a", "/repo", repo], check=True)
            for f, a, b, *n in RF[name]:
                p = repo + "/src/reparsec/" + f
                s = open(p).read()
                assert s.count(a) == (n[0] if n else 1), (
                    name, f, a, s.count(a))
                open(p, "w").write(s.replace(a, b))
            env = dict(os.environ, PYTHONPATH=repo + "/src",
                       PYTHONDONTWRITEBYTECODE="1")
            r = subprocess.run(
                [PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider",
                 "--doctest-modules", "--doctest-glob=*.rst", "tests", "src",
                 "docs/source/pages"], cwd=repo, env=env,
                capture_output=True, text=True)
            if r.returncode:
                print(name, "TESTS FAIL", r.stdout[-800:], flush=True)
            if only_tests:
                print(name, "applied", flush=True)
                continue
            env = dict(os.environ, REPARSEC_REPO=repo,
                       VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            bad = []
            for i in range(1, 40):
                c = "C%02d" % i
                if only and c not in only:
                    continue
                if not os.path.exists(ROOT + "/vlib/checks/c%02d.py" % i):
                    continue
                r = subprocess.run([ROOT + "/check", c], cwd=ROOT, env=env,
                                   capture_output=True, text=True)
                if r.returncode:
                    bad.append(c)
                    print(name, c, r.returncode, (r.stdout + r.stderr)[-1500:],
                          flush=True)
            print(name, "alarms:", bad or "none", flush=True)
        finally:
            shutil.rmtree(d)


main(sys.argv[1:])
