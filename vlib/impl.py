"""Runs the real parsers and normalises what a user can observe."""
from . import env
from .model import Outcome
from .show import show
import reparsec as rp
from reparsec import lexer, scannerless


def op_key(op):
    if op is None:
        return None
    if type(op) is rp.Skip:
        return ("skip", op.count)
    if type(op) is rp.Insert:
        return ("ins", op.label)
    return ("?", repr(op))


def items(err):
    return [(tuple(e.loc), e.loc_str, list(e.expected), op_key(e.op))
            for e in err.errors]


class Observed(Exception):
    """Not an error: carries nothing."""


def observe(thunk, recover):
    """thunk() -> ParseResult.  Errors as [(loc, loc_str, expected, op)].

    kinds: ok, fail (no value even with recovery), rec, exc
    """
    try:
        r = thunk()
        try:
            v = r.unwrap()
        except rp.ParseError as e:
            errs = items(e)
            if not recover:
                try:
                    v = r.unwrap(recover=True)
                except rp.ParseError:
                    return Outcome("fail", errors=errs)
                # a value although recovery was never enabled
                return Outcome("rec", errors=errs, recovered=show(v))
            try:
                v = r.unwrap(recover=True)
            except rp.ParseError as e2:
                if items(e2) != errs:
                    return Outcome("exc", exc="unwrap errors differ: {} / {}"
                                   .format(errs, items(e2)))
                return Outcome("fail", errors=errs)
            return Outcome("rec", errors=errs, recovered=show(v))
        o = Outcome("ok", show(v))
        v2 = show(r.unwrap(recover=True))
        if v2 != o.value:
            return Outcome("exc", exc="unwrap() {} / unwrap(recover=True) {}"
                           .format(o.value, v2))
        return o
    except RecursionError:
        return Outcome("exc", exc="RecursionError")
    except Exception as e:
        return Outcome("exc", exc=type(e).__name__ + (
            "" if type(e) is RuntimeError else ": " + str(e)[:300]))


def track(how):
    """Location tracking of our own, for parses whose options the helper
    functions do not take."""
    from .gen import locf_tokens, text_loc
    if how == "text":
        return {"get_loc": lambda l, s, p: rp.Loc(*text_loc(s, p)),
                "fmt_loc": fmt_linecol}
    return {"get_loc": lambda l, s, p: rp.Loc(*locf_tokens(s)(p)),
            "fmt_loc": fmt_linecol}


def parse(parser, stream, recover, how="default", **kw):
    """how: default, text and tokens (the helpers unless options are given)"""
    if how != "default" and kw:
        kw = dict(track(how), **kw)
        how = "default"
    if how == "default":
        return lambda: parser.parse(stream, recover, **kw)
    if how == "text":
        return lambda: scannerless.parse(parser, stream, recover)
    if how == "tokens":
        return lambda: lexer.parse(parser, stream, recover)
    raise AssertionError(how)


def fmt_default(loc):
    return repr(loc[0])


def fmt_linecol(loc):
    return "{}:{}".format(loc[1] + 1, loc[2] + 1)


def expect(o, locf, fmt):
    """Reference outcome with positions turned into locations."""
    if o.errors is not None:
        p = Outcome(o.kind, o.value, [
            (tuple(locf(pos)), fmt(locf(pos)), exp, op)
            for pos, exp, op in o.errors
        ], o.recovered, o.exc)
        p.cands, p.steps, p.ties = o.cands, o.steps, o.ties
        return p
    return o
