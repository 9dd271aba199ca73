"""Canonical, type-aware rendering of values, so that outcomes can be compared
exactly (``True`` is not ``1``; token locations count)."""
from .env import lexer

Token = lexer.Token


def show(v):
    t = type(v)
    if t is tuple:
        return "(" + ",".join([show(x) for x in v]) + ",)"
    if t is list:
        return "[" + ",".join([show(x) for x in v]) + "]"
    if t is dict:
        return "{" + ",".join(
            show(k) + ":" + show(x) for k, x in v.items()) + "}"
    if t is Token:
        return "Tok({!r},{!r},{},{})".format(
            v.kind, v.value, tuple(v.start), tuple(v.end))
    own = getattr(t, "own_show", None)
    if own is not None:
        return own(v)
    return t.__name__ + ":" + repr(v)
