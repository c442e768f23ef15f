"""Helpers shared by the check modules."""
from d42 import fake, validate  # noqa: F401
from d42.validation import Formatter

from . import terms as T

FMT = Formatter()


def accepts(s, v):
    return not validate(s, v).has_errors()


def errors(s, v):
    return validate(s, v).get_errors()


def messages(s, v):
    return [e.format(FMT) for e in errors(s, v)]


def show(v):
    try:
        return T.lit(v)
    except Exception:
        return object.__repr__(v)


REPLAY = "from mc.replay import *\n"


def repro(*lines):
    return REPLAY + "\n".join(lines)


def declare(ctx, t):
    """build a term; a refused declaration is outside the domain of most properties"""
    from d42.declaration.errors import DeclarationError
    try:
        return t.build()
    except DeclarationError:
        ctx.count("refused_declarations")
        return None
