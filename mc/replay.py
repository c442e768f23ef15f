"""Names used by the scripts in replays/ ."""
from . import env  # noqa: F401
import datetime  # noqa: F401
import math  # noqa: F401
import sys  # noqa: F401
from datetime import date, timedelta, timezone  # noqa: F401
from decimal import Decimal  # noqa: F401
from fractions import Fraction  # noqa: F401
from uuid import UUID  # noqa: F401

from d42 import *  # noqa: F401,F403
from d42 import fake, optional, represent, schema, substitute, validate  # noqa: F401
from d42.utils import from_native, make_required, rollout  # noqa: F401
from d42.validation import Formatter, format_result, validate_or_fail  # noqa: F401

from .rng import run  # noqa: F401
from .terms import Forward  # noqa: F401
from .values import *  # noqa: F401,F403


def forward(s):
    return schema.mc_forward(s)


def scripted(fn, policy, dev):
    """re-run fn under the draw script found by the exploration"""
    o = run(fn, policy, dev)
    if o.exc is not None:
        raise o.exc
    return o.value


def used(build, values):
    """everything the exploration does to a schema before it turns to the next"""
    try:
        s = build()
        repr(s)
        fake(s)
    except Exception:
        return
    for v in values:
        for fn in (validate, substitute):
            try:
                format_result(validate(fn(s, v), v)) if fn is substitute else format_result(fn(s, v))
            except Exception:
                pass
