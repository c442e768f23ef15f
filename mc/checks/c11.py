"""C11: constraint refinements can be declared in any order.

All sets of up to 3 (thorough: 4) distinct refinement calls of one type, on every starting schema (bare or
after fixing a value / the elements), in all permutations.  Outcome of a permutation: rejected with
DeclarationError, or the schema.  All permutations of a set must have the same outcome: equal schemas (by
==, by the declared properties and by the verdicts on probe values) or all rejected.
"""
import itertools as it

from d42 import schema
from d42.declaration.errors import DeclarationError

from .. import values as V
from ..common import accepts, repro, show
from .c07 import shape
from .c10 import args

ASSUMPTIONS = []
BOUNDS = {"quick": "all sets of <= 3 refinements (of 2-4 in full for small alphabets), all permutations, every start",
          "thorough": "all sets of <= 4 refinements, wider parameters"}


def calls(kind, deep):
    out = []

    def add(m, *arglists):
        for a in arglists:
            out.append((m, args(*a)))

    if kind == "int":
        for x in (0, 1, 5, 6, -1, True, 2 ** 70) + ((4, -5, False) if deep else ()):
            add("min", (x,))
            add("max", (x,))
        add("min", ("x",), (...,))
        add("max", (None,))
    elif kind == "float":
        for x in (0.0, 1.5, 2.5, -1.0, V.INF, -V.INF, V.NAN, 1.4999999) + ((1e308, 0.5) if deep else ()):
            add("min", (x,))
            add("max", (x,))
        add("precision", (1,), (2,), (15,), (0,), (16,), (1.0,))
        add("min", (1,))
    elif kind == "str":
        add("len", (0,), (2,), (1, ...), (..., 2), (1, 3), (2, 1), (-1,), ("x",), (..., ...), (3, ...), (2, 2))
        add("alphabet", ("",), ("ab",), ("b",), ("é",), (1,), ("A ",))
        add("contains", ("",), ("a",), ("ab",), ("c",), (b"a",), (" ",))
        add("regex", ("",), ("a",), ("^b$",), ("(",), (None,), ("^ ",), ("A",), ("\\s$",))
        if deep:
            add("len", (1,), (..., 0), (0, ...), (True,), (1, "x"))
            add("contains", ("ba",))
            add("alphabet", ("aab",))
    elif kind == "list":
        add("len", (0,), (1,), (2,), (3,), (1, ...), (2, ...), (3, ...), (..., 1), (..., 2), (1, 3), (2, 2), (0, 1), (2, 1), (-1,), ("x",),
            (..., ...), (None,), (1, "x"))
    return out


STARTS = {
    "int": ["", "(5)", "(0)", "(True)", "(-1)"],
    "float": ["", "(1.5)", "(0.0)", "(float('nan'))", "(float('inf'))"],
    "str": ["", "('')", "('ab')", "('a')", "('b')", "('é')", "(' A')", "('a\\n')", "(' ')"],
    "list": ["", "(schema.int)", "([])", "([schema.int(1)])", "([schema.int, schema.str])", "([schema.int, ...])",
             "([..., schema.int])", "([..., schema.int, schema.str, ...])", "([...])"],
}
PROBES = {"int": [-2, 0, 1, 5, 6, True, None], "float": [-1.0, 0.0, 1.5, 1.45, 2.5, V.INF, V.NAN, 1],
          "str": ["", "a", "b", "ab", "ba", "abc", "é", " A", "a\n", " ", None], "list": [[], [1], [1, "a"], [1, 1], ["a", 1, "a"], None]}


def tasks(tier):
    deep = tier == "thorough"
    out = []
    for k in STARTS:
        cs = calls(k, True)
        sizes = (1, 2, 3, 4) if deep or k != "str" else (1, 2, 3)
        for st in STARTS[k]:
            for i in range(len(cs)):
                out.append((k, st, i, sizes, True))
    return out


def task_name(t):
    return "schema.%s%s, sets starting with %s" % (t[0], t[1], name([calls(t[0], t[4])[t[2]]]))


def name(cs):
    return "".join(".%s(%s)" % (m, ", ".join(x.text for x in a)) for m, a in cs)


def outcome(s, cs):
    for m, a in cs:
        try:
            s = getattr(s, m)(*[x.value for x in a])
        except DeclarationError as e:
            return e
    return s


def run_task(task, ctx):
    kind, start, first, sizes, deep = task
    cs = calls(kind, deep)
    base = eval("schema.%s%s" % (kind, start), {"schema": schema})
    for n in sizes:
        if n == 4 and kind in ("str", "list"):
            rest = [c for c in cs[first + 1:] if c[0] != cs[first][0]] if kind == "str" else []
        else:
            rest = cs[first + 1:]
        for others in it.combinations(rest, n - 1):
            combo = (cs[first],) + others
            ctx.state()
            ref = None
            for order in it.permutations(combo):
                ctx.trace()
                ctx.trans(n)
                try:
                    r = outcome(base, order)
                except Exception as e:
                    ctx.violation("schema.%s%s%s" % (kind, start, name(order)), "raised %r" % e)
                    break
                if ref is None:
                    ref = (order, r)
                    continue
                bad = None
                if isinstance(r, Exception) != isinstance(ref[1], Exception):
                    bad = "one order is rejected (%s), the other is not" % (
                        r if isinstance(r, Exception) else ref[1])
                elif not isinstance(r, Exception):
                    if not (r == ref[1] and ref[1] == r) or r != ref[1] or shape(r) != shape(ref[1]):
                        bad = "the orders give different schemas: %r / %r" % (ref[1], r)
                    else:
                        for v in PROBES[kind]:
                            if accepts(r, v) != accepts(ref[1], v):
                                bad = "the orders judge %s differently" % show(v)
                if bad:
                    ctx.violation("schema.%s%s: %s vs %s" % (kind, start, name(ref[0]), name(order)), bad, repro(
                        "from d42.declaration.errors import DeclarationError",
                        "for text in %r:" % (["schema.%s%s%s" % (kind, start, name(o)) for o in (ref[0], order)],),
                        "    try: print(text, '->', eval(text))",
                        "    except DeclarationError as e: print(text, '-> rejected:', e)"))
                    break
            ctx.count("rejected" if isinstance(ref[1], Exception) else "accepted")
    ctx.sample(task_name(task))
