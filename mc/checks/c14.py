"""C14: from_native(value) denotes exactly that value.

States: plain values (complete products of a scalar pool up to nesting depth 3, every key kind).  For each, every
one-step change at every depth, and every other value of the pool, is thrown at the schema; the verdict must be the
reference equality below.  Generation is run under every draw script.  Non-plain values (the zoo) are put at every
position of container shapes: ValueError.
"""
import itertools as it
import math
from datetime import date, datetime, timedelta, timezone
from uuid import UUID

from d42 import fake
from d42.utils import from_native

from .. import fine as F
from .. import values as V
from ..common import accepts, messages, repro, show
from ..rng import explore, run
from ..terms import D1, D2, DT1, DT2, U1, U2, copyv, lit, same
from . import c08

ASSUMPTIONS = ["True/1 and False/0, the float tolerance (relative 1e-9) and aware datetimes of one instant are not told apart",
               "instances of subclasses of the plain types may be read as plain values or refused (ValueError)",
               "nesting of at most 40 levels; no nan dict keys"]
BOUNDS = {"quick": "34 scalars, all lists of length <= 2 and all dicts of <= 2 keys over them, depth 3; zoo at 16 positions; containers, texts and ints of 32 sizes up to 257, changed at every place",
          "thorough": "lists of length <= 3, depth 4"}

TZ = timezone(timedelta(hours=3))
SCALARS = [None, True, False, 0, 1, -1, 2, 2 ** 63, -2 ** 70, 10 ** 40, 0.0, -0.0, 1.0, 1.5, -2.25, 0.1 + 0.2, 1e300, 5e-324, math.inf,
           -math.inf, math.nan, 1e16, "", "a", "ab", "1", "None", "é", "\ud800", "a\nb", "\x00", b"", b"ab", b"\xff", U1, U2, DT1, DT2,
           datetime(2020, 1, 2), datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc), datetime(2020, 1, 2, 3, 4, 5, tzinfo=TZ),
           datetime.max, datetime.min, D1, D2, date.max, date.min, date(2021, 1, 2)]
FEW = [None, True, 1, 1.5, "a", b"ab", U1, DT1, D1, 0, "", math.nan, [], {}]
KEYS = ["a", "b", "", "a.b", 1, 0, None, True, ("t", 2), b"k", 1.5, U1, D1, "...", "optional('a')", "A", "a ", " a", "1", "-1", -1, 2, 10,
        -2 ** 70, "None", "True", b"", b"a", 0.5, -0.5, math.inf, (), ("a",), (1, ("b",)), frozenset({1}), DT1, DT2, D2, U2, "\u00e9",
        "e\u0301", "\ud800", "a\nb", "x" * 300, int, "__class__", "{}", 1j, range(2)]


def level1(deep):
    out = [[], {}]
    out += [[x] for x in SCALARS]
    out += [[x, y] for x in SCALARS for y in (SCALARS if deep else FEW)]
    out += [[x, y, z] for x in FEW for y in FEW for z in (FEW if deep else FEW[:3])]
    out += [{k: x} for k in KEYS for x in (SCALARS if deep else FEW)] + [{"a": x} for x in SCALARS]
    out += [{"a": x, "b": y} for x in FEW for y in FEW]
    out += [{k: 1, j: "a"} for k, j in it.permutations(KEYS, 2) if k != j]
    out += [{"a": x, "b": y, "c": z} for x, y, z in it.product(FEW[:4], repeat=3)]
    out += [[x] * 3 for x in FEW] + [[0] * 40, ["a"] * 17, {str(i): i for i in range(20)}]
    return out


def small1():
    return [[], {}, [1], ["a", None], [True, 1.5], [[], {}], {"a": 1}, {"a": None, "b": "x"}, {1: b"ab"}, [U1, DT1, D1], {"a": []}]


def level2(deep):
    s = small1()
    out = [[x] for x in s] + [[x, y] for x in s for y in s + FEW] + [[y, x] for x in s for y in FEW]
    out += [{"a": x} for x in s] + [{"a": x, "b": y} for x in s for y in s + FEW[:6]] + [{k: x} for k in KEYS for x in s]
    if deep:
        out += [[x, y, z] for x, y, z in it.product(s, repeat=3)]
    return out


def level3(deep):
    base = level2(False)[::9 if not deep else 2]
    out = [f(x) for x in base for f in (lambda v: [v], lambda v: {"k": v}, lambda v: [1, {"k": [v, None]}], lambda v: {"k": v, "l": [v]})]
    out += [V.deep_list(n) for n in (5, 20, 40)] + [V.deep_dict(n) for n in (5, 20, 40)]
    return out


def universe(deep):
    return V.dedupe(SCALARS + level1(deep) + level2(deep) + level3(deep))


def pool():
    """values every other value is compared with"""
    return V.dedupe(SCALARS + V.GENERIC + small1() + level1(False)[::9] + level2(False)[::7] + [[x] for x in FEW] + [{"a": x} for x in FEW] + [{k: 1} for k in KEYS]
                    + [[1, x] for x in FEW] + [(1,), ({},), bytearray(b"ab"), bytearray(b""), {1}, frozenset(), "a" * 3, 1j, [[[]]]])


WRAPS = [("%s", lambda z: z), ("[%s]", lambda z: [z]), ("{'a': %s}", lambda z: {"a": z}), ("[1, %s]", lambda z: [1, z]),
         ("[%s, 'a']", lambda z: [z, "a"]), ("[[%s]]", lambda z: [[z]]), ("{'a': [%s]}", lambda z: {"a": [z]}),
         ("[{'a': %s}]", lambda z: [{"a": z}]), ("{'a': 1, 'b': %s}", lambda z: {"a": 1, "b": z}),
         ("{'b': %s, 'a': {}}", lambda z: {"b": z, "a": {}}), ("[None, [], {'a': {'b': [0, %s]}}]", lambda z: [None, [], {"a": {"b": [0, z]}}]),
         ("[0] * 70 + [%s]", lambda z: [0] * 70 + [z]), ("[%s] + [None] * 130", lambda z: [z] + [None] * 130),
         ("{**dict.fromkeys(range(60)), 'z': %s}", lambda z: {**dict.fromkeys(range(60)), "z": z}),
         ("[[[[[[[[[[[{'k': %s}]]]]]]]]]]]", lambda z: [[[[[[[[[[[{"k": z}]]]]]]]]]]]),
         ("{'a': {'b': {'c': [[%s]]}}}", lambda z: {"a": {"b": {"c": [[z]]}}})]


def tasks(tier):
    n = len(universe(tier == "thorough"))
    step = 24
    return [("v", i, min(i + step, n)) for i in range(0, n, step)] + [("zoo", i, 0) for i in range(len(WRAPS))] \
        + [("fine", k, i) for k in [*F.POOL, "keys"] for i in range(0, len(F.POOL.get(k) or F.KEYS), 3)] \
        + [("long", n, 0) for n in LONG + ([600, 1025, 4097] if tier == "thorough" else [])]


def task_name(t):
    return repr(t)


def equal(v, w):
    """True / False / None (identified by Python or by the documented tolerance: either verdict will do)"""
    if v is None:
        return w is None
    if isinstance(v, (bool, int)):
        if not isinstance(w, int) or v != w:
            return False
        return True if isinstance(v, bool) == isinstance(w, bool) else None
    if isinstance(v, float):
        if not isinstance(w, float):
            return False
        if v == w or v != v and w != w:
            return True
        if v != v or w != w or math.isinf(v) or math.isinf(w):
            return False
        # a value within the tolerance, or too near its edge to say, may go either way
        return None if abs(v - w) <= 1.01e-9 * max(abs(v), abs(w)) else False
    if isinstance(v, list):
        if not isinstance(w, list) or len(v) != len(w):
            return False
        return both(equal(x, y) for x, y in zip(v, w))
    if isinstance(v, dict):
        if not isinstance(w, dict) or len(v) != len(w) or any(k not in w for k in v):
            return False
        odd = [] if all(any(type(k) is type(j) and k == j for j in w) for k in v) else [None]
        return both(odd + [equal(v[k], w[k]) for k in v])
    if isinstance(v, datetime):
        if not isinstance(w, datetime) or v != w:
            return False
        return True if v.tzinfo == w.tzinfo else None
    if type(v) in (str, bytes, UUID, date):
        return isinstance(w, type(v)) and v == w
    raise AssertionError(type(v))


def both(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def is_plain(v, depth=0):
    """True: built from plain values only; False: certainly not; None: subclass instances"""
    if depth > 60:
        return False
    t = type(v)
    if t is list or t is dict:
        subs = [is_plain(x, depth + 1) for x in (v.values() if t is dict else v)]
        if t is dict and any(k is ... or type(k).__name__ == "optional" for k in v):
            return False
        return both(subs)
    if t is UUID:
        return v.version == 4
    if t in (type(None), bool, int, float, str, bytes, datetime, date):
        return True
    if isinstance(v, UUID):
        return None if v.version == 4 else False
    if isinstance(v, (list, dict)):
        return None if both(is_plain(x, depth + 1) for x in (v.values() if isinstance(v, dict) else v)) is not False else False
    if isinstance(v, (int, float, str, bytes, date)):
        return None
    return False


_U = {}


def run_task(task, ctx):
    if task[0] == "zoo":
        return do_zoo(ctx, *WRAPS[task[1]])
    if task[0] == "long":
        return do_long(ctx, task[1])
    if task[0] == "fine":
        return do_fine(ctx, task[1], task[2])
    if not _U:
        _U["all"] = universe(ctx.deep)
        _U["pool"] = pool()
    for v in _U["all"][task[1]:task[2]]:
        do_value(ctx, v)


LONG = [4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 21, 31, 32, 33, 49, 50, 51, 52, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257]


def do_long(ctx, n):
    """containers and texts of n: every single place counts"""
    row = [[None, True, 7, 2.5, "a", b"ab", U1, DT1, D1, [], {}, [1], {"k": 1}][i % 13] for i in range(n)]
    chars = "".join(chr(97 + i % 26) for i in range(n))
    for text, v in (("[0] * %d" % n, [0] * n), ("mixed row of %d" % n, row), ("list(range(%d))" % n, list(range(n))),
                    ("dict of %d" % n, {"k%d" % i: x for i, x in enumerate(row)}), ("dict of %d ints" % n, dict.fromkeys(range(n), 1)),
                    ("text of %d" % n, chars), ("bytes of %d" % n, chars.encode()), ("10 ** %d" % n, 10 ** n), ("-2 ** %d" % n, -2 ** n),
                    ("key of %d" % n, {chars: 1, chars + "x": 2}), ("member text of %d" % n, {"a": [chars, chars.encode()]}),
                    ("rows of %d" % n, [{"id": i, "tags": [chars[i % n:]]} for i in range(min(n, 40))])):
        ctx.state()
        try:
            s = from_native(v)
        except Exception as e:
            ctx.violation("from_native(%s)" % text, "raised %r" % (e,), repro("# " + text))
            continue
        for at, w in [("itself", v), ("a copy", copyv(v))] + list(long_changes(v)):
            want = equal(v, w)
            if want is None:
                continue
            ctx.trans()
            ctx.trace()
            if accepts(s, w) is not want:
                ctx.violation("from_native(%s) on %s" % (text, at), "accepts: %s, expected: %s" % (not want, want), repro(
                    "v = %s" % show(v), "w = %s" % show(w), "print(validate(from_native(v), w).get_errors())"))
                break
        for o in explore(lambda: fake(s), bound=0, full_limit=4):
            ctx.trace()
            if o.exc is not None or not same(o.value, v):
                ctx.violation("fake(from_native(%s))" % text, "generated %s (%r)" % (show(o.value), o.exc), repro("# " + text))
                break


SHAPES = [("%s", lambda z: z), ("[%s]", lambda z: [z]), ("{'k': %s}", lambda z: {"k": z}), ("[{'a': [%s, None]}, 1]", lambda z: [{"a": [z, None]}, 1])]


def do_fine(ctx, kind, lo):
    """values one small respect apart"""
    if kind == "keys":
        for k in F.KEYS[lo:lo + 3]:
            mates = F.nearer(k) + [j for j in F.KEYS if lit(j) != lit(k)]
            ws = [{k: 1}, {k: 2}, {}] + [{j: 1} for j in mates] + [{k: 1, j: 1} for j in mates]
            judge_against(ctx, {k: 1}, ws)
            judge_against(ctx, {"k": [{k: 1}]}, [{"k": [w]} for w in ws])
            for j in mates[::4]:
                judge_against(ctx, {k: 1, j: 2}, ws + [{k: 2, j: 1}, {j: 2}, {k: 1, j: 2, "zz": 1}])
        return
    for v in F.POOL[kind][lo:lo + 3]:
        if is_plain(v) is not True:
            continue
        ws = [v] + F.nearer(v) + F.POOL[kind] + F.OTHERS
        for text, up in SHAPES:
            judge_against(ctx, up(v), [up(w) for w in ws])


def judge_against(ctx, v, ws):
    ctx.state()
    text = "from_native(%s)" % show(v)
    try:
        s = from_native(v)
    except Exception as e:
        return ctx.violation(text, "raised %r" % (e,), repro("print(%s)" % text))
    for w in ws:
        want = equal(v, w)
        if want is None:
            continue
        ctx.trans()
        ctx.trace()
        try:
            got = accepts(s, w)
        except Exception as e:
            got = repr(e)[:200]
        if got is not want:
            return ctx.violation("%s on %s" % (text, show(w)), "accepts: %s, expected: %s" % (got, want), repro(
                "s = " + text, "w = " + show(w), "print(repr(s), validate(s, w).get_errors())"))
    o = run(lambda: fake(s), 0)
    ctx.trace()
    if o.exc is not None or not same(o.value, v):
        ctx.violation("fake(%s)" % text, "generated %s (%r)" % (show(o.value), o.exc), repro("print(fake(%s))" % text))


def long_changes(v):
    n = len(v) if not isinstance(v, int) else 0
    if isinstance(v, int):
        yield from (("%+d" % d, v + d) for d in (1, -1, 2 ** 32, 10 ** 20))
        yield "half", v // 2
        yield "negated", -v
    elif isinstance(v, (str, bytes)):
        for i in range(n):
            yield "change at %d" % i, v[:i] + (b"~" if isinstance(v, bytes) else "~") + v[i + 1:]
            yield "without %d" % i, v[:i] + v[i + 1:]
        yield "twice", v + v
        yield "one more", v + v[:1]
    elif isinstance(v, list):
        for i in range(n):
            yield "change at %d" % i, v[:i] + ["~"] + v[i + 1:]
            if i % 5 == 0 or i > n - 3:
                yield "without %d" % i, v[:i] + v[i + 1:]
                yield "one more at %d" % i, v[:i] + ["~"] + v[i:]
                yield "swap at %d" % i, v[:i] + v[i:i + 2][::-1] + v[i + 2:]
        yield "twice", v + v
        yield "one more", v + v[-1:]
        yield "empty", []
    else:
        for i, k in enumerate(v):
            yield "change at %r" % (k,), {**v, k: "~"}
            if i % 3 == 0 or i > n - 3:
                yield "without %r" % (k,), {j: x for j, x in v.items() if j != k}
        yield "one more", {**v, "zz": 1}
        yield "backwards", dict(reversed(list(v.items())))
        yield "empty", {}


def do_value(ctx, v):
    ctx.state()
    text = "from_native(%s)" % show(v)
    kept = copyv(v)
    try:
        s = from_native(v)
    except Exception as e:
        return ctx.violation(text, "raised %r" % (e,), repro("print(%s)" % text))
    if not same(v, kept):
        ctx.violation(text, "the value was changed to %s" % show(v), repro("v = %s; from_native(v); print(v)" % show(kept)))
    for w in [v, copyv(v)] + list(V.perturb(v)) + _U["pool"]:
        ctx.trans()
        want = equal(v, w)
        if want is None:
            ctx.count("identified")
            continue
        try:
            got = accepts(s, w)
        except Exception as e:
            got = repr(e)[:200]
        ctx.trace()
        if got is not want:
            ctx.violation("%s on %s" % (text, show(w)), "accepts: %s, expected: %s" % (got, want), repro(
                "s = " + text, "w = " + show(w), "print(repr(s), validate(s, w).get_errors())"))
            break
    for o in explore(lambda: fake(s), bound=1, full_limit=32, max_runs=40):
        ctx.trans()
        ctx.trace()
        if o.exc is not None or not same(o.value, v):
            ctx.violation("fake(%s)" % text, "generated %s (%r), draws %s" % (show(o.value), o.exc, o.script()), repro(
                "s = " + text, "print(scripted(lambda: fake(s), %d, %r))" % (o.policy, o.dev)))
            break
    ctx.sample(text)


def do_zoo(ctx, wtext, wrap):
    ns = V.zoo_namespace()
    extra = [("optional('a')", ns["optional"]("a")), ("UUID('c232ab00-9414-11ec-b3c8-9f6bdeced846')", UUID("c232ab00-9414-11ec-b3c8-9f6bdeced846")),
             ("UUID(int=(4 << 76))", UUID(int=(4 << 76))), ("timedelta(0)", timedelta(0)), ("{...: 1}", {...: 1}),
             ("{optional('a'): 1}", {ns["optional"]("a"): 1}), ("(None,)", (None,)), ("[(1,)]", [(1,)])]
    for e, z in V.zoo() + extra:
        for w, text in [(wrap(z), wtext % e)] + ([(wrap({z: 1}), wtext % ("{%s: 1}" % e))]
                                                 if c08.hashable(z) and (z is ... or type(z).__name__ == "optional") else []):
            ctx.state()
            ctx.trans()
            p = is_plain(w)
            try:
                s = from_native(w)
            except ValueError as exc:
                ctx.trace()
                if p is True and "deep" not in e:
                    ctx.violation("from_native(%s)" % text, "a plain value is refused: %r" % (exc,), repro(
                        "globals().update(zoo_namespace())", "print(from_native(%s))" % text))
                continue
            except Exception as exc:
                ctx.violation("from_native(%s)" % text, "raised %s: %s" % (type(exc).__name__, str(exc)[:300]), repro(
                    "globals().update(zoo_namespace())", "print(from_native(%s))" % text))
                continue
            ctx.trace()
            if p is False:
                ctx.violation("from_native(%s)" % text, "returned %s instead of raising ValueError" % repr(s)[:300], repro(
                    "globals().update(zoo_namespace())", "print(from_native(%s))" % text))
            elif p is True:
                try:
                    if not accepts(s, w):
                        ctx.violation("from_native(%s)" % text, "rejects it: %s" % messages(s, w)[:2], "")
                except Exception as exc:
                    ctx.violation("from_native(%s)" % text, "validating it raised %r" % (exc,), "")
