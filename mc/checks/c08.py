"""C08: validation is total.

States: (schema term, witness, position, hostile value).  Every value of a fixed zoo (standard-library
data types, subclasses of built-ins, unusual numbers and texts, opaque objects, cyclic and deep containers)
is validated alone, inside one more container, at every position of witnesses of the term (list element,
inserted element, dict value, extra key, replacing the container), and as pairs of two positions for
representative terms.  Oracle: validate returns a result; has_errors agrees with the list of errors; each
error renders to a non-empty text under several formatters; validate_or_fail returns True iff there are no
errors and otherwise raises ValidationException with one line (entry) per error, in order; format_result
agrees; `==` agrees.
"""
import itertools as it
import re

import th
from d42 import validate
from d42.validation import Formatter, ValidationException, format_result, validate_or_fail

from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import declare, repro
from ..families import families
from ..fine import fine
from ..terms import AnyT, Custom, Dict, Int, List, NoneT, Str, copyv, lit, src

ASSUMPTIONS = ["objects whose own special methods raise are outside the property"]
BOUNDS = {"quick": "level 0-3 universe; every zoo value at every position of 2 witnesses per container term"
          "; fine cases; families",
          "thorough": "deep universe; 4 witnesses; pairs of zoo values at two positions"}

FORMATTERS = (Formatter(), Formatter("root"), Formatter(""))
HUGE = 10 ** 5000


class Slot:
    pass


SLOT = Slot()


def odd_terms():
    keys = [float("nan"), float("inf"), HUGE, T.U1, T.DT1, T.D1, ("a", (1, None)), (float("nan"),), frozenset({1}),
            "\ud800", "", "{}", b"\xff", 1j, (), ("t", HUGE), int, -0.0, V.IE.A, V.StrSub("a"), range(2)]
    out = [Dict(((k, Int(), o),), r) for k in keys for o in (0, 1) for r in (0, 1)]
    out += [Dict(((k, Dict(((j, List("exact", (Int(1), Str("a"))), 0),)), 0),)) for k in keys for j in keys[:5]]
    out += [List("of", (Dict(((k, Int(), False),)),)) for k in keys]
    for v in (HUGE, -HUGE):
        out += [Int(v), Int(min=v), Int(max=v), List("of", (Int(v),)), AnyT(Int(v), Str()), Dict((("a", Int(v), 0),))]
    out += [AnyT(t, NoneT()) for t in (T.Float(V.INF), T.Float(V.NAN), T.Float(1.5, precision=15))]
    out += [T.Float(v, precision=p) for v in (V.INF, -V.INF, V.NAN, 1e308, 1.5) for p in (1, 15)]
    out += [T.Float(min=v) for v in (V.INF, -V.INF, 1e308)] + [T.Float(max=v) for v in (V.INF, -V.INF)]
    out += [Str(len=(HUGE, ...)), Str(len=HUGE), List("bare", (), (HUGE, ...)), List("of", (Int(),), HUGE)]
    out += [Str(s) for s in ("\ud800", "{}", "%s")] + [Str(alphabet="\ud800{}"), Str(substr="\ud800"),
                                                       Str(pattern="^[^\\n]{2}$"), Str(pattern="\\ud800")]
    out += [Custom(t) for t in U.reps1()]
    return out


def tasks(tier):
    deep = tier == "thorough"
    us = U.everything(deep)
    return [("errors", k) for k in range(len(ODD_KEYS))] + many() + families(deep) + fine(deep, light=True) + U.dedupe(odd_terms() + us + (U.scale(True, (11, 65), (9, 16)) if deep else U.scale(False, (11,), (9,))))


ODD_KEYS = ["{}", "{", "}", "{x}", "{0}", "{x!r}", "%s", "%", "%(a)s", "\n", "\r", "'", '"', "'\"", "\\", "\x00", "\ud800", "", " ", "[0]", "_",
            "a" * 500, "<", "&", "\u202e", "$a", "\t", 0, -1, True, None, 1.5, (), ("{}",), b"{", b"\xff", T.U1, T.D1, T.DT1, HUGE, 1j, int]


def provoked(x):
    """(term, value) for every class of error; x is a text put into every text constraint and value"""
    i, a = Int(1), Str("a")
    ts = x if isinstance(x, str) else "t"
    return [
        (Int(), x), (Str(), 1), (NoneT(), x), (T.Bool(), x), (Dict(()), x), (List(), x), (T.Float(), x), (T.Uuid(), x), (T.DateTime(), x),
        (T.Date(), x), (T.Bytes(), x),
        (i, 2), (Str(ts), ts + "y"), (T.Bytes(b"{"), b"}"), (T.Bool(True), False), (T.Float(1.5), 2.5), (T.Uuid(T.U1), T.U2), (T.Date(T.D1), T.D2),
        (T.DateTime(T.DT1), T.DT2), (Int(min=3), 1), (Int(max=3), 5), (T.Float(min=3.0), 1.0), (T.Float(max=3.0), 5.0),
        (Str(len=1001), ts), (Str(len=(1001, ...)), ts), (Str(len=(..., 0)), ts + "y"), (Str(alphabet=ts), ts + "\u2603\u2604"),
        (Str(substr=ts + "\u2603"), ts), (Str(pattern="^" + re.escape(ts) + "\u2603$"), ts), (T.Uuid(), V.U_V1),
        (List("of", (i,)), [ts, x]), (List("exact", (i, i)), []), (List("exact", (a, ...)), [x]), (List("exact", (..., a)), [x]),
        (List("exact", (..., a, ...)), [x, x]), (List("exact", (..., i, a, ...)), [1]), (List("exact", (i,)), [1, x, x]),
        (List("bare", (), 3), [x]), (List("of", (i,), (2, ...)), [1]), (List("of", (i,), (..., 1)), [1, 1]),
        (Dict((("k", i, False),)), {}), (Dict((("k", i, True),)), {"z": x, ts: x}), (AnyT(i, a), x), (AnyT(i, a), ts),
        (AnyT(Dict(((ts, i, False),)), i), {ts: x}), (T.Alias("T", i), x), (T.Alias("T", AnyT(i, a)), x)]


def run_errors(k, ctx):
    """every class of error at every kind of path, with texts that mean something to formatters"""
    key = ODD_KEYS[k]
    for t, v in provoked(key):
        for w, f in ((t, lambda z: z), (Dict(((key, t, False),)), lambda z: {key: z}),
                     (Dict(((key, Dict((("a", List("of", (Dict(((key, t, False),)),)), False),)), True),)), lambda z: {key: {"a": [{key: z}]}}),
                     (List("of", (Dict(((key, t, True),), True),)), lambda z: [{key: z, "o": 1}, {key: z}])):
            s = declare(ctx, w)
            if s is None:
                continue
            ctx.state()
            judge(w, s, f(v), ctx, lambda: lit(f(v)))
            judge(w, s, f(key), ctx, lambda: lit(f(key)))
            judge(w, s, f([v, {key: v}]), ctx, lambda: lit(f([v, {key: v}])))


def many():
    """one validation with n errors"""
    return [(k, n) for n in (2, 3, 5, 8, 9, 10, 11, 16, 17, 20, 21, 32, 33, 49, 50, 51, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257,
                             500, 501, 999, 1000, 1001) for k in range(8)]


def run_many(k, n, ctx):
    i, a = Int(1), Str("a")
    t, v = (
        (List("of", (i,)), lambda: ["x"] * n),
        (List("of", (AnyT(i, a),)), lambda: list(range(2, n + 2))),
        (List("exact", (i,) * n), lambda: [None] * n),
        (List("exact", (i, a, ...)), lambda: ["b%d" % j for j in range(n)]),
        (Dict(()), lambda: {"k%d" % j: j for j in range(n)}),
        (Dict(tuple(("k%d" % j, i, False) for j in range(n))), lambda: {}),
        (Dict(tuple(("k%d" % j, Dict((("b", a, False),)), False) for j in range(n))), lambda: {"k%d" % j: {"b": j, "c": 1} for j in range(n)}),
        (List("of", (List("of", (i,)),)), lambda: [[0], [1]] * n),
    )[k]
    s = declare(ctx, t)
    ctx.state()
    judge(t, s, v(), ctx, lambda: lit(v()))


def task_name(t):
    return ("errors under %r" % (ODD_KEYS[t[1]],) if t[0] == "errors" else "%d errors" % t[1]) if isinstance(t, tuple) else src(t)


def slots(v, depth=0):
    """v with SLOT at one position: replacing, inserted, under an extra key"""
    yield SLOT
    if type(v) is list:
        n = len(v)
        some = range(n) if n <= 5 else (0, 1, n // 2, n - 1)
        for i in some:
            for y in slots(v[i], depth + 1):
                yield copyv(v[:i]) + [y] + copyv(v[i + 1:])
        for i in sorted({0, n // 2, n}):
            yield copyv(v[:i]) + [SLOT] + copyv(v[i:])
    elif type(v) is dict:
        for k in v:
            for y in slots(v[k], depth + 1):
                yield {j: (y if j == k else copyv(x)) for j, x in v.items()}
        yield {**copyv(v), "xtra": SLOT}


def fill(p, z):
    if p is SLOT:
        return z
    if type(p) is list:
        return [fill(x, z) for x in p]
    if type(p) is dict:
        return {k: fill(x, z) for k, x in p.items()}
    return p


def text_of(p, ztext):
    if p is SLOT:
        return ztext
    if type(p) is list:
        return "[" + ", ".join(text_of(x, ztext) for x in p) + "]"
    if type(p) is dict:
        return "{" + ", ".join(lit(k) + ": " + text_of(x, ztext) for k, x in p.items()) + "}"
    return lit(p)


def judge(t, s, v, ctx, text):
    """text: function giving the source of the value"""
    ctx.trans()

    def bad(what):
        ctx.violation(src(t)[:1500] + " <- " + text()[:1500], what, repro(
            "globals().update(zoo_namespace())", "s = " + src(t), "v = " + text(), "r = validate(s, v)",
            "print([e.format(Formatter()) for e in r.get_errors()])", "print(format_result(r))",
            "print(validate_or_fail(s, v))"))

    step = "validate"
    try:
        r = validate(s, v)
        step = "get_errors"
        errs = list(r.get_errors())
        if bool(r.has_errors()) != bool(errs):
            return bad("has_errors() and get_errors() disagree")
        texts = []
        for e in errs:
            for f in FORMATTERS:
                step = "rendering %s" % type(e).__name__
                m = e.format(f)
                if not isinstance(m, str) or not m.strip():
                    return bad("%s renders to %r" % (type(e).__name__, m))
                if f is FORMATTERS[0]:
                    texts.append(m)
        step = "format_result"
        lines = format_result(r)
        if errs and (len(lines) != len(errs) + 1 or any(m not in ln for m, ln in zip(texts, lines[1:]))):
            return bad("format_result gives %r for %r" % (lines, texts))
        if not errs and lines:
            return bad("format_result gives %r without errors" % (lines,))
        step = "=="
        if (s == v) is not (not errs) and not hasattr(v, "__accept__"):
            return bad("== says %r, validate reports %d errors" % (s == v, len(errs)))
        step = "validate_or_fail"
        try:
            got = validate_or_fail(s, v)
            if got is not True or errs:
                return bad("validate_or_fail returned %r with %d errors" % (got, len(errs)))
        except ValidationException as e:
            if not errs:
                return bad("validate_or_fail raised without errors: %s" % e)
            msg = str(e)
            at = 0
            for m in texts:
                j = msg.find(m, at)
                if j < 0:
                    return bad("the exception %r lacks the error %r (in order)" % (msg, m))
                at = j + len(m)
            if not any("\n" in m for m in texts):
                n = len([ln for ln in msg.split("\n") if ln.strip()])
                if n != len(texts):
                    return bad("%d errors but %d lines: %r" % (len(texts), n, msg))
            if len(set(texts)) == len(texts) and any(msg.count(m) > 1 and not any(
                    m in o and o is not m for o in texts) for m in texts):
                return bad("an error is repeated in %r" % msg)
        step = "validate under a path"
        validate(s, v, path=th.PathHolder()["p"][0])
    except Exception as e:
        return bad("%s raised %r" % (step, e))
    ctx.trace()
    ctx.count("failing" if errs else "passing")


ZOO = []


def zoo():
    if not ZOO:
        ZOO.extend(V.zoo())
    return ZOO


WRAPS = (("[%s]", lambda z: [z]), ("{'a': %s}", lambda z: {"a": z}), ("(%s,)", lambda z: (z,)),
         ("[1, {'b': %s}]", lambda z: [1, {"b": z}]))


def hashable(z):
    try:
        hash(z)
        return True
    except Exception:
        return False


def run_task(t, ctx):
    if isinstance(t, tuple):
        return run_errors(t[1], ctx) if t[0] == "errors" else run_many(*t, ctx)
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()
    if hasattr(t, "case"):
        for v in V.derive(t):
            judge(t, s, v, ctx, lambda: lit(v))
        return
    for e, z in zoo():
        judge(t, s, z, ctx, lambda: e)
        if t.depth() == 1 and len(src(t)) > 24:
            continue
        for w, f in WRAPS:
            judge(t, s, f(z), ctx, lambda: w % e)
        if hashable(z):
            judge(t, s, {z: 1}, ctx, lambda: "{%s: 1}" % e)
            judge(t, s, [{z: {z: 1}}], ctx, lambda: "[{%s: {%s: 1}}]" % (e, e))
    if t.depth() == 1:
        for v in V.derive(t, generic=False):
            judge(t, s, v, ctx, lambda: lit(v))
        return
    seen = set()
    for w in t.wit()[:1] + t.wit()[-1:] + (t.wit()[1:4] if ctx.deep else []):
        for p in slots(w):
            k = text_of(p, "$")
            if k in seen or p is SLOT:
                continue
            seen.add(k)
            if len(seen) > (60 if ctx.deep else 9):
                break
            for e, z in zoo():
                judge(t, s, fill(p, z), ctx, lambda: text_of(p, e))
        if type(w) is dict:
            for e, z in zoo():
                if hashable(z) and z not in w:
                    judge(t, s, {**copyv(w), z: 1}, ctx, lambda: "{**%s, %s: 1}" % (lit(w), e))
    ctx.sample(src(t)[:300])
    if ctx.deep and t.kind in ("list", "dict") and len(src(t)) < 90:
        w = (t.wit() or [None])[0]
        ps = [p for p in slots(w) if p is not SLOT][:6]
        for p, (e1, z1), (e2, z2) in it.product(ps, zoo()[::3], zoo()[1::3]):
            v = fill(p, z1)
            if type(v) is list:
                v = v + [z2]
            elif type(v) is dict:
                v = {**v, "b": z2}
            judge(t, s, v, ctx, lambda: "%s + %s" % (text_of(p, e1), e2))
