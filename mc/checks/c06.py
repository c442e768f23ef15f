"""C06: repr(schema) evaluates to an equal schema.

States: schema terms without aliases / custom types (built only through the DSL, +, make_required).
Each text is parsed (names used), evaluated in the documented namespace, and the rebuilt schema is
compared three ways: ==, repr, and verdicts over the values derived from the term (so that a broken ==
or a lossy text that == cannot see is still found).
"""
import ast
import datetime
import itertools as it
import uuid

import d42
from d42 import represent, schema

from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import accepts, declare, repro, show
from ..families import families
from ..fine import fine
from ..terms import (N, Add, AnyT, Bytes, Date, DateTime, Dict, Float, Int, List, MakeRequired, NoneT, Str, Uuid,
                     src)

ASSUMPTIONS = ["dict keys are values whose repr is an expression over literals, UUID and datetime "
               "(not e.g. enum members, or tuples containing inf)"]
BOUNDS = {"quick": "deep leaves, level 1-3 containers + nesting towers up to depth 6 + +/make_required"
          "; fine cases; families",
          "thorough": "deep universe at every level, towers up to depth 12"}
ENV = {"schema": schema, "optional": d42.optional, "UUID": uuid.UUID, "datetime": datetime}

KEYS = ("a", "", 0, 1, -1, True, None, 1.5, b"k", ("t", 2), (), "a b", "a'b\"c\\\n", "é", "\ud800", "optional('a')",
        "...", "schema.int", U.U1, datetime.datetime(2020, 1, 2), datetime.date(2020, 1, 2), 10 ** 30,
        float("inf"), frozenset({1}), (("x",), 1), "{", "%s", "a.b")
STRINGS = ("", "'", '"', "'\"", "\\", "\n", "\t", "\x00", "\x7f", "é", "☃", "\ud800", "\u2028", "{}", "%s", "a'b\"c",
           "\\n", " ", "x" * 300, "#", "𝒳")


def evaluable_key(k):
    return not isinstance(k, (frozenset, type))           # their texts need other names


def towers(depth):
    """every nesting of the container forms up to a depth, one path each"""
    wraps = [lambda t: List("exact", (t,)), lambda t: List("of", (t,)), lambda t: Dict((("k", t, False),)),
             lambda t: Dict((("k", t, True), (1, Int(), False)), True), lambda t: AnyT(t, NoneT()),
             lambda t: List("exact", (..., t, Str("a"), ...)), lambda t: List("exact", (Int(), t, ...), (2, ...))]
    out = []
    for n in range(1, 4):
        for combo in it.product(wraps, repeat=n):
            t = Dict((("a", Int(min=1), True), ("b", List("exact", ()), False)))
            for w in combo:
                t = w(t)
            out.append(t)
    for w in wraps:
        t = Int(1)
        for _ in range(depth):
            t = w(t)
            out.append(t)
    return out


def extra():
    out = [Str(s) for s in STRINGS] + [Str(alphabet=s) for s in STRINGS] + [Str(substr=s) for s in STRINGS]
    out += [Str(pattern=p) for p in ("", "\\d+", "a'b", 'a"b', "\\n", "\n", "[\\]]", "\\\\", "(?P<n>a)|b", "{", "é")]
    out += [Bytes(b) for b in (b"", b"'", b'"', b"\x00\xff\\", b"a" * 100)]
    out += [Dict(((k, Int(), o),), r) for k in KEYS if evaluable_key(k) for o in (0, 1) for r in (0, 1)]
    out += [Dict(((k, Dict(((j, Str(len=2), o),)), p),)) for k in KEYS[:8] for j in KEYS[:8]
            for o in (0, 1) for p in (0, 1)]
    out += [Dict(((k, Int(1), False), (j, Str(), True)), True, first) for k in KEYS[:6] for j in ("z", 7)
            for first in (0, 1)]
    out += [Str(len=ln) for ln in (10 ** 5000, (10 ** 5000, ...), (..., 10 ** 5000), (2, 10 ** 5000))]
    out += [List("of", (Int(),), ln) for ln in (10 ** 5000, (10 ** 5000, ...), (..., 10 ** 5000), (2, 10 ** 5000))]
    out += [DateTime(datetime.datetime(2020, 1, 2)), DateTime(datetime.datetime(1, 1, 1)),
            DateTime(datetime.datetime(9999, 12, 31, 23, 59, 59, 999999)),
            DateTime(datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone.utc)),
            DateTime(datetime.datetime(2020, 1, 2, 3, fold=1)),
            DateTime(datetime.datetime(2020, 1, 2, 3, tzinfo=datetime.timezone(datetime.timedelta(hours=-3)))),
            Date(datetime.date(1, 1, 1)), Uuid(T.U2)]
    for v in (0.1, 1e-7, 1e22, 1e16, 123456789.123456789, 5e-324, 1.7976931348623157e308, -0.0, 1.0, -1e-300,
              float("inf"), float("-inf"), float("nan")):
        out += [Float(v), Float(v, precision=3)]
        if v == v:
            out += [Float(min=v), Float(max=v), Float(v, v, v), Float(min=v, max=v, precision=1)]
    for v in (0, -1, 10 ** 30, 10 ** 5000, -10 ** 5000, True, False):
        out += [Int(v), Int(min=v), Int(max=v), Int(v, v, v)]
    for n in (0, 1, 2, 5):
        for e in ((), (Int(),), (Int(), Str()), (Int(), ...), (..., Int()), (..., Int(), ...), (...,)):
            for ln in (n, (n, ...), (..., n), (n, n), (n, n + 1), (0, n)):
                t = List("exact", e, ln)
                if U.len_declarable(t):
                    out += [t, Dict((("k", t, False),)), List("of", (t,), ln), AnyT(t)]
    d = Dict((("a", Int(), True), ("b", Str("x"), False), (1, Dict((("c", NoneT(), True),)), True)), False)
    r = Dict((("a", Str(), False), ("z", List("of", (d,)), True)), True)
    e = Dict((("q", Int(), True),), True, True)
    for x in (d, r, e, Dict(()), Dict((), True)):
        for y in (d, r, e, Dict(()), Dict((), True)):
            out += [Add(x, y), List("of", (Add(x, y),))]
        out.append(MakeRequired(x))
        ks = [k for k, _, _ in x.items]
        for n in range(0, len(ks) + 1):
            out += [MakeRequired(x, c) for c in it.combinations(ks, n)]
    out += [AnyT(a, b, union=u) for u in (0, 1) for a in (d, List("exact", (d,)), Str("'")) for b in (Int(1), r)]
    out += [AnyT(a, AnyT(b, NoneT()), union=u) for u in (0, 1) for a in (Int(1), AnyT(Str(), Int()), AnyT(d))
            for b in (Str("b"), d)]
    for n in (10, 16, 20, 30, 31, 33, 40, 60, 64, 65, 70, 72, 78, 79, 80, 81, 88, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257,
              500, 512, 513, 1000, 1024, 1025, 4096, 5000):
        w = ("ab " * n)[:n]
        out += [Str(w), Str(alphabet=w), Str(substr=w), Str(pattern=w), Str("\n" * n), Bytes(w.encode()), Bytes(b"\xff" * n),
                Dict(((w, Int(), n % 2),)), Int(10 ** n), Int(min=-10 ** n), Int(max=10 ** n - 1), Str(len=10 ** n),
                List("bare", (), (n, ...)), AnyT(Str(w), Str(w + "a")), Dict((("a", List("exact", (Str(w),)), 0),))]
    out += [List("of", (AnyT(Int(), Str(), union=True),)), AnyT(List("of", (AnyT(Int(1), d),)), r)]
    return out


def domain(t):
    if t.kind in ("alias", "custom"):
        return False
    if t.kind == "dict" and t.items is not N and not all(evaluable_key(k) for k, _, _ in t.items):
        return False
    if t.kind == "any" and any(s.kind == "any" and not s.types for s in t.types) and len(t.types) == 1:
        pass
    return all(domain(s) for s in t.subterms())


def tasks(tier):
    deep = tier == "thorough"
    us = U.everything(True) if deep else U.dedupe(U.leaves(True) + U.extents() + U.level1() + U.level2() + U.level3())
    return families(deep, domain) + fine(deep, domain, light=True) + [t for t in U.dedupe(us + U.scale(deep) + extra() + towers(12 if deep else 6)) if domain(t)]


def task_name(t):
    return src(t)


def names_in(text):
    tree = ast.parse(text, mode="eval")
    return {n.id for n in ast.walk(tree) if isinstance(n, ast.Name)}


def run_task(t, ctx):
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()

    def bad(what, key=""):
        ctx.violation(src(t) + key, what, repro("s = " + src(t), "print(repr(s))", "r = eval(repr(s))",
                                                "print(repr(r)); print(r == s)"))

    text = repr(s)
    ctx.trace()
    if not (text == repr(s) == represent(s) == repr(t.build())):
        return bad("repr is not deterministic: %r / %r" % (text, repr(t.build())))
    try:
        used = names_in(text)
        r = eval(text, dict(ENV))
    except Exception as e:
        return bad("the text does not evaluate (%r): %s" % (e, text[:1500]))
    if used - set(ENV):
        return bad("the text uses other names: %s" % sorted(used - set(ENV)))
    if not (r == s) or not (s == r) or r != s:
        return bad("the text rebuilds a different schema: %s" % text[:1500])
    if repr(r) != text:
        return bad("repr of the rebuilt schema differs: %s / %s" % (text[:1500], repr(r)[:1500]))
    for ind in (2, 8):
        ctx.trace()
        try:
            q = eval(represent(s, indent=ind), dict(ENV))
            if q != s:
                bad("represent(indent=%d) rebuilds a different schema" % ind)
        except Exception as e:
            bad("represent(indent=%d) does not evaluate (%r)" % (ind, e))
    deep_small = t.depth() > 1
    for v in V.derive(t, seqlen=2 if deep_small else 0, generic=not deep_small, wits=2):
        ctx.trans()
        if accepts(s, v) != accepts(r, v):
            return bad("the rebuilt schema judges %s differently" % show(v))
    ctx.sample(text)
