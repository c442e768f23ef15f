"""C15: equality between schemas is structural; schema == value means the value validates.

* pairs: every schema of the universe against an independent build of every schema: symmetry, != is the negation,
  rebuilds are equal, equal schemas have the same equals (transitivity) and give the same verdicts over the values
  derived from both.  The contrapositive of the last is the discrimination clause: two schemas told apart by a
  value must be unequal.
* variants: every single change (parameter, key, optional flag, element, alternative, ..., relaxed marker, len) at
  every position of nested schemas, compared with the original in both directions.
* values: schema == value against validate(), with derived values and the hostile zoo.
"""
import itertools as it
import math
from datetime import datetime, timedelta, timezone

from d42.declaration import Schema
from d42.declaration.types import DictSchema, IntSchema, ListSchema

from .. import terms as T
from .. import fine as F
from .. import universe as U
from .. import values as V
from ..common import accepts, declare, repro, show
from ..terms import (D1, D2, DT1, DT2, N, U1, U2, Add, Alias, AnyT, Bool, Bytes, Custom, Date, DateTime, Dict, Float, Int, List,
                     MakeRequired, NoneT, Str, Uuid, lit, src)
from .c06 import towers

ASSUMPTIONS = ["what a schema accepts is observed over the values derived from both schemas of a pair",
               "validations that raise (C08) have no verdict to compare with"]
BOUNDS = {"quick": "all pairs of the level 0-2 universe (about 3,000 schemas), all single changes of 700 nested schemas, "
                   "rows of 5-131 members changed at every place (sampled places beyond 40), "
                   "zoo and derived values against every third schema"
          "; near declarations of every pool value",
          "thorough": "all pairs of the deep universe of levels 0-3; all variants of every nested schema; all values"}


def extra():
    tz = timezone(timedelta(hours=3))
    out = [DateTime(DT1), DateTime(DT2), DateTime(datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone.utc)),
           DateTime(datetime(2020, 1, 2, 6, 4, 5, tzinfo=tz)), Date(D2), Uuid(U2), Bytes(b"ba"), Bytes(b"abc"),
           Float(0.1), Float(0.30000000000000004), Float(0.3), Float(0.3, precision=2), Float(0.3, precision=1), Float(-0.0), Float(0.0),
           Float(math.inf), Float(-math.inf), Float(math.nan), Float(max=-math.inf), Float(min=math.inf), Float(1.0), Int(1), Int(True),
           Bool(True), Int(10 ** 400), Int(10 ** 400 + 1), Float(1e308), Str("1"), Str("é"), Str("e\u0301"), Str("\u00e9a"),
           Str(alphabet="ab"), Str(alphabet="ba"), Str(alphabet="aab"), Str(pattern="a+"), Str(pattern="a*"), Str(pattern="(a)+"),
           Str(len=(2, 2)), Str(len=2), Str(len=(..., 0)), Str(len=0), Str(substr=""), Str(substr="a"), Str(substr="A"),
           List("bare", (), (2, 2)), List("bare", (), 2), List("exact", ()), List("exact", (...,)), List("of", (AnyT(),)),
           Dict(), Dict(()), Dict((), True), AnyT(), AnyT(AnyT(), Int()), AnyT(Int(), AnyT()), AnyT(Int()), AnyT(Str()),
           AnyT(Int(), Str()), AnyT(Str(), Int()), AnyT(Int(), Int()), AnyT(AnyT(Int(), Str()), NoneT()),
           AnyT(Int(), AnyT(Str(), NoneT())), AnyT(Int(), Str(), NoneT()), AnyT(Alias("A", AnyT(Int(), Str())), NoneT()),
           Alias("A", Int()), Alias("A", Str()), Alias("B", Int()), Alias("A", AnyT()), Alias("A", Alias("A", Int())),
           Custom(Int()), Custom(Str()), Custom(Int(1)), Custom(Custom(Int())), Custom(AnyT()), Custom(NoneT())]
    d = [Dict((("a", Int(), o),), r) for o in (0, 1) for r in (0, 1)] + [Dict((("b", Int(), False), ("a", Str(), True)))]
    d += [Dict((("a", Str(), True), ("b", Int(), False))), Dict((("b", Int(), True), ("a", Str(), True)))]
    out += d + [Add(x, y) for x in d for y in d] + [MakeRequired(x) for x in d] + [MakeRequired(x, ("a",)) for x in d]
    out += [Dict(((k, Int(), o),)) for k in (1, True, 1.0, "1", None, "None", b"a", "a", ("a",), "...", "optional('a')", 0, False, "")
            for o in (0, 1)]
    # a member schema that accepts the markers (..., Nil) a comparison may meet in its place
    out += U.list_terms([AnyT(), AnyT(Int(), AnyT()), Alias("A", AnyT())], [N, 1, 2], 2) + U.list_terms([AnyT(), Custom(AnyT())], [N], 3)
    out += U.dict_terms([AnyT(), Alias("A", AnyT())], ("a", "b"), 1) + [Dict((("a", AnyT(), o),), r) for o in (0, 1) for r in (0, 1)]
    out += [Dict(((k, x, o), ("z", Int(), p))) for k in ("a", "b") for x in (Int(), Int(1), Str()) for o in (0, 1) for p in (0, 1)]
    return out


def pair_universe(deep):
    out = extra() + U.leaves(deep) + U.level1(deep) + U.level2(deep) + (U.level3(deep) if deep else U.level3()[::2])
    out += U.extents()[::1 if deep else 4] + U.choices()[::2 if deep else 9] + U.scale(False, (17, 30), (7,))[::1 if deep else 3]
    out += [t for t in towers(5)[::9 if not deep else 2]]
    return U.dedupe(out)


def variant_terms(deep):
    # two cooperating levels: a container of containers, all element kinds
    out = U.level2(deep)[::1 if deep else 3] + U.level3(deep)[::1 if deep else 3] + towers(4)[::5 if not deep else 1]
    r = extra()[:75]
    out += [f(x) for x in r for f in (lambda t: List("of", (t,)), lambda t: List("exact", (Int(), t, ...)),
                                      lambda t: Dict((("k", t, True), ("l", Int(), False))), lambda t: AnyT(NoneT(), t),
                                      lambda t: Alias("V", t), lambda t: Custom(t), lambda t: List("exact", (..., t, t, ...)))]
    return U.dedupe(out)


def tasks(tier):
    deep = tier == "thorough"
    n = len(pair_universe(deep))
    step = 12
    out = [("pairs", i, min(i + step, n)) for i in range(0, n, step)]
    m = len(variant_terms(deep))
    out += [("variants", i, min(i + 4, m)) for i in range(0, m, 4)]
    out += [("values", i, min(i + 8, n)) for i in range(0, n, 8 if deep else 24)]
    out += [("fine", k, i) for k in [*F.CLASS, "patterns", "keys"] for i in range(0, len({"patterns": F.PATTERNS, "keys": F.KEYS}.get(k) or F.POOL[k]), 3)]
    return out + [("user", 0, 0), ("deep", 0, 0)] + [("wide", n, 0) for n in ((5, 9, 17, 34, 66, 131) if not deep else (*range(3, 40), 65, 66, 101, 129, 131, 257))]


def task_name(t):
    return repr(t)


_C = {}


def run_task(task, ctx):
    if not _C:
        terms = pair_universe(ctx.deep)
        _C["pairs"] = [(t, s) for t in terms for s in [declare(ctx, t)] if s is not None]
        _C["variants"] = variant_terms(ctx.deep)
        ctx.counts.pop("refused_declarations", None)
    globals()["do_" + task[0]](ctx, task[1], task[2])


def cmp(a, b, ctx, text, both=True):
    """the verdict of a == b, with symmetry and negation"""
    ctx.trans()
    r = a == b
    if r is not True and r is not False:
        ctx.violation("%s" % text(), "== gives %r" % (r,), repro("print(%s)" % text()))
        return bool(r)
    if (a != b) is r:
        ctx.violation("%s" % text(), "== gives %r and != gives the same" % r, repro("print(%s)" % text(), "print(%s)" % text().replace(") == (", ") != (", 1)))
    if both and (b == a) is not r:
        ctx.violation("%s" % text(), "== gives %r, with the operands exchanged %r" % (r, not r), repro(
            "print(%s)" % text(), "print((%s) == (%s))" % tuple(reversed(text()[1:-1].split(") == (", 1)))))
    return r


def verdict(s, v):
    try:
        return accepts(s, v)
    except Exception:
        return None


_VALS = {}


def values_of(t):
    k = src(t)
    if k not in _VALS:
        if len(_VALS) > 400:
            _VALS.clear()
        _VALS[k] = V.derive(t, 2, generic=True, wits=2)
    return _VALS[k]


def agree(ctx, t, s, u, r, text):
    """equal schemas: same verdicts on everything derived from either"""
    for v in values_of(t) + (values_of(u) if src(u) != src(t) else []):
        ctx.trans()
        a, b = verdict(s, v), verdict(r, v)
        if a is not b and None not in (a, b):
            ctx.violation(text, "equal, but %s is accepted by one of them only" % show(v), repro(
                "a, b = %s, %s" % (src(t), src(u)), "v = " + show(v), "print(a == b, validate(a, v).get_errors(), validate(b, v).get_errors())"))
            return
        ctx.trace()


def do_pairs(ctx, lo, hi):
    pool = _C["pairs"]
    for i in range(lo, min(hi, len(pool))):
        t, _ = pool[i]
        s = t.build()                       # an independent build
        ctx.state()

        def equals(x, k=None):
            return [j for j, (u, r) in enumerate(pool) if cmp(
                x, r, ctx, lambda: "(%s) == (%s)" % (src(t if k is None else pool[k][0]), src(u)), k is None)]
        eq = equals(s)
        if i not in eq:
            ctx.violation("(%s) == (%s)" % (src(t), src(t)), "two builds of one declaration are unequal", repro(
                "print(%s == %s)" % (src(t), src(t))))
        if not cmp(s, s, ctx, lambda: "x == x for x = %s" % src(t)):
            ctx.violation("x == x for x = %s" % src(t), "not reflexive", repro("x = %s" % src(t), "print(x == x)"))
        for j in eq:
            u, r = pool[j]
            agree(ctx, t, s, u, r, "(%s) == (%s)" % (src(t), src(u)))
            ctx.count("equal_pairs")
            if j != i and j > i:
                other = equals(r, j)
                if other != eq:
                    k = sorted(set(other) ^ set(eq))[0]
                    ctx.violation("(%s) == (%s), third %s" % (src(t), src(u), src(pool[k][0])), "not transitive", repro(
                        "a, b, c = %s, %s, %s" % (src(t), src(u), src(pool[k][0])), "print(a == b, b == c, a == c)"))
    ctx.sample("%s against %d schemas" % (src(pool[lo][0])[:200] if lo < len(pool) else "-", len(pool)))


def scalar_variants(t):
    def others(cls, **pools):
        for f, pool in pools.items():
            for x in pool:
                a = {g: getattr(t, g) for g in t._f}
                a[f] = x
                if a != {g: getattr(t, g) for g in t._f}:
                    yield cls(**a)
    if t.kind == "int":
        yield from others(Int, value=(N, 0, 1, 2), min=(N, 0, 1, -2), max=(N, 0, 5, 6))
    elif t.kind == "float":
        yield from others(Float, value=(N, 0.0, 1.5, 1.25), min=(N, 0.0, 0.5), max=(N, 2.5, 3.0), precision=(N, 1, 2))
    elif t.kind == "str":
        yield from others(Str, value=(N, "", "a", "ab"), len=(N, 0, 1, 2, (1, ...), (..., 2), (1, 3)), alphabet=(N, "a", "ab", ""),
                          substr=(N, "a", "b", ""), pattern=(N, "a", "a+", ""))
    elif t.kind in ("bool", "bytes", "uuid4", "datetime", "date"):
        pool = {"bool": (True, False), "bytes": (b"", b"ab"), "uuid4": (U1, U2), "datetime": (DT1, DT2), "date": (D1, D2)}[t.kind]
        for x in (N,) + pool:
            if x is N or x != t.value:
                yield type(t)(x)
    for x in (NoneT(), Int(), Str(), AnyT(), Bool(), Dict(), List()):
        if src(x) != src(t):
            yield x


def variants(t):
    """every schema that differs from t in one place"""
    k = t.kind
    if k == "list":
        for x in (N, 0, 1, 2, 3, (0, ...), (1, ...), (..., 0), (..., 2), (..., 3), (1, 2), (2, 2)):
            if x != t.len or (x is N) != (t.len is N):
                yield List(t.form, t.items, x)
        el = t.items
        if t.form == "exact":
            for i, x in enumerate(el):
                yield List("exact", el[:i] + el[i + 1:], t.len)
                if x is not ...:
                    yield List("exact", el[:i] + (x,) + el[i:], t.len)
                    for y in variants(x):
                        yield List("exact", el[:i] + (y,) + el[i + 1:], t.len)
                    yield List("exact", el[:i] + (Alias("W", x),) + el[i + 1:], t.len)
            for i in range(len(el) - 1):
                yield List("exact", el[:i] + (el[i + 1], el[i]) + el[i + 2:], t.len)
            yield List("exact", (...,) + el, t.len)
            yield List("exact", el + (...,), t.len)
            yield List("bare", (), t.len)
            if len(el) == 1 and el[0] is not ...:
                yield List("of", el, t.len)
        elif t.form == "of":
            yield List("exact", el, t.len)
            yield List("exact", el + (...,), t.len)
            yield List("bare", (), t.len)
            for y in variants(el[0]):
                yield List("of", (y,), t.len)
        else:
            yield List("of", (AnyT(),), t.len)
            yield List("of", (Int(),), t.len)
            yield List("exact", (), t.len)
            yield List("exact", (...,), t.len)
        yield Dict()
    elif k in ("dict", "add", "required"):
        t = T.strip(t)
        if t.items is N:
            yield from (Dict(()), Dict((), True), Dict((("a", Int(), True),)), List())
            return
        yield Dict(t.items, not t.relaxed, t.first)
        yield Dict()
        for i, (key, x, o) in enumerate(t.items):
            def put(*new):
                return Dict(t.items[:i] + new + t.items[i + 1:], t.relaxed, t.first)
            yield put()
            yield put((key, x, not o))
            for nk in ("qq", None, ("a",)):
                if all(nk != j for j, _, _ in t.items):
                    yield put((nk, x, o))
                    yield put((key, x, o), (nk, x, o))
            for y in variants(x):
                yield put((key, y, o))
        for i, j in it.combinations(range(len(t.items)), 2):
            (k1, x1, o1), (k2, x2, o2) = t.items[i], t.items[j]
            for a, b in (((k1, x2, o1), (k2, x1, o2)), ((k1, x1, o2), (k2, x2, o1))):
                its = list(t.items)
                its[i], its[j] = a, b
                yield Dict(its, t.relaxed, t.first)
    elif k == "any":
        ty = t.types
        for i, x in enumerate(ty):
            if len(ty) > 1:
                yield AnyT(*ty[:i] + ty[i + 1:])
            for y in variants(x):
                yield AnyT(*ty[:i] + (y,) + ty[i + 1:])
            yield AnyT(*ty[:i] + (x, x) + ty[i + 1:])
        yield AnyT(*ty + (Str("zz"),))
        yield AnyT(*ty[::-1])
        if ty:
            yield AnyT()
            if len(ty) == 1:
                yield ty[0]
        else:
            yield Int()
    elif k == "alias":
        yield Alias(t.name + "x", t.target)
        yield t.target
        for y in variants(t.target):
            yield Alias(t.name, y)
    elif k == "custom":
        yield t.target
        for y in variants(t.target):
            yield Custom(y)
    else:
        yield from scalar_variants(t)


def do_variants(ctx, lo, hi):
    from d42.declaration.errors import DeclarationError
    for t in _C["variants"][lo:hi]:
        s = declare(ctx, t)
        if s is None:
            continue
        ctx.state()
        seen = set()
        for u in variants(t):
            k = src(u)
            if k in seen:
                continue
            seen.add(k)
            try:
                r = u.build()
            except DeclarationError:
                continue
            text = "(%s) == (%s)" % (src(t), k)
            if cmp(s, r, ctx, lambda: text):
                ctx.count("equal_variants")
                agree(ctx, t, s, u, r, text)
            ctx.trace()
    ctx.sample("variants of %s" % src(t)[:300])


def do_values(ctx, lo, hi):
    zoo = V.zoo()
    for t, s in _C["pairs"][lo:hi]:
        ctx.state()
        vals = [(None, v) for v in V.derive(t, 2, wits=2)] + zoo + [("[%s]" % e, [z]) for e, z in zoo] + [
            ("{'a': %s}" % e, {"a": z}) for e, z in zoo]
        for e, v in vals:
            ctx.trans()
            if isinstance(v, Schema):
                continue
            want = verdict(s, v)
            if want is None:
                continue
            try:
                got, neg = s == v, s != v
            except Exception as exc:
                got = neg = repr(exc)[:200]
            ctx.trace()
            if got is not want or neg is want:
                e = e or show(v)
                ctx.violation("(%s) == %s" % (src(t), e), "== gives %s, != gives %s, the value %s" % (
                    got, neg, "validates" if want else "does not validate"), repro(
                        "globals().update(zoo_namespace())", "s, v = %s, %s" % (src(t), e), "print(s == v, s != v, validate(s, v).get_errors())"))
                break
            if type(v) in (type(None), int, str, list, dict, bool, float) and e is None and (v == s) is not want:
                ctx.violation("%s == (%s)" % (show(v), src(t)), "value == schema gives %s" % (not want), repro(
                    "print(%s == %s)" % (show(v), src(t))))
                break


def do_user(ctx, *_):
    """schema types of the user: subclasses of built-in types next to the built-in ones"""
    class MyInt(IntSchema):
        pass

    class MyIntToo(IntSchema):
        pass

    class MyDict(DictSchema):
        pass

    class MyList(ListSchema):
        pass

    def make(cls, *a):
        p = cls.__orig_bases__ if hasattr(cls, "__orig_bases__") else None
        return cls(cls.__mro__[1]().props if p is not None else None)

    objs = [(n, f()) for n, f in [
        ("IntSchema()", IntSchema), ("MyInt()", lambda: make(MyInt)), ("MyIntToo()", lambda: make(MyIntToo)),
        ("MyInt()(1)", lambda: make(MyInt)(1)), ("IntSchema()(1)", lambda: IntSchema()(1)), ("MyInt().min(1)", lambda: make(MyInt).min(1)),
        ("DictSchema()", DictSchema), ("MyDict()", lambda: make(MyDict)), ("MyDict()({'a': MyInt()})", lambda: make(MyDict)({"a": make(MyInt)})),
        ("DictSchema()({'a': MyInt()})", lambda: DictSchema()({"a": make(MyInt)})), ("DictSchema()({'a': IntSchema()})", lambda: DictSchema()({"a": IntSchema()})),
        ("ListSchema()([MyInt()])", lambda: ListSchema()([make(MyInt)])), ("ListSchema()([IntSchema()])", lambda: ListSchema()([IntSchema()])),
        ("ListSchema()(MyInt())", lambda: ListSchema()(make(MyInt))), ("ListSchema()(IntSchema())", lambda: ListSchema()(IntSchema())),
        ("MyList()", lambda: make(MyList)), ("MyInt() | IntSchema()", lambda: make(MyInt) | IntSchema()), ("IntSchema() | MyInt()", lambda: IntSchema() | make(MyInt)),
        ("IntSchema() | IntSchema()", lambda: IntSchema() | IntSchema())]]
    n = len(objs)
    m = [[cmp(a, b, ctx, lambda: "(%s) == (%s)" % (ta, tb)) for tb, b in objs] for ta, a in objs]
    for i in range(n):
        ctx.state()
        if not m[i][i]:
            ctx.violation("x == x for x = %s" % objs[i][0], "not reflexive", "")
        for j in range(n):
            if m[i][j] and m[i] != m[j]:
                ctx.violation("(%s) == (%s)" % (objs[i][0], objs[j][0]), "not transitive", "")
            ctx.trace()


def do_deep(ctx, *_):
    """tall schemas: the comparison ends, and sees a change at the bottom"""
    for wrap, up in ((lambda t: List("of", (t,)), lambda v: [v]), (lambda t: List("exact", (t, ...)), lambda v: [v]),
                     (lambda t: Dict((("k", t, False),)), lambda v: {"k": v}),
                     (lambda t: Dict((("k", t, True), ("l", Int(), True)), True), lambda v: {"k": v}),
                     (lambda t: Alias("A", t), lambda v: v), (lambda t: Custom(t), lambda v: v),
                     (lambda t: List("exact", (..., AnyT(t, NoneT()), ...)), lambda v: [v])):
        for depth in (5, 12, 20):
            a, b, va, vb = Int(1), Int(2), 1, 2
            for _ in range(depth):
                a, b, va, vb = wrap(a), wrap(b), up(va), up(vb)
            A, A2, B = a.build(), a.build(), b.build()
            text = "(%s) == (%s)" % (src(a), src(b))
            ctx.state()
            if not cmp(A, A2, ctx, lambda: text):
                ctx.violation("rebuild of " + src(a), "two builds of one declaration are unequal", repro("print(%s == %s)" % (src(a), src(a))))
            apart(ctx, A, B, [va, vb], text)
            ctx.trace()


def apart(ctx, A, B, values, text):
    """if one of the values tells the two apart they are unequal"""
    r = cmp(A, B, ctx, lambda: text)
    for v in values:
        a, b = verdict(A, v), verdict(B, v)
        if r and a is not b and None not in (a, b):
            ctx.violation(text, "equal, but told apart by %s" % show(v)[:300], repro("print(%s)" % text))
            return


FORMS = {"str": [lambda x: Str(x), lambda x: Str(substr=x), lambda x: Str(alphabet=x), lambda x: List("exact", (Str(x), ...)), lambda x: Dict((("k", Str(substr=x), True),), True)],
         "int": [lambda x: Int(x), lambda x: Int(min=x), lambda x: Int(max=x), lambda x: AnyT(NoneT(), Int(x))],
         "float": [lambda x: Float(x), lambda x: Float(min=x), lambda x: Float(max=x), lambda x: Float(x, precision=2), lambda x: List("of", (Float(x),))]}
UPS = {"str": [lambda v: v] * 3 + [lambda v: [v], lambda v: {"k": v}], "float": [lambda v: v] * 4 + [lambda v: [v]]}


def do_fine(ctx, kind, lo):
    """two declarations whose parameter differs in one small respect"""
    if kind == "keys":
        for k in F.KEYS[lo:lo + 3]:
            for j in F.nearer(k) + [j for j in F.KEYS if lit(j) != lit(k)]:
                for o, r in ((False, False), (True, True)):
                    x, y = Dict(((k, Int(), o),), r), Dict(((j, Int(), o),), r)
                    between(ctx, x, y, [{k: 1}, {j: 1}, {k: "x"}, {j: "x"}, {}])
                    between(ctx, Dict(((k, Int(), o), (j, Str(), o))), Dict(((k, Str(), o), (j, Int(), o))), [{k: 1, j: "x"}, {k: "x", j: 1}])
        return
    if kind == "patterns":
        for p in F.PATTERNS[lo:lo + 3]:
            vals = F.texts_for(p)
            for q in F.PATTERNS:
                between(ctx, Str(pattern=p), Str(pattern=q), vals)
        return
    cls = F.CLASS[kind]
    pool = [v for v in F.POOL[kind] if kind != "uuid4" or v.version == 4]
    for v in pool[lo:lo + 3]:
        mates = [w for w in F.nearer(v) + pool if type(w) is type(v) and (kind != "uuid4" or w.version == 4)]
        for n, form in enumerate(FORMS.get(kind, [cls, lambda x: List("of", (cls(x),))])):
            up = UPS[kind][n] if kind in UPS else (lambda x: [x]) if n and kind not in FORMS else lambda x: x
            for w in mates:
                more = [up(v), up(w)]
                if kind == "str" and n in (2, 3):
                    more += [up(c) for c in {*v[:3], *v[-1:], *w[:3], *w[-1:]}]
                between(ctx, form(v), form(w), more)


def between(ctx, x, y, vals):
    A, B = declare(ctx, x), declare(ctx, y)
    if A is None or B is None:
        return
    ctx.state()
    apart(ctx, A, B, vals, "(%s) == (%s)" % (src(x), src(y)))
    ctx.trace()


def do_wide(ctx, n, _):
    """rows of n members, with one of them changed at every place"""
    row = list(range(n))
    word = "".join(chr(0x100 + i) for i in row)

    def put(seq, i, *x):
        return tuple(seq[:i]) + x + tuple(seq[i + 1:])

    def texts(i):
        yield Str, word, put(word, i, "z"), word
        yield lambda x: Str(alphabet=x), word, put(word, i, "z"), word[i]
        yield lambda x: Str(alphabet=x), word, put(word, i), word[i]
        yield lambda x: Str(substr=x), word, put(word, i, "z"), word
        yield lambda x: Str(pattern=x), word, put(word, i, "z"), word
    members = tuple(Int(i) for i in row)
    keys = tuple(("k%d" % i, Int(i), False) for i in row)
    whole = {"k%d" % i: i for i in row}
    wraps = [lambda t: t, lambda t: List("of", (t,)), lambda t: AnyT(t, NoneT()), lambda t: Dict((("w", t, True),))]
    ups = [lambda v: v, lambda v: [v], lambda v: v, lambda v: {"w": v}]
    places = range(n) if n <= 40 or ctx.deep else sorted({*range(0, n, 7), *range(n - 3, n), *(x + d for x in (16, 32, 64, 100, 128) for d in (-1, 0, 1) if x + d < n)})
    for i in places:
        less = {k: v for k, v in whole.items() if k != "k%d" % i}
        pairs = []
        for form in (lambda e: List("exact", e), lambda e: List("exact", e + (...,)), lambda e: List("exact", (...,) + e),
                     lambda e: List("exact", (...,) + e + (...,))):
            pairs += [(form(members), form(put(members, i, Int(-1))), [row]), (form(members), form(put(members, i)), [row, row[:i] + row[i + 1:]]),
                      (form(members), form(put(members, i, Int())), [row[:i] + [-5] + row[i + 1:]])]
        pairs += [(AnyT(*members), AnyT(*put(members, i, Int(-1))), [i, -1]), (AnyT(*members), AnyT(*put(members, i, Str(str(i)))), [i]),
                  (AnyT(*put(members, i, NoneT(), Int(i))), AnyT(*members), [None])]
        for r in (False, True):
            pairs += [(Dict(keys, r), Dict(put(keys, i, ("k%d" % i, Int(-1), False)), r), [whole]),
                      (Dict(keys, r), Dict(put(keys, i, ("k%d" % i, Int(i), True)), r), [less]),
                      (Dict(keys, r), Dict(put(keys, i, ("z", Int(i), False)), r), [whole]),
                      (Dict(keys, r), Dict(put(keys, i), r), [whole, less])]
        for make, x, y, v in texts(i):
            pairs.append((make(x), make("".join(y)), [v]))
        for f, up in zip(wraps, ups):
            for x, y, vals in pairs:
                x, y = f(x), f(y)
                A, B = declare(ctx, x), declare(ctx, y)
                if A is None or B is None:
                    continue
                ctx.state()
                apart(ctx, A, B, [up(v) for v in vals], "(%s) == (%s)" % (src(x), src(y)))
                if not i and not cmp(A, x.build(), ctx, lambda: "(%s) == (%s)" % (src(x), src(x))):
                    ctx.violation("(%s) == (%s)" % (src(x), src(x)), "two builds of one declaration are unequal", repro("print(%s == %s)" % (src(x), src(x))))
                ctx.trace()
