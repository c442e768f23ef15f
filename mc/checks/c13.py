"""C13: combinators mean what their parts mean.

Two explorations of the real code:
* direct: all pairs (and triples) of operands of |, any, + and all key subsets of make_required, judged against the
  verdicts the *implementation* gives for the operands (for +: for the merged dict declared outright);
* histories: every sequence of combinator applications up to a depth from a set of starting schemas (a combinator
  applied to the result of another one), judged against the same expression written out without combinators.
"""
import itertools as it

from d42 import fake, schema
from d42.declaration import Schema
from d42.utils import make_required

from .. import terms as T
from .. import fine as F
from .. import universe as U
from .. import values as V
from .. import common
from ..common import declare, messages, repro, show  # noqa: F401
from ..rng import explore
from ..terms import (N, Add, Alias, AnyT, Bool, lit, Custom, Dict, Float, Int, List, MakeRequired, NoneT, Str, Uuid, copyv,
                     hereditarily_satisfiable, src, strip)
from .c07 import shape

ASSUMPTIONS = ["the bare schema.dict (no keys declared) is not an operand of +: the property speaks of declared dicts"]
BOUNDS = {"quick": "all pairs of 46 operands, triples of 7, in every grouping; + over all 74x74 dicts over two keys; "
                   "make_required over all key subsets; combinator histories of depth 3"
          "; + over 48 kinds of key; unions and + of many sizes",
          "thorough": "all pairs of 120 operands, triples of 14; + with three keys; histories of depth 4"}


def operands(deep):
    i = Int(min=0)
    out = U.reps() + U.reps1() + [
        AnyT(Int(1), AnyT(Str("a"), NoneT())), AnyT(AnyT(), Int()), AnyT(AnyT(Bool(), Float(1.5))),
        AnyT(Int(1), Str("a"), union=True), Alias("A", AnyT(Int(1), Str("a"))), Alias("A", AnyT()),
        Custom(AnyT(Int(1), NoneT())), Custom(Str("a")), Alias("A", Alias("B", Int(2))),
        List("of", (AnyT(Int(1), Str("a")),)), List("exact", (..., AnyT(Int(1), NoneT()), ...)),
        List("exact", ()), List("exact", (...,)), List("bare", (), 2), List("of", (i,), (1, 2)),
        Dict((("a", AnyT(Int(1), NoneT()), True),)), Dict((("a", Int(), False),)), Dict((("a", Str(), False),), True),
        Dict(()), Dict((), True), Dict((("a", Dict((("b", Int(), False),)), False),)),
        Add(Dict((("a", Int(), True),)), Dict((("b", Str(), False),))), MakeRequired(Dict((("a", Int(), True),))),
        Int(value=True), Bool(True), Float(1.0), Uuid(T.U1), Str(len=2), Int(max=5)]
    if deep:
        out += U.leaves()[::12] + U.level1()[::25] + U.level2()[::9] + U.level3()[::6]
    return U.dedupe(out)


def dict_pool(types, keys, rel=(False, True)):
    out = []
    for combo in it.product(*[[None] + [(k, t, o) for t in types for o in (False, True)] for k in keys]):
        items = tuple(c for c in combo if c)
        for r in rel:
            for first in ((False, True) if r and items else (False,)):
                out.append(Dict(items, r, first))
    return out


def odd_dicts():
    ks = [1, True, 1.0, None, "", ("t", 2), b"k", "a.b", 0, False, "b"]
    return [Dict(((k, t, o),), r) for k in ks for t in (Int(), Str()) for o in (0, 1) for r in (0, 1)] \
        + [Dict(((k, Int(), 0), (j, NoneT(), 1))) for k, j in U.COLLIDING]


def add_pool(deep):
    p = dict_pool((Int(), Str()), ("a", "b"))
    p += [Dict((("b", Int(), False), ("a", Str(), True))), Dict((("a", Dict((("x", Int(), False),)), False),)),
          Dict((("a", Dict((("y", Int(), True),), True), True),)), Dict((("a", AnyT(Int(), NoneT()), False),)),
          Dict((("a", Alias("T", Int()), True), ("c", Custom(Str()), False)), True),
          Dict((("a", List("exact", (..., Int(1), ...)), False),))]
    if deep:
        p += dict_pool((Int(), Str()), ("a", "b", "c"))[::3]
    return U.dedupe(p)


def req_pool(deep):
    p = add_pool(deep)
    p += [Dict((("a", Int(), o1), ("b", Str(), o2), ("c", NoneT(), o3)), r) for o1 in (0, 1) for o2 in (0, 1)
          for o3 in (0, 1) for r in (0, 1)]
    p += odd_dicts()
    p += [Dict(((k, Int(), o1), (j, Str(), o2)), r) for k, j in U.COLLIDING for o1 in (0, 1) for o2 in (0, 1) for r in (0, 1)]
    p += [t for t in U.scale(False, (7, 12, 17), ()) + U.extents() if t.kind == "dict" and t.items is not N]
    p += [Dict((("a", Dict((("x", Int(), True),)), True), ("b", List("of", (Dict((("y", Int(), True),)),)), True))),
          Dict((("ab", Int(), True), ("a", Int(), True), ("b", Str(), True))), Dict((), True), Dict(())]
    p += [Add(x, y) for x in p[:80:7] for y in p[:80:11]]
    p += [MakeRequired(x, k) for x in p[10:80:9] for k in ((), ("a",)) if all(c in keys_of(x) for c in k)]
    return U.dedupe(p)


def keys_of(t):
    return [k for k, _, _ in strip(t).items]


def starts():
    return [Int(1), Str(len=(1, ...)), AnyT(), AnyT(Int(1), NoneT()), List("of", (Int(),)), Alias("S", AnyT(Bool(), Int(1))),
            Dict((("a", Int(), True),)), Dict((("a", Str(), False), ("b", Int(1), True)), True),
            Dict((("b", NoneT(), True),), True, True), Dict(()), Dict((), True), Custom(AnyT(Int(1), Str("a")))]


OTHERS = [Str("a"), AnyT(), AnyT(Int(2), NoneT()), Dict((("a", NoneT(), False), ("c", Int(), True))), Dict((("b", Int(1), False),), True),
          Alias("O", AnyT(Str("a"), Int(3)))]


def grow(t):
    """every combinator applied to t"""
    for o in OTHERS:
        yield AnyT(t, o, union=True)
        yield AnyT(o, t)
        if o.kind == "dict" and is_dict(t):
            yield Add(t, o)
            yield Add(o, t)
    yield AnyT(t)
    yield Alias("G", t)
    if is_dict(t):
        yield Add(t, t)
        yield MakeRequired(t)
        yield MakeRequired(t, (), set)
        for k in keys_of(t):
            yield MakeRequired(t, (k,), tuple)
    yield List("of", (t,))
    yield Dict((("k", t, True),))


def is_dict(t):
    return t.kind in ("dict", "add", "required") and strip(t).items is not N


def tasks(tier):
    deep = tier == "thorough"
    n = len(operands(deep))
    out = [("any", i, None) for i in range(n)]
    m = 14 if deep else 7
    out += [("any3", i, j) for i in range(m) for j in range(m)]
    out += [("wide", n, None) for n in ((5, 7, 8, 9, 10, 12, 16, 17, 33, 65) if deep else (7, 9, 12, 17, 33))]
    out += [("add", i, None) for i in range(len(add_pool(deep)))]
    out += [("addodd", i, None) for i in range(len(odd_dicts()))]
    out += [("addfine", i, None) for i in range(len(F.KEYS))]
    out += [("req", i, None) for i in range(len(req_pool(deep)))]
    out += [("alias", i, None) for i in range(0, len(U.everything(deep)), 1 if deep else 4)]
    out += [("item", i, None) for i in range(len(req_pool(deep)))]
    out += [("deep", i, j) for i in range(len(starts())) for j in range(len(list(grow(starts()[i]))))]
    return out


def task_name(t):
    return repr(t)


_CACHE = {}


def cached(name, deep):
    if (name, deep) not in _CACHE:
        _CACHE[name, deep] = globals()[name](deep) if name not in ("odd_dicts", "starts") else globals()[name]()
    return _CACHE[name, deep]


def run_task(task, ctx):
    globals()["do_" + task[0]](ctx, task[1], task[2])


def accepts(s, v):
    """the verdict; a validation that raises (C08) has none"""
    try:
        return common.accepts(s, v)
    except Exception:
        return "raises"


def either(verdicts):
    return "raises" if "raises" in verdicts else any(verdicts)


def flat(t):
    """the declared alternatives of a union, nested unions dissolved"""
    if t.kind == "any" and t.types:
        return [x for a in t.types for x in flat(a)]
    return [t]


def spelled(t):
    """the term written out without combinators: merged dicts, one flat any, no aliases"""
    k = t.kind
    if k in ("alias", "custom"):
        return spelled(t.target)
    if k in ("add", "required", "dict"):
        t = strip(t)
        return t if t.items is N else Dict([(key, spelled(x), o) for key, x, o in t.items], t.relaxed)
    if k == "any":
        return AnyT(*[spelled(x) for a in t.types for x in flat(spelled(a))])
    if k == "list":
        return List(t.form, [x if x is ... else spelled(x) for x in t.items], t.len)
    return t


def meaning(t):
    """what the parts accept (by the implementation's verdicts on the parts) combined as the property says"""
    p = spelled(t)
    parts = [x.build() for x in (flat(p) if p.kind == "any" else [p])]
    return lambda v: either([accepts(x, v) for x in parts])


def judge_values(ctx, text, u, exp, vals):
    """verdicts of the combined schema against a function of the value"""
    for v in vals:
        ctx.trans()
        want = exp(v)
        got = accepts(u, v)
        ctx.trace()
        if got is not want and "raises" not in (got, want):
            ctx.violation("%s on %s" % (text, show(v)), "accepts: %s, expected: %s" % (got, want), repro(
                "u = " + text, "v = " + show(v), "print(validate(u, v).get_errors())"))
            return False
    return True


_SOUND = {}


def sound(t):
    """does the part, on its own, generate what it accepts? (C01 decides that; here it is a premise)"""
    k = src(t)
    if k not in _SOUND:
        b = spelled(t).build()
        _SOUND[k] = hereditarily_satisfiable(t) and all(o.exc is None and accepts(b, o.value) is True
                                                        for o in explore(lambda: fake(b), bound=1, full_limit=24, max_runs=60))
    return _SOUND[k]


def judge_generated(ctx, parts, text, u, ok, limit=12):
    if not all(map(sound, parts)):
        return ctx.count("generation_premise_fails")
    for o in explore(lambda: fake(u), bound=0, full_limit=limit):
        ctx.trace()
        if o.exc is not None or not ok(o.value):
            ctx.violation("fake(%s)" % text, "generated %s (%r), draws %s" % (show(o.value), o.exc, o.script()), repro(
                "u = " + text, "print(scripted(lambda: fake(u), %d, %r))" % (o.policy, o.dev)))
            return


def same_members(got, want):
    g, w = [shape(x) for x in got], [shape(x) for x in want]
    return all(x in w for x in g) and all(x in g for x in w)


def judge_union(ctx, parts, u, text, vals, verdicts):
    ctx.state()
    it_vals = iter(verdicts)
    for v in vals:
        want = next(it_vals)
        ctx.trans()
        got = accepts(u, v)
        ctx.trace()
        if got is not want and "raises" not in (got, want):
            ctx.violation("%s on %s" % (text, show(v)), "union accepts: %s, an operand accepts: %s" % (got, want), repro(
                "u = " + text, "v = " + show(v), "print(validate(u, v).get_errors())"))
            return
    want = [x for p in parts for x in flat(p)]
    try:
        members = list(u)
    except Exception as e:
        return ctx.violation("iter(%s)" % text, repr(e), repro("print(list(%s))" % text))
    if not (len(want) == 1 and want[0].kind == "any") and not same_members(members, [w.build() for w in want]):
        ctx.violation("list(%s)" % text, "iteration gives %r" % (members,), repro("print(list(%s))" % text))
    built = [p.build() for p in parts]
    judge_generated(ctx, parts, text, u, lambda v: any(accepts(b, v) is True for b in built))


def verdicts_of(parts, vals):
    built = [p.build() for p in parts]
    return [either([accepts(b, v) for b in built]) for v in vals]


_VALS = {}


def values_of(t, seq=2):
    k = src(t)
    if k not in _VALS:
        _VALS[k] = V.derive(t, seq, generic=False, wits=2)
    return _VALS[k]


def do_any(ctx, i, _):
    pool = cached("operands", ctx.deep)
    a = pool[i]
    for b in pool:
        vals = V.dedupe(values_of(a) + values_of(b)[::1 if ctx.deep else 2] + V.GENERIC[::2])
        verd = verdicts_of((a, b), vals)
        A, B, sa, sb = a.build(), b.build(), src(a), src(b)
        before = shape(A), shape(B)
        for u, text in ((A | B, "%s | %s" % (sa, sb)), (schema.any(A, B), "schema.any(%s, %s)" % (sa, sb))):
            judge_union(ctx, (a, b), u, text, vals, verd)
        if (shape(A), shape(B)) != before:
            ctx.violation("%s | %s" % (sa, sb), "an operand was changed by combining it", repro("%s | %s" % (sa, sb)))
    ctx.sample("schema.any(%s, ...)" % src(a)[:200])


def do_any3(ctx, i, j):
    pool = [AnyT(), AnyT(Int(1), AnyT(Str("a"), NoneT())), Dict((("a", Int(), True),), True), Alias("A", AnyT(Int(1), Str("a"))),
            Str("a"), List("of", (AnyT(Int(1), NoneT()),)), Custom(AnyT(Int(2), Bool()))] + cached("operands", False)[:7]
    a, b = pool[i], pool[j]
    for c in pool[:14 if ctx.deep else 7]:
        A, B, C = a.build(), b.build(), c.build()
        x, y, z = src(a), src(b), src(c)
        vals = V.dedupe(values_of(a)[::2] + values_of(b)[::2] + values_of(c)[::2] + V.GENERIC[::2])
        verd = verdicts_of((a, b, c), vals)
        for u, text in ((A | B | C, "%s | %s | %s" % (x, y, z)), (A | (B | C), "%s | (%s | %s)" % (x, y, z)),
                        (schema.any(A, B, C), "schema.any(%s, %s, %s)" % (x, y, z)),
                        (schema.any(schema.any(A), B | C), "schema.any(schema.any(%s), %s | %s)" % (x, y, z)),
                        (schema.any(A, schema.any(B, schema.any(C))), "schema.any(%s, schema.any(%s, schema.any(%s)))" % (x, y, z)),
                        (schema.any(schema.any(schema.any(A, B)), C), "schema.any(schema.any(schema.any(%s, %s)), %s)" % (x, y, z))):
            judge_union(ctx, (a, b, c), u, text, vals, verd)


def do_wide(ctx, n, _):
    """many alternatives, deep grouping, many keys"""
    ints = [Int(j) for j in range(n)]
    built = [t.build() for t in ints]
    vals = list(range(-1, n + 1)) + [None, "a", True, float(n - 1)]
    texts = [src(t) for t in ints]
    left, ltext = built[0], texts[0]
    for b, t in zip(built[1:], texts[1:]):
        left, ltext = left | b, ltext + " | " + t
    right, rtext = built[-1], texts[-1]
    for b, t in zip(built[-2::-1], texts[-2::-1]):
        right, rtext = schema.any(b, right), "schema.any(%s, %s)" % (t, rtext)
    mid, mtext = schema.any(*built), "schema.any(%s)" % ", ".join(texts)
    h = n // 2
    two = schema.any(*built[:h]) | schema.any(*built[h:])
    ttext = "schema.any(%s) | schema.any(%s)" % (", ".join(texts[:h]), ", ".join(texts[h:]))
    for u, text in ((left, ltext), (right, rtext), (mid, mtext), (two, ttext)):
        judge_union(ctx, ints, u, text, vals, verdicts_of(ints, vals))
        for extra, v in ((Str("a"), "a"), (AnyT(Str("b"), NoneT()), "b")):
            for w, wtext in ((u | extra.build(), "(%s) | %s" % (text, src(extra))), (extra.build() | u, "%s | (%s)" % (src(extra), text)),
                             (schema.any(extra.build(), schema.any(schema.any(u))), "schema.any(%s, schema.any(schema.any(%s)))" % (
                                 src(extra), text))):
                vs = vals + ["b", v]
                judge_union(ctx, ints + [extra], w, wtext, vs, verdicts_of(ints + [extra], vs))
    # sums of many dicts, and wide dicts overridden at one key
    one = [Dict((("k%d" % j, Int(j), j % 3 == 1),), j == n // 2) for j in range(n)]
    full = {"k%d" % j: j for j in range(n)}
    dv = [full, {}, {**full, "zz": 1}] + [{k: v for k, v in full.items() if k != d} for d in full] + [{**full, d: "a"} for d in full]
    total, text = one[0].build(), src(one[0])
    for t in one[1:]:
        total, text = total + t.build(), text + " + " + src(t)
    judge_sum(ctx, one, total, text, dv)
    wide = strip(one[0])
    for t in one[1:]:
        wide = strip(Add(wide, t))
    for j in range(n):
        for o in (0, 1):
            x = Dict((("k%d" % j, Str("a"), o),))
            judge_sum(ctx, [wide, x], wide.build() + x.build(), "%s + %s" % (src(wide), src(x)), dv)
            judge_sum(ctx, [x, wide], x.build() + wide.build(), "%s + %s" % (src(x), src(wide)), dv)


def dict_values(deep=False):
    out = []
    for a in (None, 1, "s", {"x": 1}, {"y": 1}, [1]):
        for b in (None, 1, "s"):
            for c in (None, "s") if not deep else (None, 1, "s"):
                for z in (None, 0):
                    out.append({k: v for k, v in (("a", a), ("b", b), ("c", c), ("zz", z)) if v is not None})
    return out + [{"a": None}, {"b": None, "a": 1}, [], None, {1: 1}, {"a": {"x": 1, "y": 1}}, {"a": {}}, {"a": {"x": 1}, "b": 1}]


def judge_sum(ctx, parts, u, text, vals):
    ctx.state()
    m = parts[0]
    for p in parts[1:]:
        m = Add(m, p)
    # the dict schema declared outright with the merged keys
    ref = strip(m).build()
    if not judge_values(ctx, text, u, lambda v: accepts(ref, v), vals):
        return
    for k, t, _ in strip(m).items:
        ctx.trans()
        try:
            got = u[k]
        except Exception as e:
            got = e
        if shape(got) != shape(t.build()):
            ctx.violation("(%s)[%s]" % (text, show(k)), "gives %r, declared %s" % (got, src(t)), repro(
                "print(repr((%s)[%s]))" % (text, show(k))))
    if {k for k in u if k is not ...} != set(keys_of(m)):
        ctx.violation("list(%s)" % text, "keys %r" % (list(u),), repro("print(list(%s))" % text))


def do_add(ctx, i, _):
    pool = cached("add_pool", ctx.deep)
    a, vals = pool[i], dict_values(ctx.deep)
    for b in pool:
        A, B = a.build(), b.build()
        before = shape(A), shape(B)
        u, text = A + B, "%s + %s" % (src(a), src(b))
        judge_sum(ctx, (a, b), u, text, vals)
        if (shape(A), shape(B)) != before:
            ctx.violation(text, "an operand was changed", repro(text))
        m = strip(Add(a, b))
        ref = m.build()
        judge_generated(ctx, (m,), text, u, lambda v: accepts(ref, v) is True, 4)
    some = pool[::9]
    for b, c in it.product(some, some):
        A, B, C = a.build(), b.build(), c.build()
        judge_sum(ctx, (a, b, c), A + B + C, "%s + %s + %s" % (src(a), src(b), src(c)), vals[::2])
        judge_sum(ctx, (a, b, c), A + (B + C), "%s + (%s + %s)" % (src(a), src(b), src(c)), vals[::2])
    ctx.sample("%s + ..." % src(a)[:200])


def do_addodd(ctx, i, _):
    pool = cached("odd_dicts", ctx.deep)
    a = pool[i]
    for b in pool:
        ks = list(dict.fromkeys(keys_of(a) + keys_of(b) + [True, 1.0]))
        vals = [{}, {"zz": 1}] + [{k: x} for k in ks for x in (1, "s", None)]
        vals += [{k: x, j: y} for k in ks[:2] for j in ks[:2] if k != j for x in (1, "s") for y in (1, "s")]
        judge_sum(ctx, (a, b), a.build() + b.build(), "%s + %s" % (src(a), src(b)), vals)


def do_addfine(ctx, i, _):
    """keys that look alike"""
    k = F.KEYS[i]
    for j in F.nearer(k) + [j for j in F.KEYS if lit(j) != lit(k)]:
        vals = [{}, {k: 1}, {k: "s"}, {j: 1}, {j: "s"}, {k: 1, j: "s"}, {k: "s", j: 1}, {k: "s", j: "s"}, {k: 1, j: "s", "zz": 0}]
        for o, p, r in ((0, 0, 0), (1, 0, 1), (0, 1, 0), (1, 1, 0)):
            a, b = Dict(((k, Int(), o),), r), Dict(((j, Str(), p),))
            judge_sum(ctx, (a, b), a.build() + b.build(), "%s + %s" % (src(a), src(b)), vals)
            if i % 2:
                judge_sum(ctx, (b, a), b.build() + a.build(), "%s + %s" % (src(b), src(a)), vals)
        d = Dict(((k, Int(), 1), (j, Str(), 1)))
        if len({k: 1, j: 1}) < 2:
            continue
        for ks in ((k,), (j,), (k, j), ()):
            m = MakeRequired(d, ks)
            ref = strip(m).build()
            text = src(m)
            try:
                u = m.build()
            except Exception as e:
                ctx.violation(text, "raised %r" % (e,), repro(text))
                continue
            ctx.state()
            judge_values(ctx, text, u, lambda v: accepts(ref, v), vals)


def subsets(ks):
    for n in range(len(ks) + 1):
        yield from it.combinations(ks, n)


def do_req(ctx, i, _):
    d = cached("req_pool", ctx.deep)[i]
    D = d.build()
    ks = keys_of(d)
    vals = V.dedupe(list(V.members(d)) + V.derive(d, 1, generic=False, wits=2) + dict_values()[::3])
    impl = [accepts(D, v) for v in vals]
    before = shape(D)
    wide = [(), tuple(ks), tuple(ks[1:]), tuple(ks[:-1]), tuple(ks[::2])] + [(k,) for k in ks]
    for sub in [None] + (list(subsets(ks)) if len(ks) <= 4 else wide):
        want_keys = ks if sub is None else sub
        forms = [(None, "")] if sub is None else [(f(sub), ", %s" % (show(list(sub)) if f is list else "%s(%s)" % (
            f.__name__, show(list(sub))))) for f in (list, tuple, set)]
        if sub:
            forms.append((list(sub) * 2, ", %s" % show(list(sub) * 2)))
            forms.append((list(sub)[::-1], ", %s" % show(list(sub)[::-1])))
        for arg, atext in forms:
            ctx.state()
            text = "make_required(%s%s)" % (src(d), atext)
            given = copyv(arg) if isinstance(arg, list) else arg
            u = make_required(D) if arg is None else make_required(D, arg)
            if arg is not None and arg != given:
                ctx.violation(text, "the keys passed were changed to %r" % (arg,), repro(text))
            for v, acc in zip(vals, impl):
                ctx.trans()
                if "raises" in (acc, got := accepts(u, v)):
                    continue
                want = acc and all(k in v for k in want_keys)
                if got is not want:
                    ctx.violation("%s on %s" % (text, show(v)), "accepts: %s, expected: %s" % (not want, want), repro(
                        "u = " + text, "v = " + show(v), "print(validate(u, v).get_errors())"))
                    break
                ctx.trace()
            if shape(D) != before:
                ctx.violation(text, "the operand was changed", repro(text))
                D = d.build()
            judge_generated(ctx, (d,), text, u, lambda v: accepts(D, v) is True and all(k in v for k in want_keys), 8)
    ctx.sample("make_required(%s, ...)" % src(d)[:200])


def do_alias(ctx, i, _):
    t = cached_everything(ctx.deep)[i]
    S = declare(ctx, t)
    if S is None:
        return
    ctx.state()
    vals = V.derive(t, 2, generic=True, wits=2)
    impl = {id(v): accepts(S, v) for v in vals}
    for name in ("T", "", "schema.int", "any"):
        judge_values(ctx, "schema.alias(%r, %s)" % (name, src(t)), schema.alias(name, S), lambda v: impl[id(v)], vals)
    nested = schema.alias("O", schema.alias("I", S))
    judge_values(ctx, "schema.alias('O', schema.alias('I', %s))" % src(t), nested, lambda v: impl[id(v)], vals)
    lst, ltext = schema.list([..., schema.alias("E", S), ...]), "schema.list([..., schema.alias('E', %s), ...])" % src(t)
    plain = schema.list([..., S, ...])
    for v in vals[::3]:
        for w in ([v], [v, 0], [object, v]):
            ctx.trans()
            if accepts(lst, w) is not accepts(plain, w):
                return ctx.violation("%s on %s" % (ltext, show(w)), "alias changes the verdict", repro(
                    "u = " + ltext, "print(validate(u, %s).get_errors())" % show(w)))
    judge_generated(ctx, (t,), "schema.alias('T', %s)" % src(t), schema.alias("T", S), lambda v: accepts(S, v) is True)


def cached_everything(deep):
    if ("all", deep) not in _CACHE:
        _CACHE["all", deep] = U.everything(deep)
    return _CACHE["all", deep]


class Absent:
    pass


def do_item(ctx, i, _):
    d = cached("req_pool", ctx.deep)[i]
    for u, text in ((d.build(), src(d)), (make_required(d.build()), "make_required(%s)" % src(d))):
        ctx.state()
        declared = strip(d).items
        for k, t, o in declared:
            ctx.trans()
            got = u[k]
            if not isinstance(got, Schema) or shape(got) != shape(t.build()):
                ctx.violation("(%s)[%s]" % (text, show(k)), "gives %r, declared %s" % (got, src(t)), repro(
                    "print(repr((%s)[%s]))" % (text, show(k))))
            ctx.trace()
        for k in ("missing", ..., Absent, 7, ("x",), None, "a", "x", "optional('a')", T.schema.int):
            if any(k == j for j, _, _ in declared if not isinstance(k, Schema)):
                continue
            ctx.trans()
            try:
                if isinstance(k, Schema):
                    continue
                got = u[k]
            except KeyError:
                ctx.trace()
                continue
            except Exception as e:
                got = e
            ctx.violation("(%s)[%s]" % (text, show(k)), "undeclared key gives %r" % (got,), repro(
                "print(repr((%s)[%s]))" % (text, show(k))))
        want = {k for k, _, _ in declared}
        for how, got in (("list(%s)" % text, list(u)), ("(%s).keys()" % text, list(u.keys()))):
            ctx.trans()
            if {k for k in got if k is not ...} != want or len(got) != len(set(got)):
                ctx.violation(how, "exposes %r" % (got,), repro("print(%s)" % how))
            ctx.trace()
    for u, text in ((schema.dict, "schema.dict"),):
        if list(u) != [] or list(u.keys()) != []:
            ctx.violation("list(%s)" % text, "exposes %r" % (list(u),), "")
        for k in ("a", ...):
            try:
                u[k]
                ctx.violation("%s[%r]" % (text, k), "no KeyError", "")
            except KeyError:
                pass


def do_deep(ctx, i, j):
    """all combinator histories that begin with the j-th application to the i-th starting schema"""
    first = list(grow(starts()[i]))[j]
    frontier, seen = [first], set()
    for depth in range(1, (4 if ctx.deep else 3) + 1):
        nxt = []
        for t in frontier:
            k = src(t)
            if k in seen or len(k) > 600:
                continue
            seen.add(k)
            ctx.state()
            u = t.build()
            last = depth == (4 if ctx.deep else 3)
            vals = t.wit()[:6] + V.GENERIC[::4]
            for w in t.wit()[:2]:
                vals += list(it.islice(V.perturb(w), 0, None, 7 if last else 2))
            vals = V.dedupe(vals + [{"a": 1}, {"a": "s"}, {"a": None}, {"a": None, "c": 1}, {"b": 1}, {"b": 1, "a": 1}, {"b": None}])
            judge_values(ctx, k, u, meaning(t), vals)
            if not last:
                nxt += list(grow(t))
        frontier = nxt
