"""C03: every reported error is located at, and true of, the sub-value its path leads to.

States: (schema term, value, error).  Values: everything derived from the term (as in C02) plus
`wrecked` witnesses in which every leaf / every pair of leaves is replaced by a distinct object, so
that several siblings fail at once and a path that leaks is told apart by identity.
For each error the path is followed through the value and, in parallel, through the term; the error's
class and parameters must then belong to a sub-schema of the term at that path and state a fact that is
false of the declaration for that very object.  Rendered text must name exactly that path.
"""
import itertools as it
import re

import th
from d42 import validate
from d42.substitution import Substitutor
from d42.validation import Formatter, ValidationException, format_result, validate_or_fail

from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import declare, repro, show
from ..families import families
from ..fine import fine
from ..terms import N, copyv, float_equal, same, src, strip
from . import c02

ASSUMPTIONS = ["a candidate sub-schema inside any(...) is not descended into: alternatives report one "
               "mismatch at the position of any(...)"]
BOUNDS = {
    "quick": "level 0-3 universe; sequences <= 3; wrecked leaves: all and every pair (<= 12 leaves)"
          "; fine cases (18 row sizes); lists with errors past every size up to 1025",
          "thorough": "deep universe; sequences <= 4; wrecked leaves: all, every pair and triple",
}

FORMATTERS = (Formatter(), Formatter("root"))
PYTYPE = {"none": type(None), "bool": bool, "int": int, "float": float, "str": str, "list": list,
          "dict": dict, "bytes": bytes, "uuid4": T.Uuid.pytype, "datetime": T.DateTime.pytype,
          "date": T.Date.pytype}


class Probe:
    """a wrong value with an identity of its own"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return "<probe %d>" % self.n


def tasks(tier):
    deep = tier == "thorough"
    us = U.everything(deep)
    return [("long", n) for n in LONG + ([2047, 4096, 4097, 10001] if deep else [])] + families(deep) + fine(deep, light=True) + U.dedupe(us + U.scale(deep) + c02.extra())


LONG = [9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 255, 256, 257, 258, 499, 500, 511, 512, 513, 999,
        1000, 1001, 1023, 1024, 1025]


def task_name(t):
    return "containers of %d" % t[1] if isinstance(t, tuple) else src(t)


def run_long(n, ctx):
    """values with n members, several of them wrong: the ends, the middle, neighbours"""
    i, a = T.Int(), T.Str("a")
    mark = sorted({0, 1, n // 2, n // 2 + 1, n - 2, n - 1} & set(range(n)))
    d = T.Dict((("a", i, False),))
    ts = [(T.List("of", (i,)), lambda: [0] * n, ()), (T.List("of", (d,)), lambda: [{"a": 1} for _ in range(n)], ("a",)),
          (T.List("of", (T.List("of", (i,)),)), lambda: [[1, 2] for _ in range(n)], (1,)),
          (T.List("exact", (a, ...)), lambda: ["a"] * n, ()), (T.List("exact", (..., a)), lambda: ["a"] * n, ()),
          (T.List("exact", (..., i, i, ...)), lambda: (["x", 1] * n)[:n], ()),
          (T.List("of", (T.AnyT(i, a),)), lambda: [1] * n, ()), (T.List("of", (T.Alias("T", d),)), lambda: [{"a": 1} for _ in range(n)], ("a",)),
          (T.Dict((("k", T.List("of", (i,)), True),), True), lambda: {"k": [1] * n}, ()),
          (T.List("of", (T.Dict((("k", T.List("of", (d,)), False),)),)), lambda: [{"k": [{"a": 1}] * 3} for _ in range(n)], ("k", 2, "a"))]
    if n <= 300:
        ts += [(T.List("exact", (i,) * n), lambda: [0] * n, ()), (T.List("exact", (i,) * n + (...,)), lambda: [0] * n, ()),
               (T.List("exact", (...,) + (i,) * n), lambda: [0] * n, ()),
               (T.Dict(tuple(("k%d" % j, i, j % 2) for j in range(n))), lambda: {"k%d" % j: j for j in range(n)}, ()),
               (T.Dict(tuple((j, d, j % 2) for j in range(n))), lambda: {j: {"a": 1} for j in range(n)}, ("a",)),
               (T.AnyT(*[T.Int(j) for j in range(n)]), lambda: [1] * n, ())]
    for t, make, below in ts:
        s = declare(ctx, t)
        if s is None:
            continue
        ctx.state()
        for size in range(0, 3):
            for combo in it.combinations(mark, size):
                v = make()
                for m, j in enumerate(combo if size else range(len(mark) // 2)):
                    box = v["k"] if type(v) is dict and "k" in v else v
                    key = list(box)[j] if type(box) is dict else j
                    if size:
                        v = put(v, (("k",) if box is not v else ()) + (key,) + below, Probe(m))
                if size == 0:
                    # every other leaf
                    for m, at in enumerate(list(leaf_paths(v))[:n:2]):
                        cur = v
                        for k in at[:-1]:
                            cur = cur[k]
                        if at:
                            cur[at[-1]] = Probe(m)
                for w in (v, v[:-1] if type(v) is list else {**v, "zz": Probe(9)}, v + [Probe(8)] if type(v) is list else {}):
                    ctx.trans()
                    judge(t, s, w, validate(s, w).get_errors(), False, (), ctx, "validate")
                    p = th.PathHolder()["p"][0]
                    judge(t, s, w, validate(s, w, path=p).get_errors(), False, ("p", 0), ctx, "validate at a given path")


def leaf_paths(v, at=()):
    if type(v) is list and v:
        for i, x in enumerate(v):
            yield from leaf_paths(x, at + (i,))
    elif type(v) is dict and v:
        for k, x in v.items():
            yield from leaf_paths(x, at + (k,))
    else:
        yield at


def put(v, at, x):
    if not at:
        return x
    w = copyv(v)
    cur = w
    for k in at[:-1]:
        cur = cur[k]
    cur[at[-1]] = x
    return w


def wrecked(t, deep):
    for w in t.wit()[:6 if deep else 4]:
        ps = list(leaf_paths(w))
        if not ps:
            continue
        if len(ps) > 12:
            # many leaves: all of them, and every pair of the ends and the middle
            n = len(ps)
            some = [ps[i] for i in sorted({0, 1, n // 2, n - 2, n - 1})]
            for combo in [tuple(ps)] + list(it.combinations(some, 2)) + [(p,) for p in some]:
                v = copyv(w)
                for i, p in enumerate(combo):
                    v = put(v, p, Probe(i))
                yield v
            continue
        sizes = {len(ps), 2, 1} | ({3} if deep else set())
        for n in sizes:
            for combo in it.combinations(ps, min(n, len(ps))):
                v = copyv(w)
                for i, p in enumerate(combo):
                    v = put(v, p, Probe(i))
                yield v


def find(t, v, ops):
    """candidate sub-terms and the sub-value reached by following ops"""
    cands = [strip(t)]
    for op in ops:
        nxt = []
        for c in cands:
            if c.kind == "list" and type(op) is int and isinstance(v, list):
                nxt += c.positions(len(v)).get(op, [])
            elif c.kind == "dict" and c.items is not N:
                nxt += [s for k, s, _ in c.items if same(k, op)]
        v = v[op]
        cands = [strip(c) for c in nxt]
    return cands, v


def bounds(c):
    ln = c.len
    if isinstance(ln, tuple):
        return N, (N if ln[0] is ... else ln[0]), (N if ln[1] is ... else ln[1])
    return ln, N, N


def elems(c):
    return len(c.subterms())


def holds(e, c, v, partial):
    """is the stated fact about v true, and is it a constraint of term c?"""
    n = type(e).__name__
    if n == "TypeValidationError":
        return PYTYPE.get(c.kind) is e.expected_type and not isinstance(v, e.expected_type)
    if n == "ValueValidationError":
        if getattr(c, "value", N) is N or not same(c.value, e.expected_value):
            return False
        return not float_equal(v, c.value, c.precision) if c.kind == "float" else v != c.value
    if n == "MinValueValidationError":
        return c.kind in ("int", "float") and c.min is not N and e.min_value == c.min and not v >= c.min
    if n == "MaxValueValidationError":
        return c.kind in ("int", "float") and c.max is not N and e.max_value == c.max and not v <= c.max
    if n in ("LengthValidationError", "MinLengthValidationError", "MaxLengthValidationError"):
        if c.kind not in ("str", "list"):
            return False
        ln, lo, hi = bounds(c)
        if n[0] == "L":
            return ln is not N and e.length == ln != len(v)
        if n[:3] == "Min":
            return lo is not N and e.min_length == lo > len(v)
        return hi is not N and e.max_length == hi < len(v)
    if n == "AlphabetValidationError":
        return c.kind == "str" and c.alphabet is not N and e.alphabet == c.alphabet \
            and any(x not in c.alphabet for x in v)
    if n == "SubstrValidationError":
        return c.kind == "str" and c.substr is not N and e.substr == c.substr and v.find(c.substr) < 0
    if n == "RegexValidationError":
        return c.kind == "str" and c.pattern is not N and e.pattern == c.pattern \
            and not re.search(c.pattern, v)
    if n == "MissingElementValidationError":
        if c.kind != "list" or c.form != "exact" or type(e.index) is not int or e.index < len(v):
            return False
        return e.index < elems(c) + (len(v) if c.shape() == "contains" else 0)
    if n == "ExtraElementValidationError":
        return c.kind == "list" and c.shape() == "exact" and elems(c) <= e.index < len(v)
    if n == "MissingKeyValidationError":
        return not partial and c.kind == "dict" and e.missing_key not in v and any(
            same(k, e.missing_key) and not o for k, _, o in c.items)
    if n == "ExtraKeyValidationError":
        return c.kind == "dict" and not c.relaxed and any(e.extra_key is k for k in v) \
            and not any(k == e.extra_key for k, _, _ in c.items)
    if n == "SchemaMismatchValidationError":
        return c.kind == "any" and not c.accept(v) or partial and c.kind == "any"
    if n == "InvalidUUIDVersionValidationError":
        return c.kind == "uuid4" and e.expected_version == 4 != v.version == e.actual_version
    raise AssertionError("unknown error class " + n)


def spell(root, ops):
    return root + "".join("[%r]" % (o,) for o in ops)


def judge(t, s, v, errs, partial, prefix, ctx, how):
    what = None
    for e in errs:
        ctx.trace()
        ctx.count(type(e).__name__)
        ops = [o.operand for o in e.path]
        if ops[:len(prefix)] != list(prefix):
            what = "error %r does not start at the given path" % (e,)
            break
        ops = ops[len(prefix):]
        try:
            cands, sub = find(t, v, ops)
            via = th.get(v, e.path) if not prefix else sub
        except Exception as x:
            what = "path %s of %s cannot be followed in the value (%r)" % (
                spell("_", ops), type(e).__name__, x)
            break
        if sub is not e.actual_value or via is not sub:
            what = "path %s leads to %s but %s reports %s" % (
                spell("_", ops), show(sub), type(e).__name__, show(e.actual_value))
            break
        if not any(holds(e, c, sub, partial) for c in cands):
            what = "%s is not true of %s at %s (schemas there: %s)" % (
                e.format(FORMATTERS[0]), show(sub), spell("_", ops), [src(c) for c in cands])
            break
        for f in FORMATTERS:
            n = type(e).__name__
            full = list(prefix) + ops
            named = full + [e.missing_key] if n.startswith("MissingKey") else \
                full + [e.index] if n.startswith("MissingElement") else full
            try:
                text = e.format(f)
            except Exception as x:
                what = "rendering %s raised %r" % (n, x)
                break
            want = spell(f.root, named)
            if named and (want not in text or any(
                    text[m.end():m.end() + 1] == "[" for m in re.finditer(re.escape(want), text))):
                what = "message %r does not name the path %s" % (text, want)
            elif not named and re.search(r"\b%s\[" % f.root, text):
                what = "message %r names a path although the error is at the top" % text
            if n.startswith("Extra"):
                at = e.extra_key if n.startswith("ExtraKey") else e.index
                if repr(at) not in text:
                    what = "message %r does not name %r" % (text, at)
        if what:
            break
        if [o.operand for o in e.path] != list(prefix) + ops:
            what = "rendering changed the path of the error"
            break
    if what:
        ctx.violation("%s <- %s (%s)" % (src(t), show(v), how), what, repro(
            "s = " + src(t), "v = " + show(v),
            "for e in validate(s, v).get_errors(): print(e, '|', e.format(Formatter()))"))
    return not what


def run_task(t, ctx):
    if isinstance(t, tuple):
        return run_long(t[1], ctx)
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()
    lenient = Substitutor().validator
    if T.strip(t).kind in ("list", "dict", "any"):
        vs = V.derive(t, seqlen=4 if ctx.deep else 3, wits=4 if ctx.deep else 2)
    else:
        vs = V.derive(t, wits=1)
    vs = vs if hasattr(t, "case") else it.chain(vs, wrecked(t, ctx.deep))
    bad = 0
    for v in vs:
        if c02.ambiguous(t, v):
            continue
        ctx.trans()
        res = validate(s, v)
        errs = res.get_errors()
        ok = judge(t, s, v, errs, False, (), ctx, "validate")
        if errs and ok and t.depth() > 1:
            before = [tuple(o.operand for o in e.path) for e in errs]
            kinds = [type(e) for e in errs]
            p = th.PathHolder()["p"][0]
            again = validate(s, v, path=p).get_errors()
            ok &= judge(t, s, v, again, False, ("p", 0), ctx, "validate at a given path")
            if [type(e) for e in again] != kinds or len(p) != 2 \
                    or [tuple(o.operand for o in e.path)[2:] for e in again] != before:
                ctx.violation("%s <- %s (path=)" % (src(t), show(v)),
                              "errors differ when validation starts at a given path: %r / %r" % (errs, again))
            if [tuple(o.operand for o in e.path) for e in errs] != before:
                ctx.violation("%s <- %s (later)" % (src(t), show(v)), "paths of earlier errors changed")
        if errs and ok:
            lines = format_result(res)
            texts = [e.format(FORMATTERS[0]) for e in errs]
            try:
                validate_or_fail(s, v)
                msg = "returned"
            except ValidationException as e:
                msg = str(e)
            if any(x not in msg for x in texts) or len(lines) != len(texts) + 1:
                ctx.violation("%s <- %s (report)" % (src(t), show(v)),
                              "reports disagree: %r / %r / %r" % (texts, msg, lines))
        if not c02.ambiguous(t, v):
            part = s.__accept__(lenient, value=v).get_errors()
            if part:
                judge(t, s, v, part, True, (), ctx, "substitute")
    ctx.sample(src(t))
