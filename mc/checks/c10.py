"""C10: a declaration fails cleanly or yields a self-consistent schema.

Breadth-first search over chains of declaration calls.  State: the schema reached (merged when the declared
properties are the same); transitions: every refinement method x argument alphabet (valid, boundary,
contradictory, wrongly typed incl. the hostile zoo).  A model tracks what has been declared.
After each transition: only DeclarationError may be raised; receiver and arguments are as before; declaring
what the model says is declared must fail; if a value (or an element list) is fixed, the value conforms to
the result, both by the reference semantics and by validation.
"""
import itertools as it
import re

from niltype import Nil

from d42 import optional, schema, validate
from d42.declaration.errors import DeclarationError

from .. import fine as F
from .. import terms as T
from .. import values as V
from ..common import repro
from ..terms import N, lit
from .c07 import shape

ASSUMPTIONS = ["wrong numbers of arguments, optional(...), `+` with a foreign operand are not declarations"]
BOUNDS = {"quick": "chains of up to 4 calls; complete alphabets for the first two calls, core alphabets after; declarations of 4-140 members with an odd one at every place"
          "; near constraints of every pool value",
          "thorough": "complete alphabets for the first three calls"}


class Shown:
    """an argument and its source text"""

    def __init__(self, text, value):
        self.text, self.value = text, value


def args(*vs):
    return [Shown(lit(v) if v is not Nil else "Nil", v) for v in vs]


def zoo_args():
    return [Shown(e, v) for e, v in V.zoo()]


HUGE = 10 ** 5000


def len_calls(nums, wrong):
    out = []
    e, nil = Shown("...", ...), Shown("Nil", Nil)
    ns = args(*nums)
    for n in ns:
        out += [(n,), (n, e), (e, n)]
    out += list(it.product(ns, ns)) + [(e,), (e, e), (nil,), (nil, nil), (e, nil), (nil, e)]
    for w in wrong:
        out += [(w,), (w, e), (e, w), (w, ns[0]), (ns[0], w), (ns[-1], w), (w, w)]
    return out


def one(vs):
    return [(v,) for v in vs]


def wrongs():
    return args(None, ..., Nil, "", "1", b"a", 1.0, 1, True, -1, [], (), {}, set(), 1j, V.NAN, object) + \
        args([schema.int], {"a": schema.int}) + [Shown("schema.int", schema.int), Shown("schema.str('a')", schema.str("a"))]


def elements_args(core):
    i, s, o = schema.int(1), schema.str("a"), schema.none
    S = lambda text, v: Shown(text, v)
    out = [S("[]", []), S("[schema.int(1)]", [i]), S("[schema.int(1), schema.str('a')]", [i, s]),
           S("[...]", [...]), S("[schema.int(1), ...]", [i, ...]), S("[..., schema.int(1)]", [..., i]),
           S("[..., schema.int(1), schema.str('a'), ...]", [..., i, s, ...]), S("schema.int", schema.int)]
    if not core:
        for n in range(0, 4):
            names = {"schema.int(1)": i, "...": ..., "schema.list([schema.none])": schema.list([o]), "5": 5}
            for c in it.product(names, repeat=n):
                out.append(S("[" + ", ".join(c) + "]", [names[x] for x in c]))
        out += [S("[schema.int, Nil]", [schema.int, Nil]), S("[None]", [None]), S("[int]", [int]),
                S("[schema]", [schema]), S("[[schema.int]]", [[schema.int]]), S("(schema.int,)", (schema.int,)),
                S("ListSub([schema.int(1)])", V.ListSub([i])), S("[..., ..., schema.int]", [..., ..., schema.int]),
                S("[type(...)]", [type(...)]), S("[schema.any]", [schema.any]), S("schema.list", schema.list),
                S("{0: schema.int}", {0: schema.int}), S("[schema.dict({'a': schema.int(1)})]",
                                                          [schema.dict({"a": i})])]
    return one(out)


def keys_args(core):
    S = lambda text, v: Shown(text, v)
    i = schema.int
    out = [S("{}", {}), S("{'a': schema.int}", {"a": i}), S("{optional('a'): schema.int, ...: ...}",
                                                           {optional("a"): i, ...: ...}), S("{...: ...}", {...: ...})]
    if core:
        return one(out)
    ks = [("'a'", "a"), ("...", ...), ("optional('a')", optional("a")), ("1", 1), ("None", None), ("()", ()),
          ("Nil", Nil), ("float('nan')", V.NAN), ("10**5000", HUGE), ("optional(optional('a'))", optional(optional("a"))),
          ("optional(10**5000)", optional(HUGE)), ("b'k'", b"k"), ("frozenset()", frozenset()), ("int", int),
          ("object()", object()), ("StrSub('a')", V.StrSub("a"))]
    vs = [("schema.int", i), ("...", ...), ("5", 5), ("None", None), ("Nil", Nil), ("int", int), ("{}", {}),
          ("{'a': schema.int}", {"a": i}), ("10**5000", HUGE), ("object()", object()), ("schema", schema),
          ("schema.dict({})", schema.dict({}))]
    for (kt, k), (vt, v) in it.product(ks, vs):
        out.append(S("{%s: %s}" % (kt, vt), {k: v}))
        out.append(S("{'z': schema.none, %s: %s}" % (kt, vt), {"z": schema.none, k: v}))
    for (kt, k), (vt, v) in it.product(ks[:4], vs[:4]):
        out.append(S("{...: ..., %s: %s}" % (kt, vt), {...: ..., k: v}))
    out += [S("DictSub(a=schema.int)", V.DictSub(a=i)), S("[('a', schema.int)]", [("a", i)]),
            S("{'a': schema.int}.items()", {"a": i}.items())]
    return one(out)


def any_args(core):
    S = lambda text, v: Shown(text, v)
    a = S("schema.int", schema.int)
    b = S("schema.any(schema.int, schema.str)", schema.any(schema.int, schema.str))
    out = [(a,), (a, b), (b,)]
    if not core:
        bad = wrongs() + zoo_args()
        out += [(S("schema.any", schema.any),), (a, a), (b, b, a)] + [(w,) for w in bad] + [(a, w) for w in bad] + \
            [(w, a) for w in bad] + [(a, b, w) for w in bad]
    return out


def moves(kind, core):
    """[(method, (args...))]"""
    wrong = [] if core else wrongs() + zoo_args()
    cw = wrongs()[:1] if core else []
    out = []

    def add(m, calls):
        out.extend((m, c) for c in calls)

    if kind == "int":
        xs = args(0, 5, -1, True) if core else args(0, 1, 5, 4, 6, -1, -5, True, False, 2 ** 64, HUGE, -HUGE,
                                                    V.IntSub(5), V.IE.A)
        for m in ("__call__", "min", "max"):
            add(m, one(xs + wrong + cw))
    elif kind == "float":
        xs = args(0.0, 1.5, -2.5, V.NAN, V.INF) if core else args(
            0.0, -0.0, 1.5, 1.4999999999999998, 1.5 + 1e-9, -2.5, 1e300, V.NAN, V.INF, -V.INF, 5e-324, V.FloatSub(1.5))
        for m in ("__call__", "min", "max"):
            add(m, one(xs + wrong + cw))
        add("precision", one((args(1, 15) if core else args(0, 1, 2, 14, 15, 16, -1, True, False, HUGE, 400, 308))
                             + wrong + cw))
    elif kind == "str":
        xs = args("", "ab") if core else args("", "a", "ab", "ba", " ab", "AB\t", "aXb", "é", "\ud800", "a\n", "bb", V.StrSub("ab"), V.SE.A)
        add("__call__", one(xs + wrong + cw))
        nums = (0, 1, 2, -1) if core else (0, 1, 2, 3, -1, True, False, HUGE, -HUGE, 2 ** 63)
        add("len", len_calls(nums, (wrongs() + zoo_args()[::7]) if not core else cw))
        add("alphabet", one((args("", "ab", "a") if core else args("", "a", "ab", "ba", "b", "abX", "aa", "é", "\n", "\ud800"))
                            + wrong + cw))
        add("contains", one((args("", "a", "c") if core else args("", "a", "ab", "abc", "b", "X", "é", "ba"))
                            + wrong + cw))
        add("regex", one((args("a", "^$", "(") if core else args(
            "", "a", "^a", "b$", "^ab$", "^$", "a{2}", "(", "[", "*", "a**", "a{3,2}", "\\", "(?P<n>a)(?P<n>b)", "(?P<1>a)",
            "[z-a]", "(?<=a*)b", "a{99999999999}", "(" * 200, "(?z)", "\\N{nope}", "\\1", "(?i)AB", "\ud800", "x" * 50,
            "(?P=q)", "(?(2)a)", "\\u12", "a{4294967296,}", "[[:alpha:]]", "(?a)(?u)x")) + wrong + cw))
    elif kind == "list":
        add("__call__", elements_args(core) + one(wrong + cw))
        nums = (0, 1, 2, -1) if core else (0, 1, 2, 3, -1, True, False, HUGE, -HUGE)
        add("len", len_calls(nums, (wrongs() + zoo_args()[::7]) if not core else cw))
    elif kind == "dict":
        add("__call__", keys_args(core) + one(wrong + cw))
    elif kind == "any":
        add("__call__", any_args(core) if not core else any_args(True) + one(cw))
    else:
        xs = {"bool": args(True, False), "bytes": args(b"", b"ab", V.BytesSub(b"ab")),
              "uuid4": args(T.U1, T.U_V1, T.U_NIL) + [Shown("UUID(int=2**128-1)", T.U1.__class__(int=2 ** 128 - 1))],
              "datetime": args(T.DT1, V.datetime.max), "date": args(T.D1, T.DT1, V.date.max)}[kind]
        add("__call__", one(xs + wrong + cw))
    return out


KINDS = ("int", "float", "str", "list", "dict", "any", "bool", "bytes", "uuid4", "datetime", "date")
PROP = {"__call__": "value"}


def text_of(kind, chain):
    s = "schema." + kind
    for m, a in chain:
        s += ("" if m == "__call__" else "." + m) + "(" + ", ".join(x.text for x in a) + ")"
    return s


def fixed_value(s_args):
    """the value an element list denotes, if every element is fixed (marker otherwise)"""
    out = []
    for e in s_args:
        if not hasattr(e, "props"):
            return None
        v = single(e)
        if v is None:
            return None
        out.append(v[0])
    return out


def single(e):
    k = type(e).__name__
    if k == "NoneSchema":
        return (None,)
    p = e.props
    if k == "ListSchema" and p.elements is not Nil:
        v = fixed_value(p.elements)
        return None if v is None else (v,)
    if k == "DictSchema" and p.keys is not Nil:
        out = {}
        for key, (s, opt) in p.keys.items():
            v = None if opt or key is ... else single(s)
            if v is None:
                return None
            out[key] = v[0]
        return (out,)
    if k in ("IntSchema", "FloatSchema", "StrSchema", "BoolSchema", "BytesSchema", "UUID4Schema") \
            and p.get("value") is not Nil:
        return (p.get("value"),)
    return None


def consistent(kind, chain):
    """reference: does the fixed value of the chain satisfy every declared constraint?  None: nothing fixed"""
    d = {}
    for m, a in chain:
        d[m] = tuple(x.value for x in a)
    v = d.get("__call__", (N,))[0]
    if v is N:
        return None
    ln = d.get("len", N)
    if ln is not N and len(ln) == 2 and ln[1] is Nil:
        ln = ln[:1]
    ln = ln[0] if ln is not N and len(ln) == 1 else ln
    get = lambda m: d[m][0] if m in d else N
    if kind == "int":
        return T.Int(v, get("min"), get("max")).accept(v)
    if kind == "float":
        return T.Float(v, get("min"), get("max"), get("precision")).accept(v)
    if kind == "str":
        return T.Str(v, ln, get("alphabet"), get("contains"), get("regex")).accept(v)
    if kind == "list":
        if not isinstance(v, list):
            return None
        n = len([x for x in v if x is not ...])
        if ... not in [x if x is ... else 0 for x in v]:
            return T._len_ok(ln, n)
        # more elements may be there: only an upper bound below the fixed part contradicts it
        return ln is N or (ln >= n if not isinstance(ln, tuple) else ln[1] is ... or ln[1] >= n)
    if kind == "uuid4":
        return v.version == 4
    return True


def declared(kind, chain):
    """properties that must not be declared again"""
    return {m for m, _ in chain}


def tasks(tier):
    """one task per first call (and the empty chain)"""
    out = []
    for k in KINDS:
        n = len(moves(k, False))
        step = 4 if k in ("str", "list", "float") else 40
        out += [(k, i, min(n, i + step)) for i in range(0, n, step)]
    sizes = (4, 9, 18, 33, 70, 140) if tier == "quick" else (*range(3, 40), 65, 70, 100, 129, 140, 300)
    out += [("fine " + k, i, i + 4) for k in F.CLASS for i in range(0, len(F.POOL[k]), 4)]
    return out + [("long " + k, n, 0) for k in ("str", "list", "dict", "any", "bytes") for n in sizes
                  if tier != "quick" or k != "list" or n <= 70]


def task_name(t):
    return "chains from schema.%s, %d..%d" % t


def malformed(kind, r):
    """a declaration that got through with a member that is no schema"""
    p = r.props
    ok = lambda x: hasattr(x, "__accept__") and hasattr(x, "props")
    if kind == "list" and p.get("elements") is not Nil:
        el = list(p.elements)
        return any(not ok(x) and not (x is ... and i in (0, len(el) - 1)) for i, x in enumerate(el))
    if kind == "dict" and p.get("keys") is not Nil:
        return any(not ok(x) for k, (x, _) in p.keys.items() if k is not ...)
    if kind == "any" and p.get("types") is not Nil:
        return any(not ok(x) for x in p.types)
    return False


def long_chains(kind, n):
    """declarations with n members, one of them odd, at every place"""
    row = list(range(n))
    cell = lambda text, v: Shown(text, v)
    odd = [("...", ...), ("5", 5), ("None", None), ("Nil", Nil), ("int", int), ("[schema.int]", [schema.int])]
    if kind == "str":
        word = "".join(chr(0x100 + i) for i in row)
        one_call = lambda m, v: (m, args(v))
        for i in row:
            put = word[:i] + "z" + word[i + 1:]
            cut = word[:i] + word[i + 1:]
            for m, x in (("alphabet", cut), ("alphabet", put), ("contains", put), ("contains", word[:i] + "z"), ("contains", "z" + word[i:]),
                         ("contains", word[i:]), ("contains", word[:i + 1]), ("regex", put), ("regex", "^%s$" % put), ("regex", "%s$" % word[:i]),
                         ("regex", word[i:] + "$"), ("regex", "[%s]" % word[i])):
                yield [one_call("__call__", word), one_call(m, x)]
                yield [one_call(m, x), one_call("__call__", word)]
                yield [one_call("__call__", put), one_call(m, x)]
            for a in ((i,), (i + 1,), (i, ...), (i + 1, ...), (..., i), (..., i + 1), (0, i), (0, i + 1), (i, n), (i + 1, n), (i, n + 1), (n, n + i)):
                ln = ("len", [cell(repr(x) if x is not ... else "...", x) for x in a])
                yield [one_call("__call__", word), ln]
                yield [ln, one_call("__call__", word)]
    elif kind == "list":
        ints = [schema.int(i) for i in row]
        names = ["schema.int(%d)" % i for i in row]
        for i in row:
            for t, v in odd:
                yield [("__call__", [cell("[%s]" % ", ".join(names[:i] + [t] + names[i + 1:]), ints[:i] + [v] + ints[i + 1:])])]
                yield [("__call__", [cell("[%s]" % ", ".join(names[:i] + [t] + names[i:]), ints[:i] + [v] + ints[i:])])]
            for a in ((i,), (i + 1,), (i, ...), (i + 1, ...), (..., i), (..., i + 1), (0, i), (0, i + 1), (i, n), (i + 1, n), (i, n + 1), (n, n + i)):
                ln = ("len", [cell(repr(x) if x is not ... else "...", x) for x in a])
                for el in (cell("[%s]" % ", ".join(names), ints), cell("[%s, ...]" % ", ".join(names), ints + [...]),
                           cell("[..., %s]" % ", ".join(names), [...] + ints), cell("[..., %s, ...]" % ", ".join(names), [...] + ints + [...])):
                    yield [("__call__", [el]), ln]
                    yield [ln, ("__call__", [el])]
    elif kind == "dict":
        for i in row:
            for t, v in odd:
                for kt, k in (("%d" % i, i), ("optional(%d)" % i, optional(i))):
                    keys = {j: schema.int(j) for j in row[:i]}
                    keys[k] = v
                    keys.update((j, schema.int(j)) for j in row[i + 1:])
                    text = ["%d: schema.int(%d)" % (j, j) for j in row]
                    text[i] = "%s: %s" % (kt, t)
                    yield [("__call__", [cell("{%s}" % ", ".join(text), keys)])]
    elif kind == "any":
        for i in row:
            for t, v in odd:
                cells = [cell("schema.int(%d)" % j, schema.int(j)) for j in row]
                yield [("__call__", cells[:i] + [cell(t, v)] + cells[i + 1:])]
    else:
        yield [("__call__", args(bytes(row)))]
        yield [("__call__", args(bytes(row))), ("__call__", args(bytes(row)))]


def do_long(kind, n, ctx):
    for chain in long_chains(kind, n):
        s = getattr(schema, kind)
        ctx.state()
        for i, mv in enumerate(chain):
            s = apply(kind, s, chain[:i], mv, ctx)
            if s is None:
                break
    ctx.sample("declarations of schema.%s with %d members" % (kind, n))


TABLE = {}


def table(kind, core):
    if (kind, core) not in TABLE:
        TABLE[kind, core] = moves(kind, core)
    return TABLE[kind, core]


def picture(s):
    try:
        return shape(s)
    except RecursionError:
        return id(s)


def apply(kind, s, chain, move, ctx):
    """one transition; returns the new schema or None"""
    m, a = move
    ctx.trans()
    ctx.trace()
    new = chain + [move]

    def bad(what):
        ctx.violation(text_of(kind, new)[:3000], what, repro(
            "from niltype import Nil", "globals().update(zoo_namespace())", "s = " + text_of(kind, chain),
            "r = s" + text_of(kind, [move])[len("schema." + kind):], "print(repr(r))", "v = r.props.get('value')",
            "print(repr(v), format_result(validate(r, v)))"))

    before = picture(s)
    args_before = [picture(x.value) if type(x.value) in (list, dict) else None for x in a]
    try:
        r = getattr(s, m)(*[x.value for x in a]) if m != "__call__" else s(*[x.value for x in a])
        err = None
    except DeclarationError as e:
        r, err = None, e
        if not str(e).strip():
            bad("DeclarationError without a message")
    except Exception as e:
        r, err = None, e
        bad("raised %s instead of DeclarationError: %s" % (type(e).__name__, str(e)[:300]))
    if picture(s) != before:
        bad("the receiver was changed")
    for x, b in zip(a, args_before):
        if b is not None and picture(x.value) != b:
            bad("the argument was changed")
    if err is not None:
        ctx.count("refused")
        return None
    ctx.count("declared")
    if not hasattr(type(r), "__accept__"):
        bad("returned %r" % (r,))
        return None
    if malformed(kind, r):
        bad("accepted with a member that is no schema")
        return None
    if m in declared(kind, chain):
        bad("%s was declared already and is accepted again" % m)
        return None
    ok = consistent(kind, new)
    if ok is False:
        bad("accepted although it contradicts the fixed value")
        return None
    v = r.props.get("value")
    if v is Nil and kind == "list":
        el = r.props.get("elements")
        v = fixed_value(el) if el is not Nil else None
        v = Nil if v is None else v
    if v is not Nil:
        errs = validate(r, v).get_errors()
        if errs:
            bad("the fixed value %s does not conform to its own schema: %s" % (lit(v)[:300], str(errs)[:300]))
            return None
        ctx.count("fixed")
    return r


def key_of(s):
    return repr(shape(s))


def shown(*vs):
    return tuple(Shown(lit(v), v) for v in vs)


def do_fine(kind, lo, hi, ctx):
    """a fixed value, then constraints that fit it and constraints that just do not"""
    root = getattr(schema, kind)
    for x in F.OTHERS if not lo else []:
        apply(kind, root, [], ("__call__", shown(x)), ctx)
    for v in F.POOL[kind][lo:hi]:
        fix = ("__call__", shown(v))
        s = apply(kind, root, [], fix, ctx)
        moves = []
        near = F.nearer(v)
        if kind in ("int", "float"):
            moves = [(m, shown(x)) for x in [v] + near for m in ("min", "max")]
            moves += [("precision", shown(p)) for p in (1, 2, 3, 7, 15)] if kind == "float" else []
        elif kind == "str":
            n = len(v)
            moves = [(m, shown(x)) for x in [v] + near[::2] for m in ("contains", "alphabet", "regex")]
            moves += [("contains", shown(v[i:j])) for i in range(min(n, 4)) for j in range(i, min(n, 6) + 1)] + [("alphabet", shown("".join(sorted(set(v)))[k:])) for k in (0, 1)]
            moves += [("contains", shown(x)) for k in {1, 2, 3, n // 2, n - 1} if 0 < k < n for x in (v[-k:], v[n // 2:n // 2 + k], v[:k], v[-k:] + v[-1:], v[1:k] + "~")]
            moves += [("regex", shown(f % re.escape(x))) for x in [v] + near[:24] for f in ("^%s$", "%s$")] + [("regex", shown(p)) for p in F.PATTERNS[::3]]
            moves += [("len", a) for m in {n, max(0, n - 1), n + 1, len(v.encode("utf-8", "surrogatepass")), len(v.encode("utf-16-le", "surrogatepass")) // 2}
                      for a in (shown(m), shown(m, ...), shown(..., m), shown(m, m), shown(0, m), shown(m, m + 1))]
        if s is None:
            continue
        ctx.state()
        for mv in moves:
            r = apply(kind, s, [fix], mv, ctx)
            if r is not None:
                ctx.state()
            # the constraint first
            r = apply(kind, root, [], mv, ctx)
            if r is not None:
                apply(kind, r, [mv], fix, ctx)


def run_task(task, ctx):
    kind, lo, hi = task
    if kind.startswith("long "):
        return do_long(kind[5:], lo, ctx)
    if kind.startswith("fine "):
        return do_fine(kind[5:], lo, hi, ctx)
    full, core = table(kind, False), table(kind, True)
    root = getattr(schema, kind)
    seen = set()
    frontier = []
    for mv in full[lo:hi]:
        r = apply(kind, root, [], mv, ctx)
        if r is not None:
            ctx.state()
            k = key_of(r)
            if k not in seen:
                seen.add(k)
                frontier.append((r, [mv]))
    for depth in (2, 3, 4):
        table_ = full if depth <= (3 if ctx.deep else 2) else core
        nxt = []
        for s, chain in frontier:
            for mv in table_:
                r = apply(kind, s, chain, mv, ctx)
                if r is not None:
                    k = key_of(r)
                    if k not in seen:
                        seen.add(k)
                        ctx.state()
                        nxt.append((r, chain + [mv]))
        frontier = nxt
    ctx.sample(task_name(task) + " e.g. " + (text_of(kind, frontier[0][1]) if frontier else "")[:300])
