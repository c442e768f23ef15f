"""C16: a custom type that forwards to a built-in schema is indistinguishable from it in every position.

States: (schema tree, non-empty set of positions replaced by a forwarding custom type, forwarding style).  The tree with
and the tree without the replacement are driven side by side: validation (messages, classes, paths, starting path,
extra keyword arguments), representation (indent), generation (same draw scripts), substitution (outcome, printed form,
structure of the result, what it accepts and generates).  A recording custom type observes what containers pass on.
"""
import itertools as it

from d42 import fake, optional, represent, schema, substitute, validate
from d42.custom_type import CustomSchema, register_type
from d42.validation import Validator, format_result
from th import PathHolder

from .. import subst
from .. import fine as F
from .. import universe as U
from .. import values as V
from ..common import FMT, repro, show
from ..rng import explore, run
from ..terms import (N, Alias, AnyT, Bool, Bytes, Custom, Dict, Float, FwdProps, Forward, Int, List, NoneT, Str, Uuid, copyv,
                     hereditarily_satisfiable, satisfiable, src)
from .c06 import towers
from .c07 import shape

ASSUMPTIONS = ["a custom type around any directly inside any is not compared: nested unions are flattened when declared, and a custom "
               "type cannot be looked into"]
BOUNDS = {"quick": "950 trees, every single position / all positions / every set of <= 4 positions; <= 90 values each"
          "; rows of 5 and 12 members",
          "thorough": "every tree of levels 1-3 deep, <= 400 values each, two draw deviations"}


class Plainly(CustomSchema[FwdProps]):
    """another way to write it: substitution hands back the built-in result itself"""

    def __call__(self, target):
        return self.__class__(self.props.update(target=target))

    def __validate__(self, visitor, value, path, **kwargs):
        return self.props.target.__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        return self.props.target.__accept__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent, **kwargs):
        return self.props.target.__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, value, **kwargs):
        return self.props.target.__accept__(visitor, value=value, **kwargs)


SEEN = []


class Recorder(Plainly):
    def __validate__(self, visitor, *, value, path, **kwargs):
        SEEN.append(("validate", self, value, repr(path), kwargs))
        return super().__validate__(visitor, value, path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        SEEN.append(("generate", self, None, None, kwargs))
        return super().__generate__(visitor, **kwargs)

    def __represent__(self, visitor, *, indent, **kwargs):
        SEEN.append(("represent", self, None, indent, kwargs))
        return super().__represent__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, value, **kwargs):
        SEEN.append(("substitute", self, value, None, kwargs))
        return super().__substitute__(visitor, value, **kwargs)


register_type("mc_plainly", Plainly)
register_type("mc_recorder", Recorder)
STYLES = [("mc_forward", lambda s: schema.mc_forward(s)), ("mc_plainly", lambda s: schema.mc_plainly(s))]


class Put(Custom):
    """a term replaced by a custom type of some style"""

    def __init__(self, target, style=0):
        self.target, self.style = target, style

    def build(self):
        return STYLES[self.style][1](self.target.build())

    def src(self):
        return "schema.%s(%s)" % (STYLES[self.style][0], src(self.target))


def base_terms(deep):
    r = U.reps() + U.reps1() + [Bool(True), Bytes(b"ab"), Uuid(), Float(1.5), Str(alphabet="ab", len=2), Int(min=1, max=3), Str(pattern="^a+$")]
    out = list(r)
    out += U.list_terms([Int(), Str("a")], [N, 2, (1, ...)], 2) + U.dict_terms([Int(1), AnyT()], ("a", "b"), 2)
    out += U.any_terms([Int(), Str("a"), Dict((("a", Int(), False),)), NoneT()], 2) + [AnyT(Int(1), NoneT(), Str("a"), union=True)]
    out += [f(x) for x in r for f in (lambda t: List("of", (t,)), lambda t: List("exact", (..., t, Int(), ...)), lambda t: List("exact", (t, ...)),
                                      lambda t: List("exact", (Str("a"), t)), lambda t: List("exact", (..., t)), lambda t: List("exact", (..., t, ...)),
                                      lambda t: Dict((("k", t, True), (1, Int(), False)), True), lambda t: Dict((("k", t, False),)),
                                      lambda t: AnyT(NoneT(), t, Int()), lambda t: Alias("T", t), lambda t: Alias("T", AnyT(t, NoneT())))]
    out += U.level2(deep)[::1 if deep else 5] + U.level3(deep)[::1 if deep else 2] + towers(4)[::9 if not deep else 2]
    out += [t for n in ((5, 12, 40) if deep else (5, 12)) for t in F.row_terms(n, True) if t.depth() > 1]
    out += U.extents()[::2 if deep else 12] + U.choices()[::2 if deep else 11] + U.scale(False, (30,), (7,))[::1 if deep else 4]
    if deep:
        out += U.level1(deep)[::3]
    return U.dedupe(t for t in out if "add" not in list(U.kinds_in(t)))


def subterm_positions(t, at=()):
    """(path, inside an any)"""
    yield at
    for i, s in enumerate(t.subterms()):
        yield from subterm_positions(s, at + (i,))


def at_path(t, p):
    for i in p:
        t = t.subterms()[i]
    return t


def replaced(t, chosen, style, at=()):
    subs = [replaced(s, chosen, style, at + (i,)) for i, s in enumerate(t.subterms())]
    if t.kind == "list":
        k = iter(subs)
        r = List(t.form, [x if x is ... else next(k) for x in t.items], t.len)
    elif t.kind == "dict":
        r = t if t.items is N else Dict([(key, s, o) for (key, _, o), s in zip(t.items, subs)], t.relaxed, t.first)
    elif t.kind == "any":
        r = AnyT(*subs, union=t.union)
    elif t.kind == "alias":
        r = Alias(t.name, subs[0])
    else:
        r = t
    return Put(r, style) if at in chosen else r


def choices(t, deep):
    pos = [p for p in subterm_positions(t) if not (p and at_path(t, p).kind == "any" and at_path(t, p[:-1]).kind == "any")]
    # an alternative that is an alias of any, wrapped or not, is never flattened
    sets = [frozenset((p,)) for p in pos]
    if 1 < len(pos) <= (5 if deep else 4):
        sets = [frozenset(c) for n in range(1, len(pos) + 1) for c in it.combinations(pos, n)]
    else:
        sets.append(frozenset(pos))
        sets.append(frozenset(pos[1:]))
        sets.append(frozenset(pos[::2]))
        sets.append(frozenset(pos[1::2]))
    return [s for s in dict.fromkeys(sets) if s]


def tasks(tier):
    deep = tier == "thorough"
    return [("tree", i) for i in range(len(base_terms(deep)))] + [("record", i) for i in range(len(base_terms(deep)))] + [("facade", 0)]


def task_name(t):
    return repr(t)


_C = {}


def run_task(task, ctx):
    if not _C:
        _C["t"] = base_terms(ctx.deep)
    globals()["do_" + task[0]](ctx, task[1])


def picture(fn):
    """comparable outcome of a call"""
    try:
        return fn()
    except RecursionError:
        return "RecursionError"
    except Exception as e:
        return ("raised", type(e).__name__, str(e))


def errs(s, v, **kw):
    res = validate(s, v, **kw)
    return [(type(e).__name__, repr(e.path), e.format(FMT)) for e in res.get_errors()], format_result(res)


def bare(x):
    """the schema with every forwarding type looked through"""
    if isinstance(x, (Forward, Plainly)):
        return bare(x.props.target)
    if hasattr(x, "props"):
        return (type(x).__name__, [(n, bare(x.props.get(n))) for n in sorted(x.props)])
    if isinstance(x, dict):
        return [(bare(k), bare(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [bare(i) for i in x]
    return shape(x)


def some_values(t, deep):
    out = list(t.wit()[:6])
    if hasattr(t, "case"):
        return V.dedupe(out + t.case[::max(1, len(t.case) // (200 if deep else 40))])
    for w in t.wit()[:2]:
        p = list(V.perturb(w))
        out += p if deep else p[::max(1, len(p) // 25)]
    out += V.boundary(t)[:8] + list(V.sequences(t, 3 if deep else 2))[:400 if deep else 20] + list(V.members(t))[:60 if deep else 14]
    out += [copyv(v) for v in V.GENERIC[::2 if deep else 5]] + [IntKeyed, [[[]]], {"k": [None]}, object]
    return V.dedupe(out)[:400 if deep else 90]


IntKeyed = {1: 0, "k": None}


def do_tree(ctx, i):
    t = _C["t"][i]
    a = t.build()
    vals = some_values(t, ctx.deep)
    given = [w for w in t.wit()[:3]]
    for w in t.wit()[:2]:
        given += list(it.islice(subst.prunes(w), 6)) + list(it.islice(V.perturb(w), 0, 40, 5))
    given += list(V.sequences(t, 2))[:8] + [None, 1, "a", [], [1], {}, {"a": 1}, {"k": 1}, (), {1}]
    given += getattr(t, "case", [])[1::max(1, len(getattr(t, "case", [])) // 12)]
    given = V.dedupe(given)[:120 if ctx.deep else 32] + [{optional("a"): 1}, [...], {"k": ...}, object]
    expect_v = [picture(lambda: errs(a, v)) for v in vals]
    expect_p = [picture(lambda: errs(a, v, path=PathHolder()["root"][3])) for v in vals[::4]]
    expect_r = picture(lambda: represent(a)), picture(lambda: represent(a, indent=8)), picture(lambda: repr(a))
    expect_s = [picture(lambda: substitute(a, copyv(v))) for v in given]
    ok = satisfiable(t) and hereditarily_satisfiable(t)
    draws = dict(bound=1, full_limit=24, max_runs=40, head=5, tail=2) if ctx.deep else dict(bound=0, full_limit=8)
    for chosen in choices(t, ctx.deep):
        for style in range(len(STYLES)):
            u = replaced(t, chosen, style)
            b = u.build()
            ctx.state()
            text = src(u)

            def bad(what, got, want, code):
                ctx.violation(what, "with the custom type: %s\nwithout: %s" % (str(got)[:900], str(want)[:900]), repro(
                    "import mc.checks.c16", "s = " + text, "t = " + src(t), "for x in (s, t):", "    " + code))
            # ---- printed form
            got_r = picture(lambda: represent(b)), picture(lambda: represent(b, indent=8)), picture(lambda: repr(b))
            ctx.trans(3)
            ctx.trace()
            if got_r != expect_r:
                return bad("repr(%s)" % text, got_r, expect_r, "print(represent(x), represent(x, indent=8))")
            # ---- validation
            for v, want in zip(vals, expect_v):
                ctx.trans()
                got = picture(lambda: errs(b, v))
                ctx.trace()
                if got != want:
                    return bad("%s on %s" % (text, show(v)), got, want, "print(mc.checks.c16.errs(x, %s))" % show(v))
                if (b == v) is not (a == v):
                    return bad("%s == %s" % (text, show(v)), b == v, a == v, "print(x == %s)" % show(v))
            for v, want in zip(vals[::4], expect_p):
                ctx.trans()
                got = picture(lambda: errs(b, v, path=PathHolder()["root"][3]))
                if got != want:
                    return bad("%s on %s with a path" % (text, show(v)), got, want, "from th import PathHolder; print(mc.checks.c16.errs(x, %s, path=PathHolder()['root'][3]))" % show(v))
            # ---- generation: the same draws
            if ok:
                for o in explore(lambda: fake(a), **draws):
                    p = run(lambda: fake(b), o.policy, o.dev)
                    ctx.trans()
                    ctx.trace()
                    if o.exc is not None:
                        continue            # C01
                    if p.exc is not None or (accepts_quietly(a, o.value) and not accepts_quietly(a, p.value)):
                        return bad("fake(%s) draws %s" % (text, o.script()), p.exc or show(p.value), show(o.value),
                                   "print(scripted(lambda: fake(x), %d, %r))" % (o.policy, o.dev))
            # ---- substitution
            for v, want in zip(given, expect_s):
                ctx.trans()
                got = picture(lambda: substitute(b, copyv(v)))
                ctx.trace()
                if hasattr(want, "props") and hasattr(got, "props"):
                    if bare(got) != bare(want) or picture(lambda: repr(got)) != picture(lambda: repr(want)):
                        return bad("%s %% %s" % (text, show(v)), picture(lambda: repr(got)), picture(lambda: repr(want)), "print(repr(substitute(x, %s)))" % show(v))
                    if style == 0 and (() in chosen) and not isinstance(got, Forward):
                        return bad("type of %s %% %s" % (text, show(v)), type(got), "Forward", "print(type(substitute(x, %s)))" % show(v))
                    for w in (v, vals[0], vals[len(vals) // 2]):
                        ctx.trans()
                        x, y = picture(lambda: errs(got, w)), picture(lambda: errs(want, w))
                        if x != y:
                            return bad("(%s %% %s) on %s" % (text, show(v), show(w)), x, y, "print(mc.checks.c16.errs(substitute(x, %s), %s))" % (show(v), show(w)))
                    if ok and not ctx.deep:
                        continue
                    if ok:
                        for o in explore(lambda: fake(want), bound=0, full_limit=4):
                            p = run(lambda: fake(got), o.policy, o.dev)
                            if o.exc is None and (p.exc is not None or accepts_quietly(want, o.value) and not accepts_quietly(want, p.value)):
                                return bad("fake(%s %% %s)" % (text, show(v)), p.exc or show(p.value), show(o.value), "print(fake(substitute(x, %s)))" % show(v))
                elif got != want:
                    return bad("%s %% %s" % (text, show(v)), picture(lambda: repr(got)), picture(lambda: repr(want)), "print(repr(substitute(x, %s)))" % show(v))
            # ---- as a member of an expression
            ctx.trans()
            if picture(lambda: repr(b | schema.none)) != picture(lambda: repr(a | schema.none)) and t.kind != "any":
                return bad("%s | schema.none" % text, repr(b | schema.none), repr(a | schema.none), "print(repr(x | schema.none))")
    ctx.sample("%s with positions replaced" % src(t)[:300])


def accepts_quietly(s, v):
    try:
        return not validate(s, v).has_errors()
    except Exception:
        return False


class Rec(Put):
    def __init__(self, target, style=0):
        self.target = target

    def build(self):
        return schema.mc_recorder(self.target.build())

    def src(self):
        return "schema.mc_recorder(%s)" % src(self.target)


class Watch:
    """what a built-in in the same position is handed: the visitor's own methods, observed"""

    def __init__(self, base, names):
        self.calls = []
        calls = self.calls

        class Watching(base):
            pass
        for n in names:
            def method(inner, sch, _n=n, **kw):
                calls.append((_n, kw))
                return getattr(base, _n)(inner, sch, **kw)
            setattr(Watching, n, method)
        self.cls = Watching


def do_record(ctx, i):
    """what reaches a custom member: path, indent, keyword arguments"""
    t = _C["t"][i]
    pos = [p for p in subterm_positions(t) if p and not (at_path(t, p).kind == "any" and at_path(t, p[:-1]).kind == "any")]
    names = [n for n in dir(Validator) if n.startswith("visit")]
    for p in pos[:8]:
        u = replaced(t, frozenset((p,)), 0)
        b = swap(u).build()
        target = at_path(t, p)
        text = src(swap(u))
        ctx.state()

        def bad(what, why):
            ctx.violation("%s: %s" % (what, text), why, repro("import mc.checks.c16", "s = " + text, "# " + what))
        # keyword arguments travel (the operation's own hook only: errors are rendered without them)
        some = some_values(t, False)[:20]
        for kw in ({}, {"flag": 7}, {"flag": None, "other": [1]}):
            for hook, calls in (("represent", [lambda: represent(b, **kw), lambda: represent(b, indent=2, **kw)]),
                                ("generate", [lambda: run(lambda: fake(b, **kw), q) for q in (0, 2)]),
                                ("validate", [lambda v=v: validate(b, v, **kw) for v in some]),
                                ("substitute", [lambda v=v: substitute(b, copyv(v), **kw) for v in some])):
                if hook == "generate" and not hereditarily_satisfiable(t):
                    continue
                for call in calls:
                    del SEEN[:]
                    picture(call)
                    ctx.trans()
                    for name, _, v, where, got in SEEN:
                        if name == hook and got != kw:
                            return bad("%s with %r" % (hook, kw), "the custom member was handed %r" % (got,))
                        ctx.trace()
        # paths: the same as the ones a built-in in that position sees
        kind = "visit_" + {"alias": "type_alias"}.get(target.kind, target.kind)
        if kind not in names:
            continue
        plain = t.build()
        inner = child(plain, p, t)
        if inner is None:
            continue
        for v in some_values(t, False)[:30]:
            w = Watch(Validator, names)
            visitor = w.cls()
            ident = []

            def method(self_, sch, _n=kind, **kws):
                if sch is inner:
                    ident.append((repr(kws.get("path")), id(kws.get("value"))))
                return getattr(Validator, _n)(self_, sch, **kws)
            setattr(w.cls, kind, method)
            r1 = picture(lambda: plain.__accept__(visitor, value=v, path=PathHolder()))
            del SEEN[:]
            r2 = picture(lambda: b.__accept__(Validator(), value=v, path=PathHolder()))
            if isinstance(r1, tuple) or isinstance(r2, tuple):
                continue
            ctx.trans()
            got = [(where, id(val)) for hook, _, val, where, _ in SEEN if hook == "validate"]
            ctx.trace()
            if got != ident:
                return bad("validate %s" % show(v), "the custom member saw %r, a built-in sees %r" % ([g[0] for g in got], [g[0] for g in ident]))


def swap(u):
    """Put -> Rec"""
    if isinstance(u, Put):
        return Rec(swap(u.target))
    return replace_children(u, [swap(s) for s in u.subterms()])


def replace_children(t, subs):
    if t.kind == "list":
        k = iter(subs)
        return List(t.form, [x if x is ... else next(k) for x in t.items], t.len)
    if t.kind == "dict":
        return t if t.items is N else Dict([(key, s, o) for (key, _, o), s in zip(t.items, subs)], t.relaxed, t.first)
    if t.kind == "any":
        return AnyT(*subs, union=t.union)
    if t.kind == "alias":
        return Alias(t.name, subs[0])
    return t


def child(s, p, t):
    """the built schema object at a position of the term (None if unions were flattened on the way)"""
    for i in p:
        sub = t.subterms()[i]
        if t.kind == "list":
            if t.form == "of":
                s = s.props.type
            else:
                s = [e for e in s.props.elements if e is not ...][i]
        elif t.kind == "dict":
            s = s.props.keys[t.items[i][0]][0]
        elif t.kind == "any":
            if any(x.kind == "any" for x in t.types):
                return None
            s = s.props.types[i]
        elif t.kind == "alias":
            s = s.props.type
        t = sub
    return s


def do_facade(ctx, _):
    """registration and the hooks themselves"""
    class One(Forward):
        pass
    got = register_type("mc_one", One)
    ctx.state()
    ctx.trace()
    if not isinstance(got, One) or not isinstance(schema.mc_one, One) or schema.mc_one != got:
        ctx.violation("register_type", "schema.mc_one is %r" % (schema.mc_one,), "")
    x, y = schema.mc_one(schema.int), schema.mc_one(schema.str)
    for s, v, want in ((x, 1, True), (x, "a", False), (y, 1, False), (y, "a", True)):
        ctx.trans()
        if (s == v) is not want or validate(s, v).has_errors() is want:
            ctx.violation("registered custom type on %r" % (v,), "verdict is wrong", "")
    if isinstance(schema.mc_one, One) and schema.mc_one.props.get("target") is not schema.mc_one.props.get("target"):
        ctx.violation("schema.mc_one", "remembers an earlier target", "")
