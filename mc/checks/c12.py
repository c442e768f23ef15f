"""C12: substitution fails only with SubstitutionError, its result is usable, and it is idempotent.

States: (schema term, value).  Values: everything C04 substitutes (conforming, perturbed, partial, extra keys)
and every hostile-zoo value alone, wrapped, as a dict key and at every position of witnesses and of partial
witnesses.  Oracle: SubstitutionError or a schema; the result has a representation, generates (draw scripts)
values it accepts; for plain values a second substitution of the same value gives an equal schema.
"""
from d42 import fake, substitute
from d42.declaration import Schema
from d42.substitution.errors import SubstitutionError

from .. import subst
from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import accepts, declare, messages, repro, show
from ..families import families
from ..fine import fine
from ..rng import explore
from ..terms import AnyT, Custom, Dict, Int, List, NoneT, Str, copyv, hereditarily_satisfiable, src
from . import c04, c08

ASSUMPTIONS = ["a result must accept and generate something when every sub-schema of the original admits a value",
               "objects whose own special methods raise are outside the property"]
BOUNDS = {"quick": "C04 universe x C04 values; zoo at <= 8 positions of witnesses per term"
          "; fine cases; families",
          "thorough": "deep universe; zoo at <= 30 positions; pairs"}


def extra():
    """relaxed dicts at depth, under choices and in contains lists; unconvertible members outside the window"""
    rel = Dict((("a", Int(), False),), True)
    relo = Dict((("a", Int(), True), ("b", Str(), True)), True)
    bare = [Dict(), List(), AnyT()]
    out = []
    for r in (rel, relo, Dict((), True)) + tuple(bare):
        out += [List("exact", (..., r, ...)), List("exact", (..., r, Int(), ...)), List("exact", (r, ...)),
                List("exact", (..., r)), List("of", (r,)), AnyT(r, NoneT()), AnyT(NoneT(), r), AnyT(r, Int(), Str()),
                AnyT(rel, r), Dict((("k", r, False),)), Dict((("k", r, True), ("l", r, False)), True),
                List("exact", (..., AnyT(r, Int()), ...)), AnyT(List("exact", (..., r, ...)), Int()),
                Dict((("k", AnyT(r, List("of", (r,))), True),), True), T.Alias("T", List("exact", (..., r, ...))),
                Custom(r), List("exact", (..., Custom(r), ...)), List("exact", (..., r, rel, ...)),
                AnyT(Dict((("a", Int(), False), ("b", Str(), False))), r),
                List("exact", (..., List("exact", (..., r, ...)), ...)), T.Add(rel, Dict((("z", r, True),)))]
    return out


def tasks(tier):
    return families(tier == "thorough") + fine(tier == "thorough", light=True) + U.dedupe(extra() + c04.terms_for(tier))


def task_name(t):
    return src(t)


ZOO = []


def zoo():
    if not ZOO:
        for e, v in V.zoo():
            ZOO.append((e, v))
            ZOO.append(("[%s]" % e, [v]))
            if c08.hashable(v):
                ZOO.append(("{%s: 1}" % e, {v: 1}))
            ZOO.append(("{'a': %s}" % e, {"a": v}))
    return ZOO


def core_zoo():
    out = []
    for e in ("float('nan')", "float('inf')", "10**5000", "Decimal('1')", "()", "{1}", "set()", "...", "Nil", "object()",
              "schema.int", "optional('a')", "U_V1", "bytearray(b'ab')", "StrSub('a')", "IntSub(1)", "ListSub([1])",
              "DictSub(a=1)", "{...:...}", "{1:2}", "[[]]", "deep_list(40)", "cyclic_list()", "cyclic_dict()",
              "{object():1}", "[float('nan')]", "IE.A", "AlwaysEqual()", "int"):
        out.append((e, eval(e, V.zoo_namespace())))
    from d42 import optional
    out += [("{optional('a'): 1}", {optional("a"): 1}), ("{'a': ...}", {"a": ...}), ("[...]", [...]),
            ("{'q': object()}", {"q": object()}), ("{'a': 1, 'q': {2}}", {"a": 1, "q": {2}}),
            ("{'a': 1, 'q': [()]}", {"a": 1, "q": [()]})]
    return out


CORE = []


def judge(t, s, v, text, ctx, plain, hsat, draws):
    ctx.trans()

    def bad(what):
        ctx.violation(src(t)[:1500] + " % " + text()[:1500], what, repro(
            "globals().update(zoo_namespace())", "s = " + src(t), "v = " + text(), "r = substitute(s, v)",
            "print(repr(r))", "print(repr(substitute(r, v)), substitute(r, v) == r)", "print(fake(r))"))

    try:
        r = substitute(s, v)
    except SubstitutionError as e:
        ctx.count("refused")
        ctx.trace()
        if not str(e).strip():
            bad("SubstitutionError without a message")
        return
    except Exception as e:
        return bad("raised %s: %s" % (type(e).__name__, str(e)[:300]))
    ctx.state()
    ctx.count("substituted")
    if not isinstance(r, Schema):
        return bad("returned %r" % (r,))
    if hsat:
        for o in explore(lambda: fake(r), **draws):
            ctx.trace()
            if o.exc is not None:
                return bad("the result cannot be generated from: %r (draws %s)" % (o.exc, o.script()))
            if not accepts(r, o.value):
                return bad("generated %s is rejected by the result: %s" % (show(o.value)[:300], messages(r, o.value)[:2]))
        if plain and t.accept(v) and not accepts(r, v):
            return bad("the result rejects the value")
    if plain:
        ctx.trace()
        try:
            r2 = substitute(r, copyv(v))
        except Exception as e:
            return bad("substituting the same value again raised %s: %s" % (type(e).__name__, str(e)[:300]))
        if not (r2 == r and r == r2) or r2 != r:
            return bad("substituting again gives another schema: %s / %s" % (repr(r)[:700], repr(r2)[:700]))


def run_task(t, ctx):
    s = declare(ctx, t)
    if s is None:
        return
    hsat = hereditarily_satisfiable(t)
    one = dict(bound=0, full_limit=1 if not ctx.deep else 6)
    few = dict(bound=0, full_limit=4) if not ctx.deep else dict(bound=1, full_limit=24, max_runs=60)
    for v in subst.given(t, ctx.deep):
        judge(t, s, v, lambda: show(v), ctx, subst.plain(v), hsat, few)
    if hasattr(t, "case"):
        return
    for e, z in zoo():
        judge(t, s, z, lambda: e, ctx, subst_plain(z), hsat, one)
    if t.depth() == 1:
        return
    if not CORE:
        CORE.extend(core_zoo())
    seen = set()
    wits = t.wit()[:1] + t.wit()[-1:]
    parts = [p for w in wits for p in list(subst.prunes(w))[:4]]
    for w in wits + parts:
        for p in c08.slots(w):
            k = c08.text_of(p, "$")
            if k in seen or p is c08.SLOT:
                continue
            seen.add(k)
            if len(seen) > (40 if ctx.deep else 12):
                break
            for e, z in CORE:
                v = c08.fill(p, z)
                judge(t, s, v, lambda: c08.text_of(p, e), ctx, subst_plain(v), hsat, one)
    ctx.sample(src(t)[:300])


def subst_plain(v):
    try:
        return subst.plain(v) and v == v
    except Exception:
        return False
