"""C04: a successful substitution pins the value.

States: (schema term S, plain value v with S % v defined, third value w | draw script).
For each: if S accepts v the result accepts v; every generated value (draw tree explored) and every
accepted third value carries v (scalars equal up to the float tolerance, lists element-wise, dicts on
every given key); along every position that is not under a choice, the keys v leaves out keep schema,
optionality and the relaxed marker (decided by values with that key absent / conforming / wrong).
"""
from d42 import fake, substitute
from d42.substitution.errors import SubstitutionError

from .. import subst
from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import accepts, declare, messages, repro, show
from ..families import families
from ..fine import fine
from ..rng import explore
from ..terms import N, Custom, Dict, copyv, hereditarily_satisfiable, src, strip

ASSUMPTIONS = ["`usable` (generation does not raise) is required where every sub-schema of the original admits "
               "a value", "float equality is the documented tolerance"]
BOUNDS = {
    "quick": "level 0-3 universe + forwarding custom types; every substituted value derived from the term; "
             "draw trees <= 12 leaves complete, else 3 base policies"
          "; fine cases (18 row sizes); families",
          "thorough": "deep universe, pruned perturbations, draw trees <= 64 leaves complete, else <=1 deviation",
}


def terms_for(tier):
    deep = tier == "thorough"
    us = U.everything(deep)
    d = Dict((("a", T.Int(min=0), False), ("b", T.Str(), True), ("c", T.Float(min=0.5), False)), False)
    r = Dict((("a", T.Int(min=0), True), ("b", T.List("of", (T.Int(),)), False)), True)
    n = Dict((("x", d, False), ("y", r, True), ("z", T.List("of", (d,)), True)))
    more = [d, r, n, T.List("of", (d,)), T.List("exact", (d, T.Int())), T.List("exact", (d, ...)),
            T.List("exact", (..., r)), T.List("exact", (..., d, r, ...)), T.AnyT(d, r), T.AnyT(T.NoneT(), n),
            T.Alias("N", n), T.List("exact", (..., T.AnyT(d, T.Int()), ...)), T.Add(d, r),
            T.Dict((("k", T.AnyT(d, T.NoneT()), True), ("l", T.List(), False)), True),
            T.List("exact", (..., T.Int(min=1), T.Int(min=2), ...)), T.List("exact", (..., T.Int(1), T.Int(1), T.Int(2), ...)),
            T.List("exact", (..., T.Int(1), T.Int(2), T.Int(1), T.AnyT(T.Int(2), T.Int(3)), ...)),
            T.List("exact", (..., T.Int(1), T.Int(min=1), ...), (2, ...)), T.List("exact", (..., T.Int(1), T.Str(), ...), 4),
            T.List("exact", (..., T.AnyT(T.Int(), T.Str()), T.Str(), ...)),
            T.List("exact", (..., Dict((("a", T.AnyT(), False),)), ...), N)]
    more += [Custom(t) for t in U.reps() + U.reps1()]
    more += [T.List("of", (Custom(d),)), Dict((("q", Custom(r), False),))]
    return U.dedupe(us + U.scale(deep) + more)[::-1]          # the expensive ones first


def tasks(tier):
    return families(tier == "thorough") + fine(tier == "thorough", light=True) + terms_for(tier)


def task_name(t):
    return src(t)


def places(t, v, at=()):
    """(dict term, given dict, path) for every dict position not under a choice"""
    t = strip(t)
    if t.kind == "dict" and type(v) is dict and t.items is not N:
        yield t, v, at
        for k, s, _ in t.items:
            if k in v:
                yield from places(s, v[k], at + (k,))
    elif t.kind == "list" and type(v) is list and t.shape() != "contains":
        for i, ss in t.positions(len(v)).items():
            if ss:
                yield from places(ss[0], v[i], at + (i,))


def get(v, at):
    for k in at:
        v = v[k]
    return v


def with_dict(v, at, change):
    w = copyv(v)
    change(get(w, at))
    return w


def run_task(t, ctx):
    s = declare(ctx, t)
    if s is None:
        return
    prec = set(subst.precisions(t))
    hsat = hereditarily_satisfiable(t)
    kw = dict(bound=1, full_limit=64, max_runs=200) if ctx.deep else dict(bound=0, full_limit=12)
    for v in subst.given(t, ctx.deep):
        if not subst.plain(v):
            continue
        ctx.trans()
        try:
            r = substitute(s, copyv(v))
        except SubstitutionError:
            ctx.count("refused")
            continue
        ctx.state()
        ctx.count("substituted")
        text = "%s %% %s" % (src(t), show(v))

        def bad(what, w=None, gen=None):
            ctx.violation(text + ("" if w is None else " <- " + show(w)), what, repro(
                "s = " + src(t), "v = " + show(v), "r = substitute(s, v)", "print(repr(r))",
                "w = " + (show(w) if gen is None else "scripted(lambda: fake(r), %d, %r)" % (
                    gen.policy, dict(gen.dev))),
                "print(repr(w), format_result(validate(r, w)))"))

        if accepts(s, v) and not accepts(r, v):
            bad("the original accepts the value, the result rejects it: %s" % messages(r, v)[:3], v)
            continue
        if not accepts(s, v) and t.accept(v):
            bad("conforming value not accepted by the original", v)
            continue
        seen = []
        for o in explore(lambda: fake(r), **kw):
            ctx.trace()
            if o.exc is not None:
                if hsat:
                    bad("generating from the result raised %r under %s" % (o.exc, o.script()), None, o)
                break
            if not subst.carries(v, o.value, prec):
                bad("generated %s does not carry the value (draws %s)" % (show(o.value), o.script()),
                    o.value, o)
                break
            if hsat and not accepts(r, o.value):
                bad("generated %s is not accepted by the result" % show(o.value), o.value, o)
                break
            seen.append(o.value)
        for w in subst.third(t, v, ctx.deep) + seen[:3]:
            ctx.trace()
            if accepts(r, w) and not subst.carries(v, w, prec):
                bad("the result accepts a value that does not carry the substituted data", w)
                break
        # keys left out keep their schema, optionality and the relaxed marker
        base = next(iter(subst.complete(t, v)), None)
        if base is None or not t.accept(base):
            continue
        if T.strip(t).kind == "any":
            continue
        if not accepts(r, base):
            bad("completing the keys left out of the value is rejected: %s" % messages(r, base)[:3], base)
            continue
        for d, g, at in places(t, v):
            if len(g) == 0 and not d.items:
                continue
            for k, kt, opt in d.items:
                if k in g:
                    w = with_dict(base, at, lambda x: x.pop(k))
                    expect = False
                else:
                    w = with_dict(base, at, lambda x: x.pop(k, None))
                    expect = bool(opt)
                    for val in kt.wit()[:3] + [f for f in V.FOREIGN if not kt.accept(f)][:2]:
                        w2 = with_dict(base, at, lambda x: x.__setitem__(k, copyv(val)))
                        ctx.trace()
                        if accepts(r, w2) != kt.accept(val):
                            bad("key %r left out of the value no longer has its schema: %s is %s" % (
                                k, show(val), "accepted" if accepts(r, w2) else "rejected"), w2)
                ctx.trace()
                if accepts(r, w) != expect:
                    bad("key %r should be %s in the result" % (k, "optional" if expect else "required"), w)
            w = with_dict(base, at, lambda x: x.__setitem__("zz-extra", 1))
            ctx.trace()
            if accepts(r, w) != bool(d.relaxed):
                bad("extra keys should be %s" % ("accepted" if d.relaxed else "rejected"), w)
    ctx.sample(src(t))
