"""C05: substitution never widens.

States: (schema term S, plain value v with S % v defined, third value w).  w ranges over v, every
one-step perturbation of v and of its completion, the completions of v by absent / conforming / wrong
members, boundary floats around v, generated values and witnesses of S.
Oracle: result accepts w  =>  S accepts w  and the reference semantics of S accept w.
"""
import itertools as it

from d42 import fake, substitute
from d42.substitution.errors import SubstitutionError

from .. import subst
from .. import values as V
from ..common import accepts, declare, repro, show
from ..families import families
from ..fine import fine
from ..rng import run
from ..terms import copyv, src
from . import c02, c04

ASSUMPTIONS = c02.ASSUMPTIONS
BOUNDS = {"quick": "level 0-3 universe; 3 generated values per result"
          "; fine cases (18 row sizes); families",
          "thorough": "deep universe; 3 generated values per result; second-order perturbations of v"}


def tasks(tier):
    return families(tier == "thorough") + fine(tier == "thorough", light=True) + c04.terms_for(tier)


def task_name(t):
    return src(t)


def run_task(t, ctx):
    s = declare(ctx, t)
    if s is None:
        return
    for v in subst.given(t, ctx.deep):
        if not subst.plain(v):
            continue
        ctx.trans()
        try:
            r = substitute(s, copyv(v))
        except SubstitutionError:
            ctx.count("refused")
            continue
        ctx.state()
        ws = subst.third(t, v, ctx.deep)
        if ctx.deep:
            ws = V.dedupe(ws + [x for p in it.islice(V.perturb(v), 60) for x in it.islice(V.perturb(p), 30)])
        for p in (0, 1, 2):
            o = run(lambda: fake(r), p)
            if o.exc is None:
                ws.append(o.value)
        for w in ws:
            ctx.trace()
            if not accepts(r, w):
                continue
            ctx.count("accepted_by_result")
            if accepts(s, w) and (t.accept(w) or c02.ambiguous(t, w)):
                continue
            if not accepts(s, w) and c02.ambiguous(t, w):
                continue
            ctx.violation("%s %% %s <- %s" % (src(t), show(v), show(w)),
                          "the result accepts the value, the original %s" % (
                              "does not" if not accepts(s, w) else "must not"),
                          repro("s = " + src(t), "r = substitute(s, %s)" % show(v), "print(repr(r))",
                                "w = " + show(w),
                                "print('result:', format_result(validate(r, w)), 'original:', "
                                "format_result(validate(s, w)))"))
            break
    ctx.sample(src(t))
