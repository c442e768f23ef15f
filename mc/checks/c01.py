"""C01: every outcome of the random draws yields an accepted value.

States: (schema term, draw script).  Every term of the universe that is satisfiable in all
sub-schemas generation visits is built through the DSL; the draw tree of fake() is explored
(completely if small, otherwise 3 base policies with bounded deviations incl. both extremes of
every draw).  Oracle: no exception, validate() silent, and the reference semantics accept.
"""
import re

from d42 import fake, substitute, validate
from d42.substitution.errors import SubstitutionError

from .. import terms as T
from .. import universe as U
from ..common import declare, messages, repro, show
from ..families import families
from ..fine import fine
from ..rng import explore
from ..terms import (AnyT, Dict, Float, Int, List, N, Str, copyv, hereditarily_satisfiable, src)

ASSUMPTIONS = ["os.urandom (uuid4) and the clock (datetime.utcnow, date.today) are not controlled"]
BOUNDS = {
    "quick": "deep leaf universe + level 1-3 containers + substitution results; complete draw trees up "
             "to 200 leaves, otherwise 3 policies x <=1 deviation on the first 14 / last 3 draws"
          "; fine rows of 1-130 members, fine scalars, families of look-alikes; lengths up to 100001, two-sided bounds with gaps up to 4096",
          "thorough": "deep universe at every level; complete draw trees up to 1500 leaves, otherwise 3 policies "
                "x <=2 deviations on the first 14 / last 4 draws",
}

INF = float("inf")


def numeric_edges():
    out = []
    for lo in (2 ** 31 - 1, 2 ** 31, 2 ** 63, 2 ** 63 - 1, 2 ** 64, 10 ** 30, -2 ** 31, -2 ** 63, -10 ** 30,
               2 ** 32, 2 ** 53 + 1):
        out += [Int(min=lo), Int(max=lo), Int(min=lo, max=lo), Int(min=lo, max=lo + 1)]
    fs = [0.1, 0.11, 0.14, 0.15, 0.19, 0.2, 0.25, 0.3, 1.005, 2.675, -0.05, -0.1, 1e-9, 1e15, 1e16,
          123456.789, 1e22, 1e300, -1e300, 5e-324, -5e-324, 1.7976931348623157e308,
          -1.7976931348623157e308, INF, -INF, 0.0, -0.0, 4.35, 1.1, 2.2, 3.3]
    for a in fs:
        for p in (N, 1, 2, 3, 15):
            out += [Float(min=a, precision=p), Float(max=a, precision=p),
                    Float(min=a, max=a, precision=p)]
            for d in (0.01, 0.04, 0.1, 1.0):
                if abs(a) < 1e6:
                    out.append(Float(min=a, max=a + d, precision=p))
    out += [Float(min=-1e308, max=1.7e308), Float(min=-INF, max=INF), Float(min=1e308, max=INF)]
    for n in (9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 999, 1000,
              1001, 1023, 1024, 1025, 4096):
        out += [Str(len=n), Str(len=(n, ...)), Str(len=(..., n)), Str(len=(n, n + 1)),
                Str(len=(n, ...), alphabet="a"), Str(len=(n, ...), substr="ab"),
                Str(substr="ab" * n), Str(substr="ab" * n, alphabet="ab"),
                Str(len=(..., n), substr="a" * n), List("bare", (), n),
                List("bare", (), (n, ...)), List("bare", (), (..., n)), List("of", (Int(1),), (n, ...)),
                List("of", (Int(1),), (n, n + 1)),
                List("exact", (Int(1), ...), n), List("exact", (..., Int(1)), n),
                List("exact", (..., Int(1), ...), n), List("exact", (...,), n)]
    for m in (1, 2, 3, 5, 9, 33, 99):
        for n in (34, 52, 60, 65, 100, 129, 257, 1025, 4097):
            if m < n:
                out += [Str(len=(m, n)), Str(len=(m, n), alphabet="ab"), Str(len=(m, n), substr="q"), List("bare", (), (m, n)),
                        List("of", (Int(),), (m, n)), List("exact", (Int(1), ...), (m, n)), List("exact", (..., Int(1), ...), (m, n))]
    for items in ((Int(), Str(), ...), (..., Int(), Str()), (..., Int(), Str(), ...), (...,),
                  (Int(), ...), (..., Int()), (..., Int(), ...)):
        k = len([i for i in items if i is not ...])
        for ln in (k, k + 1, k + 2, k + 5, (0, ...), (k, ...), (..., k), (..., k + 3), (k, k), (k, k + 4),
                   (0, k)):
            t = List("exact", items, ln)
            if U.len_declarable(t):
                out.append(t)
    return out


def enormous():
    out = []
    for n in (2047, 2048, 4095, 5000, 8192, 9999, 10000, 10001, 16384, 20000, 32768, 65535, 65536, 100001):
        out += [Str(len=n), Str(len=(n, ...), alphabet="ab"), Str(substr="ab" * (n // 2), alphabet="ab"), Str(len=(n, n), substr="q"),
                List("bare", (), n), List("of", (Int(1),), n), List("of", (Int(1),), (n, ...)), List("exact", (Int(1), ...), n)]
    return out


UNSUPPORTED = re.compile(r"\\[sSDWAZ]")


def generated(t):
    """a fine term that can be generated; constructs generation does not support (C09 checks that they are refused) left out"""
    return supported(t) and hereditarily_satisfiable(t)


def supported(t):
    t = T.strip(t)
    if t.kind == "str" and t.pattern is not N and UNSUPPORTED.search(t.pattern):
        return False
    return all(map(supported, t.subterms()))


def unsat():
    return Int(min=5, max=3)


# genuine defects that are recorded, not repaired: KNOWN_FINDINGS.txt
RECORDED = [AnyT(unsat(), T.NoneT()), List("of", (unsat(),)), AnyT(Str(len=2, alphabet=""), Int())]


def tasks(tier):
    deep = tier == "thorough"
    us = U.everything(True) if deep else U.dedupe(U.leaves(True) + U.level1() + U.level2() + U.level3())
    us = U.dedupe(us + U.scale(deep) + U.extents(deep) + numeric_edges())
    return families(deep, hereditarily_satisfiable) + fine(deep, generated, light=True) + [("fake", t) for t in us if hereditarily_satisfiable(t)] + [("fake", t) for t in enormous()] \
        + [("sub", t) for t in U.dedupe(U.level1() + U.level2(deep) + U.level3(deep))
           if hereditarily_satisfiable(t)] + [("fake", t) for t in RECORDED]


def family_task(t):
    return "fake", t


def task_name(task):
    return "%s %s" % (task[0], src(task[1]))


def explored(ctx, s, text, build_text, ref=None):
    stats = {}
    kw = dict(bound=2, full_limit=1500, head=14, tail=4, max_runs=4000) if ctx.deep else dict(full_limit=200, head=14)
    for o in explore(lambda: fake(s), stats=stats, **kw):
        ctx.trace()
        ctx.trans(len(o.draws))
        bad = None
        if o.exc is not None:
            bad = "fake raised %r" % (o.exc,)
        elif validate(s, o.value).has_errors():
            bad = "generated %s: %s" % (show(o.value)[:300], messages(s, o.value)[:3])
        elif ref is not None and not ref(o.value):
            bad = "generated %s, which does not conform to the declaration" % show(o.value)[:300]
        if bad:
            ctx.violation(text, "%s\nunder draws %s" % (bad, o.script()), repro(
                "s = " + build_text,
                "v = scripted(lambda: fake(s), %d, %r)" % (o.policy, dict(o.dev)),
                "print(repr(v), format_result(validate(s, v)))"))
            return
    for k, n in stats.items():
        ctx.count("draw_" + k, n)


def partials(v):
    if type(v) is dict and v:
        for k in v:
            yield {k: copyv(v[k])}
        yield {}


def run_task(task, ctx):
    mode, t = task
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()
    if mode == "fake":
        explored(ctx, s, src(t), src(t), t.accept)
        ctx.sample(src(t))
        return
    wits = t.wit()
    for v in (wits if ctx.deep else wits[:2] + wits[-1:]):
        for w in [v] + list(partials(v)):
            if w is not v and not isinstance(T.strip(t), Dict):
                continue
            try:
                r = substitute(s, copyv(w))
            except SubstitutionError:
                ctx.count("substitution_refused")
                continue
            ctx.state()
            text = "%s %% %s" % (src(t), show(w))
            explored(ctx, r, text, "substitute(%s, %s)" % (src(t), show(w)), t.accept)
