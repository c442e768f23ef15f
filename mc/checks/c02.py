"""C02: the verdict of validate() is exactly the declared meaning.

States: (schema term, value) for the complete product of the bounded term universe and, per term,
the value space derived from it (witnesses, every one-step perturbation at every depth, values at and
next to every declared bound, all sequences over the element alphabet up to a length, all subsets of
the declared keys with good / bad / absent members, and a fixed generic pool).
Oracle: terms.accept, written from the documented meaning.
"""
import itertools as it
from fractions import Fraction

from d42 import validate

from .. import terms as T
from .. import universe as U
from .. import values as V
from ..common import declare, messages, repro, show
from ..families import families
from ..fine import fine
from ..terms import Alias, AnyT, Dict, Int, List, N, Str, copyv, src

ASSUMPTIONS = ["fixed floats with a precision: values whose scaled distance from a rounding tie is below "
               "1e-6 are left out (binary rounding there is not part of the documented meaning)"]
BOUNDS = {
    "quick": "deep leaves + level 1-3 containers, 33 keys / elements / alternatives, 11 levels; sequences up to length 3 (4 for "
             "contains forms); element patterns up to length 4 against all words up to length 7"
          "; fine cases: near values of 400 declared values, rows and texts of 37 sizes up to 257 with one odd place; families of look-alikes",
          "thorough": "deep universe at every level, 129 wide, 24 deep; sequences up to length 5; patterns up to 5, words up to 9",
}


def extra():
    """windows, lengths and key combinations worth a denser product"""
    i, s, a = Int(1), Str("a"), Int(2)
    out = []
    for items in ((..., i, s, ...), (..., i, i, ...), (..., i, s, i, ...), (..., i, i, s, ...), (..., i, s),
                  (i, s, ...), (..., i, ...), (..., i), (i, ...), (i, s, a), (..., i, i, i), (...,), ()):
        for ln in [N, 1, 2, 3, 4, (1, ...), (2, ...), (3, ...), (..., 1), (..., 2), (..., 3), (..., 4), (1, 2),
                   (2, 3), (3, 3), 0, (0, 0), (..., 0), (0, ...)]:
            t = List("exact", items, ln)
            if U.len_declarable(t):
                out.append(t)
    for o in range(8):
        for rel in (0, 1):
            out.append(Dict((("a", Int(min=0), o & 1), ("b", Str(), o & 2), ("c", AnyT(i, T.NoneT()), o & 4)),
                            rel))
    for name in ("T", "", "é"):
        for t in (List("of", (i,), 2), AnyT(i, s), Dict((("a", i, True),), True)):
            out += [Alias(name, t), List("of", (Alias(name, t),)), AnyT(Alias(name, t), T.NoneT())]
    return out


def tasks(tier):
    deep = tier == "thorough"
    us = U.everything(True) if deep else U.dedupe(U.leaves(True) + U.extents() + U.level1() + U.level2() + U.level3())
    return [("words", n) for n in range(5 if deep else 4)] + families(deep) + fine(deep) + U.dedupe(us + U.scale(deep) + extra())


def task_name(t):
    return repr(t) if isinstance(t, tuple) else src(t)


def words(k, ctx):
    """element patterns as words: every pattern of length k over the elements, in every form, against every
    value over the letters up to a length"""
    two = [List("exact", f(p)) for p in it.product((Int(1), Int(2)), repeat=k + 1) for f in FORMS]
    three = [List("exact", f(p)) for p in it.product((Int(1), AnyT(Int(1), Int(2)), Int(min=2)), repeat=k + 1) for f in FORMS]
    for ts, letters, n in ((two, (1, 2), (9 if ctx.deep else 7) - (k > 3)), (three, (1, 2, 3), 5 if ctx.deep else 4)):
        vals = [list(c) for m in range(n + 1) for c in it.product(letters, repeat=m)]
        for t in ts:
            s = t.build()
            ctx.state()
            for v in vals:
                ctx.trans()
                want, got = t.accept(v), not validate(s, v).has_errors()
                ctx.trace()
                if want != got:
                    ctx.violation("%s <- %s" % (src(t), show(v)), "validate %s the value, which %s" % (
                        "accepts" if got else "rejects", "conforms" if want else "does not conform"),
                        repro("s = " + src(t), "v = " + show(v), "print('errors:', format_result(validate(s, v)))"))
                    break


FORMS = (lambda p: p, lambda p: p + (...,), lambda p: (...,) + p, lambda p: (...,) + p + (...,))


def ambiguous(t, v):
    t = T.strip(t)
    if t.kind == "float":
        if t.value is N or t.precision is N or not isinstance(v, float):
            return False
        if v != t.value and v - v == 0 == t.value - t.value and abs(v - t.value) <= 1e-15 * abs(v):
            return True                        # neighbours: scaling them rounds
        for x in (v, t.value):
            if x - x == 0 and abs(x) < 1e17:
                f = Fraction(x) * 10 ** t.precision
                if abs(abs(f - (f.numerator // f.denominator)) - Fraction(1, 2)) < Fraction(1, 10 ** 6):
                    return True
                if abs(f) > 10 ** 15:          # beyond exact binary scaling
                    return v != t.value and abs(v - t.value) <= 1e-6 * max(1.0, abs(v))
    return False


def run_task(t, ctx):
    if isinstance(t, tuple):
        return words(t[1], ctx)
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()
    contains = T.strip(t).kind == "list" and T.strip(t).shape() == "contains"
    seqlen = 5 if ctx.deep else 4 if contains else 3
    # one list and one dict that hold the values one after the other: the verdict is about what they hold now
    boxes = {list: ([], [None]), dict: ({}, [None])}
    for v in V.derive(t, seqlen=seqlen, wits=6 if ctx.deep else 3):
        if ambiguous(t, v):
            ctx.count("ambiguous_skipped")
            continue
        want = t.accept(v)
        ctx.trans()
        ctx.count("conforming" if want else "non_conforming")
        before = copyv(v)
        got = not validate(s, v).has_errors()
        ctx.trace()
        if got != want:
            ctx.violation("%s <- %s" % (src(t), show(v)),
                          "validate %s the value, which %s" % (
                              "accepts" if got else "rejects",
                              "conforms" if want else "does not conform")
                          + ("" if got else ": %s" % messages(s, v)[:3]),
                          repro("s = " + src(t), "v = " + show(v),
                                "print('errors:', format_result(validate(s, v)))",
                                "print('conforms by declaration: %s')" % want))
        elif (s == v) != want or (s != v) == want:
            ctx.violation("%s == %s" % (src(t), show(v)),
                          "s == v is %s, s != v is %s; the value %s" % (
                              s == v, s != v, "conforms" if want else "does not conform"),
                          repro("s = " + src(t), "v = " + show(v), "print(s == v, s != v)"))
        elif not T.same(before, v):
            ctx.violation("%s mutates %s" % (src(t), show(before)), "now %s" % show(v), "")
        elif type(v) in boxes and boxes[type(v)][1][0] is not want:
            box, was = boxes[type(v)]
            held = copyv(box)
            was[0] = want
            box.clear()
            box.extend(v) if type(v) is list else box.update(v)
            ctx.trans()
            if validate(s, box).has_errors() == want:
                ctx.violation("%s <- %s in the object that held %s before" % (src(t), show(v), show(held)),
                              "validate %s it; a new object with the same content is judged rightly" % ("rejects" if want else "accepts"),
                              repro("s = " + src(t), "v = " + show(held), "print(validate(s, v))", "w = " + show(v), "v.clear()",
                                    "v.extend(w) if type(v) is list else v.update(w)", "print(validate(s, v), validate(s, w))"))
    ctx.sample(src(t))
