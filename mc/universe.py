"""Bounded universes of schema terms.  Everything is a complete product of small pools;
order: simplest first."""
import itertools as it
import math

from .terms import (D1, DT1, U1, N, Add, Alias, AnyT, Bool, Bytes, Date, DateTime, Dict,
                    Float, Int, List, NoneT, Str, Uuid, hereditarily_satisfiable, src)

INF, NAN = math.inf, math.nan


def dedupe(ts):
    seen, out = set(), []
    for t in ts:
        s = src(t)
        if s not in seen:
            seen.add(s)
            out.append(t)
    return out


def consistent(t, value):
    return value is N or t.accept(value)


def ints(deep=False):
    values = [N, 0, 1, -5, 4, True] + ([2 ** 70, False, 3, 5] if deep else [2 ** 70])
    mins = [N, 0, 3, -2, 2 ** 64] + ([1, -2 ** 64, 2 ** 63 - 1, True] if deep else [])
    maxs = [N, 0, 5, -2 ** 64] + ([3, 2 ** 64, -1, 2 ** 63] if deep else [])
    return [t for v, a, b in it.product(values, mins, maxs)
            for t in [Int(v, a, b)] if consistent(t, v)]


def floats(deep=False):
    values = [N, 0.0, 1.5, -2.25, 0.1 + 0.2, INF, NAN] + ([-0.0, 1e300, 2.5, 5e-324] if deep else [])
    mins = [N, 0.0, -1.5, 0.125, 1e300, -INF] + ([0.11, 1.5, INF, -1e308] if deep else [])
    maxs = [N, 0.0, 0.5, 2.5, INF] + ([0.14, -1e300, 1e308, 1.5] if deep else [])
    precs = [N, 1, 2, 15] + ([3, 7] if deep else [])
    return [t for v, a, b, p in it.product(values, mins, maxs, precs)
            for t in [Float(v, a, b, p)] if consistent(t, v)]


PATTERNS = ["", "a", "^a+$", "a|b", "^[0-9]{2}$", r"\d", "^(ab|c)?d*$"]
LENS = [N, 0, 2, (1, ...), (..., 2), (1, 3)]
LENS_DEEP = LENS + [3, (2, 2), (0, ...), (..., 0), (40, ...), (3, ...)]


def strs(deep=False):
    values = [N, "", "ab", "a\nb"] + (["é", "aXb", "\ud800", "0"] if deep else [])
    lens = LENS_DEEP if deep else LENS + [(40, ...)]
    alph = [N, "", "ab", "é☃"] + (["a", "ba\n", "aa"] if deep else [])
    subs = [N, "", "a", "ab"] + (["é", "aa"] if deep else [])
    out = [t for v, ln, a, s in it.product(values, lens, alph, subs)
           for t in [Str(v, ln, a, s)] if consistent(t, v)]
    out += [t for v in values for p in PATTERNS for t in [Str(v, pattern=p)] if consistent(t, v)]
    return out


def fixed():
    return [NoneT(), AnyT(), Bool(), Bool(True), Bool(False), Bytes(), Bytes(b""), Bytes(b"ab"),
            Uuid(), Uuid(U1), DateTime(), DateTime(DT1), Date(), Date(D1)]


def leaves(deep=False):
    return dedupe(fixed() + ints(deep) + floats(deep) + strs(deep))


def reps():
    """one leaf per shortcut that containers care about"""
    return [Int(), Int(1), Str(len=(1, ...)), NoneT(), AnyT(), Float(min=0.0), Bool(), Str("a")]


def list_terms(elems, lens=LENS, width=2):
    out = [List("bare", (), ln) for ln in lens]
    for e in elems:
        out += [List("of", (e,), ln) for ln in lens]
    for k in range(0, width + 1):
        for combo in it.product(elems, repeat=k):
            for a, b in it.product((False, True), repeat=2):
                items = ((...,) if a else ()) + combo + ((...,) if b else ())
                if items == (..., ...):
                    continue
                for ln in lens:
                    t = List("exact", items, ln)
                    if len_declarable(t):
                        out.append(t)
    return dedupe(out)


def len_declarable(t):
    """mirror of 'declaration rejects a len contradicting the elements', and of the
    (over-)rejection of a min len above the number of elements"""
    n, ln = len(t.subterms()), t.len
    ell = ... in t.items
    if ln is N:
        return True
    if isinstance(ln, tuple):
        lo, hi = ln
        return (lo is ... or lo <= n) and (hi is ... or hi >= n)
    return ln >= n if ell else ln == n


def dict_terms(elems, keys=("a", "b"), width=2):
    out = [Dict(), Dict(()), Dict((), True)]
    for k in range(1, width + 1):
        for ks in it.combinations(keys, k):
            for combo in it.product(elems, repeat=k):
                for opts in it.product((False, True), repeat=k):
                    for rel in (False, True):
                        out.append(Dict(tuple(zip(ks, combo, opts)), rel))
    return dedupe(out)


def any_terms(elems, width=2):
    out = []
    for k in range(1, width + 1):
        for combo in it.product(elems, repeat=k):
            out.append(AnyT(*combo))
    return dedupe(out)


ODD_KEYS = (1, None, "", ("t", 2), b"k", 1.5, True, "a.b", "é", frozenset(), "a'b\"c\\\n")


# pairs of keys that differ only for Python's ==: text against value, case, blanks, normal forms, prefixes
COLLIDING = (("1", 1), ("a", b"a"), ("a", "A"), ("a", "a "), ("None", None), ("a", ("a",)), ("\u00e9", "e\u0301"), ("a.b", "a"),
             ("", None), (0, ""), (0, None), ("True", True), ("a", "aa"), ("...", "a"), (1, 2 ** 61), (-1, -2), (1.5, "1.5"),
             ("optional('a')", "a"))


def level1(deep=False):
    r = reps()
    small = r[:5] if deep else r[:4]
    out = list_terms(small, LENS_DEEP if deep else LENS, 2)
    out += list_terms([Int(1), Str("a")], LENS + [3], 3)
    out += [List("of", (e,), ln) for e in r for ln in LENS_DEEP]
    out += dict_terms(r if deep else small, ("a", "b"), 2)
    out += [Dict(((k, Int(), o),), rel) for k in ODD_KEYS for o in (0, 1) for rel in (0, 1)]
    out += [Dict(((k, Int(), o1), (j, Str("x"), o2)), rel) for k, j in COLLIDING for o1 in (0, 1) for o2 in (0, 1)
            for rel in ((0, 1) if deep else (0,))]
    out += [Dict((("a", Int(), False), ("b", Str(), True)), True, True)]
    out += any_terms(r if deep else r[:6], 2)
    out += [AnyT(Int(1), Str("a"), NoneT()), AnyT(Int(1), Int(min=3), Int(max=-2))]
    out += [AnyT(Int(), Str(), union=True), AnyT(Int(1), NoneT(), Str("a"), union=True)]
    out += [Alias("T", e) for e in r]
    d = [Dict((("a", Int(), False),)), Dict((("a", Str(), True), ("b", Int(1), False))),
         Dict((("b", NoneT(), True),), True), Dict((), True), Dict(())]
    out += [Add(x, y) for x in d for y in d]
    return dedupe(out)


def reps1():
    """representative containers"""
    i, s = Int(min=0), Str(len=(1, ...))
    return [List(), List("of", (i,)), List("exact", (i, s)), List("exact", (i, ...)),
            List("exact", (..., i)), List("exact", (..., Int(1), s, ...)),
            Dict(), Dict((("a", i, False), ("b", s, True))), Dict((("a", i, True),), True),
            AnyT(Int(1), s), Alias("T", List("of", (i,)))]


def level2(deep=False):
    r1 = reps1()
    some = r1 if deep else [r1[1], r1[3], r1[5], r1[7], r1[9]]
    out = list_terms(some, [N, 2, (1, ...)] if deep else [N, 2], 1)
    out += [List("exact", x) for a, b in it.product(some, [Int(), Str()])
            for x in ((a, b), (b, a), (a, b, ...), (..., b, a), (..., a, b, ...), (..., b, a, ...))]
    out += [List("of", (e,), ln) for e in r1 for ln in (N, 2, (..., 1))]
    out += dict_terms(some, ("a",), 1)
    out += [Dict((("a", x, o1), ("b", y, o2)), rel) for x in r1 for y in (Int(), some[0])
            for o1 in (0, 1) for o2 in (0, 1) for rel in (0, 1)]
    out += [AnyT(x, y) for x in r1 for y in (r1 if deep else r1[:8]) if src(x) != src(y)]
    out += [AnyT(AnyT(Int(1), Str("a")), AnyT(NoneT(), Bool())), AnyT(List("of", (AnyT(),)), Int())]
    out += [Alias("U", x) for x in r1]
    return dedupe(out + choices(deep))


def choices(deep=False):
    """any(...) of three and more alternatives, of one kind and mixed"""
    i, s = Int(min=0), Str(len=(1, ...))
    lists = [List(), List("of", (i,)), List("of", (s,)), List("exact", ()), List("exact", (i, ...)), List("exact", (..., s)),
             List("exact", (..., i, ...))]
    dicts = [Dict(), Dict(()), Dict((), True), Dict((("a", i, False),)), Dict((("a", s, True),)), Dict((("a", i, True), ("b", s, False)), True)]
    nums = [i, Int(1), Int(max=-1), Float(), Float(0.5), Bool(), Bool(True)]
    texts = [s, Str("a"), Str(alphabet="ab"), Str(pattern="^a+$"), Bytes(), Str(substr="b")]
    mixed = [NoneT(), Int(1), Str("a"), List("of", (i,)), Dict((("a", i, False),)), AnyT(), AnyT(Int(1), s)]
    out = []
    for pool in (lists, dicts, nums, texts, mixed):
        for n in (3, 4) if deep else (3,):
            for c in it.combinations(pool, n):
                out += [AnyT(*c)] + ([AnyT(*c[::-1])] if deep else [])
        out += [AnyT(*pool), AnyT(*pool[::-1]), AnyT(*pool[:4], union=True)]
        out += [f(AnyT(*pool[k:k + 3])) for k in (0, 2) for f in (lambda t: List("of", (t,)), lambda t: Dict((("k", t, True),), True),
                                                               lambda t: List("exact", (..., t, ...)), lambda t: AnyT(NoneT(), t))]
    few = tuple(("k%d" % j, i, False) for j in range(4))
    for d in (Dict(few), Dict(few + (("o", s, True),)), Dict(few[:2] + (("o", s, True), ("p", s, True))), Dict(few + (("o", s, True),), True)):
        out += [AnyT(NoneT(), d), AnyT(d, i), AnyT(Dict((("z", i, False),)), d, union=True)]
    return dedupe(out)


def level3(deep=False):
    base = [List("of", (Dict((("a", List("of", (Int(min=0),)), False),
                              ("b", AnyT(Int(1), Str("a")), True))),)),
            Dict((("a", Dict((("b", List("exact", (..., Int(1), Str("a"), ...)), False),)), True),
                  ("c", List("exact", (Dict((("x", Int(), False),), True), ...)), False))),
            AnyT(List("of", (List("of", (Int(),)),)), Dict((("a", AnyT(Dict((("b", Int(), False),)),
                                                                      NoneT()), False),))),
            List("exact", (List("exact", (List("exact", (Int(1),)), ...)), ...)),
            Dict((("a", Alias("T", List("of", (Alias("U", Str(alphabet="ab")),))), False),)),
            List("exact", (..., List("exact", (..., Str(alphabet="ab"), Int(1), ...)), ...))]
    out = list(base)
    for b in base:
        out += [List("of", (b,)), List("exact", (Int(), b)), List("exact", (..., b)),
                List("exact", (b, ...)), List("exact", (..., b, ...)),
                Dict((("k", b, False),)), Dict((("k", b, True), ("a", Int(), False)), True),
                AnyT(b, Int()), AnyT(Int(), b), Alias("Z", b)]
    if deep:
        for b in list(out):
            out += [List("of", (b,)), Dict((("m", b, False), ("n", Str("a"), True))),
                    AnyT(NoneT(), b), List("exact", (..., b, Str("a")))]
    return dedupe(out)


def scale(deep=False, widths=None, depths=None):
    """wide and deep schemas: nothing in the declared meaning depends on how many of them there are"""
    out = []
    i, s, m = Int(1), Str(len=(1, ...)), Int(min=0)
    for n in widths or ((5, 8, 9, 10, 11, 16, 17, 33, 65, 101, 129) if deep else (7, 10, 11, 33)):
        pool = [i, s, m, NoneT(), Str("a")]
        row = tuple(pool[j % 5] if j % 7 else Int(j) for j in range(n))
        same_ = (i,) * n
        for r in (row, same_):
            out += [List("exact", r), List("exact", r + (...,)), List("exact", (...,) + r),
                    List("exact", (...,) + r + (...,)), List("exact", r + (...,), (..., n + 2))]
        for rel in (False, True):
            out += [Dict(tuple(("k%d" % j, e, bool(opt(j))) for j, e in enumerate(row)), rel)
                    for opt in (lambda j: j % 3 == 1, lambda j: 1, lambda j: j == n - 1, lambda j: j != n - 1)]
        for d in out[-6:-3] if not deep else out[-8:]:
            out += [AnyT(NoneT(), d), AnyT(d, Dict(), union=True), List("of", (d,)), Dict((("in", d, True),), True), Alias("Wide", d)]
        out += [AnyT(NoneT(), List("exact", row)), AnyT(List("exact", row + (...,)), s), List("of", (List("exact", row),))]
        out += [AnyT(*[Int(j) for j in range(n)]), AnyT(*row),
                AnyT(*[Str(len=j) for j in range(n)]),
                AnyT(*[Dict((("t", Int(j), False), ("b", s, True))) for j in range(n)]),
                AnyT(*[List("exact", (i,) * j) for j in range(n)], union=n < 20)]
    for n in depths or ((4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 24) if deep else (6, 9, 11)):
        for w in (lambda t: List("of", (t,), 1), lambda t: List("exact", (t,)), lambda t: List("exact", (..., t)),
                  lambda t: Dict((("k", t, False),)), lambda t: Dict((("k", t, True), ("j", i, False)), True),
                  lambda t: AnyT(t, NoneT()), lambda t: AnyT(NoneT(), t), lambda t: Alias("D", t)):
            t = Dict((("a", m, False),)) if n % 2 else m
            for _ in range(n):
                t = w(t)
            out.append(t)
        t = m
        for j in range(n):
            t = (List("exact", (t, ...), 1), Dict((("k", t, False),)), AnyT(s, t))[j % 3] if j % 3 < 3 else t
        out.append(t)
    return dedupe(out)


LONG_ALPHABETS = ("abcdefghijklmnopqrstuvwxyz0123456789+-*/_.,:;", "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-",
                  "".join(map(chr, range(0x430, 0x450))) + "abcdefghijklm", "".join(map(chr, range(33, 65))) + "\t\u00a0\u0660\uff10",
                  "abcdefghijklmnopqrstuvwxyz", "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789",
                  "".join(map(chr, range(32, 127))), "".join(map(chr, range(0x4e00, 0x4f20))), "".join(map(chr, range(0, 33))))
NUMBERS = (7, 10, 99, 100, 255, 256, 1000, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 53 + 1, 2 ** 63, 2 ** 64 - 1, 10 ** 19,
           10 ** 40, 2 ** 200)
FRACTIONS = (0.01, 0.05, 1 / 3, 2 / 3, 0.7, 1.1, 3.14159, 99.995, 1234567.891, 1e-7, 1e-5, 123456789.125, 1000000000000.0625, 4503599627370497.5,
             9007199254740992.0, 1e15 / 3, 1e16, 1e17, 1e21, 1e22, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324)


def extents(deep=False):
    """long texts and alphabets, numbers of every size: single constraints of unusual extent"""
    out = []
    for a in LONG_ALPHABETS:
        out += [Str(alphabet=a), Str(alphabet=a, len=(3, 40)), Str(alphabet=a, substr=a[3:6]), Str(a, alphabet=a), Str(a[::-1]), Str(substr=a)]
    for x in NUMBERS:
        for y in (x, -x):
            out += [Int(y), Int(min=y), Int(max=y), Int(min=y, max=y + 1)]
    for x in FRACTIONS:
        for y in (x, -x):
            out += [Float(y), Float(min=y), Float(max=y), Float(min=y, max=y + abs(y) / 2), Float(y, precision=2), Float(y, precision=12)]
    for k in ("k" * 39, "k" * 40, "k" * 41, "k" * 64, "k" * 65, "k" * 80, "k" * 81, "k" * 120, "k" * 256, "k" * 1000):
        out += [Dict(((k, Int(1), False), (k[:-1], Str("a"), True), (k + "k", Int(2), True))), Dict(((k, Dict(((k, Int(1), False),)), True),), True)]
        out += [Str(k), Bytes(k.encode()), Str(substr=k), Str(len=len(k)), Str(len=(len(k), ...))]
    for n in range(1, 16):
        out += [Float(precision=n), Float(1.23456789, precision=n), Float(min=0.123456789, max=0.2, precision=n)]
    return dedupe([t for t in out if consistent(t, getattr(t, "value", N))])


def everything(deep=False):
    return dedupe(extents(deep) + leaves(deep) + level1(deep) + level2(deep) + level3(deep))


def alias_free(t):
    return t.kind not in ("alias", "custom") and all(alias_free(s) for s in t.subterms())


def kinds_in(t):
    yield t.kind
    for s in t.subterms():
        yield from kinds_in(s)


if __name__ == "__main__":
    for deep in (False, True):
        u = everything(deep)
        print(deep, len(leaves(deep)), len(level1(deep)), len(level2(deep)), len(level3(deep)), len(u))
        bad = 0
        for t in u:
            try:
                t.build()
            except Exception as e:
                bad += 1
                if bad < 5:
                    print("  unbuildable", src(t), repr(e)[:200])
        print("unbuildable", bad, "hsat", sum(hereditarily_satisfiable(t) for t in u))
        print([src(t) for t in u if not hereditarily_satisfiable(t)][::60])
