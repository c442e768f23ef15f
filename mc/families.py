"""Families of look-alike schemas used one after the other in one process: what one of them leaves behind in
the implementation (a cache under too short a key, a scratch object kept) must not show in the next."""
import math

from .terms import (D1, D2, DT1, DT2, N, U1, U2, Alias, AnyT, Bool, Bytes, Custom, Date, DateTime, Dict, Float, Int, List, NoneT, Str, Uuid,
                    lit, src)


class Family:
    """run forwards and back: every member is met first, and after every other one"""

    def __init__(self, name, terms):
        self.name, self.terms = name, list(terms)

    def sequence(self):
        return self.terms + self.terms[-2::-1]

    def src(self):
        return "family %s: %s" % (self.name, ", ".join(src(t) for t in self.terms))[:500]


def scalars():
    yield "alphabets", [Str(alphabet=a) for a in ("abc", "abd", "acb", "bbc", "ab", "abcd", "ABC", "cba", "")]
    yield "alphabets of a length", [Str(alphabet=a, len=2) for a in ("abc", "abd", "xbc", "axc")]
    yield "texts", [Str(x) for x in ("abc", "abd", "xbc", "ABC", "ab", "", "abc ")]
    yield "substrings", [Str(substr=x) for x in ("ab", "ac", "b", "ba", "abc")]
    yield "patterns", [Str(pattern=x) for x in ("^a+$", "^b+$", "^[ab]+$", "^[ac]+$", "^a{2}$", "^a{3}$", "^(a|b)c$", "^(a|c)c$", "^(b|a)c$", "a", "b",
                                               "^a{1,2}$", "^a{2,3}$", "[^a]b", "[^b]b", "^\\d$", "^\\s$", "^\\w$")]
    yield "lengths", [Str(len=x) for x in (1, 2, 3, (1, 2), (1, 3), (2, 3), (1, ...), (2, ...), (..., 1), (..., 2))]
    yield "ints", [Int(x) for x in (-1, -2, 1, 0, 2 ** 61 - 1, 2 ** 61, 10)]
    yield "int bounds", [Int(min=1), Int(min=2), Int(max=1), Int(max=2), Int(min=1, max=2), Int(min=2, max=3), Int(min=-1, max=2), Int(min=-2, max=2),
                         Int()]
    yield "floats", [Float(x) for x in (0.0, -0.0, 1.0, 1.5, 2.5, math.nan, math.inf, -math.inf)]
    yield "float precisions", [Float(x, precision=p) for x in (0.123, 0.3) for p in (1, 2, 3)] + [Float(precision=1), Float(precision=2), Float()]
    yield "float bounds", [Float(min=a, max=b) for a, b in ((0.0, 1.0), (0.0, 2.0), (1.0, 2.0), (0.5, 1.0), (-0.0, 1.0))]
    yield "one", [Int(1), Bool(True), Float(1.0), Str("1"), Bytes(b"1"), Int(0), Bool(False), Float(0.0), Str(""), Bytes(b""), NoneT()]
    yield "bytes", [Bytes(x) for x in (b"ab", b"ac", b"", b"AB", b"\xff")] + [Bytes()]
    yield "ids", [Uuid(), Uuid(U1), Uuid(U2)]
    yield "times", [DateTime(), DateTime(DT1), DateTime(DT2), Date(), Date(D1), Date(D2)]


def containers():
    i, s = Int(min=0), Str("a")
    yield "members", [Dict((("a", x, False), ("b", y, o))) for x, y in ((Int(1), Int(2)), (Int(2), Int(1)), (Bool(True), Int(2)), (s, s)) for o in (0, 1)]
    yield "keys", [Dict(((k, Int(1), o),), r) for k in ("a", "b", 1, "1") for o in (0, 1) for r in (0, 1)]
    yield "key order", [Dict((("a", i, False), ("b", s, True)), r) for r in (0, 1)] + [Dict((("b", s, True), ("a", i, False)), r) for r in (0, 1)] \
        + [Dict((("a", s, False), ("b", i, True))), Dict((("a", i, True), ("b", s, False)))]
    yield "elements", [List("exact", x) for x in ((Int(1), Int(2)), (Int(2), Int(1)), (Bool(True), Int(2)), (Int(1), Int(2), ...), (..., Int(1), Int(2)),
                                                  (..., Int(1), Int(2), ...), (Int(1),), (), (Float(1.0), Int(2)), (..., Int(2), Int(1), ...))]
    yield "typed", [List("of", (x,), n) for x in (Int(1), Int(2), Bool(True), Float(1.0), s) for n in (N, 2)]
    yield "list lengths", [List("of", (Int(1),), n) for n in (0, 1, 2, (1, 2), (0, 2), (1, ...), (..., 1))] + [List("bare", (), n) for n in (N, 1, 2)]
    yield "choices", [AnyT(*x) for x in ((Int(1), s), (Int(2), s), (s, Int(1)), (Int(1), Str("b")), (Bool(True), s), (Int(1), s, NoneT()), (Int(1),))]
    yield "choices of dicts", [AnyT(NoneT(), Dict((("a", x, o),), r)) for x in (Int(1), Int(2)) for o in (0, 1) for r in (0, 1)]
    yield "aliases", [Alias(n, x) for n in ("A", "B") for x in (Int(1), Int(2), s, Dict((("a", Int(1), False),)), Dict((("a", Int(2), True),)))]
    yield "custom", [Custom(x) for x in (Int(1), Int(2), s, List("of", (Int(1),)), List("of", (Int(2),)))]


def wraps():
    return [("list of", lambda t: List("of", (t,))), ("around", lambda t: List("exact", (..., t, ...))), ("member", lambda t: Dict((("k", t, True),), True)),
            ("choice", lambda t: AnyT(NoneT(), t)), ("alias", lambda t: Alias("A", t)), ("pair", lambda t: List("exact", (t, Str("end"))))]


def families(deep=False, keep=lambda t: True):
    out = [Family(n, ts) for n, ts in list(scalars()) + list(containers())]
    for n, ts in list(scalars()) + list(containers()):
        for k, (w, f) in enumerate(wraps()):
            step = 1 if deep else 2
            out.append(Family("%s %s" % (w, n), [f(t) for t in ts[k % step::step][:9]]))
    for f in out:
        f.terms = [t for t in f.terms if keep(t)]
    return [f for f in out if len(f.terms) > 1]


def prelude(terms):
    """source that does to the earlier members what the exploration did to them"""
    out = []
    for t in terms:
        ws = "[%s]" % ", ".join(lit(w) for w in t.wit()[:4])
        out.append("used(lambda: %s, %s)" % (src(t), ws))
    return "".join(x + "\n" for x in out)
