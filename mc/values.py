"""Value spaces: what is thrown at a schema term."""
import collections
import dataclasses
import enum
import itertools as it
import math
import unicodedata
from datetime import date, datetime, timedelta, timezone
from uuid import UUID

from .terms import (D1, D2, DT1, DT2, N, NAMED, U1, U2, U_NIL, U_V1, copyv, lit, strip)

INF, NAN = math.inf, math.nan

SCALARS = [None, True, False, 0, 1, -1, 2, 3, 4, 5, 6, 10 ** 20, 0.0, 1.0, 1.5, -2.25, 0.5, NAN, INF,
           "", "a", "b", "ab", "ba", "abc", "é", "1", "a\nb", b"", b"ab", U1, U2, U_V1, U_NIL, DT1, DT2,
           D1, D2]
CONTAINERS = [[], [1], ["a"], [None], [[]], [1, "a"], [1, 1, "a"], {}, {"a": 1}, {"b": "a"},
              {"a": 1, "b": "a"}, {"z": 1}, (), (1,), {1}]
UNSORTED = [[3, 1, 2], ["b", "a"], {"b": 1, "a": 2}, [{"b": 1, "a": 2}], [None, {"z": 1, "b": {"y": 1, "a": [2, 1]}}], {"z": {"y": 1, "a": 2}, "b": [2, 1]}]
GENERIC = SCALARS + CONTAINERS + UNSORTED
FOREIGN = [None, "a", -7, [], {"z": 0}]       # at least four of them are wrong for any leaf


def key(v):
    return type(v).__name__ + lit(v)


def dedupe(vs):
    seen, out = set(), []
    for v in vs:
        k = key(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def near(v):
    """scalars that differ from v in one respect"""
    if isinstance(v, bool):
        return [not v, int(v), None, str(v)]
    if isinstance(v, int):
        r = [v + 1, v - 1, -v, hex(v), None]
        if abs(v) < 2 ** 53:
            r.append(float(v))
        return r
    if isinstance(v, float):
        r = [-v, str(v), None, v * (1 + 1e-6), v * (1 + 1e-12), v + 0.3, v - 0.3, v + 1e-7]
        if math.isfinite(v):
            r += [math.nextafter(v, INF), math.nextafter(v, -INF), NAN, INF]
            if v == int(v) and abs(v) < 2 ** 53:
                r.append(int(v))
        return r
    if isinstance(v, str):
        r = [v + "x", "x" + v, v[:-1], v[1:], v + v, v.upper(), v[::-1], v + "\n", None, v + "a", v + "é"]
        return r + [v.encode("utf-8", "replace"), list(v)]
    if isinstance(v, bytes):
        return [v + b"x", v[:-1], v[::-1], bytearray(v), v.decode("latin1"), None]
    if isinstance(v, UUID):
        return [UUID(int=v.int ^ 1), UUID(int=(v.int & ~(0xf << 76)) | (1 << 76)), str(v), v.int, None]
    if isinstance(v, datetime):
        d = 1 if v.year < 9999 else -1
        return [v + timedelta(microseconds=d), v.replace(tzinfo=timezone.utc), v.date(), v.isoformat(),
                None, v + timedelta(days=d)]
    if isinstance(v, date):
        return [v + timedelta(days=1 if v.year < 9999 else -1), datetime(v.year, v.month, v.day), v.isoformat(), None]
    if v is None:
        return [False, 0, "", "None", []]
    return [None]


def perturb(v):
    """all one-step changes at every depth"""
    if type(v) is list:
        n = len(v)
        # long lists: the ends and the middle
        some = set(range(n)) if n <= 8 else {0, 1, n // 2, n - 2, n - 1}
        for i in sorted(some):
            yield copyv(v[:i] + v[i + 1:])
            yield copyv(v[:i + 1] + v[i:])
            for w in perturb(v[i]):
                yield copyv(v[:i]) + [w] + copyv(v[i + 1:])
            for f in FOREIGN:
                yield copyv(v[:i]) + [copyv(f)] + copyv(v[i + 1:])
        for i in sorted(some | {n}):
            for f in FOREIGN[:3]:
                yield copyv(v[:i]) + [copyv(f)] + copyv(v[i:])
        for i in sorted(some - {n - 1}):
            w = copyv(v)
            w[i], w[i + 1] = w[i + 1], w[i]
            yield w
        yield copyv(v[::-1])
        yield tuple(copyv(v))
        yield {i: x for i, x in enumerate(copyv(v))}
        yield None
    elif type(v) is dict:
        ks = list(v)
        if len(ks) > 8:
            ks = ks[:2] + ks[len(ks) // 2:len(ks) // 2 + 1] + ks[-2:]
        for k in ks:
            yield {j: copyv(x) for j, x in v.items() if j != k}
            for w in perturb(v[k]):
                yield {j: (w if j == k else copyv(x)) for j, x in v.items()}
            for f in FOREIGN:
                yield {j: (copyv(f) if j == k else copyv(x)) for j, x in v.items()}
            # the key under another name / type
            for nk in ([k.upper() + "_", "optional(%r)" % k, k.encode('utf-8', 'replace')] if isinstance(k, str)
                       else [str(k)]):
                yield {(nk if j == k else j): copyv(x) for j, x in v.items()}
        for nk in ("zz", None, 0, ("t",)):
            if nk not in v:
                yield {**copyv(v), nk: 1}
        yield dict(reversed(list(copyv(v).items())))
        yield list(copyv(v).items())
        yield None
    else:
        yield from near(v)


def boundary(term):
    t = strip(term)
    out = []
    if t.kind == "int":
        for x in (t.value, t.min, t.max):
            if x is not N:
                out += [x, x + 1, x - 1, -x, x + 2 ** 32, x - 2 ** 64, x * 10, x // 10]
                if abs(x) < 2 ** 53:
                    out.append(float(x))
    elif t.kind == "float":
        for x in (t.value, t.min, t.max):
            if x is not N:
                out += [x] + near(x)
                if math.isfinite(x) and abs(x) < 1e15:
                    out += [x + d for d in (0.1, -0.1, 0.01, -0.01, 0.04, -0.04, 0.004, 1e-14, -1e-14)]
                    out += [x * (1 + d) for d in (1e-8, -1e-8, 1e-10, -1e-10)]
        out += [1e308, -1e308, 5e-324, -0.0, INF, -INF, NAN, 0.12]
    elif t.kind == "str":
        lens = set()
        for x in (t.len if isinstance(t.len, tuple) else (t.len,)):
            if x is not N and x is not ...:
                lens |= {x - 1, x, x + 1}
        for n in lens | {0, 1, 2, 3}:
            if 0 <= n < 5000:
                out += [(a * n)[:n] for a in ("a", "ab", "ba", "xa", "ax", "é☃", "aaX")]
        for s in (t.value, t.substr, t.alphabet):
            if s is not N:
                out += [s, s + "a", "a" + s, "b" + s + "b", s[:-1], s[1:] + s[:1], s + s]
                out += look_alikes(s)
        if t.alphabet is not N:
            for c in set(t.alphabet[:2] + t.alphabet[-2:]):
                out += look_alikes(c) + [(t.alphabet[:3] + x)[:4] for x in look_alikes(c)]
        if t.pattern is not N:
            out += ["a", "aa", "b", "xay", "12", "123", "x1", "\n", "a\n", "ab", "abdd", "cdd", "d"]
    return out


def look_alikes(s):
    """texts a careless comparison could take for s"""
    out = [s.swapcase(), s.upper(), s.lower(), s.title(), s.casefold(), s.strip(), " " + s, s + " ", s + "\n", "\n" + s, s + "\0", s + "\u200b",
           s[::-1], s[:1] + s, s + s[-1:], s.replace(" ", ""), "\ufeff" + s]
    out += [unicodedata.normalize(f, s) for f in ("NFC", "NFD", "NFKC", "NFKD")]
    for i in {0, len(s) // 2, len(s) - 1}:
        if 0 <= i < len(s):
            c = ord(s[i])
            out += [s[:i] + chr(x) + s[i + 1:] for x in (c - 1, c + 1, c ^ 0x20, c + 0xfee0, c + 0x100) if 0 <= x < 0x110000]
    return [x for x in dict.fromkeys(out) if x != s]


def sequences(term, max_len):
    """list terms: every sequence over {two matching values per element, foreign}"""
    t = strip(term)
    if t.kind != "list":
        return
    alpha = []
    for s in t.subterms():
        alpha += s.wit()[:2]
    alpha += [None, "zz9"]
    alpha = dedupe(alpha)[:5]
    for n in range(0, max_len + 1):
        for combo in it.product(alpha, repeat=n):
            yield [copyv(x) for x in combo]
    for x in (t.len if isinstance(t.len, tuple) else (t.len,)):
        if x is not N and x is not ... and max_len <= x < 5000:
            for n in (x, x + 1):
                for a in alpha[:3]:
                    yield [copyv(a) for _ in range(n)]
                    yield [copyv(alpha[-1])] + [copyv(a) for _ in range(n - 1)]


TWINS = [(1, True), (0, False), (1, 1.0), (0, 0.0), (0.0, -0.0), ([1], [True]), ({"a": 1}, {"a": True}), ({"a": 1.0}, {"a": 1}), ([], [0.0]), ("1", 1)]


def twins(term):
    """containers whose members are equal in Python and differ in kind"""
    t = strip(term)
    out = []
    for a, b in TWINS:
        for x, y in ((a, b), (b, a)):
            if t.kind == "list":
                subs = t.subterms()
                out += [[x, y], [x, x, y]] if not subs or all(s.accept(x) and s.accept(y) for s in subs) else []
            elif t.kind == "dict" and t.items is not N:
                ks = [k for k, s, o in t.items if s.accept(x) and s.accept(y)]
                if len(ks) > 1:
                    base = {k: (s.wit() or [None])[0] for k, s, o in t.items if k not in ks}
                    out.append({**base, ks[0]: x, **{k: y for k in ks[1:]}})
                    out.append({**base, **{k: x for k in ks[:-1]}, ks[-1]: y})
    return [copyv(v) for v in out]


def members(term):
    """dict terms: every subset of declared keys x good/bad member x extra key"""
    t = strip(term)
    if t.kind != "dict" or t.items is N:
        return
    per = []
    for k, s, o in t.items:
        w = s.wit()
        bad = [f for f in FOREIGN if not s.accept(f)][:1]
        per.append([None] + [(k, v) for v in (w[:1] + w[-1:] if len(w) > 1 else w) + bad])
    if len(per) > 6:
        # wide: every single key absent / other / bad, and all required ones only
        first = [p[1] if len(p) > 1 else None for p in per]
        for i, p in enumerate(per):
            for c in p:
                yield {k: copyv(v) for k, v in (x for x in first[:i] + [c] + first[i + 1:] if x)}
        yield {k: copyv(v) for (k, v), (_, _, o) in zip(filter(None, first), t.items) if not o}
        return
    for combo in it.product(*per):
        d = {k: copyv(v) for k, v in (c for c in combo if c)}
        yield d
        if "xtra" not in d:
            yield {**copyv(d), "xtra": None}


def derive(term, seqlen=3, generic=True, wits=3):
    out = list(term.wit())
    if hasattr(term, "case"):
        return dedupe(out + term.case)
    for w in term.wit()[:wits]:
        out += list(perturb(w))
    out += boundary(term)
    out += list(sequences(term, seqlen))
    out += list(members(term))
    out += twins(term)
    t = strip(term)
    if t.kind == "any":
        for a in t.types:
            out += a.wit()[:2] + boundary(a)
            for w in a.wit()[:1]:
                out += list(perturb(w))
    if generic:
        out += [copyv(v) for v in GENERIC]
    return dedupe(out)


# ------------------------------------------------------------------ hostile values

class StrSub(str):
    pass


class IntSub(int):
    pass


class FloatSub(float):
    pass


class ListSub(list):
    pass


class DictSub(dict):
    pass


class BytesSub(bytes):
    pass


class Opaque:
    pass


class BadRepr:
    def __repr__(self):
        raise RuntimeError("no repr")


class EmptyRepr:
    def __repr__(self):
        return ""


class NoCopy:
    def __deepcopy__(self, memo):
        raise TypeError("cannot copy")

    def __reduce_ex__(self, p):
        raise TypeError("cannot pickle")


class SlotsOnly:
    __slots__ = ("x",)


class Evil:
    """raises on anything but identity: truth value, len, iteration, hash is default"""

    def __bool__(self):
        raise RuntimeError("bool")

    def __len__(self):
        raise RuntimeError("len")

    def __iter__(self):
        raise RuntimeError("iter")

    def __getattr__(self, name):
        raise AttributeError(name)


def named(v, expr):
    NAMED[id(v)] = expr
    ZOO_EXPR.append((v, expr))
    return v


ZOO_EXPR = []


class IE(enum.IntEnum):
    A = 1


class SE(enum.StrEnum):
    A = "a"


class PlainEnum(enum.Enum):
    A = 1


class DateSub(date):
    pass


class DateTimeSub(datetime):
    pass


class UUIDSub(UUID):
    pass


NT = collections.namedtuple("NT", "a b")


@dataclasses.dataclass
class DC:
    a: int = 1


class SetAttr:
    """an opaque object with attributes"""

    def __init__(self):
        self.a = 1
        self.props = None


class AlwaysEqual:
    def __eq__(self, other):
        return True

    __hash__ = None


class MissingDict(dict):
    def __missing__(self, k):
        return 1


def cyclic_list():
    v = [1]
    v.append(v)
    return v


def cyclic_dict():
    v = {"a": 1}
    v["self"] = v
    return v


def deep_list(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


def deep_dict(n):
    v = {}
    for _ in range(n):
        v = {"a": v}
    return v


ZOO_SRC = """
float('nan') float('inf') float('-inf') -0.0 5e-324 1.7976931348623157e+308 1e16 0.1+0.2
10**20 -10**20 2**1024 10**5000 -10**5000 True False None
Decimal('1') Decimal('NaN') Decimal('sNaN') Decimal('Infinity') Decimal('1E+400') Fraction(1,3) Fraction(1) 1j complex('nan+infj')
'' 'a' '\\ud800' '\\x00' 'a\\nb' 'é' '☃'*3 'x'*3000 '{}' '%s' '{0}%(a)s'
b'' b'\\xff\\x00' bytearray(b'') bytearray(b'ab') memoryview(b'ab') array.array('i',[1,2])
() (1,) (1,'a') ((),) NT(1,2) set() {1} {'a'} frozenset() frozenset({1}) range(3) range(0) deque([1]) slice(1,2)
[] [1] [[]] ['a',1] [None] [float('nan')] [10**5000] ListSub() ListSub([1]) ListSub([ListSub(['a'])])
{} {'a':1} {1:2} {None:1} {float('nan'):1} {(1,):2} {b'k':1} {'a':{'b':[1]}} {...:...} {10**5000:1} {frozenset():1} {object():1} {U1:1} {1.5:1} {True:1} {type:1}
DictSub() DictSub(a=1) OrderedDict(a=1) defaultdict(list) defaultdict(int,a=1) Counter('a') ChainMap({'a':1}) MappingProxyType({'a':1}) MissingDict(a=1)
{}.keys() {'a':1}.items() iter([]) iter([1]) gen() zip() map(str,[1])
StrSub('a') StrSub('') IntSub(1) IntSub(0) IntSub(10**400) FloatSub(1.5) FloatSub('nan') FloatSub('inf') BytesSub(b'ab')
IE.A SE.A PlainEnum.A PlainEnum IE
U1 U2 U_V1 U_NIL UUID(int=2**128-1) UUID('6fa459ea-ee8a-3ca4-894e-db77e160355e') UUIDSub(int=U1.int) str(U1)
DT1 DT2 datetime.max datetime.min datetime.max.replace(tzinfo=timezone.utc) DT1.replace(fold=1) DateTimeSub(2020,1,2) D1 date.max date.min DateSub(2020,1,2) time(1,2) timedelta(1) timezone.utc DT1.timetuple()
object() Opaque() Opaque int type len (lambda:0) SlotsOnly() SetAttr() DC() DC type('T',(),{'__module__':None})() type('%s{x}\\n',(),{'__module__':''})() type('int',(),{})() type('é',(dict,),{'__module__':'a.b'})() AlwaysEqual() NotImplemented ... Nil
math re.compile('a') re.match('a','a') ValueError('x') KeyError('a') Lock() io.StringIO('a') PurePosixPath('/a') IPv4Address('1.2.3.4') weakref.ref(Opaque) sys.stderr
schema schema.int schema.str('a') schema.list schema.any optional optional('a') schema.dict({'a':schema.int})
cyclic_list() cyclic_dict() deep_list(40) deep_dict(40) [float('inf'),[float('nan')]] {'a':float('nan')} [()] [{1,2}] {'a':(1,)}
"""


def gen():
    yield 1


def zoo_namespace():
    from collections import ChainMap, Counter, OrderedDict, defaultdict, deque  # noqa: F401
    from decimal import Decimal  # noqa: F401
    from fractions import Fraction  # noqa: F401
    from ipaddress import IPv4Address  # noqa: F401
    from pathlib import PurePosixPath  # noqa: F401
    from threading import Lock  # noqa: F401
    from types import MappingProxyType  # noqa: F401
    from datetime import time  # noqa: F401
    import array, io, re, sys, weakref  # noqa: F401,E401
    from niltype import Nil  # noqa: F401
    from d42 import optional, schema  # noqa: F401
    return {**globals(), **locals()}


def zoo():
    """(source text, value) of every hostile value; freshly made"""
    ns = zoo_namespace()
    return [(e, eval(e, ns)) for e in ZOO_SRC.split()]


def lit_v(v):
    return lit(v)
