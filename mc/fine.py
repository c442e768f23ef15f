"""Fine cases: values that differ in one small respect, thrown at schemas declared from them.

A fine term is an ordinary term with an attribute `case`: values meant for it, on top of the derived ones.
The pools are fixed; a fine term is one schema form declared from one pool value, its case the pool of the kind
and every near miss of the declared value.  `rows` are schemas and values of many sizes with one odd member, key,
alternative or position.
"""
import math
import re
import unicodedata
from datetime import date, datetime, timedelta, timezone
from uuid import UUID

from .terms import (DT1, U1, N, Alias, AnyT, Bool, Bytes, Custom, Date, DateTime, Dict, Float, Int, List, NoneT, Str, Uuid, copyv, lit, src)

INF, NAN = math.inf, math.nan

STR = ["", "a", "A", "b", "aa", "ab", "ba", "aB", "Ab", "abc", "abcabc", "aXb", " ", "  ", " a", "a ", " a ", "a b", "a  b", "\t", "\n", "a\n", "\na", "a\nb",
       "b\naa\nb", "a\r\nb", "a\rb", "\r\n", "\0", "a\0", "\0a", "a\0b", "\x1c", "\x85", "\u2028", "a\u2028b", "é", "e\u0301", "É", "ß", "ss", "ﬁ", "fi", "İ", "i",
       "ı", "Ω", "\u2126", "ς", "σ", "Σ", "😀", "😀😀", "a😀", "\ud83d\ude00", "\ud800", "\udfff", "a\ud800b", "☃", "日本", "\ufeff", "\ufeffa", "\u200b", "a\u200b",
       "\u00a0", "٣", "３", "²", "0", "1", "01", "+1", "-1", "1.0", "1e3", "1_0", "0x1", "True", "None", "nan", "inf", "null", "[]", "{}", "%s", "{0}", "\\", "\\n",
       "'", '"', "'\"", "$", "^", ".", "a.b", "*", "(", "[a]", "ab" * 16, "ab" * 32 + "c", "é" * 40, "😀" * 17, "a" * 255 + "b", " " * 33, "x" * 1000]

BYTES = [b"", b"a", b"A", b"b", b"ab", b"ba", b"aB", b"\0", b"a\0", b"\0a", b"a\0\0", b" ", b"a ", b" a", b"a\n", b"a\r\n", b"\n", b"\xff", b"\xff\xfe", b"\x80", b"\xc3\xa9",
         b"\xe9", b"0", b"1", b"\x01", b"ab" * 16, b"ab" * 50 + b"c", b"\0" * 8, b"\0" * 33, b"x" * 1000, bytes(range(256))]

INT = sorted({s * (2 ** k + d) for k in (0, 1, 2, 3, 4, 7, 8, 15, 16, 24, 30, 31, 32, 48, 52, 53, 54, 60, 61, 62, 63, 64, 65, 127, 128, 1023, 1024) for d in (-1, 0, 1)
              for s in (1, -1)} | {s * 10 ** k for k in (1, 2, 3, 6, 9, 15, 16, 17, 20, 40) for s in (1, -1)} | {256 + 1, 257, -5, -6, 97, 48, 1970, 12345678901234567})

FLOAT = [0.0, -0.0, 1.0, -1.0, 0.5, 0.25, 1.5, -1.5, 2.5, 0.1, 0.2, 0.3, 0.1 + 0.2, 1 / 3, -2.25, 1.005, 2.675, 9.995, 0.045, 99.99, 100.0, 1e-9, 1e-10, 1e-15, 1e-16,
         2.2250738585072014e-308, 5e-324, -5e-324, 1e-300, 1e9, 1e15, 1e16, 1e17, 2.0 ** 31, 2.0 ** 53, 2.0 ** 53 + 2, 2.0 ** 63, 1e22, 1e100, 1e300, -1e300,
         1.7976931348623157e308, 123456.789, 123456789.123, 0.30000000000000004, 1234567890.1234567, INF, -INF, NAN]

UUIDS = [U1, UUID(int=U1.int ^ 1), UUID(int=U1.int ^ (1 << 127)), UUID("12345678-1234-4234-1234-123456789012"), UUID("12345678-1234-4234-8234-123456789012"),
         UUID("12345678-1234-4234-c234-123456789012"), UUID("12345678-1234-4234-e234-123456789012"), UUID("00000000-0000-4000-8000-000000000000"),
         UUID("ffffffff-ffff-4fff-bfff-ffffffffffff"), UUID(int=0), UUID(int=2 ** 128 - 1), UUID(int=4 << 76)] \
    + [UUID("12345678-1234-%x234-8234-123456789012" % n) for n in (0, 1, 2, 3, 5, 6, 7, 8, 15)] + [UUID("44444444-4444-1444-8444-444444444444")]

UTC = timezone.utc
TIMES = [DT1, datetime(2020, 1, 2), datetime(2020, 1, 2, 3, 4, 5, 1), datetime(2020, 1, 2, 3, 4, 5, 999999), datetime(2020, 1, 2, 3, 4), datetime(2020, 1, 2, 23, 59, 59, 999999),
         datetime(2020, 1, 2, 3, 4, 5, 1000), datetime(2020, 2, 29), datetime(2020, 1, 2, 3, 4, 5, tzinfo=UTC), datetime(2020, 1, 2, 5, 4, 5, tzinfo=timezone(timedelta(hours=2))),
         datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(hours=2))), datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone(timedelta(0), "X")),
         datetime(2020, 1, 2, 3, 4, 5, tzinfo=timezone(-timedelta(hours=3, minutes=30))),
         datetime(1970, 1, 1), datetime(1969, 12, 31, 23, 59, 59), datetime(1, 1, 1), datetime.max, datetime(2038, 1, 19, 3, 14, 8), datetime(1900, 1, 1), datetime(2021, 1, 2, 3, 4, 5),
         datetime(2020, 11, 1, 1, 30, fold=1), datetime(2020, 11, 1, 1, 30)]
DATES = [date(2020, 1, 2), date(2020, 2, 1), date(2021, 1, 2), date(2020, 2, 29), date(2020, 12, 31), date(1970, 1, 1), date(1, 1, 1), date(9999, 12, 31), date(1900, 2, 28), date(2000, 2, 29),
         date(1969, 12, 31), date(1, 12, 31)]

POOL = {"str": STR, "bytes": BYTES, "int": INT, "float": FLOAT, "uuid4": UUIDS, "datetime": TIMES, "date": DATES, "bool": [True, False], "none": [None]}
CLASS = {"str": Str, "bytes": Bytes, "int": Int, "float": Float, "uuid4": Uuid, "datetime": DateTime, "date": Date, "bool": Bool}
OTHERS = [None, True, False, 0, 1, -1, 0.0, 1.0, -0.0, NAN, INF, "", "a", "0", "1", "1.0", "None", b"", b"a", b"1", U1, str(U1), U1.int, U1.bytes, DT1, DT1.isoformat(),
          date(2020, 1, 2), DT1.timestamp(), [], ["a"], [None], (), ("a",), {}, {"a": 1}, {1}, 2 ** 53, 2.0 ** 53, 10 ** 20, 1e20, bytearray(b"a"), 1j, range(2)]

KEYS = ["a", "A", "a ", " a", "a\n", "a\0", "", " ", "é", "e\u0301", "ß", "ss", "\ud800", "😀", "1", "01", "1.0", "True", "None", "...", "optional", "a.b", "a-b", "a[0]", "__class__", "k" * 100,
        0, 1, -1, 2 ** 64, True, False, None, 1.0, 0.5, -0.0, INF, b"a", b"", (), ("a",), ("a", 1), (1, 2), U1, date(2020, 1, 2), DT1, frozenset({1}), int, 1j]


def nearer(v):
    """same-kind values one small respect away from v"""
    out = []
    if isinstance(v, bool) or v is None:
        return []
    if isinstance(v, int):
        out = [v + 1, v - 1, -v, ~v, v + 256, v - 256, v + 2 ** 32, v - 2 ** 32, v + 2 ** 64, v * 10, v // 10, v * 2, v // 2, v + 1000, v - 10] + [v ^ (1 << k) for k in (0, 1, 3, 8, 16, 31, 53, 63)]
        if abs(v) < 2 ** 1000:
            out.append(int(float(v)))
    elif isinstance(v, float):
        out = [-v]
        if math.isfinite(v):
            for d in (1e-15, 1e-13, 1e-12, 1e-11, 9e-10, 1.1e-9, 1e-8, 1e-7, 1e-6, 1e-4, 1e-2):
                out += [v * (1 + d), v * (1 - d)]
            for d in (1e-15, 1e-12, 1e-10, 1e-9, 2e-9, 1e-8, 1e-6, 1e-4, 0.001, 0.004, 0.006, 0.01, 0.04, 0.06, 0.1, 0.4, 0.6, 1.0):
                out += [v + d, v - d]
            out += [math.nextafter(v, INF), math.nextafter(v, -INF), v * 10, v / 10, v * 2, round(v, 1), round(v, 2), float(math.floor(v)) if abs(v) < 1e300 else v]
    elif isinstance(v, str):
        n = len(v)
        out = [v.swapcase(), v.upper(), v.lower(), v.title(), v.casefold(), v.strip(), v.lstrip(), v.rstrip(), v[::-1], v + v, v[:1] + v, v + v[-1:], v[:-1], v[1:],
               v.replace(" ", ""), v.replace("\n", ""), v.replace("\0", ""), v.replace("a", "b"), v.replace("\r\n", "\n"), v.expandtabs()]
        for c in (" ", "\n", "\0", "\t", "a", "A", "b", "0", "\u200b", "\u0301", "é", "😀", "\ud800", "\r\n", "\ufeff", "$", "☃"):
            out += [v + c, c + v, v[:n // 2] + c + v[n // 2:]]
        out += [unicodedata.normalize(f, v) for f in ("NFC", "NFD", "NFKC", "NFKD")]
        for i in sorted({0, 1, n // 2, n - 2, n - 1, 15, 31, 63, 254} & set(range(n))):
            c = ord(v[i])
            out += [v[:i] + chr(x) + v[i + 1:] for x in (c - 1, c + 1, c ^ 0x20, c ^ 1, c + 0xfee0, c + 0x100, c + 0x10000, c & 0xff) if 0 <= x < 0x110000]
            out += [v[:i] + v[i + 1:], v[:i] + v[i:i + 2][::-1] + v[i + 2:]]
        if not any(0xd800 <= ord(c) < 0xe000 for c in v):
            out += [v.encode("utf-8").decode("latin1"), v.encode("utf-8").hex()]
    elif isinstance(v, bytes):
        n = len(v)
        out = [v + b"\0", b"\0" + v, v + b" ", b" " + v, v + b"\n", v + b"a", v[:-1], v[1:], v[::-1], v + v, v.upper(), v.lower(), v.swapcase(), v.strip(), v.rstrip(b"\0"), v.lstrip(b"\0"),
               v.hex().encode(), v.decode("latin1").encode("utf-8")]
        for i in sorted({0, 1, n // 2, n - 1, 63, 255} & set(range(n))):
            out += [v[:i] + bytes([v[i] ^ b]) + v[i + 1:] for b in (1, 0x20, 0x80)] + [v[:i] + v[i + 1:]]
    elif isinstance(v, UUID):
        out = [UUID(int=v.int ^ (1 << k)) for k in (0, 1, 31, 48, 61, 62, 63, 64, 76, 77, 78, 79, 80, 95, 96, 112, 127)]
        out += [UUID(bytes_le=v.bytes), UUID(bytes=v.bytes[::-1]), UUID(int=(v.int & ~(0xf << 76)) | (4 << 76))]
        out += [UUID(int=v.int ^ (x << 60)) for x in (4, 8, 12)]
    elif isinstance(v, datetime):
        for d in (timedelta(microseconds=1), timedelta(milliseconds=1), timedelta(seconds=1), timedelta(minutes=1), timedelta(hours=1), timedelta(days=1), timedelta(days=365)):
            for s in (1, -1):
                try:
                    out.append(v + s * d)
                except OverflowError:
                    pass
        out += [v.replace(microsecond=0), v.replace(second=0), v.replace(hour=0, minute=0, second=0, microsecond=0), v.replace(tzinfo=UTC), v.replace(tzinfo=None),
                v.replace(tzinfo=timezone(timedelta(hours=1))), v.replace(fold=1 - v.fold), v.replace(day=v.day % 28 + 1)]
        if v.tzinfo is not None:
            out += [v.astimezone(timezone(timedelta(hours=5))), v.astimezone(UTC).replace(tzinfo=None)]
    elif isinstance(v, date):
        for d in (1, -1, 7, -7, 31, 365, -365):
            try:
                out.append(v + timedelta(days=d))
            except OverflowError:
                pass
        out += [datetime(v.year, v.month, v.day), datetime(v.year, v.month, v.day, 12), datetime(v.year, v.month, v.day, tzinfo=UTC)]
        if v.day <= 12:
            out.append(date(v.year, v.day, v.month))
    return [x for x in once(out) if not (type(x) is type(v) and lit(x) == lit(v))]


def once(vs):
    seen, out = set(), []
    for v in vs:
        k = type(v).__name__ + lit(v)
        if k not in seen:
            seen.add(k)
            out.append(v)
    return out


def case(t, values):
    t.case = list(values)
    return t


def texts_for(p):
    """multi-line, padded and repeated uses of the letters of a pattern"""
    base = ["", "a", "b", "aa", "ab", "abb", "ba", "bab", "aab", "c", "ac", "bc", "1", "12", "123", "a1", "A", "AB", "é", "-", "a-b", "_", " ", "a b"]
    out = list(base)
    for w in base[1:14]:
        out += [w + "\n", "\n" + w, "b\n" + w + "\nb", w + "\n\n", w + "\r\n", w + " ", " " + w, "x" + w + "x", w * 3, w.upper(), w + "\0", "\0" + w, w + "é", w + "\n" + w, w + "\u2028",
                "\nb" + w, w + "b\n"]
    return out


PATTERNS = ["", "a", "^a", "a$", "^a$", "^a+$", "^a*$", "^$", "^", "$", "^a?$", "^a{2}$", "^a{1,2}$", "^a{2,}$", "^(a|b)$", "^(?:ab)+$", "a|b", "^a|b$", "^(a|bc)$", ".", "^.$", "^.+$", "^a.b$", "^[ab]+$",
            "^[^a]$", "^[^a]+$", "^[a-c]$", "^[a-zA-Z]+$", "^[0-9]+$", r"^\d$", r"^\d+$", r"^\w+$", r"^\s$", r"\s", r"^\S+$", r"^\D+$", r"^\W$", r"^a\.b$", r"^a\nb$", r"^\n$", "^é$", "^[é-ü]$", "^😀$",
            "^a b$", "^(a)(b)$", "^(a)?b$", "^[.]$", "^[a\\-b]$", "^[]a]$", "^a{0}$", "^(a{2}b){2}$", "^a\\$", "^[\\w-]+$", "^\\$$", "(a|b)c", "^((a|b)c|d)$", "^[ -~]+$", "^a\\Z", r"\Aa\Z", r"\Aa+\Z"]


def scalar_terms(kind, lo=0, hi=10 ** 6):
    """terms of one kind, declared from pool[lo:hi], each with its case"""
    pool = POOL[kind]
    everything = [v for k in POOL for v in POOL[k][:14]] + OTHERS
    if kind == "none":
        yield case(NoneT(), everything)
        return
    cls = CLASS[kind]
    if not lo:
        yield case(cls(), pool + everything)
    for v in pool[lo:hi]:
        mates = [w for w in pool] + nearer(v)
        if kind in ("str", "bytes", "uuid4", "datetime", "date", "bool"):
            if kind != "uuid4" or v.version == 4:
                yield case(cls(v), mates + OTHERS)
        elif kind == "int":
            yield case(Int(v), nearer(v) + INT[::7] + OTHERS + ([float(v)] if abs(v) < 2 ** 1000 else []))
            for t in (Int(min=v), Int(max=v), Int(min=v, max=v), Int(min=v - 1, max=v + 1)):
                yield case(t, [v] + nearer(v) + INT[::11])
        else:
            yield case(Float(v), mates + OTHERS + ([int(v)] if math.isfinite(v) else []))
            if v == v:
                for t in (Float(min=v), Float(max=v), Float(min=v, max=v), Float(v, v, v)):
                    yield case(t, [v] + nearer(v) + FLOAT)
                for p in (1, 2, 3, 6, 15):
                    yield case(Float(v, precision=p), [v] + nearer(v))
    if kind == "str":
        for v in pool[lo:hi]:
            some = [v] + nearer(v)
            around = [f(x) for x in some[:60] for f in (lambda x: x, lambda x: "x" + x, lambda x: x + "x", lambda x: "\n" + x + "\n")]
            yield case(Str(substr=v), around + STR)
            yield case(Str(alphabet=v), some + [x * 2 for x in some[:40]] + STR)
            n = len(v)
            same = [v] + [c * n for c in ("a", "é", "😀", "\ud800", "e\u0301", "\0", "\n", " ")]
            lens = [w for x in same for w in (x, x[:-1], x + "a", x + "😀", x + "\u0301", x + "\ud83d", x + x[-1:], x[:n // 2], x + "\0")]
            for ln in (n, (n, ...), (..., n), (max(0, n - 1), n)):
                yield case(Str(len=ln), lens)
            yield case(Str(v, len=n), mates_of(v))
            for f in ("%s", "^%s", "%s$", "^%s$", "^(%s)?$", "^(%s)+$"):
                p = f % re.escape(v)
                if len(p) < 300:
                    yield case(Str(pattern=p), around)
            if n:
                yield case(Str(alphabet=v, len=(1, n)), some)
                yield case(Str(substr=v, len=(n, n + 1)), around)


def pattern_terms(lo, hi):
    for p in PATTERNS[lo:hi]:
        yield case(Str(pattern=p), texts_for(p) + STR)


def mates_of(v):
    return [v] + nearer(v)


WRAPS = [("of", lambda t: List("of", (t,)), lambda v: [v]), ("member", lambda t: Dict((("k", t, False),)), lambda v: {"k": v}), ("choice", lambda t: AnyT(NoneT(), t), lambda v: v),
         ("around", lambda t: List("exact", (..., t, ...)), lambda v: [None, v]), ("pair", lambda t: List("exact", (t, t)), lambda v: [v, v]),
         ("optional", lambda t: Dict((("k", t, True),), True), lambda v: {"k": v, "x": v}), ("alias", lambda t: Alias("A", t), lambda v: v)]


def wrapped(ts, step=1):
    for i, t in enumerate(ts):
        # rounding ties are looked for at the top only
        if i % step == 0 and not (t.kind == "float" and t.precision is not N):
            _, f, up = WRAPS[i // step % len(WRAPS)]
            yield case(f(t), [up(v) for v in t.case])


def key_terms(lo, hi):
    for k in KEYS[lo:hi]:
        near = [x for x in nearer(k)][:40] + [x for x in KEYS if lit(x) != lit(k)]
        for o, r in ((False, False), (True, False), (False, True), (True, True)):
            t = Dict(((k, Int(), o), ("other", Str(), True)), r)
            vals = [{k: 1}, {k: "x"}, {}, {k: 1, "other": "o"}]
            for j in near:
                vals += [{j: 1}, {j: "x"}, {k: 1, j: "x"}, {j: 1, k: "x"}]
            yield case(t, vals)


SIZES = list(range(1, 21)) + [31, 32, 33, 34, 63, 64, 65, 66, 100, 127, 128, 129, 130, 257]


def spots(n):
    """places of a row of n"""
    if n <= 13:
        return list(range(n))
    return sorted({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, n - 1, n - 2, n - 3, n // 2} | {x + d for x in (16, 32, 50, 64, 100, 128, 256) for d in (-1, 0, 1) if 0 <= x + d < n})


def row_terms(n, light=False):
    """schemas and values of n members, one of them odd, at every (sampled) place"""
    row = list(range(n))
    ps = spots(n)
    if light and n > 8:
        ps = sorted({0, 3, n // 2, n - 2, n - 1} | {x for x in (10, 16, 32, 64, 100) if x < n - 3 and n < 40})
    odd = [x for i in ps for x in (row[:i] + ["~"] + row[i + 1:], row[:i] + row[i + 1:], row[:i] + ["~"] + row[i:], row[:i] + row[i:i + 2][::-1] + row[i + 2:], row[:i] + [row[i] + 0.0] + row[i + 1:],
                                   row[:i], row[:i] + [None] * (n - i))]
    odd += [row, row + [n], [-1] + row, row * 2, row[::-1], [], [None] + row + [None], row + [None] * 70, [None] * 70 + row, row[:-1] + [None] + row[-1:]]
    els = tuple(Int(i) for i in row)
    if n <= 66:
        for form in (els, els + (...,), (...,) + els, (...,) + els + (...,)):
            yield case(List("exact", form), odd)
    # a short pattern somewhere in a long value
    two = (Int(1), Int(2))
    places = [x for i in ps for x in (
        [0] * i + [1, 2] + [0] * (n - i - 1), [0] * i + [2, 1] + [0] * (n - i - 1), [0] * i + [1, 0, 2] + [0] * (n - i - 1), [0] * i + [1] + [0] * (n - i - 1), [1, 1] * (i // 2) + [1, 2] + [1] * (n - i),
        [1, 2] + [0] * i + [1, 2] + [0] * (n - i - 1))]
    for form in (two + (...,), (...,) + two, (...,) + two + (...,)):
        yield case(List("exact", form), places)
        yield case(List("exact", form, (2, n)), places)
    one = [x for i in ps for x in ([0] * i + [1] + [0] * (n - i - 1), [1] * i + [0] + [1] * (n - i - 1), [1] * i + ["~"] + [1] * (n - i - 1), [1] * i + [True] + [1] * (n - i - 1))] + [[0] * n, [1] * n]
    for t in (List("of", (Int(1),)), List("of", (Int(min=0),)), List("of", (AnyT(Int(0), Int(1)),)), List("exact", (..., Int(1), ...)), List("of", (Int(),), n), List("of", (Int(1),), (n, ...)),
              List("of", (Int(1),), (..., n)), List("bare", (), n)):
        yield case(t, one + [[1] * (n - 1), [1] * (n + 1), [1] * (n + 70)])
    # wide dicts
    ks = [("k%d" % i, Int(i), False) for i in row]
    whole = {"k%d" % i: i for i in row}
    vals = [whole, {}, {**whole, "z": 1}, {"z": 1, **whole}, dict(reversed(whole.items()))]
    for i in ps:
        k = "k%d" % i
        vals += [{j: x for j, x in whole.items() if j != k}, {**whole, k: -1}, {**whole, k: None}, {(k.upper() if j == k else j): x for j, x in whole.items()}, {k: i}, {**{j: x for j, x in whole.items() if j != k}, "z": i},
                 {**whole, k: i, **{"z%d" % j: j for j in range(i)}}]
    if n <= 130:
        for r in (False, True):
            yield case(Dict(tuple(ks), r), vals)
            for i in (0, n // 2, n - 1):
                yield case(Dict(tuple((k, t, j == i) for j, (k, t, _) in enumerate(ks)), r), vals)
            yield case(Dict(tuple((k, t, True) for k, t, _ in ks), r), vals)
    # many alternatives
    if n <= 130:
        yield case(AnyT(*els), [i for i in ps] + [n, -1, "~", None, True, 0.0])
        yield case(AnyT(*[Dict((("k%d" % i, Int(i), False),)) for i in row]), [{"k%d" % i: i} for i in ps] + [{"k%d" % i: i + 1} for i in ps] + [{"k0": 0, "z": 1}, {}])
        yield case(List("of", (AnyT(*els),)), [[i] for i in ps] + [[i, 0, i] for i in ps] + [[0, n], row, row + [n]])
    # parts of dicts inside long lists
    d = Dict((("a", Int(), False), ("b", Str(), False)))
    full, part = {"a": 1, "b": "x"}, {"a": 1}
    if n <= 66:
        in_list = [x for i in ps for x in ([None] * i + [part] + [None] * (n - i - 1), [None] * i + [full] + [None] * (n - i - 1), [full] * i + [part] + [full] * (n - i - 1), [part] * i + [full] + [part] * (n - i - 1),
                                           [None] * i + [{}] + [None] * (n - i - 1), [part] * i + [{"b": "x"}] + [part] * (n - i - 1), [part] * i + [{"a": "no"}] + [part] * (n - i - 1))]
        for t in (List("exact", (..., d, ...)), List("of", (d,)), List("exact", (d, ...)), List("exact", (..., d)), List("exact", (..., d, d, ...)), List("of", (AnyT(NoneT(), d),)),
                  List("exact", (..., AnyT(d, Int()), ...))):
            yield case(t, in_list)
        if n <= 20:
            yield case(List("exact", tuple(d for _ in row)), in_list)
            yield case(Dict(tuple(("k%d" % i, d, False) for i in row)), [{"k%d" % j: (part if j == i else full) for j in row} for i in ps] + [{"k%d" % i: part} for i in ps] + [{"k%d" % j: part for j in row}])
    # long texts
    word = "".join(chr(0x61 + i % 26) for i in row)
    changed = [x for i in ps for x in (word[:i] + "~" + word[i + 1:], word[:i] + word[i + 1:], word[:i] + "~" + word[i:], word[:i] + word[i].upper() + word[i + 1:], word[:i], word[i:])]
    changed += [word, word + "a", "a" + word, word * 2, word + "\n"]
    for t in (Str(word), Str(substr=word), Str(alphabet=word), Str(pattern="^%s$" % word), Str(pattern=word), Str(len=n), Str(len=(n, ...)), Str(len=(..., n))):
        yield case(t, changed)
    yield case(Str(substr="q~"), [word[:i] + "q~" + word[i:] for i in ps] + [word[:i] + "~q" + word[i:] for i in ps])
    yield case(Str(pattern="^[a-z]+$"), changed)
    raw = word.encode()
    yield case(Bytes(raw), [x.encode() for x in changed])


class Fine:
    """a task: some fine terms, made in the worker"""

    def __init__(self, deep, keep, light, kind, *span):
        self.deep, self.keep, self.light, self.kind, self.span = deep, keep, light, kind, span

    def terms(self):
        if self.kind == "row":
            ts = row_terms(*self.span, self.light)
        elif self.kind == "keys":
            ts = key_terms(*self.span)
        else:
            ts = list(pattern_terms(*self.span) if self.kind == "patterns" else scalar_terms(self.kind, *self.span))
            ts += wrapped(ts, 1 if self.deep else 5)
        return [t for t in ts if self.keep(t)]

    def src(self):
        return "fine %s %s" % (self.kind, self.span)


STEP = 4


LIGHT = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33, 65, 130]


def fine(deep=False, keep=lambda t: True, light=False, kinds=tuple(POOL) + ("patterns", "keys")):
    """light: rows of fewer sizes and places"""
    out = [Fine(deep, keep, light and not deep, "row", n) for n in sorted(LIGHT if light and not deep else SIZES, reverse=True)]
    for k in kinds:
        n = len({"patterns": PATTERNS, "keys": KEYS}.get(k) or POOL[k])
        out += [Fine(deep, keep, light, k, i, i + STEP) for i in range(0, n, STEP)]
    return out
