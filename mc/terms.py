"""Reference model of the schema language.

A term is an immutable description of a schema.  Three independent readings:
  build(t)  - the real schema, through the public DSL only
  src(t)    - DSL source text (canonical identity of the term; used in replays)
  accept(t, v) - reference semantics (written from the documentation, not the validator)
plus witnesses(t): some conforming values ([] if none were constructed),
and children access used to resolve error paths.
"""
import math
import re
from datetime import date, datetime
from fractions import Fraction
from uuid import UUID

from . import env  # noqa: F401
from d42 import optional, schema
from d42.declaration.errors import DeclarationError
from d42.utils import make_required
from d42.custom_type import CustomSchema, Props, register_type


class _N:
    def __repr__(self):
        return "N"

    def __bool__(self):
        return False


N = _N()           # "not declared"


def lit(v):
    """Python source of a value (floats/dates/uuids included)."""
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes, bytearray)):
        return repr(v)
    if isinstance(v, float):
        if v != v:
            return "float('nan')"
        if v in (math.inf, -math.inf):
            return "float('%s')" % v
        return repr(v)
    if v is ...:
        return "..."
    if type(v) is list:
        return "[" + ", ".join(map(lit, v)) + "]"
    if type(v) is tuple:
        return "(" + ", ".join(map(lit, v)) + ("," if len(v) == 1 else "") + ")"
    if type(v) is dict:
        return "{" + ", ".join(lit(k) + ": " + lit(x) for k, x in v.items()) + "}"
    if type(v) is int:
        return repr(v) if abs(v) < 10 ** 40 else hex(v)
    if id(v) in NAMED:
        return NAMED[id(v)]
    try:
        return repr(v)
    except Exception:
        return object.__repr__(v)


NAMED = {}         # id(value) -> source text, for values repr() cannot express


class Term:
    kind = "?"
    _f = ()

    def __init__(self, *a):
        for n, v in zip(self._f, a):
            setattr(self, n, v)

    def subterms(self):
        return []

    def __repr__(self):
        return src(self)

    def depth(self):
        return 1 + max([s.depth() for s in self.subterms()], default=0)


class NoneT(Term):
    kind = "none"

    def build(self):
        return schema.none

    def src(self):
        return "schema.none"

    def accept(self, v):
        return v is None

    def wit(self):
        return [None]


class _Fixed(Term):
    """value-only scalars: bool, bytes, uuid4, datetime, date"""
    _f = ("value",)
    pytype = None
    pool = ()

    def __init__(self, value=N):
        self.value = value

    def build(self):
        s = getattr(schema, self.kind)
        return s if self.value is N else s(self.value)

    def src(self):
        return "schema.%s" % self.kind + ("" if self.value is N else "(%s)" % lit(self.value))

    def accept(self, v):
        if not isinstance(v, self.pytype):
            return False
        return self.value is N or v == self.value

    def wit(self):
        return list(self.pool) if self.value is N else [self.value]


class Bool(_Fixed):
    kind, pytype, pool = "bool", bool, (True, False)


class Bytes(_Fixed):
    kind, pytype, pool = "bytes", bytes, (b"", b"a", b"\x00\xff")


U1 = UUID("0e6d5f7b-3e2c-4d1c-9f50-3a4a2d9c1b10")
U2 = UUID("c1a5c2f0-8e0b-4b4e-8a54-1f2c7d7b9a01")
U_V1 = UUID("9b5f6a1e-1dd2-11b2-8000-001122334455")
U_NIL = UUID(int=0)
DT1 = datetime(2020, 1, 2, 3, 4, 5)
DT2 = datetime(2021, 1, 2, 3, 4, 5, 6)
D1 = date(2020, 1, 2)
D2 = date(2020, 1, 3)


class Uuid(_Fixed):
    kind, pytype, pool = "uuid4", UUID, (U1, U2)

    def accept(self, v):
        return super().accept(v) and v.version == 4


class DateTime(_Fixed):
    kind, pytype, pool = "datetime", datetime, (DT1, DT2)


class Date(_Fixed):
    kind, pytype, pool = "date", date, (D1, D2)


class Int(Term):
    kind = "int"
    _f = ("value", "min", "max")

    def __init__(self, value=N, min=N, max=N):
        self.value, self.min, self.max = value, min, max

    def build(self):
        s = schema.int
        if self.value is not N:
            s = s(self.value)
        if self.min is not N:
            s = s.min(self.min)
        if self.max is not N:
            s = s.max(self.max)
        return s

    def src(self):
        return "schema.int" + ("" if self.value is N else "(%s)" % lit(self.value)) \
            + ("" if self.min is N else ".min(%s)" % lit(self.min)) \
            + ("" if self.max is N else ".max(%s)" % lit(self.max))

    def accept(self, v):
        return (isinstance(v, int) and (self.value is N or v == self.value)
                and (self.min is N or v >= self.min) and (self.max is N or v <= self.max))

    def wit(self):
        c = [self.value] if self.value is not N else \
            [0, 1, -1, 7, 10 ** 20] + [x + d for x in (self.min, self.max) if x is not N
                                      for d in (0, 1, -1)]
        return [v for v in c if self.accept(v)]


def float_equal(v, value, precision):
    """the documented tolerance: with a declared precision both sides are compared after
    rounding to that many decimals, otherwise up to a relative 1e-9"""
    if v != v or value != value:
        return v != v and value != value
    if v == value:
        return True
    if math.isinf(v) or math.isinf(value):
        return False
    if precision is N:
        return abs(Fraction(v) - Fraction(value)) <= Fraction(1, 10 ** 9) * max(abs(Fraction(v)),
                                                                                abs(Fraction(value)))
    s = 10 ** precision
    return round(Fraction(v) * s) == round(Fraction(value) * s)


class Float(Term):
    kind = "float"
    _f = ("value", "min", "max", "precision")

    def __init__(self, value=N, min=N, max=N, precision=N):
        self.value, self.min, self.max, self.precision = value, min, max, precision

    def build(self):
        s = schema.float
        for n in self._f:
            x = getattr(self, n)
            if x is not N:
                s = s(x) if n == "value" else getattr(s, n)(x)
        return s

    def src(self):
        return "schema.float" + ("" if self.value is N else "(%s)" % lit(self.value)) \
            + "".join(".%s(%s)" % (n, lit(getattr(self, n))) for n in self._f[1:]
                      if getattr(self, n) is not N)

    def accept(self, v):
        return (isinstance(v, float)
                and (self.value is N or float_equal(v, self.value, self.precision))
                and (self.min is N or v >= self.min) and (self.max is N or v <= self.max))

    def wit(self):
        c = [self.value] if self.value is not N else [0.0, 1.5, -2.25, 1e300] + [
            x for x in (self.min, self.max) if x is not N]
        if self.min is not N and self.max is not N and self.min < self.max < math.inf \
                and self.min > -math.inf:
            c.append(self.min / 2 + self.max / 2)
        return [v for v in c if self.accept(v)]


def _len_src(ln):
    """ln: N | n | (min, ...) | (..., max) | (min, max)"""
    if ln is N:
        return ""
    if isinstance(ln, tuple):
        return ".len(%s, %s)" % tuple(lit(x) for x in ln)
    return ".len(%s)" % lit(ln)


def _len_build(s, ln):
    if ln is N:
        return s
    return s.len(*ln) if isinstance(ln, tuple) else s.len(ln)


def _len_ok(ln, n):
    if ln is N:
        return True
    if isinstance(ln, tuple):
        lo, hi = ln
        return (lo is ... or n >= lo) and (hi is ... or n <= hi)
    return n == ln


class Str(Term):
    kind = "str"
    _f = ("value", "len", "alphabet", "substr", "pattern")

    def __init__(self, value=N, len=N, alphabet=N, substr=N, pattern=N):
        self.value, self.len, self.alphabet = value, len, alphabet
        self.substr, self.pattern = substr, pattern

    def build(self):
        s = schema.str
        if self.value is not N:
            s = s(self.value)
        s = _len_build(s, self.len)
        if self.alphabet is not N:
            s = s.alphabet(self.alphabet)
        if self.substr is not N:
            s = s.contains(self.substr)
        if self.pattern is not N:
            s = s.regex(self.pattern)
        return s

    def src(self):
        r = "schema.str" + ("" if self.value is N else "(%s)" % lit(self.value))
        r += _len_src(self.len)
        for n, m in (("alphabet", "alphabet"), ("substr", "contains"), ("pattern", "regex")):
            if getattr(self, n) is not N:
                r += ".%s(%s)" % (m, lit(getattr(self, n)))
        return r

    def accept(self, v):
        return (isinstance(v, str) and (self.value is N or v == self.value)
                and _len_ok(self.len, len(v))
                and (self.alphabet is N or all(c in self.alphabet for c in v))
                and (self.substr is N or v.find(self.substr) >= 0)
                and (self.pattern is N or re.search(self.pattern, v) is not None))

    def wit(self):
        if self.value is not N:
            c = [self.value]
        else:
            a = "ab" if self.alphabet is N else self.alphabet
            sub = "" if self.substr is N else self.substr
            ns = set(range(0, 5))
            if isinstance(self.len, tuple):
                for x in self.len:
                    if x is not ...:
                        ns |= {max(0, x), max(0, x + 1), max(0, x - 1)}
            elif self.len is not N:
                ns |= {max(0, self.len)}
            c = []
            for n in sorted(x for x in ns if x < 5000):
                fill = n - len(sub)
                if fill >= 0 and (a or fill == 0):
                    body = (a * fill)[:fill]
                    c += [body + sub, sub + body, body[:fill // 2] + sub + body[fill // 2:]]
            if self.pattern is not N:
                c += PATTERN_WITNESS.get(self.pattern, []) + ["a", "ab", "0", "", "abc", "a1", "b", "aa", "aaa", "bc", "ac", "cb", "bb", "!"]
        out = []
        for v in c:
            if self.accept(v) and v not in out:
                out.append(v)
        return out


PATTERN_WITNESS = {}


class List(Term):
    """form: bare | of | exact ; items may contain ... at the ends for exact
       (exact covers exact/head/tail/contains/[...] by the placement of ...)"""
    kind = "list"

    def __init__(self, form="bare", items=(), len=N):
        self.form, self.items, self.len = form, tuple(items), len

    def subterms(self):
        return [t for t in self.items if t is not ...]

    def build(self):
        s = schema.list
        if self.form == "of":
            s = s(self.items[0].build())
        elif self.form == "exact":
            s = s([t if t is ... else t.build() for t in self.items])
        return _len_build(s, self.len)

    def src(self):
        if self.form == "bare":
            r = "schema.list"
        elif self.form == "of":
            r = "schema.list(%s)" % self.items[0].src()
        else:
            r = "schema.list([%s])" % ", ".join("..." if t is ... else t.src() for t in self.items)
        return r + _len_src(self.len)

    def shape(self):
        if self.form != "exact":
            return self.form
        it = self.items
        a, b = bool(it) and it[0] is ..., len(it) > 1 and it[-1] is ...
        if it == (...,):
            return "anything"
        return "contains" if a and b else "tail" if a else "head" if b else "exact"

    def accept(self, v):
        if not isinstance(v, list) or not _len_ok(self.len, len(v)):
            return False
        sh = self.shape()
        if sh in ("bare", "anything"):
            return True
        el = self.subterms()
        if sh == "of":
            return all(el[0].accept(x) for x in v)
        n = len(el)
        if len(v) < n:
            return False
        if sh == "exact":
            return len(v) == n and all(t.accept(x) for t, x in zip(el, v))
        if sh == "head":
            starts = [0]
        elif sh == "tail":
            starts = [len(v) - n]
        else:
            starts = range(0, len(v) - n + 1)
        return any(all(t.accept(v[s + i]) for i, t in enumerate(el)) for s in starts)

    def positions(self, n):
        """for a value of length n: index -> list of element terms that may judge it"""
        sh, el = self.shape(), self.subterms()
        out = {}
        for i in range(n):
            if sh == "of":
                out[i] = [el[0]]
            elif sh == "exact" or sh == "head":
                out[i] = [el[i]] if i < len(el) else []
            elif sh == "tail":
                j = i - max(0, n - len(el))
                out[i] = [el[j]] if 0 <= j < len(el) else []
            elif sh == "contains":
                out[i] = list(el)
            else:
                out[i] = []
        return out

    def wit(self):
        sh = self.shape()
        ns = [0, 1, 2, 3]
        if isinstance(self.len, tuple):
            ns += [max(0, x) for x in self.len if x is not ...]
        elif self.len is not N:
            ns = [max(0, self.len)]
        el = [t.wit() for t in self.subterms()]
        filler = [None, [], "zz", -99]
        out = []
        for n in sorted(x for x in set(ns) if x < 5000):
            if sh in ("bare", "anything"):
                out.append([filler[i % 4] for i in range(n)])
            elif sh == "of":
                if n == 0:
                    out.append([])
                elif el[0]:
                    out.append([el[0][i % len(el[0])] for i in range(n)])
                    out.append([el[0][-1 - i % len(el[0])] for i in range(n)])
            elif all(el):
                k = max(0, n - len(el))
                core = [w[0] for w in el]
                alt = [w[-1] for w in el]
                pad = [filler[i % 4] for i in range(k)]
                for c in (core, alt):
                    if sh == "exact":
                        out.append(c)
                    elif sh == "head":
                        out.append(c + pad)
                    elif sh == "tail":
                        out.append(pad + c)
                    else:
                        out += [pad + c, c + pad, pad[:k // 2] + c + pad[k // 2:]]
        res = []
        for v in out:
            if self.accept(v) and not any(same(v, w) for w in res):
                res.append(v)
        return [copyv(v) for v in res]


class Dict(Term):
    """items: N (bare) or tuple of (key, term, is_optional); relaxed: has ...: ...
    first: the ellipsis entry comes first"""
    kind = "dict"

    def __init__(self, items=N, relaxed=False, first=False):
        self.items = items if items is N else tuple(items)
        self.relaxed, self.first = relaxed, first

    def subterms(self):
        return [] if self.items is N else [t for _, t, _ in self.items]

    def build(self):
        if self.items is N:
            return schema.dict
        d = {}
        if self.relaxed and self.first:
            d[...] = ...
        for k, t, o in self.items:
            d[optional(k) if o else k] = t.build()
        if self.relaxed and not self.first:
            d[...] = ...
        return schema.dict(d)

    def src(self):
        if self.items is N:
            return "schema.dict"
        p = ["%s: %s" % ("optional(%s)" % lit(k) if o else lit(k), t.src())
             for k, t, o in self.items]
        if self.relaxed:
            p = ["...: ..."] + p if self.first else p + ["...: ..."]
        return "schema.dict({%s})" % ", ".join(p)

    def accept(self, v):
        if not isinstance(v, dict):
            return False
        if self.items is N:
            return True
        for k, t, o in self.items:
            if k in v:
                if not t.accept(v[k]):
                    return False
            elif not o:
                return False
        declared = {k for k, _, _ in self.items}
        return self.relaxed or all(k in declared for k in v)

    def wit(self):
        if self.items is N:
            return [{}, {"z": 1}]
        req, out = [[]], []
        for k, t, o in self.items:
            w = t.wit()
            nxt = []
            for base in req:
                if w:
                    nxt.append(base + [(k, w[0])])
                    if len(req) <= 2 and len(w) > 1:
                        nxt.append(base + [(k, w[-1])])
                if o:
                    nxt.append(list(base))
            req = nxt[:12]
        out = [dict(p) for p in req]
        if self.relaxed:
            out += [{**p, "z9": [1]} for p in out[:2]]
        return [copyv(v) for v in out if self.accept(v)]


class AnyT(Term):
    kind = "any"

    def __init__(self, *types, union=False):
        self.types, self.union = types, union

    def subterms(self):
        return list(self.types)

    def build(self):
        if not self.types:
            return schema.any
        if self.union:
            r = self.types[0].build()
            for t in self.types[1:]:
                r = r | t.build()
            return r
        return schema.any(*[t.build() for t in self.types])

    def src(self):
        if not self.types:
            return "schema.any"
        if self.union:
            return "(" + " | ".join(t.src() for t in self.types) + ")"
        return "schema.any(%s)" % ", ".join(t.src() for t in self.types)

    def accept(self, v):
        return not self.types or any(t.accept(v) for t in self.types)

    def wit(self):
        if not self.types:
            return [None, 1, "a", [], {}]
        out = []
        for t in self.types:
            for v in t.wit()[:3]:
                if not any(same(v, w) for w in out):
                    out.append(v)
        return out


class Alias(Term):
    kind = "alias"

    def __init__(self, name, target):
        self.name, self.target = name, target

    def subterms(self):
        return [self.target]

    def build(self):
        return schema.alias(self.name, self.target.build())

    def src(self):
        return "schema.alias(%r, %s)" % (self.name, self.target.src())

    def accept(self, v):
        return self.target.accept(v)

    def wit(self):
        return self.target.wit()


class Add(Term):
    """d1 + d2"""
    kind = "add"

    def __init__(self, left, right):
        self.left, self.right = left, right
        a, b = strip(left), strip(right)
        keys = {k: (k, t, o) for k, t, o in a.items}
        keys.update({k: (k, t, o) for k, t, o in b.items})
        self.merged = Dict(keys.values(), a.relaxed or b.relaxed)

    def subterms(self):
        return self.merged.subterms()

    def build(self):
        return self.left.build() + self.right.build()

    def src(self):
        return "(%s + %s)" % (self.left.src(), self.right.src())

    def accept(self, v):
        return self.merged.accept(v)

    def wit(self):
        return self.merged.wit()


class MakeRequired(Term):
    """make_required(d, keys) - reference: the listed keys (default: all) become required"""
    kind = "required"

    def __init__(self, d, keys=None, how=list):
        self.d, self.keys, self.how = d, keys, how
        m = strip(d)
        self.merged = Dict(tuple((k, t, o and keys is not None and k not in keys) for k, t, o in m.items),
                           m.relaxed, m.first)

    def subterms(self):
        return self.merged.subterms()

    def build(self):
        d = self.d.build()
        return make_required(d) if self.keys is None else make_required(d, self.how(self.keys))

    def src(self):
        if self.keys is None:
            return "make_required(%s)" % src(self.d)
        k = "[%s]" % ", ".join(map(lit, self.keys))
        return "make_required(%s, %s)" % (src(self.d), k if self.how is list else
                                          "%s(%s)" % (self.how.__name__, k))

    def accept(self, v):
        return self.merged.accept(v)

    def wit(self):
        return self.merged.wit()


class FwdProps(Props):
    @property
    def target(self):
        return self.get("target")


class Forward(CustomSchema[FwdProps]):
    """a user-defined type that forwards every hook to a built-in schema"""

    def __call__(self, target):
        if not hasattr(target, "__accept__"):
            raise DeclarationError("not a schema")
        return self.__class__(self.props.update(target=target))

    def __validate__(self, visitor, *, value, path, **kwargs):
        return self.props.target.__accept__(visitor, value=value, path=path, **kwargs)

    def __generate__(self, visitor, **kwargs):
        return self.props.target.__accept__(visitor, **kwargs)

    def __represent__(self, visitor, indent=0, **kwargs):
        return self.props.target.__accept__(visitor, indent=indent, **kwargs)

    def __substitute__(self, visitor, *, value, **kwargs):
        res = self.props.target.__accept__(visitor, value=value, **kwargs)
        return self.__class__(self.props.update(target=res))


register_type("mc_forward", Forward)


class Custom(Term):
    kind = "custom"

    def __init__(self, target):
        self.target = target

    def subterms(self):
        return [self.target]

    def build(self):
        return schema.mc_forward(self.target.build())

    def src(self):
        return "forward(%s)" % self.target.src()

    def accept(self, v):
        return self.target.accept(v)

    def wit(self):
        return self.target.wit()


def build(t):
    return t.build()


def src(t):
    return t.src()


def accept(t, v):
    return t.accept(v)


def strip(t):
    """look through aliases, customs and additions"""
    while t.kind in ("alias", "custom", "add", "required"):
        t = t.merged if t.kind in ("add", "required") else t.target
    return t


def satisfiable(t):
    return bool(t.wit())


def hereditarily_satisfiable(t):
    """every sub-schema that generation may have to visit admits a value"""
    return satisfiable(t) and all(hereditarily_satisfiable(s) for s in t.subterms())


# ------------------------------------------------------------------ value helpers

def copyv(v):
    if type(v) is list:
        return [copyv(x) for x in v]
    if type(v) is dict:
        return {k: copyv(x) for k, x in v.items()}
    return v


def same(a, b):
    """structural identity of values: type-strict, nan equal to nan, -0.0 apart from 0.0"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return repr(a) == repr(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return len(a) == len(b) and all(k in b and same(x, b[k]) for k, x in a.items())
    try:
        return bool(a == b)
    except Exception:
        return False
