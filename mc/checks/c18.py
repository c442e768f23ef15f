"""C18: rollout is the inverse of flattening.

States: every forest (depth <= 4, unary chains included) with up to L leaves x every naming scheme x every placement
of optional on the leaves x every place of a top-level ``...: ...`` x every order of the flat keys x separators.  The flat
mapping is computed here and must roll out to the nested one: the same keys, every leaf the identical object, optional
on the same leaves.  The nested mapping itself must roll out to an equal mapping.
"""
import itertools as it

from types import MappingProxyType

from d42 import optional, schema
from d42.utils import rollout

from ..common import REPLAY

ASSUMPTIONS = ["the order of the keys in the result is not judged", "only flat keys that split back into their parts are in the domain "
               "(a key must not produce a separator together with the separator next to it)"]
BOUNDS = {"quick": "forests of <= 4 leaves, depth <= 4: all key orders x all optional placements; 5 leaves: all orders x 8 placements; "
                   "9 naming schemes, 17 separators, 29 leaf payloads for <= 3 leaves",
          "thorough": "5 leaves complete, 6 leaves all orders; all naming schemes and separators for <= 4 leaves"}

SEPS = [".", "/", "__", "::", " ", "->", "|", "*", "\\", "\n", "é", "a", "0", "...", "$1", "[.]", "." * 9]
NAMES = {
    "abc": "a b c d e f g h".split(),
    "same prefix": ["a", "aa", "aaa", "aab", "ab", "b", "ba", "bb"],
    "empty": ["", "x", "y", "z", "w", "v", "u", "t"],
    "digits": ["0", "1", "00", "10", "-1", "1e5", "True", "None"],
    "other separators": ["x/y", "x:y", "x-y", "x y", "x_y", "x|y", "x\\y", "..x"],
    "unicode": ["é", "☃", "e\u0301", "\ud800", "\x00", "ß", "SS", "\u2028"],
    "dots": [".x", "x.", ".", "a.b", "...", "x..y", "b.a", "optional('x')"],
    "case": ["x", "X", " x", "x ", "xX", "Xx", "\tx", "x\n"],
    "long": ["k" * 200, "k" * 199, "k" * 201, "l", "m", "n", "o", "p"],
}


def forests(n, depth):
    """ordered forests with n leaves: tuples of trees; a tree is None (leaf) or a forest"""
    if n == 0:
        return [()]
    out = []
    for first in range(1, n + 1):
        trees = [None] if first == 1 else []
        if depth > 1:
            trees = trees + [f for f in forests(first, depth - 1) if f]
        for t in trees:
            for rest in forests(n - first, depth):
                out.append((t,) + rest)
    return out


def canonical(f):
    subs = [t for t in f if t is not None]
    return list(map(repr, f)) == sorted(map(repr, f)) and all(map(canonical, subs))


_F = {}


def shapes(n):
    if n not in _F:
        # siblings may be permuted: every order of the flat keys is explored anyway
        _F[n] = [f for f in forests(n, 4) if canonical(f)]
    return _F[n]


def paths(f, names, prefix=()):
    out = []
    for i, t in enumerate(f):
        p = prefix + (names[i],)
        out += [p] if t is None else paths(t, names, p)
    return out


class Weird:
    """equality, truth and hash of a payload are nobody's business"""
    def __eq__(self, other):
        raise RuntimeError("payload compared")

    def __bool__(self):
        raise RuntimeError("payload tested")
    __hash__ = None

    def __iter__(self):
        raise RuntimeError("payload iterated")

    def __copy__(self):
        raise RuntimeError("payload copied")

    def __deepcopy__(self, memo):
        raise RuntimeError("payload copied")


def payloads():
    return [("schema", lambda i: schema.int(i)), ("int", lambda i: i), ("None", lambda i: None), ("dict schema", lambda i: schema.dict({"a.b": schema.int})),
            ("list of dicts", lambda i: [{"a.b": i}]), ("str", lambda i: "a.b"), ("object", lambda i: Weird()), ("...", lambda i: ...),
            ("tuple", lambda i: ({"x.y": 1},)), ("any", lambda i: schema.any(schema.dict, schema.str("."))), ("type", lambda i: dict),
            ("empty", lambda i: ""), ("empty list", lambda i: []), ("empty tuple", lambda i: ()), ("False", lambda i: False), ("zero", lambda i: 0.0), ("list", lambda i: [i]), ("set", lambda i: set()),
            ("bytes", lambda i: b""), ("optional", lambda i: optional("a.b")), ("keys", lambda i: {"a.b": i}.keys()), ("callable", lambda i: payloads), ("error", lambda i: KeyError("a.b")),
            ("none schema", lambda i: schema.none), ("bare dict schema", lambda i: schema.dict), ("empty dict schema", lambda i: schema.dict({})), ("empty list schema", lambda i: schema.list([])),
            ("iterator", lambda i: iter(())), ("mapping", lambda i: MappingProxyType({"a.b": i}))]


def nest(ps, opts, vals, ell):
    """the nested mapping, keys in the order of the leaves"""
    out = {}
    for i, p in enumerate(ps):
        if ell == i:
            out[...] = ...
        d = out
        for k in p[:-1]:
            d = d.setdefault(k, {})
        d[optional(p[-1]) if opts >> i & 1 else p[-1]] = vals[i]
    if ell == len(ps):
        out[...] = ...
    return out


def flatten(ps, opts, vals, ell, sep, order):
    out = {}
    for n, i in enumerate(order):
        if ell == n:
            out[...] = ...
        k = sep.join(ps[i])
        out[optional(k) if opts >> i & 1 else k] = vals[i]
    if ell == len(ps):
        out[...] = ...
    return out


def differs(got, want, leaves=True):
    """None if got is want up to the order of keys (leaves: the identical objects)"""
    stack = [(got, want, "result")]
    while stack:
        g, w, where = stack.pop()
        if type(w) is not dict:
            if g is not w:
                return "%s is another object" % where
            continue
        if not isinstance(g, dict):
            return "%s is not a dict" % where
        if len(g) != len(w):
            return "%s has %d keys instead of %d" % (where, len(g), len(w))
        for k in g:
            if k is not ... and not (type(k) is optional and type(k.key) is str) and type(k) is not str:
                return "%s has the key %r" % (where, k)
        for k in w:
            if k not in g:
                return "%s has no key %r" % (where, k)
            stack.append((g[k], w[k], "%s[%r]" % (where, k)))
    return None


def shot(d):
    return [(k, shot(v) if type(v) is dict else id(v)) for k, v in d.items()]


def source(d, names):
    """a python expression of a mapping with its payloads shown by name"""
    if type(d) is dict:
        return "{" + ", ".join(("..." if k is ... else "optional(%r)" % k.key if isinstance(k, optional) else repr(k)) + ": " + source(v, names)
                               for k, v in d.items()) + "}"
    return names.get(id(d), "...")


def call(flat, sep):
    return rollout(flat) if sep == "." else rollout(flat, separator=sep)


def check(ctx, ps, opts, vals, ell, sep, order, twice=False):
    want = nest(ps, opts, vals, ell)
    flat = flatten(ps, opts, vals, ell, sep, order)
    before = shot(flat)
    ctx.trans()
    try:
        got = call(flat, sep)
        d = differs(got, want)
    except Exception as e:
        got, d = None, "raised %s: %s" % (type(e).__name__, e)
    if d is None and shot(flat) != before:
        d = "the mapping passed was modified"
    if d is None and twice:
        # a second call must not be affected by what the caller does to the first result
        for v in got.values():
            if type(v) is dict:
                v.clear()
        got.clear()
        d = differs(rollout(flat, separator=sep), want)
        d = d and "second call: " + d
    if d is not None:
        names = {id(v): "v%d" % i for i, v in enumerate(vals)}
        f = source(flat, names)
        ctx.violation("rollout(%s, separator=%r)" % (f, sep), d,
                      REPLAY + "v0, v1, v2, v3, v4, v5, v6, v7 = [schema.int(i) for i in range(8)]\nprint(rollout(%s, separator=%r))\nprint(%s)  # expected"
                      % (f, sep, source(want, names)))
        return False
    ctx.trace()
    return True


def identity(ctx, ps, opts, vals, ell, sep):
    n = nest(ps, opts, vals, ell)
    before = shot(n)
    ctx.trans()
    try:
        d = differs(call(n, sep), nest(ps, opts, vals, ell))
    except Exception as e:
        d = "raised %s: %s" % (type(e).__name__, e)
    if d is None and shot(n) != before:
        d = "the mapping passed was modified"
    if d is not None:
        names = {id(v): "v%d" % i for i, v in enumerate(vals)}
        ctx.violation("rollout(%s, separator=%r) of a nested mapping" % (source(n, names), sep), d,
                      REPLAY + "v0, v1, v2, v3, v4, v5, v6, v7 = [schema.int(i) for i in range(8)]\nprint(rollout(%s, separator=%r))"
                      % (source(n, names), sep))
        return False
    ctx.trace()
    return True


def fits(ps, sep):
    """every part free of the separator, and joining is unambiguous"""
    return all(sep not in k for p in ps for k in p) and all(sep.join(p).split(sep) == list(p) for p in ps)


def tasks(tier):
    deep = tier == "thorough"
    out = [("full", n, i) for n in range(0, 5) for i in range(len(shapes(n)))]
    out += [("five", 5, i) for i in range(len(shapes(5)))]
    out += [("names", n, i) for n in range(1, 5 if deep else 4) for i in range(len(shapes(n)))]
    out += [("payloads", n, i) for n in range(1, 4) for i in range(len(shapes(n)))]
    if deep:
        out += [("six", 6, i) for i in range(len(shapes(6)))]
    out += [("wide", n, k) for n in ((8, 12, 20, 40) if deep else (8, 12, 20)) for k in range(len(WIDE))]
    return out


# wide mappings: path of leaf i as a function of i
WIDE = [lambda i: ("k%d" % i,), lambda i: ("g", "k%d" % i), lambda i: ("g%d" % (i % 3), "k%d" % i), lambda i: ("g%d" % (i % 3), "h%d" % (i % 2), "k%d" % i),
        lambda i: ("g%d" % i, "x"), lambda i: ("g",) * (i % 4) + ("k%d" % i,), lambda i: ("g%d" % (i % 2), "g%d" % (i % 3), "g%d" % (i % 5), "k%d" % (i // 2)),
        lambda i: ("a%d" % (i // 4), "b%d" % (i // 2), "c", "k%d" % i)]


def task_name(t):
    return repr(t)


def run_task(t, ctx):
    kind, n, i = t
    vals = [schema.int(j) for j in range(max(n, 1))]
    if kind == "wide":
        ps = [WIDE[i](j) for j in range(n)]
        orders = [tuple(range(n)), tuple(range(n))[::-1], tuple(range(0, n, 2)) + tuple(range(1, n, 2)), tuple(range(1, n, 2)) + tuple(range(0, n, 2))]
        orders += [tuple((j * m + c) % n for j in range(n)) for m in (3, 7, 11) for c in (0, 1, n // 2) if n % m]
        orders += [tuple(range(c, n)) + tuple(range(c)) for c in range(1, n)]
        if len(set(ps)) != n:
            ps = [p[:-1] + ("%s_%d" % (p[-1], j),) for j, p in enumerate(ps)]
        for order in orders:
            for opts in (0, 2 ** n - 1, 0x5555555555 & (2 ** n - 1), 1, 1 << (n - 1)):
                for ell in (None, 0, n // 2, n):
                    ctx.state()
                    check(ctx, ps, opts, vals, ell, "/", order)
        return
    shape = shapes(n)[i]
    if kind == "full":
        ps = paths(shape, NAMES["abc"])
        for opts in range(2 ** n):
            for ell in [None] + list(range(n + 1)):
                ctx.state()
                identity(ctx, ps, opts, vals, ell, ".")
                for order in it.permutations(range(n)):
                    check(ctx, ps, opts, vals, ell, ".", order)
        ctx.sample("every order, optional placement and ... of %s" % (["." .join(p) for p in ps],))
    elif kind in ("five", "six"):
        ps = paths(shape, NAMES["abc"])
        placements = [0, 2 ** n - 1, 0b010101 & (2 ** n - 1)] + [1 << j for j in range(n)]
        if ctx.deep and kind == "five":
            placements = range(2 ** n)
        elif kind == "six":
            placements = placements[:3] + placements[3 + i % n:4 + i % n]
        for opts in placements:
            ell = [None, 0, n, 2][(opts + i) % 4]
            ctx.state()
            identity(ctx, ps, opts, vals, ell, ".")
            for order in it.permutations(range(n)):
                check(ctx, ps, opts, vals, ell, ".", order)
    elif kind == "names":
        for name, pool in NAMES.items():
            for shift in range(0, 8, 2 if n < 3 else 4):
                ps = paths(shape, pool[shift:] + pool[:shift])
                for m, sep in enumerate(SEPS):
                    if not ctx.deep and n == 3 and (m + i + shift) % 3 and m:
                        continue
                    if not fits(ps, sep):
                        continue
                    for opts in (range(2 ** n) if n < 4 else (0, 2 ** n - 1, 5)):
                        ctx.state()
                        ell = [None, 0, n, 1][opts % 4]
                        identity(ctx, ps, opts, vals, ell, sep)
                        for order in it.permutations(range(n)):
                            check(ctx, ps, opts, vals, ell, sep, order, twice=True)
        # the same final key both plain and optional next to each other, and beside a group of that name
        if n >= 2:
            pool = ["a"] * 8
            ps = paths(shape, pool)
            if len(set(ps)) == n:
                for opts in range(2 ** n):
                    if any(p == q[:len(p)] and not opts >> j & 1 for j, p in enumerate(ps) for q in ps if p is not q):
                        continue    # a plain key can't be both a leaf and a group
                    for order in it.permutations(range(n)):
                        check(ctx, ps, opts, vals, None, ".", order)
    elif kind == "payloads":
        ps = paths(shape, NAMES["abc"])
        for name, make in payloads():
            vals = [make(j) for j in range(n)]
            for opts in range(2 ** n):
                for ell in (None, 0, n):
                    ctx.state()
                    identity(ctx, ps, opts, vals, ell, ".")
                    for order in it.permutations(range(n)):
                        check(ctx, ps, opts, vals, ell, ".", order)
