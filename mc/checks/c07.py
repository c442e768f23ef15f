"""C07: schemas are immutable values, operations are pure.

Explicit-state exploration of operation histories over a shared pool of live objects: schemas of every
type (among them ones built from lists / dicts the "caller" still owns) and caller-owned values.
Moves: every public operation on every pooled schema (succeeding and raising), operations on the result
of an earlier move, and caller mutations of the owned containers and of returned values.
After the last move of every history (all prefixes are histories of their own) each pooled object is
compared with what it was (text, props, verdicts, scripted generation, equality with an untouched twin);
an operation on equal inputs must give an equal result in every history.
"""
import collections
import itertools as it
from collections import OrderedDict, defaultdict

from d42 import fake, optional, represent, schema, substitute, validate, validate_or_fail
from d42.utils import from_native, make_required, rollout
from d42.validation import ValidationResult, format_result

from .. import universe as U
from .. import values as V
from ..common import FMT, REPLAY, declare, show
from ..fine import row_terms
from ..rng import run
from ..terms import src

ASSUMPTIONS = ["containers handed out by props are internals; only containers passed in and values returned by "
               "public operations are mutated by the caller"]
BOUNDS = {"quick": "all histories of length 2 over the full move set, of length 3 with the first two from a core set "
                   "and chains of three operations on results; every operation on about 1,000 schemas and the values derived from them, "
                   "plain and in dict / list subclasses"
          "; rows of 4-17 members; argument contents in every key order, dotted and mixed",
          "thorough": "all histories of length 2 (full), 3 (first two from a wider set), 4 (core set)"}

PROBES = [5, "ab", [], [1, "a"], {"a": 1}, {"a": 1, "b": "x"}, {"k": [1, {"z": 2}]}, {"x": {"y": 1}, "z": 1}]


def world():
    w = {}
    o = w["owned"] = {
        "L": [schema.int, schema.str],
        "LE": [..., schema.int, schema.dict({"a": schema.int}), ...],
        "D": {"a": schema.int, optional("b"): schema.str},
        "DN": {"x": schema.dict({"y": schema.int}), ...: ...},
        "V": {"k": [1, {"z": 2}]},
        "W": {"a": 1},
        "VL": [[1], "a"],
        "VD": {"x": {"y": [1]}},
        "KS": ["b"],
        "KSET": {"a", "b"},
        "FLAT": {"a.b": 1, "a.c": {"q": 1}, "d": {"e.f": 2}},
        "GOOD": {"a": 1, "b": "x"},
        "BAD": {"a": "x", "q": [1, 2]},
        "GL": [1, "a"],
    }
    s = w["schemas"] = {}
    s["none"] = schema.none
    s["bool"] = schema.bool
    s["int"] = schema.int
    s["int0"] = schema.int.min(0)
    s["float"] = schema.float
    s["float1"] = schema.float.min(0.5).precision(1)
    s["str"] = schema.str
    s["strl"] = schema.str.len(1, ...)
    s["strp"] = schema.str.regex("^[^b]$")
    s["bytes"] = schema.bytes
    s["list"] = schema.list
    s["listof"] = schema.list(s["int0"])
    s["L"] = schema.list(o["L"])
    s["LE"] = schema.list(o["LE"])
    s["dict"] = schema.dict
    s["D"] = schema.dict(o["D"])
    s["DN"] = schema.dict(o["DN"])
    s["any"] = schema.any
    s["anyis"] = schema.any(s["int0"], s["strl"])
    s["anyd"] = schema.any(s["D"], s["DN"])
    s["alias"] = schema.alias("T", s["L"])
    s["fn"] = from_native(o["V"])
    s["subd"] = substitute(s["D"], o["W"])
    s["subl"] = substitute(schema.list, o["VL"])
    s["subn"] = substitute(schema.dict, o["VD"])
    s["custom"] = schema.mc_forward(s["D"])
    return w


NAMES = list(world()["schemas"])


def snap(v):
    """deep picture of a caller-owned value"""
    if isinstance(v, dict):
        return ("dict", [(snap(k), snap(x)) for k, x in v.items()])
    if isinstance(v, list):
        return ("list", [snap(x) for x in v])
    if isinstance(v, set):
        return ("set", sorted(map(repr, v)))
    if isinstance(v, optional):
        return ("optional", snap(v.key))
    try:
        return (type(v).__name__, repr(v))
    except Exception:
        return (type(v).__name__, hex(v) if isinstance(v, int) else id(v))


def digest(s):
    if not hasattr(s, "props"):
        return snap(s)
    verdicts = tuple(len(validate(s, p).get_errors()) for p in PROBES)
    out = run(lambda: fake(s), 0)
    gen = repr(out.value) if out.exc is None else repr(out.exc)
    return (repr(s), type(s).__name__, tuple(sorted(s.props)), verdicts, gen)


def shape(x):
    """the whole declaration, member types included (two schemas may print alike and still be of other types)"""
    if hasattr(x, "props"):
        return (type(x).__name__, [(n, shape(x.props.get(n))) for n in sorted(x.props)])
    if isinstance(x, dict):
        return [(shape(k), shape(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [shape(i) for i in x]
    return snap(x)


def outcome(x):
    """comparable picture of what an operation returned / raised"""
    if isinstance(x, BaseException):
        return ("raised", type(x).__name__, str(x))
    if isinstance(x, ValidationResult):
        return ("result", [e.format(FMT) for e in x.get_errors()])
    if hasattr(x, "props"):
        return ("schema", digest(x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [outcome(i) for i in x])
    return snap(x)


class Op:
    """label, names of the objects it uses, function of them; `mutates`: owned object it may change"""

    def __init__(self, label, uses, fn, mutates=None):
        self.label, self.uses, self.fn, self.mutates = label, uses, fn, mutates


def refinements():
    calls = {
        "int": ["(5)", ".min(1)", ".max(3)", ".min('x')", "('x')", ".max(...)"],
        "int0": ["(5)", "(-1)", ".max(3)", ".min(1)"],
        "float": ["(1.5)", ".min(1.0)", ".max(3.0)", ".precision(2)", ".precision(99)"],
        "float1": ["(0.1)", "(1.5)", ".max(3.0)"],
        "str": ["('ab')", ".len(2)", ".len(1, 3)", ".alphabet('ab')", ".contains('a')", ".regex('a+')",
                ".regex('(')"],
        "strl": ["('')", "('ab')", ".alphabet('a')", ".len(2)", ".contains('b')"],
        "strp": ["('b')", ".len(1)"],
        "bool": ["(True)", "(1)"], "bytes": ["(b'a')", "('a')"],
        "list": ["(schema.int)", "([schema.int, ...])", ".len(2)", ".len(1, ...)", "(5)", ".len('x')"],
        "listof": [".len(2)", ".len(..., 1)", "(schema.str)"],
        "L": [".len(2)", ".len(3)", "(schema.int)"], "LE": [".len(3)", ".len(2, ...)"],
        "dict": ["({'q': schema.int})", "({...: ...})", "({'q': 5})", "(5)"],
        "D": ["({'q': schema.int})"],
        "any": ["(schema.int, schema.none)", "(5)"], "anyis": ["(schema.int)"],
    }
    for name, cs in calls.items():
        for c in cs:
            yield Op(name + c, (name,), eval("lambda s: s" + c, {"schema": schema}))


def moves():
    out = list(refinements())
    for n in NAMES:
        out.append(Op("repr " + n, (n,), repr))
        out.append(Op("represent8 " + n, (n,), lambda s: represent(s, indent=8)))
        out.append(Op("fake " + n, (n,), lambda s: run(lambda: fake(s), 0).value if run(
            lambda: fake(s), 0).exc is None else None))
        out.append(Op("validate %s GOOD" % n, (n, "GOOD"), validate))
        out.append(Op("validate %s BAD" % n, (n, "BAD"), validate))
        out.append(Op("fail %s BAD" % n, (n, "BAD"), validate_or_fail))
        out.append(Op("%s == GL" % n, (n, "GL"), lambda s, v: s == v))
        out.append(Op("%s %% W" % n, (n, "W"), substitute))
        out.append(Op("wreck errors of " + n, (n, "BAD"), wreck_result))
        out.append(Op("wreck generated " + n, (n,), wreck_generated))
    for n in ("list", "L", "LE", "alias", "subl", "listof"):
        out += [Op("%s %% GL" % n, (n, "GL"), substitute), Op("%s %% VL" % n, (n, "VL"), substitute)]
    for n in ("D", "DN", "dict", "anyd", "subd", "subn", "fn", "custom"):
        out += [Op("%s %% GOOD" % n, (n, "GOOD"), substitute), Op("%s %% VD" % n, (n, "VD"), substitute),
                Op("%s %% BAD" % n, (n, "BAD"), substitute)]
    ds = ("D", "DN", "subd", "dict")
    for a, b in it.product(ds, repeat=2):
        out.append(Op("%s + %s" % (a, b), (a, b), lambda x, y: x + y))
    out.append(Op("D + int", ("D", "int"), lambda x, y: x + y))
    for a, b in (("int", "str"), ("anyis", "D"), ("anyis", "anyis"), ("L", "none"), ("any", "int"),
                 ("int", "anyis"), ("anyd", "anyis")):
        out.append(Op("%s | %s" % (a, b), (a, b), lambda x, y: x | y))
        out.append(Op("%s == %s" % (a, b), (a, b), lambda x, y: (x == y, x != y)))
    for n in ("D", "DN", "subd", "dict", "fn", "int"):
        out.append(Op("make_required " + n, (n,), make_required))
        out.append(Op("make_required %s KS" % n, (n, "KS"), make_required))
        out.append(Op("make_required %s KSET" % n, (n, "KSET"), make_required))
    for n in ("D", "DN", "subd", "fn"):
        out += [Op("%s[a]" % n, (n,), lambda s: s["a"]), Op("%s[x]" % n, (n,), lambda s: s["x"]),
                Op("list(%s)" % n, (n,), lambda s: [repr(k) for k in s]),
                Op("%s.keys()" % n, (n,), lambda s: [repr(k) for k in s.keys()])]
    for n in ("anyis", "anyd", "any"):
        out.append(Op("list(%s)" % n, (n,), lambda s: list(s)))
    for n in ("L", "D", "anyis", "int"):
        out += [Op("alias " + n, (n,), lambda s: schema.alias("Q", s)),
                Op("list of " + n, (n,), lambda s: schema.list(s)),
                Op("dict of " + n, (n,), lambda s: schema.dict({"m": s, optional("n"): s}))]
    for n in ("L", "LE"):
        out.append(Op("schema.list(%s)" % n, (n,), lambda v: schema.list(v)) if False else
                   Op("declare list of owned " + n, (n + "!",), lambda v: schema.list(v)))
    for n in ("D", "DN"):
        out.append(Op("declare dict of owned " + n, (n + "!",), lambda v: schema.dict(v)))
    for n in ("V", "W", "VL", "VD", "GOOD", "GL", "BAD"):
        out.append(Op("from_native " + n, (n,), from_native))
    out.append(Op("rollout FLAT", ("FLAT",), rollout))
    out.append(Op("wreck rollout FLAT", ("FLAT",), wreck_rollout))
    mut = {
        "L": [lambda v: v.append(schema.none), lambda v: v.clear(), lambda v: v.__setitem__(0, schema.none),
              lambda v: v.reverse()],
        "LE": [lambda v: v.pop(), lambda v: v.__setitem__(0, schema.str)],
        "D": [lambda v: v.__setitem__("c", schema.int), lambda v: v.clear(),
              lambda v: v.__setitem__("a", schema.none)],
        "DN": [lambda v: v.pop(...), lambda v: v.__setitem__("x", schema.none)],
        "V": [lambda v: v.clear(), lambda v: v["k"].append(3), lambda v: v["k"][1].__setitem__("z", 9)],
        "W": [lambda v: v.__setitem__("a", 2), lambda v: v.__setitem__("b", "q")],
        "VL": [lambda v: v.append(5), lambda v: v[0].append(5), lambda v: v.clear()],
        "VD": [lambda v: v["x"]["y"].append(2), lambda v: v["x"].clear(), lambda v: v.clear()],
        "KS": [lambda v: v.clear()], "KSET": [lambda v: v.discard("a")],
        "GOOD": [lambda v: v.pop("a")], "GL": [lambda v: v.pop()],
    }
    for n, fs in mut.items():
        for i, f in enumerate(fs):
            out.append(Op("caller mutates %s (%d)" % (n, i), (n + "!",), safely(f), n))
    return out


def safely(f):
    def g(v):
        try:
            f(v)
        except (KeyError, IndexError, AttributeError, TypeError):
            pass
    return g


def smash(v):
    if type(v) is list:
        for x in v:
            smash(x)
        v.append("smashed")
    elif type(v) is dict:
        for x in v.values():
            smash(x)
        v["smashed"] = 1


def wreck_generated(s):
    o = run(lambda: fake(s), 0)
    smash(o.value)


def wreck_result(s, v):
    r = validate(s, v)
    errs = r.get_errors()
    if errs:
        r.add_error(errs[0])
        r.add_errors(errs[:1])
        if isinstance(errs, list):
            errs.append(errs[0])
        format_result(r)
    return len(errs) > 0


def wreck_rollout(v):
    smash(rollout(v))


GENERIC = [
    Op("repr r", ("r",), repr), Op("validate r GOOD", ("r", "GOOD"), validate),
    Op("validate r BAD", ("r", "BAD"), validate), Op("r % W", ("r", "W"), substitute),
    Op("r % GOOD", ("r", "GOOD"), substitute), Op("r % GL", ("r", "GL"), substitute),
    Op("wreck generated r", ("r",), wreck_generated), Op("r | int", ("r", "int"), lambda r, i: r | i),
    Op("r == D", ("r", "D"), lambda a, b: (a == b, a != b)), Op("D + r", ("D", "r"), lambda a, b: a + b),
    Op("r + DN", ("r", "DN"), lambda a, b: a + b), Op("make_required r", ("r",), make_required),
    Op("r.len(2)", ("r",), lambda r: r.len(2)), Op("r.min(2)", ("r",), lambda r: r.min(2)),
    Op("r.max(9)", ("r",), lambda r: r.max(9)), Op("r(1)", ("r",), lambda r: r(1)),
    Op("r.alphabet(ab)", ("r",), lambda r: r.alphabet("ab")), Op("r[a]", ("r",), lambda r: r["a"]),
    Op("list(r)", ("r",), lambda r: [outcome(x) for x in r]),
    Op("r.precision(1)", ("r",), lambda r: r.precision(1)),
    Op("r.contains(a)", ("r",), lambda r: r.contains("a")),
]

MOVES = moves()
BASE = None


def base():
    global BASE
    if BASE is None:
        w = world()
        BASE = ({n: digest(s) for n, s in w["schemas"].items()}, {n: snap(v) for n, v in w["owned"].items()},
                w["schemas"])
    return BASE


def lookup(w, res, name):
    if name == "r":                       # the last schema produced by the prefix
        return res
    if name.endswith("!"):
        return w["owned"][name[:-1]]
    if name in w["schemas"]:
        return w["schemas"][name]
    return w["owned"][name]


MEMO = {}
FACADE = ("none", "int", "float", "str", "list", "dict", "any")


class Run:
    """one history: a fresh world, operations applied one after another"""

    def __init__(self, report):
        self.w = world()
        self.last, self.pin, self.made, self.labels, self.report = None, False, [], [], report

    def step(self, op):
        """apply; False if not applicable (no schema to apply it to)"""
        w = self.w
        args = [lookup(w, self.last, n) for n in op.uses]
        if any(a is None for a in args):
            return False
        before = {n: snap(v) for n, v in w["owned"].items()}
        key = (op.label, tuple(shape(a) if n == "r" else before.get(n.rstrip("!"), n)
                               for n, a in zip(op.uses, args)))
        try:
            x = op.fn(*args)
        except Exception as e:
            x = e
        self.labels.append(op.label)
        for n, v in w["owned"].items():
            if n != op.mutates and snap(v) != before[n]:
                self.report(self.labels, "value " + n, "the operation changed a value passed in: %s is now %s" % (
                    n, show(v)))
        if not op.mutates:
            got = outcome(x)
            text = repr(got)
            if MEMO.setdefault(repr(key), text) != text:
                self.report(self.labels, "result", "an operation on equal inputs gave a different result than in "
                            "another history:\n%s\n%s" % (MEMO[repr(key)][:600], text[:600]))
            if hasattr(x, "props"):
                self.made.append((op.label, x, got[1]))
                if not self.pin:
                    self.last = x
        return x

    def verify(self, equality=False):
        twin = base()
        for n, s in self.w["schemas"].items():
            if digest(s) != twin[0][n]:
                self.report(self.labels, "schema " + n, "the schema %s changed:\nwas %s\nnow %s" % (
                    n, repr(twin[0][n])[:500], repr(digest(s))[:500]))
            elif equality and (not (s == twin[2][n] and twin[2][n] == s) or s != twin[2][n]):
                self.report(self.labels, "schema " + n, "no longer equal to an untouched twin")
        for label, s, d in self.made:
            if digest(s) != d:
                self.report(self.labels, "result of " + label, "the schema produced earlier changed:\nwas %s\nnow %s"
                            % (repr(d)[:500], repr(digest(s))[:500]))
        for n in FACADE:
            if repr(getattr(schema, n)) != "schema." + n:
                self.report(self.labels, "schema." + n, "the facade hands out %r" % getattr(schema, n))


def history(ops, ctx):
    """exactly these operations, everything compared at the end"""
    def report(labels, where, what):
        ctx.violation(" ; ".join(labels) + " -> " + where, what, plan(labels))
    r = Run(report)
    for op in ops:
        ctx.trans()
        if r.step(op) is False:
            return None
    r.verify(True)
    return r


def fan(prefix, tails, ctx, generic):
    """every history prefix + (t,).  Operations that do not touch caller-owned objects must leave the state as
    it was, so they are explored from one live state (re-visiting it after each); if anything differs at a
    comparison point, the histories are replayed one by one from a fresh world to name the shortest."""
    found = []
    r = Run(lambda *a: found.append(a))
    for op in prefix:
        if r.step(op) is False:
            return
    r.pin = True
    seen = []
    quiet = [t for t in tails if not t.mutates]
    for i, op in enumerate(quiet + (generic if r.last is not None else [])):
        ctx.trace()
        ctx.trans()
        ctx.state()
        if r.step(op) is not False:
            seen.append(op)
        if found:
            break
        if i % 120 == 119:
            r.verify()
    r.verify(True)
    if found:
        n = len(ctx.violations)
        for op in seen:
            history(prefix + [op], ctx)
            if len(ctx.violations) - n > 8:
                break
        if len(ctx.violations) == n:
            labels, where, what = found[0]
            ctx.violation(" ; ".join(labels[-6:]) + " -> " + where, what, plan(list(labels)))
    for op in tails:
        if op.mutates:
            ctx.trace()
            ctx.state()
            history(prefix + [op], ctx)


def plan(labels):
    return ("from mc.checks import c07\nfrom mc.run import Ctx\nops = {o.label: o for o in c07.MOVES + c07.GENERIC}\n"
            "ctx = Ctx('quick')\nc07.history([ops[l] for l in %r], ctx)\n"
            "for k, v in ctx.violations.items(): print(k, '\\n', v['what'])" % (labels,))


CORE = ("int.min(1)", "str.len(2)", "L.len(2)", "D % GOOD", "D % W", "LE % GL", "anyd % GOOD", "subd % W", "D + DN",
        "anyis | D", "make_required D KS", "validate anyd BAD", "validate DN BAD", "wreck generated subn",
        "wreck generated L", "caller mutates L (1)", "caller mutates D (2)", "caller mutates V (1)",
        "caller mutates VL (1)", "caller mutates VD (0)", "declare list of owned L", "declare dict of owned D",
        "from_native V", "rollout FLAT", "wreck rollout FLAT", "list % VL", "dict % VD", "wreck errors of anyd",
        "alias L", "fail L BAD")

# ---------------------------------------------------------------- purity over the schema universe


class Default(defaultdict):
    """inserts a member whenever a missing key is looked up"""

    def __reduce__(self):
        raise RuntimeError("copied")


def dress(v, how):
    """the same data in containers that notice being used carelessly"""
    if type(v) is list:
        return (list, V.ListSub, list)[how]([dress(x, how) for x in v])
    if type(v) is dict:
        items = {k: dress(x, how) for k, x in v.items()}
        return Default(int, items) if how == 0 else OrderedDict(items) if how == 1 else Default(dict, items)
    return v


def universe(deep):
    return U.dedupe(U.extents()[::1 if deep else 5] + U.choices()[::1 if deep else 8] + U.scale(False, (30,), (7,))[::1 if deep else 4]
                    + U.leaves(deep)[::1 if deep else 2] + U.level1(deep) + U.level2()[::1 if deep else 3] + U.level3()[::1 if deep else 3])


HOLDERS = [("list", list), ("tuple", tuple), ("set", set), ("frozenset", frozenset), ("dict", dict.fromkeys), ("keys", lambda ks: dict.fromkeys(ks).keys()),
           ("deque", collections.deque), ("OrderedDict", OrderedDict.fromkeys), ("ListSub", V.ListSub)]


def arguments(i, ctx):
    """containers handed to the API, in every order of their members: none is changed, the outcome does not depend on a second use, and a
    change afterwards does not show in what was built"""
    name, hold = HOLDERS[i]
    pool = ("a", "b", "c", "d")
    base = {optional(k): schema.int for k in pool}
    for n in range(5):
        for perm in it.permutations(pool, n):
            for tail in ((), perm[:1]):
                ks = hold(perm + tail)
                for s, what in ((schema.dict(base), "strict"), (schema.dict({**base, ...: ...}), "relaxed")):
                    ctx.trans()
                    before, was = list(ks), state_of(s)
                    r = quietly(make_required, s, ks)
                    again = quietly(make_required, s, ks)
                    ctx.trace()
                    call = "make_required(%s dict of a-d, %s of %r)" % (what, name, perm + tail)
                    if list(ks) != before or state_of(s) != was:
                        ctx.violation(call, "the keys passed in are now %r" % (list(ks),), "")
                    if outcome(r) != outcome(again):
                        ctx.violation(call, "another outcome the second time", "")
    if i:
        return
    for n in range(4):
        for perm in it.permutations([schema.int, schema.str("a"), schema.none], n):
            for label, fn in (("schema.list", schema.list), ("schema.any", lambda v: schema.any(*v)), ("schema.dict", lambda v: schema.dict(dict(zip("cab", v)))),
                              ("schema.list with ...", lambda v: schema.list(v + [...])), ("schema.list of list", lambda v: schema.list([schema.list(v)]))):
                v = list(perm)
                ctx.trans()
                r = quietly(fn, v)
                if len(v) != n or any(a is not b for a, b in zip(v, perm)):
                    ctx.violation("%s(%r)" % (label, list(perm)), "the argument is now %r" % (v,), "")
                if hasattr(r, "props"):
                    x = state_of(r)
                    v.reverse()
                    v.append(schema.bool)
                    if state_of(r) != x:
                        ctx.violation("%s(%r)" % (label, list(perm)), "a later change of the argument shows in the schema", "")


PERMS = [p for n in range(1, 4) for p in it.permutations("abcd", n)]


def contents(j, ctx):
    """values and declarations handed to the API: not changed, not remembered, not shared"""
    vals = [[2, 1], {"y": 1, "x": 2}, [{"y": 1, "x": [3, 2]}], "s", None, 2, 1.5]
    for perm in PERMS[j::24]:
        n = len(perm)
        if n:
            for sel in it.product(range(len(vals)), repeat=n) if n < 3 else [tuple((j + d) % 7 for j in range(n)) for d in range(7)]:
                under = tuple("%s.%s" % (perm[0], k) for k in perm)
                for keys in (perm, under, perm[:1] + under[1:], under[1:] + perm[:1], under[:1] + tuple("%s.%s" % (under[0], k) for k in perm[1:]),
                             tuple(optional(k) for k in perm[:1]) + under[1:]):
                    d = {k: fresh(vals[j]) for k, j in zip(keys, sel)}
                    w = list(d.values())
                    for label, fn, v in [("rollout", rollout, d), ("from_native", from_native, d), ("from_native", from_native, w),
                                         ("substitute into any", lambda v: substitute(schema.any, v), d), ("substitute into dict", lambda v: substitute(schema.dict, v), d),
                                         ("substitute into list", lambda v: substitute(schema.list, v), w),
                                         ("substitute into a union", lambda v: substitute(schema.int | schema.dict, v), d),
                                         ("schema.dict", lambda v: schema.dict({k: from_native(x) for k, x in v.items()}), d)]:
                        ctx.trans()
                        before = snap(v)
                        r = quietly(fn, v)
                        if snap(v) != before:
                            ctx.violation("%s of %s" % (label, show(v)), "the argument is now %s" % show(v), "")
                        elif hasattr(r, "props"):
                            x, g = state_of(r), run(lambda: fake(r), 0)
                            if g.exc is None:
                                smash_all(g.value)
                            if snap(v) != before:
                                ctx.violation("%s of %s" % (label, show(v)), "changing a generated value changed the argument: %s" % show(v), "")
                            c = fresh(v)
                            smash_all(v)
                            if state_of(r) != x:
                                ctx.violation("%s of %s" % (label, show(c)), "a later change of the argument changed the schema built from it", "")
                            if outcome(quietly(fn, v)) != outcome(quietly(fn, fresh(v))):
                                ctx.violation("%s of %s, then of the same object changed to %s" % (label, show(c), show(v)), "another outcome than for an equal object", "")
                            v.clear()
                            v.update(c) if isinstance(v, dict) else v.extend(c)
                        ctx.trace()


def state_of(s):
    return (shape(s), repr(s))


def quietly(fn, *args):
    try:
        return fn(*args)
    except Exception as e:
        return e


USES = [("validate(%s, v)", validate), ("validate_or_fail(%s, v)", validate_or_fail), ("%s == v", lambda s, v: s == v), ("%s != v", lambda s, v: s != v),
        ("v == %s", lambda s, v: v == s), ("substitute(%s, v)", substitute), ("from_native(v)  # %s", lambda s, v: from_native(v))]


def pure(t, ctx):
    """no operation on this schema changes it, its members or the value; the same verdict before and after the rest"""
    s = declare(ctx, t)
    if s is None:
        return
    ctx.state()
    was = state_of(s)
    values = V.derive(t, seqlen=2, wits=2)
    if not ctx.deep:
        values = values[::1 + len(values) // (300 if not hasattr(t, "case") else 60)]
    table = []
    for v in values:
        table.append(("lit", fresh(v)))
        if type(v) in (list, dict):
            table += [(how, dress(v, how)) for how in range(3)]
    first = [outcome(quietly(validate, s, v)) for _, v in table]
    for v in values:
        if type(v) in (list, dict):
            w = fresh(v)
            for name, fn in USES[:1] + USES[5:]:
                ctx.trans()
                quietly(fn, s, w)
            smash_all(w)
            for name, fn in USES[:1] + USES[5:]:
                ctx.trans()
                if outcome(quietly(fn, s, w)) != outcome(quietly(fn, s, fresh(w))):
                    ctx.violation("%s with v = %s, again with v changed in place" % (name % src(t), show(v)), "another outcome than for an equal object", "")
    for (how, v), verdict in zip(table, first):
        before = snap(v)
        for name, fn in USES:
            ctx.trans()
            x = quietly(fn, s, v)
            label = (name % src(t)) + " with v = %s" % show(v)
            script = REPLAY + "from mc.checks.c07 import dress, snap, quietly\nv = %s\ns = %s\nbefore = snap(v)\n%s\nassert snap(v) == before" % (
                show(v) if how == "lit" else "dress(%s, %d)" % (undress(v), how), src(t),
                (name % "s") if "==" not in name else "quietly(lambda: %s)" % (name % "s"))
            if snap(v) != before:
                ctx.violation(label, "the operation changed the value passed in: %r" % (snap(v),), script)
                break
            if fn is substitute and hasattr(x, "props"):
                # what was built must not be the caller's containers
                d = state_of(x)
                w = fresh(v)
                smash_all(v)
                if state_of(x) != d:
                    ctx.violation(label, "a later change of the value changed the schema built from it", script)
                v = w if how == "lit" else dress(w, how)
        else:
            ctx.trace()
        if outcome(quietly(validate, s, v)) != verdict:
            ctx.violation("validate(%s, %s)" % (src(t), show(v)), "another result after other operations on the schema", "")
    for name, fn in SOLO:
        ctx.trans()
        quietly(fn, s)
    if state_of(s) != was:
        for name, fn in SOLO + [("validate(s, %s)" % show(v), lambda s, v=v: validate(s, v)) for _, v in table] + [
                ("substitute(s, %s)" % show(v), lambda s, v=v: substitute(s, v)) for _, v in table]:
            s = t.build()
            was = state_of(s)
            quietly(fn, s)
            if state_of(s) != was:
                ctx.violation("%s; %s" % (src(t), name), "the schema changed: %s" % repr(s), REPLAY + "s = %s\nprint(s)\n# %s\nprint(s)" % (src(t), name))
                return
        ctx.violation(src(t), "the schema changed after a series of operations", "")


def fresh(v):
    """a copy in plain containers that shares nothing"""
    if isinstance(v, list):
        return [fresh(x) for x in v]
    if isinstance(v, dict):
        return {k: fresh(x) for k, x in v.items()}
    return v


def undress(v):
    if isinstance(v, list):
        return "[" + ", ".join(map(undress, v)) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (show(k), undress(x)) for k, x in v.items()) + "}"
    return show(v)


def smash_all(v):
    if isinstance(v, list):
        for x in v:
            smash_all(x)
        v.append("smashed")
        v.reverse()
    elif isinstance(v, dict):
        for x in list(v.values()):
            smash_all(x)
        v["smashed"] = 1


SOLO = [("fake(s)", lambda s: run(lambda: fake(s), 0)), ("fake(s) and changing what it returned", wreck_generated), ("repr(s)", repr), ("list(s)", list), ("s | s", lambda s: s | s),
        ("s | schema.none", lambda s: s | schema.none), ("schema.any(s)", lambda s: schema.any(s)), ("schema.any(s, s)", lambda s: schema.any(s, s)), ("schema.any(schema.any(s))", lambda s: schema.any(schema.any(s))),
        ("schema.list([s])", lambda s: schema.list([s])), ("schema.list([s, ...])", lambda s: schema.list([s, ...]).len(2)), ("schema.list([..., s, s, ...])", lambda s: schema.list([..., s, s, ...])),
        ("schema.dict of it", lambda s: schema.dict({"k": s, optional("o"): s, ...: ...}) + schema.dict({"k": s})), ("rollout", lambda s: rollout({"a.b": s, "a.c": {"d.e": s}})),
        ("from_native(s)", from_native), ("schema.dict + s", lambda s: schema.dict({}) + s), ("s + schema.dict", lambda s: s + schema.dict({})), ("schema.any(s, schema.any(schema.int, s))", lambda s: schema.any(s, schema.any(schema.int, s))), ("s + s", lambda s: s + s),
        ("s + schema.dict({'a': schema.none, ...: ...})", lambda s: s + schema.dict({"a": schema.none, ...: ...})),
        ("schema.dict({'a': schema.none}) + s", lambda s: schema.dict({"a": schema.none}) + s), ("make_required(s)", make_required),
        ("make_required(s, ['a'])", lambda s: make_required(s, ["a"])), ("make_required(s, {'b'})", lambda s: make_required(s, {"b"})),
        ("make_required(s, ())", lambda s: make_required(s, ())), ("s['a']", lambda s: s["a"]), ("s[...]", lambda s: s[...]), ("schema.list(s)", lambda s: schema.list(s).len(2)),
        ("schema.alias", lambda s: schema.alias("Q", s)), ("~s", lambda s: ~s), ("s == s", lambda s: s == s), ("hash(s)", hash)] + [
        ("s.%s" % c, eval("lambda s: s.%s" % c, {"schema": schema})) for c in
        ("len(0)", "len(1)", "len(2)", "len(5)", "len(1, ...)", "len(3, ...)", "len(..., 1)", "len(..., 0)", "len(..., 4)", "len(0, 3)", "len('x')", "min(0)", "min(9)", "max(0)", "max(9)",
         "min(0.5)", "max(0.5)", "precision(2)", "alphabet('ab')", "alphabet('')", "contains('a')", "regex('a')", "regex('(')", "min(None)", "keys()")] + [
        ("s(%s)" % c, eval("lambda s: s(%s)" % c, {"schema": schema})) for c in ("1", "'a'", "1.5", "True", "None", "b'a'", "schema.int", "[]", "{}", "[..., schema.int]", "{...: ...}")]


def tasks(tier):
    base()
    n = len(universe(tier == "thorough"))
    return pure_tasks(n) + history_tasks(tier)


def pure_tasks(n):
    return [("args", i) for i in range(len(HOLDERS))] + [("contents", j) for j in range(24)] + [("rows", n, j) for n in (4, 6, 11, 17) for j in range(6)] + [("p", i) for i in range(n)]


def history_tasks(tier):
    two = [(a,) for a in range(len(MOVES))]
    core = [i for i, o in enumerate(MOVES) if o.label in CORE or any(o.label == c for c in CORE)]
    if tier != "thorough":
        return [("2", i) for i, in two] + [("3", i, j) for i in core for j in core]
    mid = [i for i, o in enumerate(MOVES) if not o.label.startswith(("repr", "represent", "fake", "fail"))][::2]
    return [("2", i) for i, in two] + [("3m", i, j) for i in mid for j in mid] + \
        [("4", i, j) for i in core for j in core]


def task_name(t):
    if t[0] in ("p", "args", "contents", "rows"):
        return "%s %s" % ({"p": "purity"}.get(t[0], t[0]), t[1:])
    return "histories " + " ".join([t[0]] + [MOVES[i].label for i in t[1:]])


_U = {}


def run_task(task, ctx):
    if task[0] == "args":
        return arguments(task[1], ctx)
    if task[0] == "contents":
        return contents(task[1], ctx)
    if task[0] == "rows":
        for t in list(row_terms(task[1], True))[task[2]::6]:
            pure(t, ctx)
        return
    if task[0] == "p":
        if ctx.deep not in _U:
            _U[ctx.deep] = universe(ctx.deep)
        return pure(_U[ctx.deep][task[1]], ctx)
    kind, idx = task[0], [MOVES[i] for i in task[1:]]
    core = [o for o in MOVES if o.label in CORE]
    if kind == "2":
        r = history(idx, ctx)
        fan(idx, MOVES, ctx, GENERIC)
        if r is not None and r.last is not None:
            for g in GENERIC:             # chains of operations on results
                fan(idx + [g], GENERIC, ctx, GENERIC)
        ctx.sample(idx[0].label)
    elif kind == "4":
        for c in core:
            fan(idx + [c], core, ctx, GENERIC[:8])
    else:
        fan(idx, MOVES, ctx, GENERIC)
