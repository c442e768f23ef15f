"""C17: seeded generation is reproducible.

Configurations of the interpreter are the enumerated choice: one fresh process per (hash seed, -O, locale/time zone),
each running the same program of set_seed / fake over a slice of the schema universe with the real random module; the
digests must be identical in all of them.  Within one process every unit is repeated after each of a fixed set of
histories (other schemas generated, other seeds, other operations on the schema, another Random object, a rebuilt
schema, draws by the application, another thread).
"""
import json
import os
import subprocess
import sys

from .. import env
from .. import universe as U
from ..common import REPLAY
from ..terms import (D1, DT1, N, U1, Add, Alias, AnyT, Custom, Date, DateTime, Dict, Float, Int, List, MakeRequired, NoneT, Str, Uuid,
                     src, strip)

ASSUMPTIONS = ["dict values are compared without regard to key order", "unsatisfiable schemas are compared by the exception only"]
BOUNDS = {"quick": "8 hash seeds + optimised + foreign locale/zone, 10 seeds of every seed type, 3 draws each, 44 more seeds with a few schemas, about 2,100 schemas "
                   "of which 950 patterns; 10 histories"
          "; one configuration runs everything backwards",
          "thorough": "24 hash seeds; every pattern of the C09 grammar; the deep universe"}


def seeds(deep):
    return [0, "abc", 1, -7, 2 ** 70, 0.5, b"\x00\xff", bytearray(b"k"), "", "a-b c\n"] + ([2.0, float("inf"), "é☃", b"", 10 ** 40, True] if deep else [])


# seeds of every look, each used with a few schemas
SEEDS = ["é☃", "\0", " ", "a" * 17, "A" * 64, "x-" * 200, "12", "1_000", "'q'", "😀", "None", b"", b"abc", b"\xff" * 40, b" ", bytearray(), bytearray(b"\0" * 65), True, False,
         -1, 2, 255, 256, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 31, 2 ** 63, 2 ** 64, -2 ** 64, 2 ** 64 + 1, 10 ** 40, 1 << 20000, 0.0, -0.0, 1.0, 1.5, -1.5, 1e-300, 1e300, 2.0 ** 53, 5e-324,
         float("inf"), float("-inf")]


def closed(t):
    """no unfixed uuid4 / datetime / date (nor bare any, which draws one of everything)"""
    t = strip(t)
    if t.kind in ("uuid4", "datetime", "date"):
        return t.value is not N
    return all(map(closed, t.subterms()))


_U = {}


def universe(deep):
    if deep in _U:
        return _U[deep]
    from . import c09
    pats = [p for chunk in c09.tasks("thorough" if deep else "quick") for p, k in chunk if len(p) < 60 and "\\U0010" not in p and "\\u2603" not in p]
    step = max(1, len(pats) // (2500 if deep else 900))
    # every class, category and negation on its own is there; of the compositions every step-th
    first = c09.CATS + c09.CLASSES + c09.NEGATED + [a + q for a in ("[^a]", r"[^\w]", r"[^\d]", ".", r"\w", "[a-c]", "[^a-y]") for q in ("*", "{2}", "+?", "{3,}")]
    first += ["q" * n for n in (1, 8, 24, 25, 33, 64, 100)] + ["[abc]{%d}" % n for n in (9, 17, 33, 65, 130)] + ["(?:%s)" % "|".join("v%d" % i for i in range(n)) for n in (4, 8, 9, 17, 33, 65, 130)]
    first += ["[a-c]" * n for n in (2, 5, 8, 9, 17, 33)] + ["".join("(x%d|y%d)" % (i, i) for i in range(n)) for n in (3, 5, 9, 17)] + [r"\d{4}-\d{2}-\d{2}T\d{2}:\d{2}:\d{2}", r"[a-z0-9]+@[a-z0-9]+\.[a-z]{2,6}"]
    first += ["[%s]" % "".join(chr(97 + i * 7 % 26) for i in range(n)) for n in (2, 4, 5, 6, 9, 17, 26)] + ["[%s]" % "".join("%c-%c" % (97 + 3 * i, 98 + 3 * i) for i in range(n)) for n in (2, 4, 5, 8)]
    first += ["[^%s]{3}" % "".join(chr(97 + i * 7 % 26) for i in range(n)) for n in (2, 4, 5, 9, 17, 26)]
    first += ["([^ab]|[^cd])+", "[^a][^b][^c]", r"(?:[^\d]|\d){4}", "[^a-z]{8}", r"[^\W_]?", "(a|b|[^c])*"]
    first = [p for p in first if c09.compiles(p) and "\\U0010" not in p]
    out = [Str(pattern=p) for p in list(dict.fromkeys(first + pats[::step]))]
    out += [Str(len=n, alphabet=a) for n in (0, 1, 17, 60, (30, ...), (..., 80), (1, 100)) for a in (N, "ab", "é☃ab", "zyxwvutsr")]
    out += [Str(len=300), Str(substr="abc", len=(3, 50)), Str(substr="a", alphabet="ab"), List("of", (Int(),), 200), List("bare", (), 40), List(),
            Dict(), Dict((), True), List("of", (Str(),), (1, 90)), List("exact", (..., Int(), ...)), List("exact", (..., Int(1), ...), (5, ...)),
            List("exact", (...,))]
    out += [Dict([(k, Int(), o) for k in ("z", "y", "x", "w", "a", 1, None, b"k")], r) for o in (0, 1) for r in (0, 1)]
    out += [Dict([("k%d" % i, Str(len=2), i % 2 == 0) for i in range(12)]), AnyT(*[Int(i) for i in range(9)]), AnyT(*[Str("v%d" % i) for i in range(9)])]
    out += [AnyT(*[Str(pattern=p) for p in ("[^a]", "[^b]+", "c")]), List("of", (Str(pattern="[^x]{3}"),), 5),
            Dict((("a", Str(pattern=r"[^\d]+"), True), ("b", AnyT(Str(pattern="[^b]"), Float()), True))), Alias("T", Str(pattern="[^a]")),
            Custom(Str(pattern="[^a]")), Add(Dict((("a", Int(), True),)), Dict((("b", Str(), True),))), MakeRequired(Dict((("a", Int(), True), ("b", Str(), True)))),
            Uuid(U1), DateTime(DT1), Date(D1), NoneT()]
    # long alphabets, lengths, lists of every width
    for n in (2, 3, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 66, 100, 129, 257):
        abc = "".join(chr(33 + 7 * i % 91) if n < 91 else chr(300 + 7 * i % (n * 3)) for i in range(n))
        out += [Str(alphabet=abc), Str(alphabet=abc * 2, len=n), Str(len=n), Str(len=(n, ...)), Str(len=(..., n)), Str(len=(n, 2 * n)), Str(substr=abc, len=(n, n + 9)), Str(substr="q", len=(n, n + 1)),
                AnyT(*[Int(i) for i in range(n)]), AnyT(*[Str("v%d" % i) for i in range(n)]), AnyT(*[Str(pattern="x%d[a-c]" % i) for i in range(n)]), AnyT(*[List("of", (Int(),), i % 3) for i in range(n)]),
                List("of", (Int(),), n), List("of", (Str(len=2),), (n, ...)), List("of", (AnyT(*[Int(i) for i in range(n)]),), 4), List("exact", tuple(Int() for _ in range(n))),
                List("exact", (..., Int(), ...), n), List("exact", (Int(), ...), n), List("bare", (), n), List("bare", (), (..., n)),
                Dict([("k%d" % i, Int(), i % 3 == 1) for i in range(n)]), Dict([("k%d" % i, AnyT(Int(), Float()), True) for i in range(n)], True)]
    for i in (7, 8, 15, 16, 31, 32, 52, 53, 62, 63, 64, 65, 127, 128, 1000):
        out += [Int(min=-2 ** i, max=2 ** i), Int(min=0, max=2 ** i), Int(min=0, max=2 ** i - 1), Int(min=2 ** i), Int(max=-2 ** i)]
    for a in (0.0, 1e-9, 0.1, 1.5, 1e3, 1e9, 2.0 ** 53, 1e16, 1e100, 1e300):
        out += [Float(min=a), Float(max=a), Float(min=-a, max=a)] + [Float(min=-a, max=a, precision=p) for p in (1, 2, 9, 15)]
    rest = U.extents()[::2] + U.choices()[::6] + U.scale(False, (30,), (7,))[::3] + U.leaves(deep)[::1 if deep else 4] + U.level1(deep)[::2 if deep else 4] + U.level2(deep)[::2 if deep else 4] + U.level3(deep)[::2]
    out += rest
    out = [t for t in U.dedupe(out) if closed(t)]
    _U[deep] = out
    return out


def configurations(deep):
    """(name, interpreter arguments, environment)"""
    hs = ["0", "1", "2", "3", "42", "4294967295", "777", "random"] + ([str(i) for i in range(10, 26)] if deep else [])
    out = [("PYTHONHASHSEED=%s" % h, [], {"PYTHONHASHSEED": h}) for h in hs]
    out += [("-OO PYTHONHASHSEED=5", ["-OO"], {"PYTHONHASHSEED": "5"}),
            ("TZ, C locale, PYTHONUTF8=0, PYTHONHASHSEED=6", ["-X", "utf8=0"], {"PYTHONHASHSEED": "6", "TZ": "Asia/Kathmandu", "LC_ALL": "C", "LANG": "C"})]
    return out


STEP = 60


def tasks(tier):
    n = len(universe(tier == "thorough"))
    return [(i, min(i + STEP, n)) for i in range(0, n, STEP)]


CHUNK = 1


def task_name(t):
    return repr(t)


def child(tier, span, mode, args, extra):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONHASHSEED", "TZ", "LC_ALL", "LANG")}
    e.update(extra, MC_REAL_RANDOM="1", D42_REPO=env.REPO, PYTHONIOENCODING="utf-8:backslashreplace")
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    p = subprocess.run([sys.executable] + args + ["-m", "mc.c17_child", tier, str(span[0]), str(span[1]), mode], cwd=root, env=e,
                       capture_output=True, text=True, encoding="utf-8", errors="backslashreplace", timeout=500)
    if p.returncode:
        return None, p.stderr[-1500:]
    return json.loads(p.stdout.splitlines()[-1]), None


def script(unit, env_text):
    k = unit[len("set_seed("):].split(");")[0] if unit.startswith("set_seed(") else "0"
    what = unit.split("fake(", 1)[1].rsplit(")", 1)[0] if "3 x fake(" in unit else None
    lines = ["# run with MC_REAL_RANDOM=1 under different PYTHONHASHSEED values (%s)" % env_text, "# " + unit]
    if what:
        lines += ["from d42.generation import Random", "Random().set_seed(%s)" % k, "s = " + what, "print([fake(s) for _ in range(3)])"]
    return REPLAY + "\n".join(lines)


def run_task(span, ctx):
    import signal
    signal.alarm(0)
    tier = "thorough" if ctx.deep else "quick"
    ref = None
    seen = set()
    for n, (name, args, extra) in enumerate(configurations(ctx.deep)):
        out, err = child(tier, span, "histories" if n < 2 else "backwards" if n == 2 else "plain", args, extra)
        if err is not None:
            if ("/d42/" in err) and "mc/c17_child.py" in err and "Error" in err and "c17.universe" not in err:
                ctx.violation("child %s" % name, "the program of draws failed:\n" + err, "")
                continue
            raise AssertionError("child %s failed: %s" % (name, err))
        table = {}
        for kind, unit, got in out:
            ctx.trans()
            if kind == "refused":
                continue
            if kind == "history":
                ctx.trace()
                if got is not True:
                    ctx.violation(unit, "another sequence of values than the first time in the same process (%s)" % name, script(unit, name))
                continue
            table[kind] = (unit, got)
            ctx.state()
        if ref is None:
            ref = table
            for u, g in table.values():
                seen.add(g)
            continue
        if table.keys() != ref.keys():
            raise AssertionError("configurations ran different programs: %s" % [v[0][:200] for d, v in (*table.items(), *ref.items()) if d not in ref or d not in table][:3])
        for d, (unit, got) in table.items():
            ctx.trace()
            if got != ref[d][1]:
                ctx.violation(unit, "other values under %s than under %s" % (name, configurations(ctx.deep)[0][0]), script(unit, name))
    ctx.count("distinct_sequences", len(seen))
    ctx.sample("schemas %d..%d, e.g. %s" % (span[0], span[1], src(universe(ctx.deep)[span[0]])[:200]))
