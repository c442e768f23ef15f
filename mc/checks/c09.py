"""C09: regex generation yields a full match or refuses loudly.

States: (pattern program, generator configuration, draw script).  Patterns are enumerated from the grammar
of supported constructs (complete products up to a nesting depth) and, with each unsupported construct put
at every position of a set of contexts.  For single-draw patterns every outcome of the draw is taken, for
others the whole draw tree when small, else base scripts with deviations.  Oracle: re.fullmatch.
"""
import itertools as it
import re
import warnings

from d42 import fake, schema, validate
from d42.generation import Random, RegexGenerator

from ..common import repro
from ..rng import explore

ASSUMPTIONS = ["\\b, \\B, anchors in the middle of a pattern and inline flags are outside the listed grammar"]
BOUNDS = {"quick": "atoms x quantifiers x groups, pairs and alternations of these, nesting 3; caps 0, 1, 2, 3, 32, 50; explicit "
                  "repeat counts, class sizes, alternatives and text lengths around powers of two and ten up to 65536, "
                  "nesting 40",
          "thorough": "nesting 4, triples, <= 2 deviations"}

LITERALS = ["a", "Z", "0", " ", "_", "é", "☃", "-", ",", "]", "}", "<", "\n", "\t", "\x00", "𝒳", "\ud800"]
ESCAPES = [r"\.", r"\\", r"\n", r"\t", r"\r", r"\a", r"\f", r"\v", r"\x41", r"\x00", r"\u2603", r"\U0001F600", r"\101",
           r"\0", r"\N{SNOWMAN}", r"\-", r"\[", r"\]", r"\(", r"\)", r"\{", r"\*", r"\?", r"\+", r"\|", r"\^", r"\$",
           r"\/", r"\ ", r"\é"]
CATS = [".", r"\d", r"\w"]
CLASSES = ["[a]", "[ab]", "[a-c]", "[a-a]", "[a-cx-z_]", "[abcdefghij]", "[]a]", "[-a]", "[a-]", r"[a\-z]", r"[\]]",
           r"[\\]", r"[\n]", r"[\x00-\x1f]", r"[\d]", r"[\w]", r"[\da-f]", r"[\w.-]", r"[\d\w]", "[.]", "[$^]", "[^^]",
           "[(|)*]", r"[\u2600-\u2603]", "[é☃]", "[\U0001F600-\U0001F64F]", "[ -~]", "[A-Za-z0-9]", r"[\ud800-\udfff]",
           "[\\x00-\\U0010ffff]"]
NEGATED = ["[^a]", "[^ab]", "[^a-y]", "[^]]", r"[^\]]", r"[^\d]", r"[^\w]", r"[^\d\w]", r"[^\w\d ]", r"[^\n]", "[^.]",
           "[^ -~]", "[^!-~]", r"[^\x00-\x7f]", r"[^\x00-\u2603]", r"[^\w!-/ ]", r"[^\w -/:-@\[-`{-~]", "[^ -}]",
           "[^\"-~]", "[^☃]", r"[^-a]", r"[^\\]", r"[^0-9a-zA-Z]", r"[^\x00-\x7f\d]", r"[^\x00-\xb1\d]",
           r"[^\x00-\u065f\d]", r"[^\x00-\xa9\w]", r"[^\x00-\x29\w]", r"[^ -~é-☃]", r"[^!-~\n]", r"[^\x00-\U0010fffe]",
           r"[^\ud7ff-\U0010ffff -~]", r"[^a\d]", r"[^\da]", r"[^\w\x00-\x7f]", r"[^ -/\w:-@[-`{-~\x00]"]
QUANT = ["", "*", "+", "?", "{0}", "{1}", "{2}", "{1,3}", "{,2}", "{2,}", "{0,0}", "{0,1}"]
LAZY = [q + "?" for q in QUANT if q]
BIG = ["{31,}", "{32,}", "{33,}", "{40,}", "{50,}", "{51,}", "{100,}", "{33}", "{40,60}", "{0,64}", "{,33}", "{32,33}"]
SIZES = [7, 8, 9, 10, 11, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256,
         257, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
UNSUPPORTED = ["(?=a)", "(?!a)", "(?<=a)", "(?<!a)", "(?=)", "(?!)", "(?!b)", "(?<!b)", r"(a)\1", r"(?P<g>a|b)(?P=g)",
               r"(a|b)\1", r"([ab])(?:c\1)", r"(a)?(?(1)b|c)", r"(a)?(?(1)b)", r"\s", r"\S", r"\D", r"\W", r"[\s]", r"[\S]",
               r"[\D]", r"[\W]", r"[^\s]", r"[^\S]", r"[^\D]", r"[^\W]", r"[a\s]", r"[^a\W]", r"[\d\S]", r"[^\d\s]",
               r"[^\S\d]", "(?>a)", "(?>a|ab)c", "(?>ab?)b", "(?>a*)a", "a++", "a*+", "a?+a", "a*+a", "[ab]*+b", "a{1,2}+",
               r"\d*+1", "(?:a|ab)++", "(?>.*)x", r"(?:\D)*", r"(?:a\W)+", r"\W{2}", r"(?=.*\d).{3}", r"(?!.*a)[ab]{2}"]
CONTEXTS = ["%s", "x%s", "%sx", "(%s)", "(?:%s)", "(?P<n>%s)", "(?:%s)*", "(?:%s)+", "(?:%s)?", "(?:%s){2}", "(?:%s)+?",
            "%s|b", "b|%s", "(b|%s)", "(?:a|(?:%s))", "^%s$", "(?:x(?:%s)y)?", "[bc]%s", "%s.", r"\w%s\d", "(?:%s|)",
            "((%s))", "(?:b%s){1,2}", "a*%s", "(?:%s){0}", "^x%s$", "(?:(?:%s)?c)*", "[^a](?:%s)"]
ANCHOR = ["^%s", "%s$", "^%s$", r"\A%s\Z", r"^%s\Z", "(?:^%s$)", "(^%s$)", "^(?:%s)$"]


def compiles(p):
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("error")
            re.compile(p)
        return True
    except Exception:
        return False


def group_names(p):
    """make the names of groups distinct"""
    n = it.count()
    return re.sub(r"\(\?P<n>", lambda m: "(?P<n%d>" % next(n), p)


def patterns(deep):
    """(pattern, kind): kind 1 one construct (every draw), 2 flat, 3 nested (small caps)"""
    atoms = LITERALS + ESCAPES + CATS + CLASSES + NEGATED
    for a in ["", "()", "(?:)", "(?P<n>)", "|", "a|", "|a", "^", "$", "^$", r"\A\Z", "(|a)", "(?:|a|)"] + atoms:
        yield a, 1
    for a in atoms:
        if "\\U0010" in a:
            continue
        for q in QUANT[1:] + LAZY:
            yield a + q, 2
        for an in ANCHOR[:4]:
            yield an % a, 1
    few = ["a", "☃", r"\.", ".", r"\d", r"\w", "[ab]", "[a-c]", "[^a]", r"[^\w]", "(a)", "(?:ab)", "(?P<n>a|b)", "(a|bc|)"]
    for a in few:
        for q in BIG + [q + "?" for q in BIG]:
            yield a + q, 4
    sizes = SIZES + ([4095, 4096, 4097, 8192, 16384, 32768, 65534, 65535, 65536] if deep else [4096, 65536])
    for n in sizes:
        for q in ("{%d}" % n, "{%d,}" % n, "{%d,%d}" % (n, n + 1), "{%d,%d}?" % (n - 1, n)) + \
                (("{,%d}" % n, "{1,%d}?" % n) if n <= 1100 else ()):
            yield "a" + q, 5
        if n <= 1100:
            for a in ("[ab]", "(?:a|bc)", "(ab?)", "☃", "."):
                yield "x%s{%d}y" % (a, n), 5
            yield "^(?:a{%d}b){2}$" % n, 5
            yield "(?:(?:a{2}){%d})?" % n, 5
    for n in [n for n in SIZES if n <= 600]:
        yield "|".join("a%d" % i for i in range(n)), 5
        yield "[%s]" % "".join(chr(0x4e00 + 2 * i) for i in range(n)), 5
        yield "[^%s]" % "".join(chr(33 + i) for i in range(n)), 5
        yield "ab" * n, 5
        body = "".join("abcdefghijklmnopqrstuvwxyz"[i % 26] for i in range(n))
        mix = "".join(("a", r"\d", "[xy]", "b?", "(?:c)", ".")[i % 6] for i in range(n))
        for b in (body, mix) if n <= 260 else (body,):
            for f in ("(?:%s|0)", "0|%s", "(%s)", "(?P<n>%s|0)?", "(?:%s){2}", "^%s$", "(?:0|1|(?:%s))", "(?:x%s)*"):
                yield f % b, 5
        if n <= 40:
            yield "(?:" * n + "a" + ")?" * n, 5
            yield "(" * n + "a|b" + ")" * n, 5
            yield "(?:a" * n + "b)?" * n, 5
    qs = QUANT + [q + "?" for q in QUANT[1:8]]
    for a, q, an in it.product(few, qs, ANCHOR):
        yield an % (a + q), 2
    units = [a + q for a in ("a", "b", ".", r"\d", "[ab]", "[^b]", "(ab)", "(?:a|bc)") for q in ("", "*", "+?", "?", "{2}",
                                                                                          "{1,2}?", "{2,}")]
    for x, y in it.product(units, repeat=2):
        yield x + y, 3
        yield x + "|" + y, 3
    small = ["a", "[^a]", r"\w", "b?", "c{2}", "(?:d)+?", ""]
    for x, y, z in it.product(small, repeat=3):
        yield x + y + z, 3
        yield "|".join((x, y, z)), 3
        yield "^(?:%s|%s)%s$" % (x, y, z), 3
        yield "(%s)(?:%s|(%s))" % (x, y, z), 3
        yield "^%s|%s%s$" % (x, y, z), 3
    inner = ["a", "ab", "a|b", "a|ab|", r"\d\w", "[^a]b", "a?b*", "(a|b)c", "(?P<n>a)|b", "a{2}|b+?", "x(?:y|z)", "ab|ac",
             "abc|abd|a", "[ab]|c", "a|[b-d]", "a|[^b]", "^a", "a$", "^a$", "^a|b$"]
    groups = ["(%s)", "(?:%s)", "(?P<n>%s)"]
    for i, g, q in it.product(inner, groups, qs):
        if ("^" in i.replace("[^", "") or "$" in i) and q:
            continue
        yield (g % i) + q, 3
    plain = [i for i in inner if "^" not in i.replace("[^", "") and "$" not in i]
    nest = [(g % i) + q for i in plain for g in groups[:2] for q in ("", "*", "+?", "{2}", "?", "{1,}")]
    for x in nest:
        for g, q in it.product(groups[1:] if deep else groups[1:2], ("", "*", "{2}", "??")):
            yield (g % ("x" + x)) + q, 3
            yield (g % (x + "|y")) + q, 3
            yield "^" + (g % ("[^x]?" + x)) + q + "$", 3
    if deep:
        for x, y in it.product(nest, nest[::3]):
            yield x + y, 3
            yield "(?:%s|%s)+" % (x, y), 3
        for x, y, z in it.product(units[::2], repeat=3):
            yield x + y + z, 3
            yield "(?:%s|%s)%s" % (x, y, z), 3
    for u in UNSUPPORTED:
        for c in CONTEXTS:
            n = u
            if c.find("(%") < c.find("%s") and r"\1" in u and "(" in c.replace("(?:", "").split("%s")[0]:
                n = u.replace(r"\1", r"\2")        # group numbers shift inside a capturing context
            yield c % n, 0
        for v in UNSUPPORTED[::5]:
            if r"\1" not in v and "?(1)" not in v and "<g>" not in v:
                yield u + v, 0
                yield "(?:%s|%s)" % (u, v), 0


def tasks(tier):
    seen, out = set(), []
    for p, k in patterns(tier == "thorough"):
        p = group_names(p)
        if p not in seen and compiles(p):
            seen.add(p)
            out.append((p, k))
    return [out[i:i + 40] for i in range(0, len(out), 40)]


CHUNK = 2


def task_name(t):
    return repr(t[0])


LETTERS = [None, {"letters": "abc"}, {"letters": "☃-a"}, {"letters": "".join(map(chr, range(32, 300)))},
           {"letters": "zyx~~}{" * 20}]
CAPS = {0: (None, 2), 1: (None, 0), 2: (None, 0, 1, 50), 3: (2,), 4: (None, 0, 1, 5, 33, 50, 120), 5: (None, 0, 3)}


def run_task(task, ctx):
    for p, kind in task:
        full = re.compile(p)
        ctx.state()
        caps = CAPS[kind] + ((3,) if kind == 3 and ctx.deep else ())
        letters = LETTERS if kind in (1, 3) and ("." in p or "[^" in p) and len(p) < 12 else LETTERS[:1]
        for cap, al in it.product(caps, letters):
            if al and re.search(r"[^\W\x00-\x7f]", al["letters"]) and ("\\w" in p or "\\d" in p):
                continue          # the alphabet disagrees with re about what a word is
            kw = {} if cap is None else {"max_repeat": cap}
            if al:
                kw["alphabet"] = al
            gen = RegexGenerator(Random(), **kw)
            if kind == 1:
                ex = dict(full_limit=1500, wide=1500, bound=1)
            else:
                ex = dict(full_limit=256 if ctx.deep else 64, bound=2 if ctx.deep and kind == 3 else 1, head=4, tail=2,
                          max_runs=400 if ctx.deep else 70)
            if kind == 1 and len(p) > 20 and "\\U0010" in p:
                ex = dict(full_limit=64, bound=1)
            if kind == 5:
                ex = dict(full_limit=32, bound=1 if len(p) < 30 else 0, head=1, tail=1, max_runs=12)
            check(p, full, kind, lambda: gen.generate(p), "RegexGenerator(Random(), **%r).generate(p)" % kw, ex, ctx)
        if kind in (0, 1) or len(p) < 8:
            # the public path, and the text must satisfy the schema that asked for it
            s = schema.str.regex(p)
            ex = dict(full_limit=32, bound=1, head=3, tail=1, max_runs=40)
            check(p, full, kind, lambda: fake(s), "fake(schema.str.regex(p))", ex, ctx, s)
    ctx.sample(repr(task[0][0]))


def check(p, full, kind, fn, expr, ex, ctx, s=None):
    for o in explore(fn, **ex):
        ctx.trans(len(o.draws) or 1)
        ctx.trace()
        what = None
        if o.exc is not None:
            if kind != 0 and p != "[^\\x00-\\U0010ffff]":
                what = "supported construct refused: %r" % o.exc
            else:
                ctx.count("refused")
        elif not isinstance(o.value, str):
            what = "returned %r" % (o.value,)
        elif not full.fullmatch(o.value):
            what = "%r does not match the whole pattern" % o.value[:200]
        elif s is not None and validate(s, o.value).has_errors():
            what = "%r is rejected by the schema that generated it" % o.value[:200]
        if what:
            ctx.violation("%r by %s" % (p, expr), what + " (draws: %s)" % o.script(), repro(
                "import re", "from d42.generation import Random, RegexGenerator", "p = %r" % p,
                "r = scripted(lambda: %s, %d, %r)" % (expr, o.policy, dict(o.dev)),
                "print(repr(r), re.fullmatch(p, r))"))
            return
