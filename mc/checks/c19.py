"""C19: the v1-to-v2 migration rewrites imports and nothing else.

States: modules assembled from heads x statements x joiners x tails (all sequences up to a length), all mapped names in
every import form, every boundary between the top-level statements of standard library modules.  Oracle: the list of
top-level statements of the input with every mapped from-import exploded into (module, name, local name) and translated
must be the list of top-level statements of the output; every other statement has the identical AST.
"""
import ast
import importlib
import json
import os
import shutil
import sys
import tempfile

from d42.migration import migrate_v1_to_v2 as M

from ..common import REPLAY

ASSUMPTIONS = ["the bindings of one import statement may be written in any order and as any number of import statements in its place "
               "(the last import of one local name stays the last)", "comments and layout are not judged, the AST is",
               "a module is the text ast.parse accepts: no byte order mark, no coding other than utf-8"]
BOUNDS = {"quick": "all 2-sequences of 68 statements x 16 joiners x heads and tails in turn, 3-sequences of a core x 7x7 joiners, "
                   "every mapped name in 14 forms, 52 identifiers in every role, 35 sizes up to 257 of names / imports / lines / columns, boundaries of 60 standard library modules",
          "thorough": "3-sequences of all statements, 4-sequences of the core, all standard library modules"}

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "c19_table.json")) as f:
    TABLE = {m: {k: tuple(v) for k, v in d.items()} for m, d in json.load(f).items()}

CUSTOM = {"a": {"b": ("c", "d"), "x": ("c", "x"), "same": ("a", "same2"), "y": ("e.f", "y")}, "a.b": {"b": ("a", "b"), "z": ("c", "d")}}

# ---------------------------------------------------------------- oracle


def bindings(node, mapping):
    """(module, name, local name) of a from-import after the translation"""
    out = []
    for a in node.names:
        mod, name = mapping.get(node.module, {}).get(a.name, (node.module, a.name))
        out.append((mod, name, a.asname or a.name))
    return out


def is_mapped(node, mapping):
    return (isinstance(node, ast.ImportFrom) and node.level == 0 and
            any(a.name in mapping.get(node.module, {}) for a in node.names))


def last(bs):
    return {local: (mod, name) for mod, name, local in bs}


def compare(source, output, mapping):
    """None or what is wrong with the output of the rewriter"""
    want = ast.parse(source).body
    if output is None:
        return "reports nothing to do" if any(is_mapped(n, mapping) for n in want) else None
    if not isinstance(output, str):
        return "returned %r" % (output,)
    try:
        got = ast.parse(output).body
    except (SyntaxError, ValueError) as e:
        return "the output is not valid Python: %s" % e
    i = 0
    for n in want:
        if not is_mapped(n, mapping):
            if i >= len(got):
                return "statement lost: %s" % ast.unparse(n)[:100]
            if ast.dump(got[i]) != ast.dump(n):
                return "statement changed: %s became %s" % (ast.unparse(n)[:100], ast.unparse(got[i])[:100])
            i += 1
            continue
        bs, have = bindings(n, mapping), []
        while len(have) < len(bs):
            if i >= len(got):
                return "import lost: %s" % (sorted(set(bs) - set(have)),)
            g = got[i]
            if not isinstance(g, ast.ImportFrom) or g.level:
                return "import lost: %s; found %s" % (sorted(set(bs) - set(have)), ast.unparse(g)[:100])
            have += [(g.module, a.name, a.asname or a.name) for a in g.names]
            i += 1
        if sorted(have) != sorted(bs) or last(have) != last(bs):
            return "%s became %s" % (ast.unparse(n)[:200], have)
    if i < len(got):
        return "new statement: %s" % ast.unparse(got[i])[:100]
    return None


def parses(source):
    try:
        ast.parse(source)
        return True
    except (SyntaxError, ValueError, UnicodeError, RecursionError):
        return False


def check(ctx, source, mapping=None, name="mapping"):
    mapping = M.mapping if mapping is None else mapping
    if not parses(source):
        return None
    ctx.state()
    before = repr(mapping)
    try:
        out = M.rewrite_imports(source, mapping)
        d = compare(source, out, mapping)
    except Exception as e:
        out, d = None, "raised %s: %s" % (type(e).__name__, e)
    ctx.trans()
    if d is None and repr(mapping) != before:
        d = "the mapping was modified"
    if d is None and out is not None:
        # the output is a module, too
        try:
            d = compare(out, M.rewrite_imports(out, mapping), mapping)
        except Exception as e:
            d = "raised %s: %s" % (type(e).__name__, e)
        d = d and "second run: " + d
    if d is not None:
        ctx.violation("rewrite_imports(%s)" % ascii(source)[:800], d,
                      REPLAY + "from d42.migration.migrate_v1_to_v2 import mapping, rewrite_imports\nprint(rewrite_imports(%s, %s))"
                      % (ascii(source), name if name == "mapping" else repr(mapping)))
        return None
    ctx.trace()
    if out is not None:
        ctx.count("rewritten")
    return out


# ---------------------------------------------------------------- programs

MAPPED = [
    "from district42 import schema",
    "from district42 import schema as s",
    "from district42 import (schema)",
    "from district42 import (\n    schema,\n    GenericSchema as G,  # c\n)",
    "from district42 import (schema,\n    unknown as u, optional)",
    "from district42 import unknown, schema",
    "from district42 import schema, unknown as schema",
    "from district42 import unknown as schema, schema",
    "from district42 import schema, schema as schema2, optional",
    "from district42 import \\\n  schema, \\\n  optional",
    "from  district42   import\tschema",
    "from district42 . types import AnySchema",
    "from district42.types import AnySchema as é, DictProps",
    "from district42.errors import DeclarationError, make_already_declared_error as e",
    "from blahblah import fake, Generator, nothing",
    "from valera.errors import TypeValidationError, ValueValidationError",
    "from revolt import substitute as fake, Substitutor",
    "from district42 import schema as a, schema as b, schema as a",
    "from district42 import ſchema",
    "from valera import validate, eq, eq as validate",
    "from district42 import schema as d42", "from district42.types import AnySchema as types, DictSchema as d42, optional as district42",
    "from district42.types import AnySchema as AnyProps, AnyProps as AnySchema",
    "from revolt.errors import SubstitutionError as _, make_substitution_error as as_",
]
IMPORTS = [
    "from os import path", "from district42 import *", "from . import schema", "from .district42 import schema", "from ..district42 import schema as q",
    "from district42 import unknown", "from district42 import (\n  unknown, other as schema,\n)", "import district42", "import district42.types as t, os",
    "from d42 import schema", "from .. import district42", "from district42.types.inner import AnySchema", "from district42x import schema",
    "from __future__ import annotations", "from ... import x as schema", "from ...district42 import schema",
]
SIMPLE = [
    "x = 1", "pass", "'é☃'", "s = '''\nfrom district42 import schema\n'''", 's = """a\\\nfrom district42 import schema; b"""',
    "f(schema, 'from district42 import schema')", "x = [1,\n  2]", "s = '\u2028\x0c\x85'", "x: int = 1", "del x", "assert x", "x = f'{x!r:>{y}}'",
    "s = b'\\xff'; t = r'\\'''", "(district42, schema)", "y = lambda: 0", "raise E from district42", "global g", "x = yy = '''\x0c\n\u2029\x1c\n'''",
    "é = 'ü'", "x = (\n# from district42 import schema\n)",
]
COMPOUND = [
    "def f():\n    from district42 import schema\n    return schema", "if x: pass", "if x: from district42 import schema; pass",
    "try:\n    from district42 import schema\nexcept ImportError:\n    from d42 import schema", "class A:\n    '''d'''\n    from valera import validate\n    x = 1",
    "@d\nasync def g(*, a=1) -> int:\n\tyield 1", "match x:\n  case {'a': 1, **r}: pass\n  case _:\n    from district42 import schema",
    "with a as b, c: from district42 import schema", "type T[K] = list[K]", "for i in x:\n  pass\nelse:\n  from blahblah import fake",
    "def f[T](a, /, b, *c): ...", "while 1: break",
]
ALL = MAPPED + IMPORTS + SIMPLE + COMPOUND
JOIN = ["\n", ";", " ; ", "; \\\n", "\n\n\n", "\n# from district42 import schema é\n", "  # c ☃\n", "\n\x0c", "\n\x0c\n", "\r\n", "\r", ";\n", " ;\r\n",
        "\n \n", "\n    # indented\n", "\n\\\n"]
JOIN3 = ["\n", ";", "; \\\n", "  # é\n", "\r\n", "\n\x0c", "\r"]
HEAD = ["", "#!/usr/bin/python\n", '"""doc é"""\n', "# -*- coding: latin-1 -*-\n", "\n\n", "\x0c", "\\\n", "'doc';", "\r\n", "# c\r", "\t\n", "  \\\n"]
TAIL = ["\n", "", ";", ";\n", "  # é", "\n\n", "\n    # indented", "\r\n", "\r", "\x0c", "\n\x0c", " ", "\\\n", "\n#"]
CORE = [MAPPED[0], MAPPED[3], MAPPED[5], MAPPED[12], IMPORTS[0], IMPORTS[3], IMPORTS[13], SIMPLE[0], SIMPLE[2], SIMPLE[3], SIMPLE[7], COMPOUND[0], COMPOUND[1]]

FORMS = ["from {m} import {n}", "from {m} import {n} as z", "from {m} import ({n})", "from {m} import (\n  {n},\n)", "from {m} import {n}, unmapped",
         "from {m} import unmapped as u, {n} as {n}", "x = 1; from {m} import {n}; y = 'é'", "'é'; from {m} import {n}, {n} as v", "from {m} import \\\n {n}",
         "def f():\n  from {m} import {n}", "from {m} import {n}  # c", "import {m}\nfrom {m} import {n}\nfrom os import {n}", "from .{m} import {n}",
         "from {m} import {n}\r\nfrom {m} import {n} as w\r\n"]


# identifiers of every look, as unmapped name, as local name, as module
WORDS = ["a", "_", "__", "_a", "a_", "__a__", "a_b_c_d_e_f", "A", "aB", "AB_C", "a1", "a_1", "as_", "import_", "from_", "asa", "xasy", "é", "ſ", "ﬁ", "日本", "π", "µ", "schema", "Schema", "schema_", "_schema",
         "schemas", "SchemaX", "xschema", "d42", "district42", "district42x", "valera", "mapping", "optional", "rollout", "match", "case", "type", "print", "self", "x" * 80, "x" * 300, "a_" * 60, "e1", "importlib",
         "i", "l", "O", "ª", "aͣ"]


def words(ctx, w):
    for n in ("schema", "optional"):
        for f in ("from district42 import {n}, {w}", "from district42 import {w}, {n}", "from district42 import {w} as {v}, {n}", "from district42 import {n} as {w}", "from district42 import {v} as {w}, {n} as {v}",
                  "from district42 import {w} as {w}, {n}", "from district42 import ({w} as {w}, # {w}\n {n} as {w}, {v})", "from {w} import {n}\nfrom district42 import {n}", "from district42.{w} import {n}; from district42 import {n}",
                  "from {w}.district42 import {n}; from district42 import {w}, {n}", "{w} = 1; from district42 import {n}, {w}; {v} = {w}", "import {w}\nfrom district42 import {w}, {n}\nimport {w} as {v}",
                  "def {w}({v}): pass\nfrom district42 import {n} as {w}\n@{w}\ndef {v}(): from district42 import {w}"):
            for v in WORDS:
                s = f.format(n=n, w=w, v=v)
                check(ctx, s)
                check(ctx, s + "\n")


def counted(ctx, n):
    """imports of n names, n imports, n lines, n characters before and after"""
    table = [(m, k) for m in TABLE for k in TABLE[m]]
    un = ["u%d" % i for i in range(n)]
    for m in TABLE:
        ks = (list(TABLE[m]) * n)[:n]
        for row in (ks, [x for p in zip(ks, un) for x in p], un + ks[:1], ks[:1] + un, ["%s as v%d" % (k, i) for i, k in enumerate(ks)], un[:n // 2] + ks[-1:] + un[n // 2:],
                    ["%s as w%d" % (u, i) for i, u in enumerate(un)] + ks, ["%s as w" % k for k in ks]):
            if row:
                check(ctx, "from %s import %s" % (m, ", ".join(row)))
                check(ctx, "x = 1\nfrom %s import (\n    %s,\n)\ny = 2" % (m, ",\n    ".join(row)))
                check(ctx, "from %s import \\\n %s; y = 2\n" % (m, ", \\\n ".join(row)))
    stmts = ["from %s import %s" % table[i * 7 % len(table)] for i in range(n)]
    for g in JOIN:
        check(ctx, g.join(stmts))
        check(ctx, g.join(x for i, s in enumerate(stmts) for x in (s, "x%d = %d" % (i, i))))
    imp = "from district42 import schema, other"
    for pad in ("#", "x" * n, "é" * n, "\n" * n, "'%s'" % ("é" * n), '"""%s"""' % ("\n" * n), "x = (%s)" % ("\n" * n + "1"), "\x0c" * n, "x = 1;" * n, "pass\n" * n, "pass\r\n" * n, "if x:\n" + "  pass\n" * n,
                "".join("%sif x:\n" % (" " * i) for i in range(min(n, 90))) + " " * min(n, 90) + imp):
        for f in ("%s\n%s", "%s;%s", "%s %s", "%s\r%s"):
            check(ctx, f % (pad, imp))
            check(ctx, f % (imp, pad))
            check(ctx, f % (pad, imp) + "\n" + f % (pad, imp))


SIZES = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 31, 32, 33, 50, 63, 64, 65, 79, 80, 99, 100, 101, 120, 127, 128, 129, 200, 255, 256, 257]


def stdlib(deep):
    root = os.path.dirname(os.__file__)
    out = []
    for f in sorted(os.listdir(root)):
        if f.endswith(".py") and os.path.getsize(os.path.join(root, f)) < (10 ** 6 if deep else 30000):
            out.append(os.path.join(root, f))
    return out if deep else out[::2][:60]


def tasks(tier):
    deep = tier == "thorough"
    out = [("targets",), ("files",), ("together",)]
    out += [("names", m) for m in TABLE]
    out += [("pair", i) for i in range(len(ALL))]
    out += [("three", i) for i in range(len(ALL if deep else CORE))]
    out += [("words", w) for w in WORDS] + [("counted", n) for n in SIZES]
    out += [("custom", i) for i in range(8)]
    out += [("stdlib", p) for p in stdlib(deep)]
    if deep:
        out += [("four", i) for i in range(len(CORE))]
        out += [("names2", m) for m in TABLE]
    return out


def task_name(t):
    return repr(t)


def target(mod, name):
    return getattr(importlib.import_module(mod), name)


def run_task(t, ctx):
    kind = t[0]
    if kind == "words":
        words(ctx, t[1])
    elif kind == "counted":
        counted(ctx, t[1])
    elif kind == "targets":
        targets(ctx)
    elif kind == "names":
        for n in list(TABLE[t[1]]) + [x for x in M.mapping.get(t[1], {}) if x not in TABLE[t[1]]]:
            for f in FORMS:
                check(ctx, f.format(m=t[1], n=n))
                check(ctx, f.format(m=t[1], n=n) + "\n")
            # local names that coincide with something else in the statement, before or after the translation
            new, to = TABLE[t[1]].get(n, ("d42", n))
            locals_ = dict.fromkeys([n, to, n.lower(), n.upper(), "_" + n, n + "_", "_", "__all__", "mapping", "schema", "unmapped"]
                                    + t[1].split(".") + new.split("."))
            for z in [z for z in locals_ if z.isidentifier()]:
                check(ctx, "from %s import %s as %s\n" % (t[1], n, z))
                check(ctx, "from %s import unmapped, %s as %s, other as o\n" % (t[1], n, z))
                check(ctx, "from %s import %s, %s as %s\n" % (t[1], n, n, z))
            for other in TABLE:     # the name imported from every other module
                check(ctx, "from %s import %s, a, %s as b" % (other, n, n))
        ctx.sample("names of %s" % t[1])
    elif kind == "names2":
        for n in TABLE[t[1]]:
            for k in TABLE[t[1]]:
                check(ctx, "from %s import %s, %s" % (t[1], n, k))
                check(ctx, "from %s import %s as k, zzz, %s as k; x = 1" % (t[1], n, k))
    elif kind == "pair":
        a = ALL[t[1]]
        n = t[1]
        for h in HEAD:
            for e in TAIL:
                s = h + a + e
                check(ctx, s)
        for j, b in enumerate(ALL):
            for k, g in enumerate(JOIN):
                n += 1
                for h, e in {("", "\n"), ("", ""), (HEAD[n % len(HEAD)], TAIL[(n + j + k) % len(TAIL)])}:
                    s = h + a + g + b + e
                    check(ctx, s)
        ctx.sample(a + "; ...")
    elif kind == "three":
        pool = ALL if ctx.deep else CORE
        a = pool[t[1]]
        n = t[1]
        for b in CORE:
            for c in CORE:
                for g in JOIN3:
                    for f in JOIN3:
                        n += 1
                        s = a + g + b + f + c + TAIL[n % 5]
                        check(ctx, s)
    elif kind == "four":
        a = CORE[t[1]]
        short = [CORE[0], CORE[1], CORE[4], CORE[7], CORE[8], CORE[9], CORE[11]]
        n = t[1]
        for b in short:
            for c in short:
                for d in short:
                    for g in JOIN3[:4]:
                        for f in JOIN3[:4]:
                            for e in JOIN3[:4]:
                                n += 1
                                s = a + g + b + f + c + e + d + TAIL[n % 5]
                                check(ctx, s)
    elif kind == "together":
        # whole blocks of imports: all names of a module at once, all modules one after another
        everything = ["from %s import %s" % (m, ", ".join(d)) for m, d in TABLE.items()]
        for g in ("\n", "; ", "\r\n", "\n# é\n"):
            for step in (1, 2, 3):
                check(ctx, g.join(everything[::step]) + "\n")
                check(ctx, g.join(everything[::-step]))
            check(ctx, g.join(MAPPED))
            check(ctx, g.join(MAPPED + IMPORTS[:12]))
            check(ctx, g.join(x + "; x%d = 'é'" % i for i, x in enumerate(MAPPED)))
        check(ctx, "\n".join(ALL[:33] + ["x"] + ALL[34:-1]))
        for e in everything:
            check(ctx, e.replace("import ", "import (\n    ").replace(", ", ",\n    ") + ",\n)\n")
            check(ctx, e.replace(", ", " as a, ") + " as a")
        for s in ("", "\n", "# c", "\x0c", "'''doc'''", "\\\n", ";" * 0 + "pass;"):
            check(ctx, s)
    elif kind == "custom":
        names = ["b", "x", "same", "y", "z", "n", "b as b", "b as q", "n as b", "x as n"]
        for m in ("a", "a.b", "c", "e.f"):
            for i, p in enumerate(names):
                if i % 8 != t[1] and not ctx.deep:
                    continue
                check(ctx, "from %s import %s" % (m, p), CUSTOM, "custom")
                for q in names:
                    check(ctx, "from %s import %s, %s" % (m, p, q), CUSTOM, "custom")
                    for r in names:
                        check(ctx, "from %s import %s, %s, %s\nq = 1" % (m, p, q, r), CUSTOM, "custom")
    elif kind == "stdlib":
        with open(t[1], "rb") as f:
            data = f.read()
        try:
            source = data.decode("utf-8")
        except UnicodeDecodeError:
            return
        if parses(source):
            boundaries(ctx, source)
            ctx.sample(os.path.basename(t[1]))
    elif kind == "files":
        files(ctx)


def boundaries(ctx, source):
    """a mapped import put between every two top-level statements (at most 40 places)"""
    lines = source.split("\n")
    body = ast.parse(source).body
    check(ctx, source)
    ends = [n.end_lineno for n in body]
    step = max(1, len(ends) // (40 if ctx.deep else 6))
    many = list(lines)
    for k, at in reversed(list(enumerate(ends))[::step]):
        imp = MAPPED[k % len(MAPPED)]
        s = "\n".join(lines[:at] + [imp] + lines[at:])
        many[at:at] = [imp]
        check(ctx, s)
    for g in ("\n", "\r\n", "\r"):
        s = g.join(many)
        check(ctx, s)
        check(ctx, s.rstrip())


def targets(ctx):
    """every target is importable and is the object the name stood for; nobody else's name is in the table"""
    for m, names in M.mapping.items():
        for n, (mod, name) in names.items():
            ctx.state()
            ctx.trans()
            try:
                obj = target(mod, name)
            except Exception as e:
                ctx.violation("mapping[%r][%r] = %r" % (m, n, (mod, name)), "not importable: %s: %s" % (type(e).__name__, e),
                              REPLAY + "from %s import %s" % (mod, name))
                continue
            if not (mod == "d42" or mod.startswith("d42.")):
                ctx.violation("mapping[%r][%r] = %r" % (m, n, (mod, name)), "not part of this package", REPLAY + "from %s import %s" % (mod, name))
                continue
            ref = TABLE.get(m, {}).get(n)
            if ref is not None:
                try:
                    same = obj is target(*ref)
                except Exception:
                    same = True     # moved inside this package
                if not same:
                    ctx.violation("mapping[%r][%r] = %r" % (m, n, (mod, name)), "is not the counterpart %s.%s" % ref,
                                  REPLAY + "from %s import %s as a\nfrom %s import %s as b\nassert a is b" % (mod, name, *ref))
                    continue
            ctx.trace()
    for m, names in TABLE.items():
        for n in names:
            if n not in M.mapping.get(m, {}):
                ctx.violation("mapping[%r] has no %r" % (m, n), "the import stays in the old package", "")


def files(ctx):
    """the same through the file interface and the command line, in a scratch directory"""
    programs = []
    for i, a in enumerate(MAPPED + IMPORTS[:12] + SIMPLE[:12]):
        for k, g in enumerate(JOIN):
            s = HEAD[(i + k) % len(HEAD)] + a + g + MAPPED[(i * 7 + k) % len(MAPPED)] + TAIL[(i + 3 * k) % len(TAIL)]
            if parses(s):
                programs.append(s)
            s = HEAD[(i + k) % len(HEAD)] + a + g + SIMPLE[(i * 7 + k) % 12] + TAIL[(i + 3 * k) % len(TAIL)]
            if parses(s):
                programs.append(s)
    programs += ["x = (", "\x00", ""]
    import contextlib
    import io
    for how in ("migrate", "cli"):
        root = tempfile.mkdtemp(prefix="mc_c19_")
        try:
            where = []
            for i, s in enumerate(programs):
                d = os.path.join(root, *(["p", "é", "q"][:i % 4]))
                os.makedirs(d, exist_ok=True)
                where.append(os.path.join(d, "m%d.py" % i))
                with open(where[-1], "wb") as f:
                    f.write(s.encode("utf-8"))
            others = {os.path.join(root, "notes.txt"): b"from district42 import schema\n", os.path.join(root, "latin.py"): b"# -*- coding: latin-1 -*-\nx = '\xe9'\n"}
            for p, b in others.items():
                with open(p, "wb") as f:
                    f.write(b)
            with contextlib.redirect_stdout(io.StringIO()):
                if how == "migrate":
                    M.migrate_v1_to_v2(root)
                else:
                    from d42._main import run
                    argv, sys.argv = sys.argv, ["d42", "v1-to-v2", root]
                    try:
                        run()
                    finally:
                        sys.argv = argv
            for p, b in others.items():
                with open(p, "rb") as f:
                    if f.read() != b:
                        ctx.violation("%s of %s" % (how, os.path.basename(p)), "was changed", "")
            for p, s in zip(where, programs):
                ctx.state()
                ctx.trans()
                with open(p, "rb") as f:
                    got = f.read()
                if not parses(s) or not any(is_mapped(n, M.mapping) for n in ast.parse(s).body):
                    d = None if got == s.encode() or (parses(s) and compare(s, got.decode("utf-8"), M.mapping) is None) else "the file was changed"
                else:
                    try:
                        d = compare(s, got.decode("utf-8"), M.mapping)
                    except Exception as e:
                        d = "%s: %s" % (type(e).__name__, e)
                if d is not None:
                    ctx.violation("%s of a file with %s" % (how, ascii(s)), d,
                                  REPLAY + "import tempfile, os\nfrom d42.migration.migrate_v1_to_v2 import migrate_v1_to_v2\nd = tempfile.mkdtemp()\n"
                                  "open(d + '/m.py', 'wb').write(%s.encode())\nmigrate_v1_to_v2(d)\nprint(open(d + '/m.py', 'rb').read().decode())" % ascii(s))
                else:
                    ctx.trace()
        finally:
            shutil.rmtree(root)
