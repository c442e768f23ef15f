"""Substitution: which values are substituted, which third values judge the result."""
import itertools as it
from datetime import date, datetime
from uuid import UUID

from . import values as V
from .terms import N, copyv, strip

PLAIN = (type(None), bool, int, float, str, bytes, datetime, date)


def plain(v):
    """None, bool, int, float, str, bytes, version-4 UUID, datetime, date, lists and dicts of these"""
    if type(v) is list:
        return all(plain(x) for x in v)
    if type(v) is dict:
        return ... not in v and all(plain(x) for x in v.values())
    if type(v) is UUID:
        return v.version == 4
    return type(v) in PLAIN


def prunes(v):
    """v with one dict (at any depth) reduced to every proper subset of <=3 keys"""
    if type(v) is list:
        for i, x in enumerate(v):
            if 4 <= i < len(v) - 1:
                continue
            for y in prunes(x):
                yield copyv(v[:i]) + [y] + copyv(v[i + 1:])
    elif type(v) is dict:
        ks = list(v)
        if len(ks) <= 3:
            for m in range(2 ** len(ks) - 1):
                yield {k: copyv(v[k]) for i, k in enumerate(ks) if m >> i & 1}
        else:
            for m in (ks[:1], ks[-1:], ks[1:], ks[:-1], ks[::2]):
                yield {k: copyv(v[k]) for k in m}
            yield {}
        for k in ks if len(ks) <= 8 else ks[:2] + ks[-2:]:
            for y in prunes(v[k]):
                yield {j: (y if j == k else copyv(x)) for j, x in v.items()}


def given(t, deep=False):
    """values to substitute into t"""
    wits = t.wit()
    out = list(wits[:8 if deep else 5])
    if hasattr(t, "case"):
        return V.dedupe(out + t.case)
    for w in list(out)[:4]:
        out += list(prunes(w))
    for w in wits[:2]:
        for p in V.perturb(w):
            out.append(p)
            if deep:
                out += list(prunes(p))
    out += V.boundary(t)
    out += list(V.sequences(t, 3 if deep else 2)) + list(V.members(t)) + V.twins(t)
    s = strip(t)
    if s.kind == "any":
        for a in s.types:
            out += a.wit()[:3]
            for w in a.wit()[:2]:
                out += list(prunes(w)) + list(V.perturb(w))
            out += list(V.members(a))
            for b in s.types:
                for x, y in it.product(a.wit()[:3], b.wit()[:3]):
                    if type(x) is dict and type(y) is dict:
                        out += [{**copyv(x), **copyv(y)}]
    if s.kind == "list" and s.form != "bare":
        alpha = []
        for e in s.subterms():
            w = e.wit()[:2]
            alpha += w + [p for x in w for p in it.islice(prunes(x), 3)]
        alpha = V.dedupe(alpha)[:5 if deep else 4] + [None, {}]
        for n in range(1, 5 if deep else 4):
            for combo in it.product(alpha, repeat=n):
                out.append([copyv(x) for x in combo])
    if s.kind == "list" and s.shape() == "contains" and len(s.subterms()) > 1:
        alpha = V.dedupe([w for e in s.subterms() for w in e.wit()[:1]])[:2]
        for n in range(4, 7 if deep else 6):
            for combo in it.product(alpha, repeat=n):
                out.append([copyv(x) for x in combo])
    out += [copyv(v) for v in V.GENERIC]
    return V.dedupe(out)


def complete(t, v, depth=0):
    """values that agree with v and fill the keys v leaves out (absent / witnesses / bad)"""
    t = strip(t)
    if t.kind == "any":
        for a in t.types:
            yield from complete(a, v, depth)
    elif t.kind == "dict" and type(v) is dict and t.items is not N:
        base = copyv(v)
        for k, s, o in t.items:
            if k in v:
                base[k] = next(complete(s, v[k], depth + 1), copyv(v[k]))
            elif not o:
                w = s.wit()
                base[k] = w[0] if w else None
        yield base
        for k, s, o in t.items:
            if k in v:
                n = 0
                for y in complete(s, v[k], depth + 1):
                    yield {**copyv(base), k: y}
                    n += 1
                    if n > 12:
                        break
            else:
                yield {j: copyv(x) for j, x in base.items() if j != k}
                for w in s.wit()[:3] + s.wit()[-1:]:
                    yield {**copyv(base), k: copyv(w)}
                for f in V.FOREIGN:
                    if not s.accept(f):
                        yield {**copyv(base), k: copyv(f)}
                        break
        yield {**copyv(base), "zz": 1}
    elif t.kind == "list" and type(v) is list:
        base = copyv(v)
        pos = t.positions(len(v))
        for i, x in enumerate(v):
            for s in pos.get(i, [])[:1]:
                if t.shape() != "contains":
                    base[i] = next(complete(s, x, depth + 1), copyv(x))
        yield base
        for i, x in enumerate(v):
            if 6 <= i < len(v) - 2:
                continue
            for s in pos.get(i, []):
                n = 0
                for y in complete(s, x, depth + 1):
                    yield copyv(base[:i]) + [y] + copyv(base[i + 1:])
                    n += 1
                    if n > 12:
                        break
    else:
        yield copyv(v)


def third(t, v, deep=False):
    """values thrown at the result of substituting v into t"""
    out = [copyv(v)] + list(complete(t, v))
    base = out[1] if len(out) > 1 else v
    n = size(base)
    if n <= 8 or deep and n <= 14:
        out += list(V.perturb(v))
    if n <= 14 or deep:
        out += list(V.perturb(base))
    else:
        out += list(it.islice(V.perturb(base), 0, None, 5 if n <= 40 else 17))
    out += t.wit()[:4]
    return V.dedupe(out)


def size(v):
    if type(v) is list:
        return 1 + sum(map(size, v))
    if type(v) is dict:
        return 1 + sum(map(size, v.values()))
    return 1


def close(a, b, precisions):
    """scalar equality up to the documented float tolerance (applied at most twice)"""
    if a != a or b != b:
        return a != a and b != b
    if a == b:
        return True
    if abs(a - b) <= 3e-9 * max(abs(a), abs(b)):
        return True
    return any(abs(a - b) <= 10.0 ** -p * (1 + 1e-9) for p in precisions)


def carries(v, w, precisions):
    """w carries the substituted data v"""
    if type(v) is list:
        return isinstance(w, list) and len(v) == len(w) and all(
            carries(x, y, precisions) for x, y in zip(v, w))
    if type(v) is dict:
        return isinstance(w, dict) and all(k in w and carries(x, w[k], precisions) for k, x in v.items())
    if isinstance(v, float):
        return isinstance(w, float) and close(v, w, precisions)
    return isinstance(w, type(v)) and w == v or (isinstance(v, int) and isinstance(w, int) and v == w)


def precisions(t):
    s = strip(t)
    if s.kind == "float" and s.precision is not N:
        yield s.precision
    for c in s.subterms():
        yield from precisions(c)
