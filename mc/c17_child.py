"""One interpreter configuration of C17: prints a digest per unit of work (json lines).

argv: tier, lo, hi, mode;  the real random module is in use here (MC_REAL_RANDOM=1)."""
import hashlib
import json
import random
import re
import sys
import threading

from . import env  # noqa: F401
from d42 import fake, represent, substitute, validate
from d42.generation import Random

from .checks import c17
from .terms import src


def canon(v):
    if type(v) is list:
        return "[" + ",".join(map(canon, v)) + "]"
    if type(v) is dict:
        return "{" + ",".join(sorted(canon(k) + ":" + canon(x) for k, x in v.items())) + "}"
    return type(v).__name__ + (repr(v) if not isinstance(v, int) or abs(v) < 10 ** 50 else hex(v))


def digest(text):
    return hashlib.sha1(text.encode("utf-8", "backslashreplace")).hexdigest()[:16]


def short(t):
    x = src(t)
    return x if len(x) < 300 else x[:300] + "... (%s)" % digest(x)


def gen(s):
    try:
        return canon(fake(s))
    except Exception as e:
        return "raised " + type(e).__name__


def quiet(fn):
    try:
        fn()
    except Exception:
        pass


def main():
    tier, lo, hi, mode = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    deep = tier == "thorough"
    terms = c17.universe(deep)[lo:hi]
    R = Random()
    out = []
    seeds = c17.seeds(deep)
    others = [t.build() for t in c17.universe(deep)[:40:5]]
    built = []
    for t in terms:
        try:
            built.append((t, t.build()))
        except Exception:
            built.append((t, None))
    # "backwards": the same units, every one after other histories of the process
    order = -1 if mode == "backwards" else 1
    for t, s in built[::order]:
        if s is None:
            out.append(("refused", short(t), None))
            continue
        for k in seeds[::order]:
            def once(random_obj=R, sch=s):
                random_obj.set_seed(k)
                return [gen(sch) for _ in range(3)]
            first = once()
            unit = "set_seed(%r); 3 x fake(%s)" % (k, short(t))
            out.append((digest(unit), unit, digest("|".join(first))))
            if mode == "histories" and (deep or k in seeds[:2]):
                hist = []
                hist.append(("again", once()))
                hist.append(("with another Random object", once(Random())))
                hist.append(("a rebuilt schema", once(R, t.build())))
                for o in others:
                    gen(o)
                hist.append(("after other schemas were generated", once()))
                R.set_seed("zzz")
                for _ in range(5):
                    gen(s)
                hist.append(("after it was generated from another seed", once()))
                quiet(lambda: validate(s, 1))
                if not re.search(r"[*+?}]\??\)+\??[*+{]", src(t)):        # re itself takes for ever on nested repeats
                    quiet(lambda: substitute(s, fake(s)))
                quiet(lambda: represent(s))
                quiet(lambda: s == t.build())
                quiet(lambda: s | s)
                hist.append(("after other operations on it", once()))
                random.random()
                random.seed(5)
                hist.append(("after draws by the application", once()))
                # other objects allocated in between: nothing may depend on addresses
                junk = [object() for _ in range(257)]
                hist.append(("among other objects", once(Random(), t.build())))
                del junk
                got = []
                th = threading.Thread(target=lambda: got.append(once()))
                th.start()
                th.join()
                hist.append(("in another thread", got[0]))
                for how, values in hist:
                    out.append(("history", unit + " - " + how, values == first))
    few = [t.build() for t in c17.universe(deep)[lo % 7::97]][:6 + 20 * deep]
    for k in c17.SEEDS[::order]:
        R.set_seed(k)
        seq = [gen(s) for s in few]
        unit = "set_seed(%s); fake() of every 97th schema from %d" % (repr(k) if not isinstance(k, int) or k < 10 ** 50 else hex(k)[:30], lo % 7)
        out.append((digest(unit), unit, digest("|".join(seq))))
        if mode == "histories":
            R.set_seed(k)
            out.append(("history", unit + " - again", [gen(s) for s in few] == seq))
    # sequences: one seed, many schemas; a prefix of the sequence must not depend on what follows
    live = [(t, s) for t, s in built if s is not None]
    for k in seeds[:4][::order]:
        R.set_seed(k)
        seq = [gen(s) for _, s in live]
        unit = "set_seed(%r); fake() of schemas %d..%d" % (k, lo, hi)
        out.append((digest(unit), unit, digest("|".join(seq))))
        R.set_seed(k)
        rev = [gen(s) for _, s in live[::-1]]
        unit = "set_seed(%r); fake() of schemas %d..%d reversed" % (k, lo, hi)
        out.append((digest(unit), unit, digest("|".join(rev))))
        if mode == "histories":
            R.set_seed(k)
            out.append(("history", unit + " - again", [gen(s) for _, s in live[::-1]] == rev))
            R.set_seed(k)
            out.append(("history", unit + " - forward again", [gen(t.build()) for t, _ in live] == seq))
    for i in range(0, len(live) - 1, 7):
        (t, a), (u, b) = live[i], live[(i * 3 + 1) % len(live)]
        for k in seeds[:2]:
            R.set_seed(k)
            got = [gen(a), gen(b), gen(a), gen(b)]
            unit = "set_seed(%r); fake of a, b, a, b; a = %s, b = %s" % (k, short(t), short(u))
            out.append((digest(unit), unit, digest("|".join(got))))
    print(json.dumps(out))


if __name__ == "__main__":
    main()
