"""Controlled randomness: a scripted generator behind every entry point of `random`.

A *script* is a base policy plus a finite map {draw index: choice}.  One execution
consumes draws in order; the trace records, for every draw, its kind and arity so
that the explorer can branch on it.  Must be installed before d42 is imported.
"""
import random as _r

_RealRandom = _r.Random
BELOW, UNIT = 0, 1
LONG = 3000
UNITS = (0.0, 0.5, 1.0 - 2.0 ** -53, 2.0 ** -53, 0.25, 0.999)


class Script:
    def __init__(self):
        self.policy = None        # None: not under control -> real generator
        self.dev = {}
        self.trace = []
        self.real = _RealRandom(12345)

    def start(self, policy, dev):
        self.policy, self.dev, self.trace = policy, dev, []

    def stop(self):
        self.policy = None

    def below(self, n):
        if self.policy is None:
            return self.real.randrange(n)
        i = len(self.trace)
        if i >= LONG:               # a loop that redraws: leave the constant policy so that it can end
            self.trace.append((BELOW, n))
            return (i * 2654435761 >> 7) % n
        self.trace.append((BELOW, n))
        if i in self.dev:
            c = self.dev[i]
            if not 0 <= c < n:
                raise AssertionError("draw script diverged: arity changed")
            return c
        return base_choice(self.policy, n)

    def unit(self):
        if self.policy is None:
            return self.real.random()
        i = len(self.trace)
        self.trace.append((UNIT, 0))
        if i >= LONG:
            return (i * 2654435761 % 2 ** 32) / 2 ** 32
        if i in self.dev:
            return self.dev[i]
        return (0.0, 0.5, UNITS[2])[self.policy]


SCRIPT = Script()


def base_choice(policy, n):
    return (0, n // 2, n - 1)[policy]


def options(kind, n, wide=6):
    if kind == UNIT:
        return UNITS
    if n <= wide:
        return range(n)
    return sorted({0, 1, 2, n // 2, n - 2, n - 1})


class Scripted(_RealRandom):
    """Drop-in Random whose draws come from SCRIPT (or, when not under control, from
    a private real generator so that unrelated library code keeps working)."""

    def __init__(self, x=None):
        pass

    def __new__(cls, *a, **k):
        return _RealRandom.__new__(cls)

    def seed(self, *a, **k):
        if SCRIPT.policy is None:
            SCRIPT.real.seed(*a, **k)

    def getstate(self):
        return SCRIPT.real.getstate()

    def setstate(self, s):
        SCRIPT.real.setstate(s)

    def random(self):
        return SCRIPT.unit()

    def getrandbits(self, k):
        return SCRIPT.below(1 << k) if k else 0

    def _randbelow(self, n):
        return SCRIPT.below(n) if n else 0


def install():
    inst = Scripted()
    for name in ("seed random uniform triangular randint choice randrange sample shuffle choices "
                 "normalvariate lognormvariate expovariate vonmisesvariate gammavariate gauss "
                 "betavariate binomialvariate paretovariate weibullvariate getstate setstate "
                 "getrandbits randbytes").split():
        if hasattr(_r, name):
            setattr(_r, name, getattr(inst, name))
    _r._inst = inst
    _r.Random = Scripted
    _r.SystemRandom = Scripted


class Outcome:
    __slots__ = ("value", "exc", "policy", "dev", "draws")

    def __init__(self, value, exc, policy, dev, draws):
        self.value, self.exc, self.policy, self.dev, self.draws = value, exc, policy, dev, draws

    def script(self):
        return "policy=%s deviations=%s" % (("low", "mid", "high")[self.policy], dict(self.dev))


def run(fn, policy=0, dev=()):
    dev = dict(dev)
    SCRIPT.start(policy, dev)
    try:
        try:
            v, e = fn(), None
        except Exception as exc:            # noqa: the outcome is what we observe
            v, e = None, exc
        trace = SCRIPT.trace
    finally:
        SCRIPT.stop()
    return Outcome(v, e, policy, dev, trace)


def explore(fn, bound=1, full_limit=64, head=10, tail=3, max_runs=100000, stats=None, wide=6):
    """Yield Outcomes.  If the complete tree over options() has <= full_limit leaves it is
    enumerated completely; otherwise 3 base policies with <= bound deviations, deviation
    points limited to the first `head` and last `tail` draws (reported in stats)."""
    full, complete = [], True
    stack = [{}]
    while stack:
        dev = stack.pop()
        o = run(fn, 0, dev)
        full.append(o)
        done = max(dev) + 1 if dev else 0
        for i in range(done, len(o.draws)):
            kind, n = o.draws[i]
            base = 0.0 if kind == UNIT else 0
            for c in options(kind, n, wide):
                if c != base:
                    d = dict(dev)
                    d[i] = c
                    stack.append(d)
            if len(stack) + len(full) > full_limit:
                break
        if len(stack) + len(full) > full_limit:
            complete = False
            break
    if complete:
        if stats is not None:
            stats["full_trees"] = stats.get("full_trees", 0) + 1
        yield from full
        return
    if stats is not None:
        stats["bounded_trees"] = stats.get("bounded_trees", 0) + 1
    runs = 0
    for policy in (0, 1, 2):
        queue = [({}, 0)]
        for dev, depth in queue:
            o = run(fn, policy, dev)
            runs += 1
            yield o
            if depth >= bound or runs > max_runs:
                if runs > max_runs and stats is not None:
                    stats["capped"] = stats.get("capped", 0) + 1
                continue
            first = max(dev) + 1 if dev else 0
            points = [i for i in range(first, len(o.draws))
                      if i < head or i >= len(o.draws) - tail]
            if len(o.draws) > head + tail and stats is not None and depth == 0:
                stats["long_traces"] = stats.get("long_traces", 0) + 1
            for i in points:
                kind, n = o.draws[i]
                base = (0.0, 0.5, UNITS[2])[policy] if kind == UNIT else base_choice(policy, n)
                for c in options(kind, n, wide):
                    if c != base:
                        queue.append(({**dev, i: c}, depth + 1))
