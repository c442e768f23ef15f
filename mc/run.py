"""usage: python -m mc.run C01 [--tier quick|thorough] [--jobs N]

Runs the enumeration of one property over /repo's working tree.
exit 0: held on everything explored; exit 1: VIOLATION lines; exit 2: the check itself failed.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAX_VIOLATIONS = 12
AFTER_FIRST = float(os.environ.get("MC_AFTER_FIRST", "90"))         # seconds the exploration goes on after the first violation


class Enough(BaseException):
    """a verdict is there and this shard has been slow: report it now"""


_G = {}


class Ctx:
    """what one shard of the enumeration reports"""

    def __init__(self, tier):
        self.tier = tier
        self.deep = tier == "thorough"
        self.states = self.transitions = self.traces = 0
        self.counts = {}
        self.samples = []
        self.violations = {}
        self.before = []                  # members of a family already used in this process

    def state(self, n=1):
        self.states += n

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def violation(self, key, what, repro=""):
        """key: the specific input / history that fails; repro: python source showing it"""
        self.count("violations_seen")
        if len(self.violations) < 40 and key not in self.violations:
            if self.before and repro.startswith(_G["REPLAY"]):
                n = len(_G["REPLAY"])
                repro = repro[:n] + _G["prelude"](self.before) + repro[n:]
                what = "after %d look-alike schemas were used: %s" % (len(self.before), what)
            self.violations[key] = {"what": str(what)[:3000], "repro": repro}
            if _G.get("until") and time.time() > _G["until"] and key not in _G["known"]:
                raise Enough()


def from_repo(exc):
    tb, names = exc.__traceback__, []
    while tb is not None:
        names.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    repo = os.path.realpath(os.environ.get("D42_REPO", "/repo"))
    return any(os.path.realpath(n).startswith(os.path.join(repo, "d42") + os.sep) for n in names)


CALL_LIMIT = 20          # seconds one call into the implementation may take (they take milliseconds)
_REPO = os.path.join(os.path.realpath(os.environ.get("D42_REPO", "/repo")), "d42") + os.sep


class DoesNotReturn(BaseException):
    """not an Exception: nothing on the way may take it for an answer"""


MEMORY_LIMIT = 3 << 30   # bytes of address space one worker may have (they need a tenth of it)


def _start():
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))


def _alarm(signum, frame):
    """raise only if one and the same call into the implementation spans two alarms"""
    outer = None
    while frame is not None:
        if frame.f_code.co_filename.startswith(_REPO):
            outer = frame
        frame = frame.f_back
    signal.alarm(CALL_LIMIT)
    now = (time.process_time(), time.time())
    if outer is None or outer is not _G.get("frame"):
        _G["frame"], _G["since"] = outer, now
        return
    # processor time, so that a busy machine is no reason; the wall clock for a call that waits forever
    cpu, wall = _G["since"]
    if now[0] - cpu > CALL_LIMIT * 0.75 or now[1] - wall > CALL_LIMIT * 6:
        _G["frame"] = None
        raise DoesNotReturn("one call has been running for more than %d s" % CALL_LIMIT)


def name_of(mod, task):
    return task.src() if isinstance(task, (_G["Family"], _G["Fine"])) else mod.task_name(task)


def run_one(mod, task, ctx):
    ctx.before = []
    as_task = getattr(mod, "family_task", lambda t: t)
    if isinstance(task, _G["Fine"]):
        for t in task.terms():
            mod.run_task(as_task(t), ctx)
            signal.alarm(CALL_LIMIT)
        return None
    if not isinstance(task, _G["Family"]):
        return mod.run_task(task, ctx)
    for t in task.sequence():
        mod.run_task(as_task(t), ctx)
        ctx.before.append(t)
        signal.alarm(CALL_LIMIT)
    ctx.before = []


def _work(span):
    lo, hi = span
    mod, tasks, tier, deadline = _G["mod"], _G["tasks"], _G["tier"], _G["deadline"]
    ctx = Ctx(tier)
    signal.signal(signal.SIGALRM, _alarm)
    done = 0
    err = None
    _G["until"] = time.time() + 15
    for i in range(lo, hi):
        if time.time() > deadline or time.time() > _G["until"] and any(k not in _G["known"] for k in ctx.violations):
            break
        try:
            _G['frame'] = None
            signal.alarm(CALL_LIMIT)
            run_one(mod, tasks[i], ctx)
            signal.alarm(0)
        except Enough:
            signal.alarm(0)
            break
        except (Exception, DoesNotReturn) as e:
            signal.alarm(0)
            text = traceback.format_exc()
            if from_repo(e):
                try:
                    ctx.violation("unexpected %s in task %s" % (type(e).__name__, name_of(mod, tasks[i])),
                                  "the implementation raised %r where the property leaves no room for it:\n%s"
                                  % (e, text[-2500:]), "# " + name_of(mod, tasks[i]))
                except Enough:
                    break
            else:
                err = "task %s\n%s" % (name_of(mod, tasks[i])[:400], text[-3000:])
        done += 1
    return dict(done=done, want=hi - lo, states=ctx.states, trans=ctx.transitions, traces=ctx.traces,
                counts=ctx.counts, samples=ctx.samples, violations=ctx.violations, err=err)


def _numbered(span):
    return span, _work(span)


def load_known(prop):
    out = {}
    path = os.path.join(ROOT, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=<<(.*?)>> (.*)", line)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("MC_JOBS", "0")) or os.cpu_count())
    ap.add_argument("--deadline", type=float, default=None)
    a = ap.parse_args()
    t0 = time.time()
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    limit = a.deadline or (600 if tier == "quick" else 3000)
    try:
        mod = importlib.import_module("mc.checks." + a.prop.lower())
        from .common import REPLAY
        from .families import Family, prelude
        from .fine import Fine
        _G.update(REPLAY=REPLAY, Family=Family, Fine=Fine, prelude=prelude)
        tasks = mod.tasks(tier)
    except Exception as e:
        if from_repo(e):
            # the package cannot even be loaded / the vocabulary of the property is unusable
            finish(a.prop, tier, t0, dict(states=0, trans=0, traces=0, counts={}, samples=[],
                                          complete=False), {
                "loading": {"what": "the implementation fails while the state space is set up:\n"
                            + traceback.format_exc()[-2500:], "repro": ""}}, [], [], "")
        traceback.print_exc()
        sys.exit(2)
    _G.update(mod=mod, tasks=tasks, tier=tier, deadline=t0 + limit, known=load_known(a.prop))
    n = len(tasks)
    chunk = getattr(mod, "CHUNK", None) or max(1, min(8, n // (a.jobs * 8)))
    spans = [(i, min(i + chunk, n)) for i in range(0, n, chunk)]
    tot = dict(states=0, trans=0, traces=0, counts={}, samples=[], complete=True)
    violations, errors, done, known = {}, [], 0, _G["known"]

    def take(r):
        nonlocal done
        done += r["done"]
        tot["complete"] &= r["done"] == r["want"]
        for k in ("states", "trans", "traces"):
            tot[k] += r[k]
        for k, v in r["counts"].items():
            tot["counts"][k] = tot["counts"].get(k, 0) + v
        if len(tot["samples"]) < 12:
            tot["samples"] += r["samples"][:2]
        violations.update(r["violations"])
        if r["err"]:
            errors.append(r["err"])

    if a.jobs == 1 or getattr(mod, "SERIAL", False):
        for s in spans:
            take(_work(s))
    else:
        left, deaths, first = list(spans), 0, None
        while left:
            with mp.get_context("fork").Pool(max(1, a.jobs >> deaths), _start) as pool:
                results = pool.imap_unordered(_numbered, list(left))
                workers = {p.pid for p in pool._pool}
                while True:
                    try:
                        span, r = results.next(timeout=min(5, AFTER_FIRST + 0.5))
                        left.remove(span)
                        take(r)
                    except mp.TimeoutError:
                        # the pool replaces a worker that was killed, but what it was doing never comes back
                        if {p.pid for p in pool._pool} != workers:
                            deaths += 1
                            pool.terminate()
                            break
                    except StopIteration:
                        break
                    if first is None and any(k not in known for k in violations):
                        first = time.time()
                    # a verdict is there: do not go on for long
                    if len(violations) > 150 or first and time.time() - first > AFTER_FIRST:
                        tot["complete"] = False
                        pool.terminate()
                        left = []
                        break
            if deaths > 3 and left:
                errors.append("worker processes were ended from outside %d times" % deaths)
                tot["complete"] = False
                break
    tot["counts"]["tasks_total"], tot["counts"]["tasks_done"] = n, done
    if hasattr(mod, "final"):
        ctx = Ctx(tier)
        mod.final(ctx, tot)
        violations.update(ctx.violations)
        tot["traces"] += ctx.traces
        tot["states"] += ctx.states
        tot["trans"] += ctx.transitions
    finish(a.prop, tier, t0, tot, violations, errors, getattr(mod, "ASSUMPTIONS", []),
           getattr(mod, "BOUNDS", {}).get(tier, ""))


def finish(prop, tier, t0, tot, violations, errors, assumptions, bounds):
    known = load_known(prop)
    listed = {k: v for k, v in violations.items() if k in known}
    fresh = {k: v for k, v in violations.items() if k not in known}
    for k in listed:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    replays = os.path.join(ROOT, "replays")
    os.makedirs(replays, exist_ok=True)
    for f in os.listdir(replays):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(replays, f))
    for i, (k, v) in enumerate(sorted(fresh.items(), key=lambda kv: (len(kv[0]), kv[0]))):
        if i >= MAX_VIOLATIONS:
            print("... and %d more" % (len(fresh) - i))
            break
        path = os.path.join(replays, "%s-%d.py" % (prop, i))
        with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
            f.write('"""%s\n\n%s\n"""\n' % (k.replace("\\", "\\\\").replace('"""', "'''"),
                                           v["what"].replace("\\", "\\\\").replace('"""', "'''")))
            f.write("# run: cd %s && /opt/venv/bin/python %s\n" % (ROOT, path))
            f.write("import sys; sys.path.insert(0, %r)\n" % ROOT)
            f.write(v["repro"] + "\n")
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("   ", k.encode("ascii", "backslashreplace").decode()[:300])
        print("   ", v["what"].encode("ascii", "backslashreplace").decode()[:400].replace("\n", "\n    "))
    for e in errors[:3]:
        print("CHECK ERROR:", e.encode("ascii", "backslashreplace").decode(), file=sys.stderr)
    cov = dict(states=tot["states"], transitions=tot["trans"],
               traces_validated_against_impl=tot["traces"], samples=tot["samples"] or ["(none)"],
               exhaustive=bool(tot["complete"]) and not errors, bounds=bounds,
               counts={k: tot["counts"][k] for k in sorted(tot["counts"])},
               known_findings=sorted(listed))
    if not tot["complete"]:
        cov["cap"] = "stopped before the whole space was covered (time limit or too many violations)"
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED") or 0),
              level="model_checking", coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d complete=%s wall=%.1fs %s" % (
        prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"],
        cov["exhaustive"], ev["wall_s"], cov["counts"]))
    sys.stdout.flush()
    if fresh:
        sys.exit(1)
    if errors or tot["traces"] == 0:
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
