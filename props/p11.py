"""P11: a failing task is retried at most n times, and then no more."""
import datetime as D
import itertools

from mc import boot, explore
from mc.pool import pmap
from .wl import *
from . import lab, p09
from .p08 import cyc

BASE = D.datetime(2022, 3, 2, 10)
OUT = ("fail", "success", "inaction", "terminate")


def in_row(outs):
    n = 0
    for o in reversed(outs):
        if o != "fail":
            break
        n += 1
    return n


def retried(outs, n):
    """Whether a task with these outcomes so far (oldest first) is to be retried."""
    r = in_row(outs)
    return r > 0 and (n in (None, -1) or r <= n)


def forms(n):
    from rocketry.conditions import api
    from rocketry import conditions as C
    if n is None:
        return [api.retry, api.retry(None), api.retry(-1), C.Retry(None)]
    return [api.retry(n), C.Retry(n)]


def job(a):
    part, tier, k, n_, var = a
    boot.import_rocketry()
    return {"histories": histories, "driven": driven}[part](tier, k, n_, var)


def histories(tier, k, n_, var):
    """Every history of outcomes, as left in the log by a previous process."""
    from redbird.repos import MemoryRepo
    from rocketry.tasks import FuncTask
    bad, st, cnt = [], 0, 0
    depth = 4 if tier == "quick" else 6
    i = -1
    for m in range(depth + 1):
        for outs in itertools.product(OUT + ("other fail", "unfinished"), repeat=m):
            if outs.count("unfinished") and outs.index("unfinished") < m - 1:
                continue
            i += 1
            if i % n_ != k:
                continue
            st += 1
            clock = lab.Clock(BASE)
            model = p09.records({"dict": "dict", "MinimalRecord": "MinimalRecord"}.get(var, "MinimalRunRecord"))
            repo = MemoryRepo(model=model) if model else MemoryRepo()
            t = lab.ts(BASE)
            for j, o in enumerate(outs):
                who = "o" if o.startswith("other") else "t"
                for act in ("run",) + ((o.split()[-1],) if o != "unfinished" else ()):
                    t += 1.5
                    kw = dict(created=t, task_name=who, action=act)
                    if var not in ("dict", "MinimalRecord"):
                        kw["run_id"] = f"{who}{j}"
                    repo.add(kw if model is None else model(**kw))
            clock.t = t + 1
            s = lab.session(clock, repo=repo)
            tasks = {x: FuncTask(p09.nothing, name=x, execution="main", session=s) for x in "to"}
            lab.drive(s, clock, [])
            mine = [o for o in outs if not o.startswith("other")]
            for n in (None, 0, 1, 2, 3):
                for f in forms(n):
                    for force in (False, True):
                        s.config.force_status_from_logs = force
                        cnt += 1
                        got = p09.observe(f, s, tasks["t"], True)
                        if got is not retried(mine, n):
                            bad.append((f"retry({n}) after {outs} [{var}{' forced' if force else ''}]", f"is {got}, should be {retried(mine, n)}"))
    return f"histories {var}", st, cnt, bad[:30]


def driven(tier, k, n_, var):
    """The session is run: every sequence of outcomes x other starts x a restart of the application at any cycle."""
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRunRecord
    from rocketry.tasks import FuncTask
    from rocketry.exc import TaskInactionException, TaskTerminationException
    from rocketry.core.condition.base import BaseCondition
    q = tier == "quick"
    bad, st, cnt = [], 0, 0
    N = 6
    trigs = [(0,), (0, 3), (0, 5), (0, 1, 4), (2, 4)] if q else [c for m in (1, 2, 3) for c in itertools.combinations(range(N), m)]
    cases = itertools.product(itertools.product(("fail", "success", "inaction", "terminate"), repeat=4), trigs, (0, 1, 2, 3, None), (None, 1, 2, 3, 4))
    for i, (outs, trig, n, restart) in enumerate(cases):
        if i % n_ != k or (restart is None) != (var == "once"):
            continue
        if q and restart and ("inaction" in outs or trig not in trigs[:3]):
            continue
        st += 1
        clock = lab.Clock(BASE)
        repo = MemoryRepo(model=MinimalRunRecord)
        ran = []
        state = {"i": 0}

        def body():
            clock.t += 0.25
            o = (outs + ("fail",) * 20)[len(ran)]
            ran.append((state["i"], o))
            if o == "fail":
                raise RuntimeError("expected")
            if o == "inaction":
                raise TaskInactionException()
            if o == "terminate":
                raise TaskTerminationException()

        class Trigger(BaseCondition):
            def observe(self, **kw):
                return state["i"] in trig

            def __str__(self):
                return "trigger"

        for part in ([range(N)] if restart is None else [range(restart), range(restart, N)]):
            s = lab.session(clock, repo=repo)
            cond = forms(n)[0]
            FuncTask(body, name="t", start_cond=(cond | Trigger()) if i % 2 else (Trigger() | cond), execution="main", session=s)

            def each(j, part=part):
                state["i"] = part[j]
            lab.drive(s, clock, [BASE + D.timedelta(seconds=10 * j) for j in part], each)
        want, hist = [], []
        for c in range(N):
            if c in trig or retried(hist, n):
                o = (outs + ("fail",) * 20)[len(want)]
                want.append((c, o))
                hist.append(o)
        cnt += N
        if ran != want:
            bad.append((f"retry({n}) driven, outcomes {outs}, started at cycles {trig}, restart {restart}", f"ran {ran}, should have {want}"))
    return f"driven {var}", st, cnt, bad[:30]


# ---- every execution ---------------------------------------------------------------------------------------------

class Again(Std):
    n = 2

    def build(self, w):
        super().build(w)
        from rocketry.conditions import api
        w.task["a"].start_cond = api.retry(self.n) if self.n is not None else api.retry
        w.session.hook_scheduler_cycle()(cyc)

    def check(self, w):
        bad = returned(w) + all_dead(w) + lifecycle(w)
        hist, open_, cycle, queued = [], False, None, 1
        for e in w.events:
            if e["k"] == "env" and e.get("op") == "run a":
                queued += 1
            if e["k"] == "cycle" and e["at"] == "begin":
                cycle = dict(due=(retried(hist, self.n) or queued > 0) and not open_, ran=False)
            elif e["k"] == "cycle" and cycle:
                if cycle["due"] and not cycle["ran"]:
                    bad.append(("a failed task is not retried right away", f"outcomes {hist}, the cycle ending {e['t'] - world.T0:.3f}"))
                cycle = None
            elif e["k"] == "log" and e["task"] == "a":
                if e["action"] == "run":
                    open_ = True
                    if cycle:
                        cycle["ran"] = True
                    if queued:
                        queued -= 1
                    elif not retried(hist, self.n):
                        bad.append(("a task is retried though it should not be", f"outcomes {hist}, retry({self.n})"))
                else:
                    open_ = False
                    hist.append(e["action"])
        return bad


def scenarios(tier):
    q = tier == "quick"
    outs = [(0.0, "fail"), (0.15, "fail"), (0.1, "ok"), (0.0, "inaction")]
    more = [("run a", lambda w: w.task["a"].run(), 1), ("terminate a", lambda w: w.task["a"].terminate(), 1)]
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync")):
        for n in (1, 2, None):
            yield Again(f"{ex} retry({n})", [T("a", ex, body, [{}]), T("b", "async", None, [{}, {}])], n=n, plans={"a": outs, "b": [(0.1, "fail"), (0.1, "ok")]}, horizon=0.9,
                        total=2 if q else 3, preempt=False, env=more, order=False)
    for ex, body in (("thread", "sync"), ("process", "sync")):
        yield Again(f"{ex} preempted", [T("a", ex, body, [{}])], n=2, plans={"a": outs[:3]}, horizon=0.6, total=1 if q else 2, order=False)


def run(ctx):
    n = 8 if ctx.quick else 32
    jobs = [("histories", ctx.tier, k, n, v) for v in ("MinimalRunRecord", "dict", "MinimalRecord") for k in range(n)]
    jobs += [("driven", ctx.tier, k, 2 * n, v) for v in ("once", "restart") for k in range(2 * n)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    explore.explore(ctx, scenarios(ctx.tier))
    ctx.sample("retry(2), outcomes fail fail fail fail, started at cycles 0 and 5 -> runs at cycles 0, 1, 2 and 5")
    ctx.assume("an end record with exactly the time of another end record of the same task is not covered")
