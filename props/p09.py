"""P09: conditions about past runs equal what the log says."""
import datetime as D
import itertools
import operator

from mc import boot, explore
from mc.pool import pmap, cpu_guard, Hang
from .wl import *
from . import lab, timeref

DT = D.datetime
GRID = [DT(2022, 3, 1, 12), DT(2022, 3, 2, 9, 59, 30), DT(2022, 3, 2, 10), DT(2022, 3, 2, 10, 0, 20)]
NOWS = [DT(2022, 3, 2, 10, 0, 30), DT(2022, 3, 2, 10, 45), DT(2022, 3, 3), DT(2022, 3, 3, 0, 10)]
CLASSES = {"TaskSucceeded": ("success",), "TaskFailed": ("fail",), "TaskStarted": ("run",), "TaskTerminated": ("terminate",),
           "TaskInacted": ("inaction",), "TaskFinished": ("success", "fail", "terminate")}
LOG = {"run": "log_running", "success": "log_success", "fail": "log_failure", "terminate": "log_termination", "inaction": "log_inaction"}
CMP = [None, (">", 0), ("==", 0), (">=", 1), ("==", 1), ("==", 2), ("!=", 1), ("<=", 1), ("<", 2), (">=", 2), ("!=", 0), ("<", 1), ("<=", 0), (">", 1)]
OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}
V = timeref.Val


def periods():
    """(name, constructor, reference (now) -> (lo, hi))"""
    from rocketry import time as T
    from rocketry.core.time import StaticInterval
    S = timeref.Spec

    def spec(sp):
        return lambda now: sp.rollback(now)
    td = D.timedelta
    h = lambda x: V(f"{x:02d}:00", (0, td(hours=x)))
    out = [("all time", lambda: None, lambda now: (DT.min, DT.max)),
           ("past 30 s", lambda: T.TimeDelta("30 seconds"), lambda now: (now - td(seconds=30), now)),
           ("today", lambda: T.TimeOfDay(), spec(S("day", "full"))),
           ("this hour", lambda: T.TimeOfHour(), spec(S("hour", "full"))),
           ("today 10-12", lambda: T.TimeOfDay("10:00", "12:00"), spec(S("day", "between", h(10), h(12)))),
           ("this minute", lambda: T.TimeOfMinute(), spec(S("minute", "full"))),
           ("this month", lambda: T.TimeOfMonth(), spec(S("month", "full"))),
           ("past 1 day", lambda: T.TimeDelta("1 day"), lambda now: (now - td(days=1), now)),
           ("22 to 10", lambda: T.TimeOfDay("22:00", "10:00"), spec(S("day", "between", h(22), h(10)))),
           ("March 2 2022", lambda: StaticInterval(DT(2022, 3, 2), DT(2022, 3, 3)),
            lambda now: (DT(2022, 3, 2), min(now, DT(2022, 3, 3))))]
    return out


def histories(kinds, n):
    """Every sequence of up to n records (time, who, action) in time order."""
    ev = [(t, k) for t in GRID for k in kinds]
    for m in range(n + 1):
        for h in itertools.product(ev, repeat=m):
            if all(a[0] <= b[0] for a, b in zip(h, h[1:])):
                yield h


def build(hist, clock, repo=None, **config):
    from rocketry.tasks import FuncTask
    s = lab.session(clock, repo=repo, **config)
    tasks = {n: FuncTask(nothing, name=n, execution="main", session=s) for n in ("t", "other")}
    lab.drive(s, clock, [])         # start and stop: the session is configured, the past is read
    return s, tasks


def nothing():
    pass


def write(hist, clock, tasks, tz=None):
    k = 0
    for t, (who, action) in hist:
        clock.set(t - (tz or D.timedelta(0)))
        k += 1
        task = tasks[who]
        if action == "fail":
            try:
                raise RuntimeError("expected")
            except RuntimeError:
                task.log_failure()
        else:
            getattr(task, LOG[action])()


def palette(cls):
    own = CLASSES[cls]
    alt = [a for a in LOG if a not in own]
    if len(own) > 1:
        return [("t", own[0]), ("t", own[1]), ("t", own[2]), ("t", alt[0]), ("other", own[0])]
    return [("t", own[0]), ("t", alt[0]), ("t", alt[-1]), ("other", own[0])]


def records(name):
    from rocketry import log
    return None if name == "dict" else getattr(log, name)


def observe(cond, s, task, own):
    try:
        with cpu_guard(10):
            return cond.observe(session=s, task=task) if own else cond.observe(session=s)
    except (Exception, Hang) as exc:
        return f"raised {exc!r}"


def job(a):
    kind, cls, tier, k, n, var = a
    boot.import_rocketry()
    if kind == "running":
        return running(tier, k, n, var)
    import rocketry.conditions as C
    from redbird.repos import MemoryRepo
    Cls = getattr(C, cls)
    q = tier == "quick"
    bad, st, cnt = [], 0, 0
    per = periods()
    own_acts = CLASSES[cls]
    depth = (2 if var != "plain" or cls == "TaskFinished" else 3) + (not q)
    if var != "plain" and not q:
        depth = 2
    tz = D.timedelta(hours=5) if var == "tz" else None
    cmps = [(c,) if c else () for c in CMP] + [((">", 0), ("<", 2)), ((">=", 1), ("<=", 1)), (("==", 0), ("<=", 5)), ((">", 0), ("!=", 2)), (("!=", 0), ("<", 2))]
    prs = per if not q else per[:7] + per[9:]
    for i, hist in enumerate(histories(palette(cls), depth)):
        if i % n != k:
            continue
        st += 1
        clock = lab.Clock(GRID[0])
        config = {}
        if tz:
            config["timezone"] = D.timezone(tz)
        repo = MemoryRepo() if var == "dict" else MemoryRepo(model=records(var)) if var.endswith("Record") else MemoryRepo(model=records("LogRecord"))
        s, tasks = build(hist, clock, repo, **config)
        write(hist, clock, tasks, tz)
        if var == "restart":
            # the same log seen by a new process
            s, tasks = build(hist, clock, repo, **config)
            extra = [r for r in repo.filter_by().all() if r.action == "crash"]
            for r in extra:
                repo.filter_by(action="crash", task_name=r.task_name).delete()
        deep = q and len(hist) == depth
        for (pname, make, ref), now in itertools.product(prs[:5] if deep else prs, NOWS if not q else NOWS[:2] if deep else NOWS[:3]):
            clock.set(now - (tz or D.timedelta(0)))
            exact = now == NOWS[2]
            lo, hi = ref(now)
            edge = any(t == hi and hi != now for t, _ in hist) or exact
            count = sum(1 for t, (who, action) in hist if who == "t" and action in own_acts and lo <= t <= hi)
            for j, c in enumerate(cmps[(i // n) % 4::4] if deep else cmps if var == "plain" else cmps[i // n % 2::2]):
                own = (j + i) % 2
                cond = Cls(task=None if own else "t", period=make())
                for op, num in c:
                    cond = OPS[op](cond, num)
                want = all(OPS[op](count, num) for op, num in c) if c else count > 0
                got = {}
                for force in (False, True):
                    s.config.force_status_from_logs = force
                    got[force] = observe(cond, s, tasks["t"], own)
                    cnt += 1
                s.config.force_status_from_logs = False
                if got[False] is not got[True] or (not edge and got[True] is not want):
                    bad.append((f"{cls} {pname} {c or ''} at {now.isoformat()} {var} of {text(hist)}",
                                f"is {got[False]} (from the log {got[True]}), there are {count} such records in the period"))
    return f"{cls}", st, cnt, bad[:40]


def text(hist):
    return " ".join(f"{t.strftime('%d.%H:%M:%S')}:{who}:{a}" for t, (who, a) in hist) or "nothing"


# ---- is running, read from the log -------------------------------------------------------------------------

def running(tier, k, n, var):
    """All sets of up to 3 runs [start, end or none], with run ids (overlapping) or without (one at a time)."""
    import rocketry.conditions as C
    from rocketry import time as T
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRunRecord, MinimalRecord
    bad, st, cnt = [], 0, 0
    base = DT(2022, 3, 2, 10)
    sec = [base + D.timedelta(seconds=x) for x in (0, 10, 20, 40, 60)]
    nows = [base + D.timedelta(seconds=x) for x in (75, 90)]
    cand = [(i, j, a) for i in range(4) for j in list(range(i + 1, 5)) + [None] for a in (("success", "fail", "terminate", "inaction", "crash") if j is not None and j < 3 else ("success",) if j is not None else (None,))]
    ids = var == "ids"
    sets = []
    for m in range(4):
        for c in itertools.combinations_with_replacement(cand, m):
            if sum(1 for _, _, a in c if a not in (None, "success")) > 1:
                continue
            if var == "no ids":
                if any(x[1] is None or x[1] >= y[0] for x, y in zip(c, c[1:])):
                    continue
            sets.append(c)
    pers = [("any", lambda: None, None, None), ("more than 50 s", lambda: more(50), 50, None),
            ("less than 50 s", lambda: less(50), None, 50), ("30 to 60 s", lambda: between(30, 60), 30, 60)]
    for i, runs in enumerate(sets):
        if i % n != k or (tier == "quick" and ids and len(runs) == 3 and i % 3):
            continue
        st += 1
        clock = lab.Clock(base)
        repo = MemoryRepo(model=MinimalRunRecord if ids else MinimalRecord)
        s, tasks = build((), clock, repo)
        recs = []
        for r, (a, b, act) in enumerate(runs):
            recs.append((a, 1, r, "run", "t"))
            if b is not None:
                recs.append((b, 0, r, act, "t"))
            recs.append((a, 2, r + 10, "run", "other"))
        for a, _, r, act, who in sorted(recs):
            kw = dict(created=lab.ts(sec[a]), task_name=who, action=act)
            if ids:
                kw["run_id"] = f"{who}-{r}"
            repo.add((MinimalRunRecord if ids else MinimalRecord)(**kw))
        s.config.force_status_from_logs = True
        # (without run ids it cannot be told which of overlapping runs has finished, only how many)
        for (pname, make, lo, hi), now in itertools.product(pers[:1] if var == "no ids, overlapping" else pers, nows):
            clock.set(now)
            p = make()
            for c in CMP[(i + now.second) % 2::2] if tier == "quick" else CMP:
                count = 0
                for a, b, act in runs:
                    age = (now - sec[a]).total_seconds()
                    if b is None and (lo is None or age >= lo) and (hi is None or age <= hi):
                        count += 1
                cond = C.TaskRunning(task="t", period=p)
                if c is not None:
                    cond = OPS[c[0]](cond, c[1])
                want = (count > 0) if c is None else OPS[c[0]](count, c[1])
                got = observe(cond, s, tasks["t"], False)
                cnt += 1
                if got is not want:
                    bad.append((f"TaskRunning {pname} {c or ''} {var} of runs {[(sec[a].strftime('%M:%S'), sec[b].strftime('%M:%S') if b is not None else None, act) for a, b, act in runs]}",
                                f"is {got} at {now.strftime('%H:%M:%S')}, {count} runs are running"))
    return f"TaskRunning {var}", st, cnt, bad[:40]


def more(x):
    from rocketry.time import TimeSpanDelta as B
    return B(near=D.timedelta(seconds=x), far=None)


def less(x):
    from rocketry.time import TimeSpanDelta as B
    return B(near=None, far=D.timedelta(seconds=x))


def between(x, y):
    from rocketry.time import TimeSpanDelta as B
    return B(near=D.timedelta(seconds=x), far=D.timedelta(seconds=y))


SPANS = [(("more than", 0.12, None), lambda: more(0.12)), (("less than", None, 0.12), lambda: less(0.12)), (("between", 0.07, 0.17), lambda: between(0.07, 0.17))]


# ---- in a running session -------------------------------------------------------------------------------------

class Live(Std):
    """At every idle the conditions, from the cached statuses and from the log, equal what has happened."""

    def build(self, w):
        super().build(w)
        import rocketry.conditions as C
        w.conds = []
        for n in w.task:
            for cls in CLASSES:
                for c in (None, ("==", 0), (">=", 2)):
                    cond = getattr(C, cls)(task=n)
                    w.conds.append((n, cls, c, cond if c is None else OPS[c[0]](cond, c[1])))
            for c in (None, ("==", 0), (">=", 2)):
                cond = C.TaskRunning(task=n)
                w.conds.append((n, "TaskRunning", c, cond if c is None else OPS[c[0]](cond, c[1])))
            for span, per in SPANS:
                w.conds.append((n, "TaskRunning", span, C.TaskRunning(task=n, period=per())))

    def on_idle(self, w):
        w.nopoint += 1
        try:
            s = w.session
            got = []
            for n, cls, c, cond in w.conds:
                vals = []
                for force in (False, True):
                    s.config.force_status_from_logs = force
                    vals.append(cond.observe(session=s))
                got.append(vals)
            s.config.force_status_from_logs = False
            w.ev("conds", val=got, now=world.now(), alive=[a.rid for a in w.actors[1:] if a.state != "dead" and not a.killed])
        finally:
            w.nopoint -= 1

    def check(self, w):
        bad = returned(w)
        n_log, open_, ended, since = {}, {}, set(), {}
        for e in w.events:
            if e["k"] == "log":
                if e["action"] == "run":
                    since[e["rid"]] = e["created"]
                if e["action"] != "run":
                    ended.add(e["rid"])
                n_log[e["task"], e["action"]] = n_log.get((e["task"], e["action"]), 0) + 1
                open_.setdefault(e["task"], set())
                (open_[e["task"]].add if e["action"] == "run" else open_[e["task"]].discard)(e["rid"])
            if e["k"] != "conds":
                continue
            for (n, cls, c, _), (cached, logged) in zip(w.conds, e["val"]):
                if cls == "TaskRunning" and c is not None and c[0] in ("more than", "less than", "between"):
                    ages = {r: e["now"] - since[r] for r in open_.get(n, ())}
                    if any(abs(a - x) < 0.03 for a in ages.values() for x in c[1:] if x is not None):
                        continue        # at the limit: the start of the run and its record may be on different sides
                    want = any((c[1] is None or a > c[1]) and (c[2] is None or a < c[2]) for a in ages.values())
                    busy = {r for r in e["alive"] if r and r.startswith(n + "#")} != set(ages) and next(t.exec for t in self.tasks if t.name == n) in ("thread", "process")
                    if logged is not want or (cached is not want and not busy):
                        bad.append(("for how long a task is running is wrong", f"{n} {c}: {cached}, from the log {logged}, running for {ages}"))
                    continue
                if cls == "TaskRunning":
                    lo = {len(open_.get(n, ()))}
                    # a run whose body is over but whose end is not logged yet (or the other way round) may count either way
                    ex = next(t.exec for t in self.tasks if t.name == n)
                    if ex in ("thread", "process"):
                        lo |= {sum(1 for r in e["alive"] if r and r.startswith(n + "#"))}
                    wants = {(x > 0) if c is None else OPS[c[0]](x, c[1]) for x in range(min(lo), max(lo) + 1)}
                    x = len(open_.get(n, ()))
                    if logged is not ((x > 0) if c is None else OPS[c[0]](x, c[1])):
                        bad.append(("is running, read from the log, is wrong", f"{n} {c}: {logged}, {x} unfinished runs in the log"))
                    if cached not in wants:
                        bad.append(("is running is wrong", f"{n} {c}: {cached}, {sorted(lo)} runs in progress"))
                    continue
                x = sum(n_log.get((n, act), 0) for act in CLASSES[cls])
                want = (x > 0) if c is None else OPS[c[0]](x, c[1])
                busy = any(r and r.startswith(n + "#") and r in ended for r in e["alive"])    # a thread that is just recording its end
                if (cached is not want and not busy) or logged is not want:
                    bad.append(("a condition about past runs is wrong in a running session", f"{cls} of {n} {c}: {cached}, from the log {logged}, {x} records"))
        return bad


def scenarios(tier):
    q = tier == "quick"
    outs = [(0.15, "ok"), (0.1, "fail"), (0.0, "inaction"), (0.0, "ok")]
    term = [("terminate a", lambda w: w.task["a"].terminate(), 1)]
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync")):
        yield Live(f"{ex}", [T("a", ex, body, [{}, {}]), T("b", "async", None, [{}])], plans={"a": outs, "b": [(0.1, "ok"), (0.1, "fail")]}, horizon=0.6, total=2 if q else 3, preempt=False, env=term, order=False)
        if ex != "main":
            yield Live(f"{ex} overlapping", [T("a", ex, body, [{}, {}, {}], kw=dict(multilaunch=True))], plans={"a": [(0.25, "ok"), (0.1, "fail")]}, horizon=0.6, total=2 if q else 3, preempt=False, env=term, order=False)
    for ex, body in (("thread", "flag"), ("process", "sync")):
        yield Live(f"{ex} preempted", [T("a", ex, body, [{}, {}])], plans={"a": outs}, horizon=0.5, total=2, budgets={"preempt": 1}, env=[], order=False)


def run(ctx):
    n = 8 if ctx.quick else 24
    jobs = [("running", None, ctx.tier, k, n, v) for v in ("ids", "no ids", "no ids, overlapping") for k in range(n)]
    for cls in CLASSES:
        jobs += [("status", cls, ctx.tier, k, n, "plain") for k in range(n)]
        jobs += [("status", cls, ctx.tier, k, 2, v) for v in ("restart", "dict", "MinimalRecord", "RunRecord", "tz") for k in range(2)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    explore.explore(ctx, scenarios(ctx.tier))      # after the others: it replaces the clock and the threads
    ctx.sample("TaskFinished all time ('>=', 2) of 01.12:00:00:t:success 02.10:00:00:other:success -> False (1 record)")
    ctx.assume("records written exactly at the end of a past period, and conditions evaluated exactly at the first instant of a period, are only required to be consistent between the cached statuses and the log")
