"""P07: a crash at any moment is recovered from the log."""
import datetime as D
import itertools
import os
import shutil
import tempfile

from mc import boot, explore
from mc.pool import pmap
from .wl import *
from . import lab, p09, p12

BASE = D.datetime(2022, 3, 2, 10)
ENDS = ("success", "fail", "terminate", "inaction", "crash")
ACTS = ("run",) + ENDS


def recover(recs):
    """recs: [(task, action, time, run id)] -> {task: crash record's run id} of the crash records to be added, statuses, last times."""
    crash, status, last = {}, {}, {}
    for task, act, t, rid in recs:
        status[task] = act
        last[task, act] = t
    for task, act in list(status.items()):
        if act == "run":
            crash[task] = [r for t, a, _, r in recs if t == task and a == "run"][-1]
    return crash, status, last


def histories(depth, acts, tasks=("a", "b")):
    """Every log (prefix) of up to `depth` records in which an end follows a start of the task."""
    def rec(h, open_):
        yield h
        if len(h) == depth:
            return
        for t in tasks:
            for a in acts:
                if a != "run" and not open_.get(t):
                    continue
                if a == "run" and open_.get(t, 0) >= 2:
                    continue
                o = dict(open_)
                o[t] = o.get(t, 0) + (1 if a == "run" else -1)
                yield from rec(h + [(t, a)], o)
    yield from rec([], {})


def make_repo(var, scratch=None):
    from redbird.repos import MemoryRepo, CSVFileRepo
    if var == "csv":
        return CSVFileRepo(filename=os.path.join(scratch, "log.csv"), model=p09.records("MinimalRunRecord"))
    model = p09.records({"dict": "dict", "MinimalRecord": "MinimalRecord"}.get(var, "MinimalRunRecord"))
    return MemoryRepo(model=model) if model else MemoryRepo()


def field(r, k):
    return r.get(k) if isinstance(r, dict) else getattr(r, k, None)


def tt(dt):
    return None if dt is None else lab.ts(dt.replace(tzinfo=None))


def job(a):
    kind, tier, k, n, var = a
    boot.import_rocketry()
    bad, st, cnt = [], 0, 0
    q = tier == "quick"
    scratch = tempfile.mkdtemp(prefix="p07-") if var == "csv" else None
    try:
        depth = {"plain": 5}.get(var, 4) + (not q)
        acts = ACTS if var in ("plain", "dict") else ("run", "success", "fail", "crash")
        for i, h in enumerate(histories(depth, acts)):
            if i % n != k:
                continue
            st += 1
            cnt += one(h, var, bad, scratch)
    finally:
        if scratch:
            shutil.rmtree(scratch, ignore_errors=True)
    return f"logs {var}", st, cnt, bad[:30]


def one(h, var, bad, scratch):
    from rocketry.tasks import FuncTask
    from rocketry import conditions as C
    clock = lab.Clock(BASE)
    if var == "csv" and os.path.exists(os.path.join(scratch, "log.csv")):
        os.unlink(os.path.join(scratch, "log.csv"))
    repo = make_repo(var, scratch)
    recs, t, open_ = [], lab.ts(BASE), {}
    ids = var not in ("dict", "MinimalRecord")
    for j, (task, act) in enumerate(h):
        if var != "same" or j % 2 == 0:
            t += 0.5
        rid = f"{task}{j}" if act == "run" else open_[task].pop(0)
        if act == "run":
            open_.setdefault(task, []).append(rid)
        recs.append((task, act, t, rid))
        kw = dict(created=t, task_name=task, action=act)
        if ids:
            kw["run_id"] = rid
        repo.add(kw if repo.model is dict or var == "dict" else repo.model(**kw))
    key = f"log {' '.join(x + ':' + y for x, y in h) or 'empty'} [{var}]"
    n = 0

    def dump():
        return [(field(r, "task_name"), field(r, "action"), float(field(r, "created")), field(r, "run_id") if ids else None) for r in repo.filter_by().all()]

    crash, status, last = recover(recs)
    before = [(a, b, c, d if ids else None) for a, b, c, d in recs]
    clock.t = t + 100
    s = lab.session(clock, repo=repo)
    # what is known of the past does not depend on how the tasks are set up
    ways = [dict(execution="main"), dict(execution="process", disabled=True), dict(execution="thread", priority=3), dict(execution="async", permanent=True), dict(multilaunch=True, timeout=5)]
    way = {x: ways[(len(h) + i + (h[0][0] == "a" if h else 0)) % len(ways)] for i, x in enumerate("abc")}
    tasks = {x: FuncTask(p09.nothing, name=x, session=s, **way[x]) for x in "abc"}
    for attempt in ("start", "start of the same session", "start of a new process"):
        if attempt == "start of a new process":
            s = lab.session(clock, repo=repo)
            way = {x: ways[(ways.index(v) + 2) % len(ways)] for x, v in way.items()}
            tasks = {x: FuncTask(p09.nothing, name=x, session=s, **way[x]) for x in "abc"}
        try:
            lab.drive(s, clock, [])
        except Exception as exc:
            bad.append((f"{key} {attempt}", f"raised {exc!r}"))
            return n
        n += 1
        got = dump()
        if got[:len(before)] != before:
            bad.append((f"{key} {attempt}", f"records of the past were changed: {got[:len(before)]}"))
        new = sorted(got[len(before):])
        if attempt == "start":
            want = sorted((x, "crash", clock.t, rid if ids else None) for x, rid in crash.items())
            t_crash = clock.t
            for x in crash:
                status[x] = "crash"
                last[x, "crash"] = clock.t
        if [(x, a, r) for x, a, c, r in new] != [(x, a, r) for x, a, c, r in want]:
            bad.append((f"{key} {attempt}", f"new records {new}, should be {want}"))
        for x, task in tasks.items():
            if task.status != status.get(x):
                bad.append((f"{key} {attempt}", f"the status of {x} is {task.status}, by the log {status.get(x)}"))
            for a in ACTS:
                v = tt(getattr(task, f"last_{a}"))
                if v != last.get((x, a)):
                    bad.append((f"{key} {attempt}", f"last_{a} of {x} is {v}, by the log {last.get((x, a))}"))
            for force in (False, True):
                s.config.force_status_from_logs = force
                for cls, acts in list(p09.CLASSES.items()) + [("TaskRunning", None)]:
                    n += 1
                    v = p09.observe(getattr(C, cls)(task=x), s, task, False)
                    if acts is None:
                        # runs without an end, except the one found to have crashed
                        w = ids and force and sum(1 for r in got if r[0] == x and r[1] == "run") > sum(1 for r in got if r[0] == x and r[1] != "run")
                        if not ids and force:
                            continue
                    else:
                        w = any((x, a) in last for a in acts)
                    if v is not w:
                        bad.append((f"{key} {attempt}", f"{cls}({x}) is {v} ({'log' if force else 'cached'}), should be {w}"))
            s.config.force_status_from_logs = False
        clock.t += 50
    return n


# ---- start-up tasks and tasks created later see the past as well --------------------------------------------------

def after_job(a):
    tier, k, n = a
    boot.import_rocketry()
    from redbird.repos import MemoryRepo
    from rocketry.tasks import FuncTask
    from rocketry import conditions as C
    from rocketry.conditions import api
    model = p09.records("MinimalRunRecord")
    bad, st, cnt = [], 0, 0
    conds = {"has succeeded": lambda: C.TaskSucceeded(task="a"), "has crashed": lambda: C.TaskFinished(task="a") == 0, "after fail": lambda: api.after_fail("a"),
             "daily": lambda: api.daily, "every": lambda: api.every("1 hour")}
    for i, (h, (cname, mk), when, prio) in enumerate(itertools.product(histories(3, ACTS, ("a", "t")), conds.items(), ("startup", "cycle", "created later"), (1, -1))):
        if i % n != k:
            continue
        st += 1
        repo = MemoryRepo(model=model)
        clock = lab.Clock(BASE)
        t, recs = lab.ts(BASE), []
        open_ = {}
        for j, (task, act) in enumerate(h):
            t += 1
            rid = f"{task}{j}" if act == "run" else open_[task].pop(0)
            if act == "run":
                open_.setdefault(task, []).append(rid)
            repo.add(model(created=t, task_name=task, action=act, run_id=rid))
            recs.append((task, act, t))
        clock.t = t + 60
        s = lab.session(clock, repo=repo)
        ran = []

        def body():
            ran.append(clock.t)
        FuncTask(p09.nothing, name="a", execution="main", session=s)

        def create():
            return FuncTask(body, name="t", execution="main", session=s, start_cond=mk(), on_startup=when == "startup", priority=prio)

        def each(q):
            if q == 1 and when == "created later":
                create()
        if when != "created later":
            create()
        lab.drive(s, clock, [clock.t + 10 * q for q in range(3)], each)
        cnt += 3
        has = lambda task, *acts: any(x == task and y in acts for x, y, _ in recs)
        last = lambda task, *acts: max((z for x, y, z in recs if x == task and y in acts), default=None)
        if cname == "has succeeded":
            want = has("a", "success")
            many = want and when != "startup"
        elif cname == "has crashed":
            want = not has("a", "success", "fail", "terminate")
            many = want and when != "startup"
        elif cname == "after fail":
            f, r = last("a", "fail"), last("t", "run")
            want, many = f is not None and (r is None or f > r), False
        elif cname == "daily":
            want, many = not has("t", "success", "fail", "terminate", "inaction"), False
        else:
            want, many = not has("t", "run"), False
        ok = (len(ran) >= 1) if many else (len(ran) == (1 if want else 0))
        if not ok or (many and not want):
            bad.append((f"{cname} {when} priority {prio} after the log {' '.join(x + ':' + y for x, y in h)}", f"ran {len(ran)} times, should {'' if want else 'not '}have run"))
    return "conditions after recovery", st, cnt, bad[:30]


# ---- real sessions cut at every record -----------------------------------------------------------------------------

class Cut(Std):
    """A session is run; then each prefix of the log it wrote is given to a new session."""

    def finish(self, w):
        super().finish(w)
        from rocketry import Session
        from rocketry.tasks import FuncTask
        from redbird.repos import MemoryRepo
        from redbird.logging import RepoHandler
        from rocketry.log import MinimalRunRecord
        import logging
        recs = [dict(created=e["created"], task_name=e["task"], action=e["action"], run_id=e["rid"]) for e in logs(w)]
        w.cuts = []
        logger = logging.getLogger("rocketry.task")
        for n in range(len(recs) + 1):
            logger.handlers = []
            repo = MemoryRepo(model=MinimalRunRecord)
            for r in recs[:n]:
                repo.add(MinimalRunRecord(**r))
            s = Session(config=dict(time_func=world.peek_time, func_run_id=world.run_id))
            logger.handlers = [RepoHandler(repo=repo)]
            ts_ = [FuncTask(p09.nothing, name=t.name, execution="main", session=s) for t in self.tasks]
            from rocketry.conditions import AlwaysTrue
            s.config.shut_cond = AlwaysTrue()
            try:
                s.start()
            except BaseException as exc:
                w.cuts.append((n, f"raised {exc!r}", None))
                continue
            w.cuts.append((n, [(r.task_name, r.action, r.run_id) for r in repo.filter_by().all()][n:], {t.name: t.status for t in ts_}))

    def check(self, w):
        bad = returned(w) + lifecycle(w)
        recs = [(e["task"], e["action"], e["created"], e["rid"]) for e in logs(w)]
        for n, new, stat in getattr(w, "cuts", ()):
            pre = sorted(recs[:n], key=lambda r: r[2])
            crash, status, _ = recover(pre)
            want = sorted((x, "crash", rid) for x, rid in crash.items())
            if isinstance(new, str) or sorted(new) != want:
                bad.append(("a crash is not recovered", f"after {[r[:2] for r in recs[:n]]} the new records are {new}, should be {want}"))
                continue
            status.update({x: "crash" for x in crash})
            for x, v in stat.items():
                if v != status.get(x):
                    bad.append(("the status after a crash is wrong", f"after {[r[:2] for r in recs[:n]]} the status of {x} is {v}, should be {status.get(x)}"))
        return bad


def scenarios(tier):
    q = tier == "quick"
    outs = [(0.15, "ok"), (0.0, "fail"), (0.0, "inaction")]
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync")):
        yield Cut(f"{ex} cut", [T("a", ex, body, [{}, {}]), T("b", "process" if ex != "process" else "thread", "sync", [{}])], plans={"a": outs, "b": [(0.1, "ok"), (0.1, "fail")]}, horizon=0.6,
                  total=2 if q else 3, preempt=False, env=[("terminate a", lambda w: w.task["a"].terminate(), 1)], order=False)
    yield Cut("overlapping cut", [T("a", "process", "sync", [{}, {}], kw=dict(multilaunch=True)), T("b", "thread", "sync", [{}, {}], kw=dict(multilaunch=True))], plans={"a": [(0.25, "ok"), (0.1, "fail")], "b": [(0.25, "ok"), (0.1, "fail")]},
              horizon=0.6, total=2 if q else 3, preempt=False, order=False)


def run(ctx):
    n = 8 if ctx.quick else 32
    jobs = [("logs", ctx.tier, k, n, v) for v in ("plain", "dict", "MinimalRecord", "same", "csv") for k in range(n)]
    jobs += [("after", ctx.tier, k, n, None) for k in range(n)]
    for part, st, cnt, bad in pmap(lambda a: job(a) if a[0] == "logs" else after_job((a[1], a[2], a[3])), jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    explore.explore(ctx, scenarios(ctx.tier))
    ctx.sample("log a:run a:success b:run -> the next start adds one crash record, of b, with the id of its run; the start after that none")
    ctx.assume("the log keeps whole records: a record torn by the crash is the repository's (redbird's) matter")
