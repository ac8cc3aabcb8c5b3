"""P12: a task scheduled once per period runs exactly once in every period."""
import datetime as D
import itertools

from mc import boot, explore
from mc.pool import pmap
from .wl import *
from . import lab, p09, timeref
from .p08 import cyc

DT, TD = D.datetime, D.timedelta
NAME = {"second": "secondly", "minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}


def val(unit, arg):
    for v in timeref.values(unit) + timeref.more_values(unit):
        if v.arg == arg and type(v.arg) is type(arg):
            return v
    raise KeyError((unit, arg))


def specs(tier):
    """(Spec, base moment)"""
    S = timeref.Spec
    P = {
        "second": (DT(2022, 12, 31, 23, 59, 58), [("full",), ("between", 250, 500), ("after", 500), ("before", 250), ("starting", 500)]),
        "minute": (DT(2022, 12, 31, 23, 58, 0), [("full",), ("between", "15", "45"), ("between", "45", "15"), ("after", 30), ("before", "15"), ("starting", "45"), ("at", "15")]),
        "hour": (DT(2024, 2, 28, 22), [("full",), ("between", "15:00", "45:30"), ("between", "45:30", "15:00"), ("after", "45:30"), ("before", "15:00"), ("starting", "15:00"), ("at", "29:59")]),
        "day": (DT(2024, 2, 27), [("full",), ("between", "10:00", "23:00"), ("between", "20:15", "06:00"), ("after", "23:30"), ("before", "06:00"), ("starting", "10:00"), ("at", "12:00"), ("between", "10:00", "10:30"), ("after", 12), ("starting", "23:59:59")]),
        "week": (DT(2024, 2, 19), [("full",), ("between", "Mon", "Fri"), ("between", "Fri", "Mon"), ("after", "Wed"), ("before", "Tue 10:00"), ("starting", "Wed"), ("at", "Sun"), ("at", "Mon"), ("between", "Sat 10:00", "Sun 10:00")]),
        "month": (DT(2023, 12, 1), [("full",), ("between", "3rd", "10th"), ("between", "28th", "3rd"), ("after", "15th"), ("before", "2nd"), ("starting", "15th"), ("starting", "29th"), ("at", "1st"), ("at", "31st"), ("after", "31st"), ("between", "29th", "30th")]),
    }
    for unit, (base, kinds) in P.items():
        for k, *args in kinds:
            vs = [val(unit, a) for a in args]
            if k == "before":
                vs = [None] + vs
            yield S(unit, k, *vs), base
        if tier != "quick":
            have = {(k, *map(str, a)) for k, *a in kinds}
            for v in timeref.values(unit):
                yield S(unit, "starting", v), base
                yield S(unit, "after", v), base


def forms(spec):
    """The schedule by the API and as a string."""
    from rocketry.conditions import api
    w = getattr(api, NAME[spec.unit])
    k = spec.kind
    if k == "full":
        return [w, NAME[spec.unit]]
    if k == "between":
        return [w.between(spec.a.arg, spec.b.arg), f"{NAME[spec.unit]} between {spec.a.arg} and {spec.b.arg}" if isinstance(spec.a.arg, str) and isinstance(spec.b.arg, str) else None]
    if k == "before":
        return [w.before(spec.b.arg), f"{NAME[spec.unit]} before {spec.b.arg}" if isinstance(spec.b.arg, str) else None]
    a = spec.a.arg
    return [{"after": w.after, "starting": w.starting, "at": w.at}[k](a), f"{NAME[spec.unit]} {'on' if k == 'at' else k} {a}" if isinstance(a, str) else None]


def occurrences(spec, base, n):
    occ = [(s, e) for s, e in spec.intervals(spec.shift(spec.cycle_start(base), 2)) if s >= base]
    occ += [(s, e) for s, e in spec.intervals(spec.shift(spec.cycle_start(base), 6)) if s > occ[-1][0]] if len(occ) < n else []
    return occ[:n]


PATTERNS = [(), ("eps",), ("mid",), ("late",), ("start",), ("eps", "mid", "late"), ("start", "eps", "mid")]
BODIES = [("ok", 0), ("fail", 0.1), ("inaction", 0.1), ("terminate", 0), ("ok", 0.4)]


def moments(occ, pats):
    """[(moment, number of the occurrence or None)]"""
    out = []
    for i, ((s, e), p) in enumerate(zip(occ, pats)):
        eps = (e - s) / 64
        for x in p:
            out.append(({"start": s, "eps": s + eps, "mid": s + (e - s) / 2, "late": e - eps}[x], i))
        if i + 1 < len(occ) and occ[i + 1][0] > e:
            gap = occ[i + 1][0] - e
            out.append((e + gap / 64, None))
            out.append((e + gap / 2, None))
    return out


class Late(list):
    """The clock only goes forward."""
    clock = None

    def __getitem__(self, q):
        return max(lab.ts(list.__getitem__(self, q)), self.clock.t)


def drive_task(cond, marks, out, dur, occ, fresh, tz=None, other=False, mx=None):
    """Run a task with the condition through the cycles; returns the indices of the cycles that ran it."""
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRunRecord
    from rocketry.tasks import FuncTask
    from rocketry.exc import TaskInactionException, TaskTerminationException
    shift = tz or TD(0)
    clock = lab.Clock(marks[0][0] - shift) if marks else lab.Clock(DT(2022, 1, 1))
    repo = MemoryRepo(model=MinimalRunRecord)
    ran, state = [], {"i": None}

    def body():
        ran.append(state["i"])
        i = marks[state["i"]][1]
        if dur and i is not None:
            left = lab.ts(occ[i][1] - shift) - clock.t
            clock.t += min(dur * (occ[i][1] - occ[i][0]).total_seconds(), left / 2)
        elif dur and mx:
            clock.t += dur * mx
        if out == "fail":
            raise RuntimeError("expected")
        if out == "inaction":
            raise TaskInactionException()
        if out == "terminate":
            raise TaskTerminationException()

    def noise():
        pass

    cfg = {"timezone": D.timezone(tz)} if tz else {}
    groups = [[i] for i in range(len(marks))] if fresh else [list(range(len(marks)))]
    for g in groups:
        s = lab.session(clock, repo=repo, **cfg)
        FuncTask(body, name="t", start_cond=cond, execution="main", session=s)
        if other:
            FuncTask(noise, name="o", start_cond="true", execution="main", session=s, priority=5)
        m = Late(marks[i][0] - shift for i in g)
        m.clock = clock

        def each(j, g=g):
            state["i"] = g[j]
        lab.drive(s, clock, m, each)
    return ran


def calendar_job(tier, k, n):
    q = tier == "quick"
    bad, st, cnt = [], 0, 0
    i = -1
    m = 3
    for spec, base in specs(tier):
        fs = forms(spec)
        occ = occurrences(spec, base, m)
        pats = PATTERNS
        for p in itertools.product(pats, repeat=m):
            marks = moments(occ, p)
            for b, (out, dur) in enumerate(BODIES):
                i += 1
                if i % n != k or not marks:
                    continue
                if q and b != (i // len(BODIES)) % len(BODIES) and not (p[1] == p[2] == ("eps", "mid", "late")):
                    continue
                fresh = bool((i // len(BODIES)) % 2)
                tz = TD(hours=5, minutes=30) if i % 7 == 3 else None
                cond = fs[i % 2] if fs[1] is not None else fs[0]
                other = i % 3 == 0
                ran = drive_task(cond, marks, out, dur, occ, fresh, tz, other)
                st += 1
                cnt += len(marks)
                want = []
                for o in range(m):
                    mine = [j for j, (t, x) in enumerate(marks) if x == o]
                    if mine and marks[mine[0]][0] == occ[o][0] and mine[0] not in ran:
                        mine = mine[1:]      # exactly at the first instant the previous period may still count (see DESIGN)
                    want += mine[:1]
                if ran != want:
                    fm = lambda js: [marks[j][0].strftime("%m-%d %H:%M:%S.%f") for j in js]
                    bad.append((f"{NAME[spec.unit]} {spec!r} cycles {p} {out} {dur}{' restarts' if fresh else ''}{' tz' if tz else ''}", f"ran at {fm(ran)}, should have at {fm(want)}"))
    return "calendar", st, cnt, bad[:30]


def every_job(tier, k, n):
    """every('X'): consecutive cycles with all gap patterns."""
    from rocketry.conditions import api
    q = tier == "quick"
    bad, st, cnt = [], 0, 0
    X = {"10 seconds": 10, "2 min 30 s": 150, "1 hour": 3600, "1 day": 86400, "100 ms": 0.1, "1h 30min": 5400, "2.5 seconds": 2.5}
    gaps = (0.4, 0.95, 1.05, 2.6)
    i = -1
    for text, secs in X.items():
        for g in itertools.product(gaps, repeat=4 if q else 6):
            for based, (out, dur) in itertools.product(("run", "success", "fail", "finish"), BODIES):
                i += 1
                if i % n != k or (q and (i // 20) % 3 != (i % 20) % 3):
                    continue
                t, marks = DT(2022, 12, 31, 23, 0, 0), []
                for x in (0,) + g:
                    t += TD(seconds=x * secs)
                    marks.append((t, None))
                cond = api.every(text, based=based) if based != "run" or i % 2 else f"every {text}"
                dur_s = dur * secs * 0.5
                ran = drive_task(cond, marks, out, dur * 0.5, [], bool(i % 3 == 1), None, bool(i % 2), mx=secs)
                st += 1
                cnt += len(marks)
                acts = {"run": None, "success": ("ok",), "fail": ("fail",), "finish": ("ok", "fail", "inaction", "terminate")}[based]
                want, last, now = [], None, None
                for j, (t, _) in enumerate(marks):
                    now = t if now is None else max(now, t)
                    if last is None or (now - last).total_seconds() > secs:
                        want.append(j)
                        start = now
                        now += TD(seconds=dur_s)
                        if acts is None:
                            last = start
                        elif out in acts:
                            last = now
                if ran != want:
                    bad.append((f"every {text} based on {based}, gaps {g} {out} {dur}", f"ran in the cycles {ran}, should have in {want}"))
    return "every", st, cnt, bad[:30]


def job(a):
    kind, tier, k, n = a
    boot.import_rocketry()
    return {"calendar": calendar_job, "every": every_job}[kind](tier, k, n)


# ---- every execution ---------------------------------------------------------------------------------------------

class Often(Std):
    what = ("every", "300 ms", "run")

    def build(self, w):
        super().build(w)
        from rocketry.conditions import api
        w.task["a"].start_cond = api.every(self.what[1], based=self.what[2]) if self.what[0] == "every" else api.secondly
        w.session.hook_scheduler_cycle()(cyc)

    def check(self, w):
        bad = returned(w) + all_dead(w) + lifecycle(w)
        last, open_, cycle = None, False, None
        every = self.what[0] == "every"
        acts = {"run": ("run",), "success": ("success",), "finish": TERMINAL}[self.what[2]] if every else TERMINAL

        def is_due(t):
            if last is None:
                return True
            return t - last > 0.3 if every else int(t) > int(last)
        for e in w.events:
            if e["k"] == "cycle" and e["at"] == "begin":
                cycle = dict(due=is_due(e["t"]) and not open_, ran=False)
            elif e["k"] == "cycle" and cycle:
                if cycle["due"] and not cycle["ran"]:
                    bad.append(("a task is not started in its period", f"the cycle ending {e['t'] - world.T0:.3f}, last {last and last - world.T0}"))
                cycle = None
            elif e["k"] == "log" and e["task"] == "a":
                if e["action"] == "run":
                    if not is_due(e["created"]):
                        bad.append(("a task is started twice in its period", f"{e['rid']} at {e['created'] - world.T0:.3f}, last {last - world.T0:.3f}"))
                    open_ = True
                    if cycle:
                        cycle["ran"] = True
                else:
                    open_ = False
                if e["action"] in acts:
                    last = e["created"]
        return bad


def scenarios(tier):
    q = tier == "quick"
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync")):
        for what in (("every", "300 ms", "run"), ("every", "300 ms", "finish"), ("every", "300 ms", "success"), ("secondly",)):
            h = 1.2 if what[0] == "every" else 2.6
            yield Often(f"{ex} {' '.join(what)}", [T("a", ex, body), T("b", "async", None, [{}, {}])], what=what, plans={"a": [(0.0, "ok"), (0.15, "fail"), (0.35, "ok"), (0.0, "inaction")], "b": [(0.1, "ok"), (0.0, "fail")]},
                        horizon=h, total=2 if q else 3, preempt=False, env=[("terminate a", lambda w: w.task["a"].terminate(), 1)], order=False)
    for ex, body in (("thread", "sync"), ("process", "sync")):
        yield Often(f"{ex} preempted", [T("a", ex, body)], what=("every", "300 ms", "run"), plans={"a": [(0.0, "ok"), (0.15, "fail")]}, horizon=0.9, total=1 if q else 2, order=False)


def run(ctx):
    n = 32 if ctx.quick else 64
    jobs = [(kd, ctx.tier, k, n) for kd in ("calendar", "every") for k in range(n)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    explore.explore(ctx, scenarios(ctx.tier))
    ctx.sample("daily between 20:15 and 06:00: cycles early, in the middle and late in three nights -> one run a night")
    ctx.assume("exactly at the first instant of a period the run of the previous one may still count, delaying the task by one cycle")
