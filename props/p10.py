"""P10: pipelined tasks run once after each qualifying run."""
import datetime as D
import itertools

from mc import boot, explore
from mc.pool import pmap, cpu_guard, Hang
from .wl import *
from . import lab, p09
from .p08 import cyc

QUAL = {"success": ("success",), "fail": ("fail",), "finish": ("success", "fail")}
WORD = {"success": "succeeded", "fail": "failed", "finish": "finished"}
BASE = D.datetime(2022, 3, 2, 10)


def due(hist, kind, mode, ups, me="t"):
    """The reference: which of the upstream tasks have had a qualifying run since the last start of `me`."""
    start = max((i for i, (who, a) in enumerate(hist) if who == me and a == "run"), default=-1)
    ok = [any(who == u and a in QUAL[kind] for who, a in hist[start + 1:]) for u in ups]
    return (all if mode == "all" else any)(ok)


def forms(kind, mode, ups, own):
    """The same dependency as an API call, a string and a condition object."""
    from rocketry.conditions import api
    from rocketry import conditions as C
    cls = {"success": C.DependSuccess, "fail": C.DependFailure, "finish": C.DependFinish}[kind]
    out = []
    if mode == "one":
        out.append(("object", cls(depend_task=ups[0], task=None if own else "t")))
        if own:
            out.append(("api", getattr(api, f"after_{kind}")(ups[0])))
            out.append(("string", f"after task '{ups[0]}' {WORD[kind]}"))
            if kind == "success":
                out.append(("short string", f"after task '{ups[0]}'"))
    elif own:
        out.append(("api", getattr(api, f"after_{mode}_{kind}")(*ups)))
        names = ", ".join(f"'{u}'" for u in ups)
        out.append(("string", f"after {'any ' if mode == 'any' else ''}tasks {names} {WORD[kind]}"))
    return out


def job(a):
    part, tier, k, n, var = a
    boot.import_rocketry()
    from redbird.repos import MemoryRepo
    from rocketry.parse import parse_condition
    from rocketry.tasks import FuncTask
    q = tier == "quick"
    bad, st, cnt = [], 0, 0
    multi = var == "two"
    if multi:
        pal = [("a", "success"), ("a", "fail"), ("b", "success"), ("b", "fail"), ("t", "run"), ("c", "success")]
        combos = [(kd, m, ups) for kd in QUAL for m in ("all", "any") for ups in (("a", "b"), ("b", "a"), ("a", "b", "c"), ("b",))]
        depth = 4 if q else 5
    else:
        pal = [("a", "run"), ("a", "success"), ("a", "fail"), ("a", "terminate"), ("a", "inaction"), ("t", "run"), ("t", "success"), ("t", "fail"), ("b", "success")]
        combos = [(kd, "one", (u,)) for kd in QUAL for u in ("a",)] + [("success", "one", ("b",))]
        depth = 3 if q else 4
        if var in ("core", "tie"):
            pal = [("a", "success"), ("a", "fail"), ("a", "inaction"), ("t", "run"), ("t", "success")]
            depth = (5 if q else 6) - (var == "tie")
    i = -1
    for m in range(depth + 1):
        for hist in itertools.product(pal, repeat=m):
            i += 1
            if i % n != k:
                continue
            st += 1
            clock = lab.Clock(BASE)
            model = {"dict": None, "MinimalRecord": "MinimalRecord"}.get(var, "MinimalRunRecord")
            repo = MemoryRepo(model=p09.records(model)) if model else MemoryRepo()
            for j, (who, act) in enumerate(hist):
                # the clock may not have moved between the end of a run and the start of the next task
                t = lab.ts(BASE) + 7.5 * (j - (var == "tie" and j > 0 and who == "t" and act == "run" and hist[j - 1][0] != "t"))
                kw = dict(created=t, task_name=who, action=act)
                repo.add(kw if model is None else repo.model(**kw, **({"run_id": f"{who}{j}"} if model == "MinimalRunRecord" else {})))
            s = lab.session(clock, repo=repo)
            tasks = {x: FuncTask(p09.nothing, name=x, execution="main", session=s) for x in "tabc"}
            clock.set(BASE + D.timedelta(seconds=7.5 * 8))
            for kd, mode, ups in combos:
                want = due(hist, kd, mode, ups)
                for own in (True, False):
                    for fname, f in forms(kd, mode, ups, own):
                        if isinstance(f, str):
                            f = parse_condition(f, session=s)
                        for force in (False, True):
                            s.config.force_status_from_logs = force
                            cnt += 1
                            got = p09.observe(f, s, tasks["t"], own)
                            if got is not want:
                                bad.append((f"after {mode} of {ups} {kd} ({fname}{'' if own else ', named task'}{', forced' if force else ''}) of {' '.join(w + ':' + x for w, x in hist) or 'nothing'} [{var}]", f"is {got}, should be {want}"))
    return f"{part} {var}", st, cnt, bad[:40]


# ---- in a running session -------------------------------------------------------------------------------------

class Pipe(Std):
    kind = "success"
    mode = "one"
    ups = ("a",)
    me = "d"

    def build(self, w):
        super().build(w)
        from rocketry.conditions import api
        f = getattr(api, f"after_{self.kind}" if self.mode == "one" else f"after_{self.mode}_{self.kind}")
        w.task[self.me].start_cond = f(*self.ups)
        w.session.hook_scheduler_cycle()(cyc)

    def check(self, w):
        bad = returned(w) + all_dead(w) + lifecycle(w)
        recs, me = [], self.me
        open_, cycle = False, None

        def is_due():
            start = max((e["created"] for e in recs if e["task"] == me and e["action"] == "run"), default=-1)
            ok = [any(e["task"] == u and e["action"] in QUAL[self.kind] and e["created"] > start for e in recs) for u in self.ups]
            return (all if self.mode == "all" else any)(ok)

        for e in w.events:
            if e["k"] == "cycle" and e["at"] == "begin":
                cycle = dict(due=is_due() and not open_, ran=False)
            elif e["k"] == "cycle" and e["at"] == "end" and cycle:
                if cycle["due"] and not cycle["ran"]:
                    bad.append(("a dependent task is not started after a qualifying run", f"the cycle ending {e['t'] - world.T0:.3f}"))
                cycle = None
            elif e["k"] == "log":
                if e["task"] == me and e["action"] == "run":
                    if not is_due():
                        bad.append(("a dependent task is started without a new qualifying run", f"{e['rid']} at {e['t'] - world.T0:.3f} after {[(r['task'], r['action']) for r in recs]}"))
                    if cycle:
                        cycle["ran"] = True
                    open_ = True
                elif e["task"] == me:
                    open_ = False
                recs.append(e)
        return bad


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    execs = (("async", "async"), ("main", "sync"), ("thread", "sync"), ("process", "sync"))
    outs = [(0.12, "ok"), (0.0, "fail"), (0.0, "inaction"), (0.3, "ok")]
    more = [("run a", lambda w: w.task["a"].run(), 2), ("terminate a", lambda w: w.task["a"].terminate(), 1)]
    for ex, body in execs:
        for ex2, body2 in execs:
            kind = {"async": "success", "main": "finish", "thread": "success", "process": "fail"}[ex2] if ex != "process" else "success"
            yield Pipe(f"{ex} then {ex2} ({kind})", [T("a", ex, body, [{}, {}]), T("d", ex2, body2)], kind=kind, plans={"a": outs, "d": [(0.0, "ok"), (0.35, "ok"), (0.1, "fail")]}, horizon=1.2,
                       total=k, preempt=False, env=more, env_max=2, order=False)
    for kind in QUAL:
        for mode in ("all", "any"):
            yield Pipe(f"{mode} {kind}", [T("a", "async", None, [{}, {}]), T("b", "thread", "sync", [{}]), T("d", "async")], kind=kind, mode=mode, ups=("a", "b"),
                       plans={"a": outs, "b": outs, "d": [(0.0, "ok"), (0.35, "fail")]}, horizon=1.0, total=k, preempt=False, env=more + [("run b", lambda w: w.task["b"].run(), 1)], env_max=1 if q else 2, order=False)
    for ex, body in (("thread", "sync"), ("process", "sync")):
        for ex2, body2 in (("async", "async"), ("process", "sync")):
            yield Pipe(f"{ex} then {ex2} preempted", [T("a", ex, body, [{}, {}]), T("d", ex2, body2)], plans={"a": outs[:2] + [(0.0, "ok")], "d": [(0.0, "ok"), (0.2, "ok")]}, horizon=0.7,
                       total=1 if q else 2, order=False)


def run(ctx):
    n = 8 if ctx.quick else 32
    jobs = [("histories", ctx.tier, k, n, v) for v in ("core", "tie", "wide", "two", "dict", "MinimalRecord") for k in range(n)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    explore.explore(ctx, scenarios(ctx.tier))
    ctx.sample("after all of ('a', 'b') success of a:success t:run b:success -> not due (a has not succeeded since t started)")
    ctx.assume("records of different tasks with exactly the same time of creation are not covered: the log does not tell which of them was first")
