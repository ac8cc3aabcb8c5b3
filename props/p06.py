"""P06: shutting down finishes or terminates everything and leaves nothing alive."""
from mc import explore
from .wl import *

LATE = 0.25


def mark(k):
    w = world.CUR
    alive = [a.rid for a in w.actors[1:] if a.state != "dead" and a.kind != "user"] + list(w.live)
    w.ev("mark", at=k, alive=alive)


def on_start():
    w = world.CUR
    w.shut, w.horizon = False, w.clock + w.sc.horizon
    w.data["up"] = True
    mark("startup")
    yield
    mark("started")


def on_cycle():
    mark("cycle")


def on_shut():
    mark("shutdown")
    yield
    mark("shut")


def by_task(ev):
    return {e["task"] for e in ev if e["k"] == "log" and e["action"] == "run"}


class Shut(Std):
    fatal = ()              # ops after which the session must raise
    runs_again = 0          # number of times the session is started again
    permanent = ()
    pre = None

    def build(self, w):
        w.data.update(fatal=None, shut_cond=False)
        super().build(w)
        s = w.session
        s.hook_startup()(on_start)
        s.hook_scheduler_cycle()(on_cycle)
        s.hook_shutdown()(on_shut)

    def fine_env(self, w):
        return self.env(w) if w.data.get("up") else []

    def drive(self, w):
        import os
        import subprocess
        execs = [n for n in dir(os) if n.startswith("exec")]
        saved = {n: getattr(os, n) for n in execs}
        popen = subprocess.Popen

        def record(*a, **k):
            w.ev("mark", at="relaunch", alive=[a.rid for a in w.actors[1:] if a.state != "dead"])
        for n in execs:
            setattr(os, n, record)
        subprocess.Popen = record
        try:
            for i in range(1 + self.runs_again):
                if i:
                    w.data.update(fatal=None, shut_cond=False)
                    for t in self.tasks:
                        if t.batches:
                            w.task[t.name].run()
                w.ev("mark", at="start()", alive=[])
                try:
                    w.session.start()
                    w.ev("mark", at="returned", alive=[])
                except Exception as exc:
                    w.ev("mark", at="raised", alive=[], exc=repr(exc))
                    if i == self.runs_again:
                        raise
        finally:
            subprocess.Popen = popen
            for n, f in saved.items():
                setattr(os, n, f)

    def ordinary(self):
        return {t.name for t in self.tasks if not t.kw.get("on_shutdown") and not t.kw.get("on_startup")}

    def listens(self, name):
        t = next(t for t in self.tasks if t.name == name)
        if t.exec == "main" or (t.exec == "thread" and t.body == "sync"):
            return False
        return not any(o == "ignore" for _, o in self.plans.get(name, []))

    def check(self, w):
        multi = tuple(t.name for t in self.tasks if t.kw.get("multilaunch"))
        bad = lifecycle(w, multi) + all_dead(w) + exclusive(w, multi)
        marks = [e for e in w.events if e["k"] == "mark"]
        fatal_seen = any(e["k"] == "fatal" and e["how"] == "error" for e in w.events)
        # split into sessions: each begins with start() or, after a restart, with a further startup
        segs, cur = [], None
        for i, e in enumerate(w.events):
            if e["k"] == "mark" and e["at"] == "startup":
                cur = {"ev": [], "i": i}
                segs.append(cur)
            if cur is not None:
                cur["ev"].append(e)
        starts = sum(e["at"] == "start()" for e in marks)
        ends = [e for e in marks if e["at"] in ("returned", "raised")]
        if len(ends) != starts:
            return bad + [("the session did not end", f"{starts} starts, {len(ends)} ends: {w.result}")]
        restarts = 0
        shut_tasks = [t.name for t in self.tasks if t.kw.get("on_shutdown") and not t.kw.get("disabled")]
        start_tasks = [t.name for t in self.tasks if t.kw.get("on_startup") and not t.kw.get("disabled")]
        for n, seg in enumerate(segs):
            ev = seg["ev"]
            ms = [e["at"] for e in ev if e["k"] == "mark" and e["at"] in ("startup", "started", "shutdown", "shut")]
            if ms != ["startup", "started", "shutdown", "shut"]:
                bad.append(("start-up and shutdown hooks do not run once each", f"session {n}: {ms}"))
                continue
            i_shut = next(i for i, e in enumerate(ev) if e["k"] == "mark" and e["at"] == "shutdown")
            i_end = next(i for i, e in enumerate(ev) if e["k"] == "mark" and e["at"] == "shut")
            if ev[i_end]["alive"]:
                bad.append(("runs are alive when the shutdown is complete", f"session {n}: {ev[i_end]['alive']}"))
            t_shut = ev[i_shut]["t"]
            # when the shutdown was requested and how
            req, forced, restart, graceful = None, None, False, False
            if self.config.get("instant_shutdown"):
                forced = t_shut
            for i, e in enumerate(ev[:i_end]):
                how = None
                if e["k"] == "env":
                    how = {"shut down": "graceful", "horizon": "graceful", "shut cond": "cond", "force": "force", "restart": "restart"}.get(e["op"])
                    if how == "graceful" and graceful:
                        how = "force"       # asking twice
                elif e["k"] == "exit" and e["how"] in ("restart", "sysexit"):
                    how = {"restart": "restart", "sysexit": "exit"}[e["how"]]
                    if i > i_shut and how == "restart":
                        continue
                elif e["k"] == "fatal":
                    how = "fatal"
                if how is None:
                    continue
                if how == "graceful":
                    graceful = True
                if how == "force":
                    graceful = True
                    forced = min(forced or 1e12, max(e["t"], t_shut))
                if how in ("exit", "fatal"):
                    forced = min(forced or 1e12, max(e["t"], t_shut))
                if how == "restart" and i < i_shut and req is None:
                    # a shut down asked for after the restart wins over it
                    later = any(x["k"] == "env" and x["op"] in ("shut down", "force", "horizon") for x in ev[i:i_end])
                    restart = "may" if later else "must"
                if req is None or i < req:
                    req = i
            if req is None:
                bad.append(("the session ended by itself", f"session {n}"))
                continue
            # SchedulerRestart wins only if the scheduler saw it before a shutdown request
            cycles_after = sum(1 for e in ev[req:] if e["k"] == "mark" and e["at"] == "cycle")
            allowed = 1 if self.env_fine else 0
            if any(e["k"] == "env" and e["op"] == "shut cond" for e in ev[req:req + 1]):
                allowed = 1        # looked at between cycles
            if any(e["k"] == "env" and e["op"] in ("restart",) for e in ev[req:req + 1]) and self.env_fine:
                allowed = 2
            if cycles_after > allowed:
                bad.append(("a cycle is begun after the shutdown was requested", f"session {n}: {cycles_after}"))
            open_cycle = False
            for i, e in enumerate(ev):
                if e["k"] == "mark" and e["at"] == "cycle":
                    open_cycle = True
                if e["k"] == "log" and e["action"] == "run" and e["task"] in self.ordinary():
                    if i > i_shut or not open_cycle:
                        bad.append(("an ordinary task is started outside the cycles", f"session {n}: {e['rid']}"))
                    elif i > req and not allowed and self.strict:
                        bad.append(("an ordinary task is started after the shutdown was requested", f"session {n}: {e['rid']}"))
            for name in shut_tasks:
                got = [i for i, e in enumerate(ev) if e["k"] == "log" and e["task"] == name and e["action"] == "run"]
                if len(got) != 1 or not i_shut < got[0] < i_end:
                    bad.append(("a shut-down task does not run exactly once at shutdown", f"session {n}: {name} {len(got)} times"))
            for t in self.tasks:
                if t.kw.get("disabled") and t.name in by_task(ev):
                    bad.append(("a disabled task is run", f"session {n}: {t.name}"))
            for name in start_tasks:
                got = [i for i, e in enumerate(ev) if e["k"] == "log" and e["task"] == name and e["action"] == "run"]
                if len(got) != 1:
                    bad.append(("a start-up task does not run exactly once", f"session {n}: {name} {len(got)} times"))
            # what became of the runs that were in progress
            by = {}
            for e in ev:
                if e["k"] == "log":
                    by.setdefault(e["rid"], []).append(e)
            nat = {e["rid"]: e["t"] for e in ev if e["k"] == "exit" and e["how"] in ("ok", "fail", "inaction")}
            for rid, es in by.items():
                if len(es) != 2:
                    continue
                name, end, act = es[0]["task"], es[1]["created"], es[1]["action"]
                late = LATE + slow(w, rid)
                if end < t_shut - late:
                    if act == "terminate":
                        bad.append(("a run is terminated before the shutdown", f"session {n}: {rid}"))
                    continue
                perm = name in self.permanent
                due = forced if not perm else t_shut
                if due is None or end < due - 0.1:
                    if act == "terminate":
                        bad.append(("a graceful shutdown does not let a run finish", f"session {n}: {rid} terminated at {end - world.T0:.3f}, shutdown {t_shut - world.T0:.3f}, forced {forced}"))
                elif self.listens(name):
                    t = nat.get(rid)
                    if not (t is not None and t <= due + late) and (act != "terminate" or end > due + late + (0.3 if name in shut_tasks else 0)):
                        bad.append(("a run is not terminated by an instant shutdown", f"session {n}: {rid} {act} at {end - world.T0:.3f}, forced at {due - world.T0:.3f}"))
            if restart == "must":
                restarts += 1
                kind = self.config.get("restarting", "replace")
                nxt = [e for e in ev[i_end:] if e["k"] == "mark" and e["at"] == "relaunch"]
                if kind == "recall":
                    again = n + 1 < len(segs) and not any(e["k"] == "mark" and e["at"] in ("returned", "raised") for e in ev)
                    if not again and not forced:
                        bad.append(("a restart does not start over", f"session {n}"))
                elif len(nxt) != 1:
                    bad.append(("a restart does not relaunch the program once", f"session {n}: {len(nxt)}"))
            elif not restart and any(e["k"] == "mark" and e["at"] == "relaunch" for e in ev):
                bad.append(("the program is relaunched without a restart", f"session {n}"))
        want = "raised" if fatal_seen else "returned"
        got = {e["at"] for e in ends}
        if fatal_seen and "raised" not in got:
            bad.append(("a fatal error is swallowed", f"{[e['at'] for e in ends]}"))
        if not fatal_seen and "raised" in got:
            bad.append(("the session ends with an error", f"{[e.get('exc') for e in ends]}"))
        return bad

    strict = True


class Boom(Exception):
    pass


def bad_cond(w):
    kind = w.data.get("fatal")
    if kind:
        w.data["fatal"] = None
        w.ev("fatal", how={"error": "error"}.get(kind, "quiet"))
        if kind == "error":
            raise Boom("condition")
        if kind == "exit":
            raise SystemExit("condition")
        raise KeyboardInterrupt("condition")
    return False


SHUT = ("shut down", lambda w: w.session.shut_down(), 2)
FORCE = ("force", lambda w: w.session.shut_down(force=True), 1)
RESTART = ("restart", lambda w: w.session.restart(), 1)
COND = ("shut cond", lambda w: w.data.update(shut_cond=True), 1)


def FATAL(kind):
    return (f"fatal {kind}", lambda w: w.data.update(fatal=kind), 1)


def hooked_shut_cond(w, s):
    s.config.shut_cond = make_cond(lambda w_: w.data["shut_cond"], w)


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    mixed = [T("a", "async", None, [{}]), T("b", "thread", "flag", [{}]), T("c", "process", None, [{}]), T("d", "async", None, [{}, {}])]
    plans = {"a": [(0.35, "ok"), (0.2, "fail")], "b": [(0.35, "ok"), (0.2, "inaction")], "c": [(0.35, "ok"), (0.2, "fail")], "d": [(0.15, "ok")]}
    sd = [T("e", "main", None, kw=dict(on_shutdown=True)), T("f", "async", None, kw=dict(on_shutdown=True)), T("g", "thread", "flag", kw=dict(on_shutdown=True)),
          T("h", "process", None, kw=dict(on_shutdown=True))]
    sp = {"e": [(0.0, "ok"), (0.0, "fail")], "f": [(0.1, "ok"), (0.0, "fail")], "g": [(0.1, "ok")], "h": [(0.1, "ok"), (0.1, "fail")]}
    for inst in (False, True):
        nm = "instant" if inst else "graceful"
        yield Shut(f"{nm}: four executions", mixed, plans=plans, config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.3, total=k, preempt=False)
        yield Shut(f"{nm}: shut-down tasks", mixed[:3] + sd, plans={**plans, **sp}, config=dict(instant_shutdown=inst, max_process_count=4), env=[SHUT, FORCE], env_max=2, horizon=0.25, total=k, preempt=False, order=False)
        for ex, body in (("async", "async"), ("thread", "flag"), ("process", "sync"), ("thread", "sync")):
            yield Shut(f"{nm}: {ex} {body}", [T("a", ex, body, [{}, {}]), T("e", ex, body, kw=dict(on_shutdown=True))], plans={"a": [(0.35, "ok"), (0.25, "fail")], "e": [(0.1, "ok"), (0.0, "fail")]},
                       config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.25, total=k, budgets={"preempt": 1, "body": 1})
        yield Shut(f"{nm}: permanent", [T("a", "async", None, [{}], kw=dict(permanent=True)), T("b", "thread", "flag", [{}], kw=dict(permanent=True)), T("c", "process", None, [{}], kw=dict(permanent=True)), T("d", "async", None, [{}])],
                   permanent="abc", plans={"a": [(9, "ok")], "b": [(9, "ok")], "c": [(9, "ok")], "d": [(0.5, "ok")]}, config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.3, total=k, preempt=False, early=False)
        for ex, body in (("async", "async"), ("thread", "flag"), ("process", "sync")):
            yield Shut(f"{nm}: permanent shut-down task, {ex}", [T("a", ex, body, [{}], kw=dict(permanent=True, on_shutdown=True)), T("b", "async", None, [{}])], permanent="a",
                       plans={"a": [(9, "ok"), (0.1, "ok")], "b": [(0.3, "ok")]}, config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.3, total=k, preempt=False, early=False)
        yield Shut(f"{nm}: disabled start-up and shut-down tasks", mixed[:1] + sd[:1] + [T("f", "async", None, kw=dict(on_shutdown=True, disabled=True)), T("g", "thread", "flag", kw=dict(on_startup=True, disabled=True)), T("h", "async", None, kw=dict(on_startup=True))],
                   plans={**plans, **sp}, config=dict(instant_shutdown=inst, restarting="recall"), env=[SHUT, FORCE, RESTART], env_max=2, horizon=0.3, total=k, preempt=False, order=False)
        for kind in ("error", "exit", "interrupt"):
            yield Shut(f"{nm}: {kind} in a condition", mixed[:3] + sd[:2] + [T("d", "async", None, cond=bad_cond)], plans={**plans, **sp}, config=dict(instant_shutdown=inst), env=[FATAL(kind), SHUT], env_max=2, horizon=0.35, total=k, preempt=False, order=False, strict=False)
        for out in ("exit", "restart"):
            yield Shut(f"{nm}: {out} raised by a task", mixed[:3] + sd[:2] + [T("d", "main", None, cond=lambda w: w.data.pop("go", False))], plans={**plans, **sp, "d": [(0.0, out)]},
                       config=dict(instant_shutdown=inst, restarting="recall"), env=[("go", lambda w: w.data.update(go=True), 2), SHUT], env_max=2, horizon=0.5, total=2, preempt=False, order=False, strict=False, hard=20)
        yield Shut(f"{nm}: restart by recall", mixed + sd[:2] + [T("h", "async", None, kw=dict(on_startup=True))], plans={**plans, **sp}, config=dict(instant_shutdown=inst, restarting="recall"), env=[RESTART, SHUT, FORCE], env_max=2, horizon=0.6, total=k, preempt=False, order=False)
        for how in ("replace", "relaunch", "fresh"):
            yield Shut(f"{nm}: restart by {how}", mixed[:3] + sd[:1], plans={**plans, **sp}, config=dict(instant_shutdown=inst, restarting=how), env=[RESTART, SHUT], env_max=2, horizon=0.4, total=2, preempt=False, order=False)
        yield Shut(f"{nm}: shut condition", mixed[:3] + sd[:2], plans={**plans, **sp}, config=dict(instant_shutdown=inst), hooks=hooked_shut_cond, env=[COND, FORCE], env_max=2, horizon=0.3, total=k, preempt=False, order=False, strict=False)
        yield Shut(f"{nm}: started again", mixed[:3] + sd[:1], plans={**plans, **sp}, config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.25, total=k, preempt=False, order=False, runs_again=1)
        for ex, body in (("async", "async"), ("thread", "flag"), ("process", "sync")):
            yield Shut(f"{nm}: overlapping {ex} runs", [T("a", ex, body, [{}, {}, {}], kw=dict(multilaunch=True)), T("b", "async", None, [{}])], plans={"a": [(0.45, "ok"), (0.05, "fail"), (0.25, "ok")], "b": [(0.3, "ok")]},
                       config=dict(instant_shutdown=inst), env=[SHUT, FORCE], env_max=2, horizon=0.35, total=k, preempt=False, order=False)
    yield Shut("request at any moment", [T("a", "thread", "flag", [{}, {}]), T("b", "process", None, [{}])], plans={"a": [(0.15, "ok")], "b": [(0.15, "ok")]}, env=[SHUT, FORCE, RESTART], env_max=2, env_fine=True, config=dict(restarting="recall"),
               horizon=0.4, total=1 if q else 2, strict=False)
    yield Shut("threads that do not listen", [T("a", "thread", "flag", [{}]), T("b", "thread", "sync", [{}])], plans={"a": [(0.5, "ignore")], "b": [(0.5, "ok")]}, env=[SHUT, FORCE], env_max=2, horizon=0.3, total=k, preempt=False)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
