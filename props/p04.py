"""P04: the process limit is never exceeded and no due process task starves."""
from mc import explore
from .wl import *


def procs(w):
    return sum(1 for a in w.actors[1:] if a.kind == "process" and a.state != "dead")


def cycle():
    w = world.CUR
    w.nopoint += 1
    try:
        due = [n for n, t in w.task.items() if t.execution == "process" and t.batches and (not t.is_alive() or t.multilaunch)]
        other = [n for n, t in w.task.items() if t.execution != "process" and t.batches and not t.is_alive()]
        w.ev("cycle", at="begin", alive=procs(w), due=due, other=other)
    finally:
        w.nopoint -= 1
    yield
    w.ev("cycle", at="end")


class Cap(Std):
    cap = 1
    horizon = 6.0

    def build(self, w):
        self.config = dict(self.config, max_process_count=self.cap)
        super().build(w)
        w.session.hook_scheduler_cycle()(cycle)

    def on_idle(self, w):
        if not w.shut and not w.session.scheduler._flag_shutdown._flag and not any(t.batches for t in w.task.values()) and not any(a.state != "dead" for a in w.actors[1:]) and not w.async_waits:
            w.shut = True
            w.session.shut_down()

    def env(self, w):
        return [] if w.shut else super().env(w)

    def check(self, w):
        bad = returned(w) + all_dead(w) + lifecycle(w)
        alive = 0
        kinds = {t.name: t.exec for t in self.tasks}
        snap = None
        for e in w.events:
            if e["k"] == "spawn" and e["kind"] == "process":
                alive += 1
                if alive > self.cap:
                    bad.append(("more processes are alive than allowed", f"{alive} > {self.cap} when {e['rid']} starts"))
            elif e["k"] == "dead" and e["kind"] == "process":
                alive -= 1
            elif e["k"] == "cycle" and e["at"] == "begin":
                snap, started = e, []
            elif e["k"] == "log" and e["action"] == "run" and snap is not None:
                started.append(e["task"])
            elif e["k"] == "cycle" and e["at"] == "end" and snap is not None:
                n = sum(kinds[t] == "process" for t in started)
                free = min(self.cap - snap["alive"], len(snap["due"]))
                if n < free:
                    bad.append(("a due process task is left waiting though there is capacity", f"alive {snap['alive']} of {self.cap}, due {snap['due']}, started {started}"))
                if any(t not in started for t in snap["other"]):
                    bad.append(("a task of another execution type is delayed by the process limit", f"due {snap['other']}, started {started}"))
                snap = None
        if hasattr(w, "final"):
            for n, f in w.final.items():
                if f["batches"]:
                    bad.append(("a queued run is never executed", f"{n}: {f['batches']} left after {self.horizon} s"))
        want = {t.name: len(t.batches) for t in self.tasks}
        for e in w.events:
            if e["k"] == "env" and e["op"].startswith("run "):
                want[e["op"][4:]] += 1
        for n, k in want.items():
            got = sum(e["action"] == "run" for e in logs(w, n))
            if got != k:
                bad.append(("a queued run is not executed exactly once", f"{n}: queued {k}, executed {got}"))
        return bad


def scenarios(tier):
    q = tier == "quick"
    k = 1 if q else 2
    env = [("terminate a", lambda w: w.task["a"].terminate(), 1), ("terminate b", lambda w: w.task["b"].terminate(), 1),
           ("run c", lambda w: w.task["c"].run(), 1)]
    plans = {n: [(0.25, "ok"), (0.0, "fail")] for n in "abc"}
    for cap in (1, 2, 3):
        yield Cap(f"limit {cap}, three tasks with queued runs", [T(n, "process", None, [{}] * m) for n, m in (("a", 2), ("b", 1), ("c", 1))], cap=cap,
                  plans=plans, env=env, env_max=2, total=k, budgets={})
        yield Cap(f"limit {cap}, overlapping runs", [T("a", "process", None, [{}] * 3, kw=dict(multilaunch=True)), T("b", "process", None, [{}]), T("c", "process", None, [{}])],
                  cap=cap, plans=plans, env=env, env_max=1, total=k)
        yield Cap(f"limit {cap}, with other executions", [T("a", "process", None, [{}]), T("b", "process", None, [{}]), T("c", "thread", "sync", [{}, {}]), T("d", "async", None, [{}, {}]), T("e", "main", None, [{}])],
                  cap=cap, plans=dict(plans, d=[(0.15, "ok")]), env=env, env_max=1, total=k)
        yield Cap(f"limit {cap}, outcomes and operations", [T(n, "process", None, [{}] * m) for n, m in (("a", 2), ("b", 2), ("c", 1))], cap=cap,
                  plans={n: [(0.25, "ok"), (0.0, "fail"), (0.35, "inaction")] for n in "abc"}, env=env, env_max=2, total=2 if q else 3, preempt=False, order=False, early=False)
        yield Cap(f"limit {cap}, timeouts", [T(n, "process", None, [{}] * m, kw=dict(timeout=0.3)) for n, m in (("a", 2), ("b", 1), ("c", 1))], cap=cap,
                  plans={n: [(0.45, "ok"), (0.1, "ok")] for n in "abc"}, total=k)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
