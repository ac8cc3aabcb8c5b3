"""P01: at most one run of a task at a time, unless multiple launches are allowed."""
from mc import explore
from .wl import *


class Excl(Std):
    multi = ()
    want_overlap = ()

    def on_idle(self, w):
        # the public liveness queries agree with what is really in progress
        w.nopoint += 1
        try:
            for name, t in w.task.items():
                real = sum(1 for a in w.actors[1:] if a.state != "dead" and a.rid and a.rid.split("#")[0] == name)
                real += w.data.get(("async", name), 0)
                if t.n_alive != real or t.is_alive() != (real > 0):
                    w.data.setdefault("alive", []).append(f"{name}: n_alive={t.n_alive} is_alive={t.is_alive()}, in progress {real}")
        finally:
            w.nopoint -= 1

    def on_log(self, w, e):
        if e is None or e["rid"] is None:
            return
        spec = next((t for t in self.tasks if t.name == e["task"]), None)
        if spec is not None and spec.exec in ("async", "main"):
            k = ("async", e["task"])
            w.data[k] = w.data.get(k, 0) + (1 if e["action"] == "run" else -1)

    def check(self, w):
        bad = [("liveness queries disagree with reality", x) for x in w.data.get("alive", [])[:2]]
        bad += exclusive(w, self.multi) + all_dead(w) + returned(w)
        for name in self.want_overlap:
            n = most(w, name)
            if n < 2:
                bad.append(("multiple launches are allowed but did not happen", f"{name}: at most {n} at once"))
        for name in self.multi:
            # every launch is a separate run with its own id
            ids = [e["rid"] for e in logs(w, name) if e["action"] == "run"]
            if len(ids) != len(set(ids)):
                bad.append(("two launches share a run id", f"{ids}"))
        return bad


def most(w, name):
    n = best = 0
    starts = {}
    for rid, (a, b) in spans(w).items():
        if rid.split("#")[0] == name:
            starts.setdefault(a, 0)
            starts[a] += 1
            if b is not None:
                starts[b] = starts.get(b, 0) - 1
    for i in sorted(starts):
        n += starts[i]
        best = max(best, n)
    return best


def scenarios(tier):
    q = tier == "quick"
    yes = lambda w: True
    env = [("run a", lambda w: w.task["a"].run(p=7), 2), ("terminate a", lambda w: w.task["a"].terminate(), 1),
           ("shut down", lambda w: w.session.shut_down(), 2)]
    for ex, body in (("async", "async"), ("thread", "flag"), ("thread", "sync"), ("process", "sync"), ("main", "sync"), ("main", "async")):
        plans = {"a": [(0.25, "ok"), (0.0, "ok"), (0.25, "fail"), (0.25, "inaction")]}
        yield Excl(f"always-true {ex}/{body}", [T("a", ex, body, cond=yes)], plans=plans, env=env, env_max=2, horizon=0.7,
                   total=2 if q else 3, budgets={"preempt": 1, "body": 1} if q else {"preempt": 2})
        yield Excl(f"queued runs {ex}/{body}", [T("a", ex, body, [{}, {}])], plans=plans, env=env, env_max=2, horizon=0.7,
                   total=2, budgets={"preempt": 1, "body": 1} if q else {})
    for ex in ("async", "thread", "process"):
        for sess, task in ((True, None), (False, True)):
            yield Excl(f"multilaunch {ex} session={sess} task={task}", [T("a", ex, None, [{}, {}], kw=dict(multilaunch=task))],
                       config=dict(multilaunch=sess), multi=("a",), want_overlap=("a",), plans={"a": [(0.35, "ok")]}, early=False, preempt=False,
                       horizon=0.6, total=1)
            yield Excl(f"multilaunch {ex} session={sess} task={task}, all schedules", [T("a", ex, None, [{}, {}], kw=dict(multilaunch=task))],
                       config=dict(multilaunch=sess), multi=("a",), plans={"a": [(0.35, "ok"), (0.1, "fail")]}, env=env, env_max=1,
                       horizon=0.6, total=1 if q else 2)
        for sess, task in ((True, False), (False, None)):
            yield Excl(f"no multilaunch {ex} session={sess} task={task}", [T("a", ex, None, [{}, {}], kw=dict(multilaunch=task))],
                       config=dict(multilaunch=sess), plans={"a": [(0.35, "ok"), (0.1, "fail")]}, env=env, env_max=1,
                       horizon=0.6, total=1 if q else 2)
        yield Excl(f"execution given by the session: {ex}", [T("a", ex, None, [{}, {}], kw=dict(execution=None)), T("b", ex, None, cond=yes, kw=dict(execution=None))],
                   config=dict(execution=ex), plans={"a": [(0.35, "ok"), (0.1, "fail")], "b": [(0.25, "ok")]}, env=env, env_max=1, horizon=0.6, total=1 if q else 2)
    yield Excl("two tasks", [T("a", "thread", "flag", cond=yes), T("b", "process", cond=yes)], plans={n: [(0.25, "ok"), (0.1, "fail")] for n in "ab"},
               horizon=0.5, total=1 if q else 2, env=env, env_max=1)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
