"""P02: every run leaves one start record and one matching end record."""
from mc import explore
from .wl import *

OUT4 = [(0.25, "ok"), (0.25, "fail"), (0.25, "inaction"), (0.0, "ok"), (0.0, "fail")]
FLAG = OUT4 + [(0.6, "ignore")]


def errors(w):
    """A fail record carries the error of its own run."""
    bad = []
    for e in w.events:
        if e["k"] == "log" and e["action"] == "fail" and w.outcomes.get(e["rid"]) == "fail":
            if "BodyError" not in e["err"] or not e["err"].endswith(e["rid"]):
                bad.append(("a fail record does not carry the error of the run", f"{e['rid']}: {e['err']!r}"))
    return bad


def scenarios(tier):
    q = tier == "quick"
    mons = (returned, lifecycle, final_status, all_dead, errors)
    term = [("terminate a", lambda w: w.task["a"].terminate(), 1), ("shut down", lambda w: w.session.shut_down(), 2)]
    for ex, body in (("async", "async"), ("async", "sync"), ("thread", "flag"), ("thread", "async"), ("process", "sync"),
                     ("process", "async"), ("main", "sync"), ("main", "async")):
        plans = {"a": FLAG if body == "flag" else OUT4}
        yield Std(f"one {ex} task ({body} body)", [T("a", ex, body, [{}, {"p": 1}])], plans=plans, env=term, env_max=2,
                  horizon=0.8, total=2 if q else 3, monitors=mons,
                  budgets={} if not q else {"preempt": 1})
    for ex in ("async", "thread", "process"):
        yield Std(f"{ex} task with a timeout", [T("a", ex, None, [{}], kw=dict(timeout=0.3))], plans={"a": [(0.45, "ok"), (0.2, "ok"), (0.45, "fail")]},
                  horizon=0.8, total=2 if q else 3, monitors=mons, budgets={"preempt": 1} if q else {})
    for ex in ("async", "thread", "process"):
        yield Std(f"overlapping {ex} runs", [T("a", ex, None, [{}, {}], kw=dict(multilaunch=True, timeout=0.3))], env=term, env_max=2,
                  plans={"a": [(0.25, "ok"), (0.45, "ok"), (0.05, "fail")]}, horizon=0.8, total=2 if q else 3, budgets={"preempt": 1} if q else {},
                  monitors=(returned, lambda w: lifecycle(w, multi=("a",)), all_dead, errors))
    yield Std("mixed executions", [T("a", "async", None, [{}]), T("b", "thread", None, [{}]), T("c", "process", None, [{}]), T("d", "main", None, [{}])],
              plans={n: [(0.2, "ok"), (0.1, "fail"), (0.0, "inaction")] for n in "abcd"}, horizon=0.5, total=1 if q else 2, monitors=mons,
              env=[("shut down", lambda w: w.session.shut_down(), 2)], env_max=2)
    yield Std("two processes", [T("a", "process", None, [{}, {}]), T("b", "process", None, [{}, {}])], total=1 if q else 2,
              plans={n: [(0.2, "ok"), (0.1, "fail")] for n in "ab"}, horizon=0.7, monitors=mons)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
