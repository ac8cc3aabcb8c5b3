"""P05: timeouts, end conditions and terminate() stop exactly the right runs."""
import datetime

from mc import explore
from .wl import *

CYCLE = 0.22          # two scheduling rounds: the time the scheduler may take to notice
TICKS = 0.03          # clock readings between the start of a run and its start record


class Term(Std):
    limits = {}        # task -> timeout in seconds, or None (never)
    permanent = ()

    def build(self, w):
        w.data["end"] = {}
        super().build(w)

    def check(self, w):
        multi = tuple(t.name for t in self.tasks if t.kw.get("multilaunch"))
        bad = returned(w) + all_dead(w) + lifecycle(w, multi) + exclusive(w, multi)
        force, ends, shut = {}, {}, None
        for e in w.events:
            if e["k"] != "env":
                continue
            op = e["op"]
            if op.startswith("terminate "):
                force.setdefault(op[10:], []).append(e["t"])
            elif op.startswith("end "):
                iv = ends.setdefault(op[4:], [])
                if iv and iv[-1][1] is None:
                    iv[-1][1] = e["t"]
                else:
                    iv.append([e["t"], None])
            elif op in ("horizon", "shut down") and shut is None:
                shut = e["t"]
        by = {}
        for e in logs(w):
            by.setdefault(e["rid"], []).append(e)
        nat = {e["rid"]: e for e in w.events if e["k"] == "exit" and e["how"] in ("ok", "fail", "inaction")}
        for rid, es in by.items():
            if len(es) != 2:
                continue
            name = es[0]["task"]
            S, L, act = es[0]["created"], es[1]["created"], es[1]["action"]
            late = slow(w, rid)
            lim = self.limits.get(name, 1800)
            if lim is None or name in self.permanent:
                lim = None
            why = []
            if any(S - 0.15 <= f <= L + 1e-6 for f in force.get(name, [])):
                why.append("told")
            if any(a <= L and (b is None or b + CYCLE + late >= S) for a, b in ends.get(name, [])):
                why.append("end condition")
            if lim is not None and L - S > lim - TICKS:
                why.append("timeout")
            if name in self.permanent and shut is not None and L >= shut:
                why.append("shut down")
            if act == "terminate" and not why:
                bad.append(("a run is terminated without a reason", f"run {rid} started {S - world.T0:.3f}, terminated {L - world.T0:.3f}; timeout {lim}, told {[round(f - world.T0, 3) for f in force.get(name, [])]}, end condition {ends.get(name)}"))
            # runs that had to be terminated
            dues = [f for f in force.get(name, []) if f >= S]
            dues += [max(a, S) for a, b in ends.get(name, []) if b is None or b - max(a, S) > CYCLE]
            if lim is not None:
                dues.append(S + lim)
            if name in self.permanent and shut is not None and S <= shut:
                dues.append(shut)
            due = min(dues, default=None)
            if due is None:
                continue
            stop = nat[rid]["t"] if rid in nat else None
            if stop is not None and stop <= due + CYCLE + late:
                continue              # finished by itself
            if rid in nat and self.ignores(name):
                continue              # a thread that does not listen
            if act != "terminate" or L > due + CYCLE + late:
                bad.append(("a run that had to be terminated was not, or too late", f"run {rid} started {S - world.T0:.3f}, due {due - world.T0:.3f}, ended {L - world.T0:.3f} as {act}"))
        return bad

    def ignores(self, name):
        t = next(t for t in self.tasks if t.name == name)
        return t.exec == "main" or (t.exec == "thread" and (t.body == "sync" or any(o == "ignore" for _, o in self.plans.get(name, []))))


def op_end(n):
    def f(w):
        w.data["end"][n] = not w.data["end"].get(n)
    return (f"end {n}", f, 2)


def op_term(n, mx=2):
    return (f"terminate {n}", lambda w: w.task[n].terminate(), mx)


def end(n):
    return lambda w: w.data["end"].get(n, False)


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    bud = {"preempt": 1, "body": 1} if q else {"preempt": 1}
    for ex, body in (("async", "async"), ("thread", "flag"), ("process", "sync")):
        durs = [(0.25, "ok"), (0.9, "ok"), (0.29, "fail"), (0.34, "ok"), (0.65, "ok")]
        forms = [(0.3, None), (None, 0.3), (0.3, 0.1), (0.3, 5.0), (0.6, 0.3)]
        for mine, sess in forms:
            lim = mine if mine is not None else sess
            yield Term(f"{ex}: timeout of the task {mine}, of the session {sess}", [T("a", ex, body, [{}, {}], kw={} if mine is None else dict(timeout=mine)), T("b", ex, body, [{}], kw=dict(timeout="never"))],
                       config={} if sess is None else dict(timeout=sess), limits={"a": lim, "b": None}, plans={"a": durs, "b": [(1.1, "ok")]}, horizon=1.3, early=False,
                       total=k, budgets=bud, preempt=(mine, sess) == (0.3, None), order=False)
        for form in ("0.3 seconds", "300 ms", datetime.timedelta(milliseconds=300)):
            yield Term(f"{ex}: timeout given as {form!r}", [T("a", ex, body, [{}, {}], kw=dict(timeout=form))], limits={"a": 0.3}, plans={"a": durs}, horizon=1.3, early=False,
                       total=2, preempt=False, order=False)
        yield Term(f"{ex}: permanent tasks", [T("a", ex, body, [{}], kw=dict(timeout=0.2, permanent=True)), T("b", ex, body, [{}], kw=dict(timeout=0.2))], permanent=("a",),
                   limits={"b": 0.2}, plans={"a": [(9.0, "ok"), (0.5, "ok")], "b": [(0.5, "ok"), (0.1, "ok")]}, horizon=1.2, early=False, total=k, preempt=False,
                   env=[op_term("b", 1), op_term("a", 1)], env_max=2)
        yield Term(f"{ex}: overlapping runs time out one by one", [T("a", ex, body, [{}, {}, {}], kw=dict(timeout=0.5, multilaunch=True))], limits={"a": 0.5},
                   plans={"a": [(2.0, "ok"), (0.4, "ok")]}, horizon=1.5, early=False, total=k, budgets=bud, order=False, preempt=not q)
        yield Term(f"{ex}: overlapping runs queued at any time", [T("a", ex, body, [{}], kw=dict(timeout=0.5, multilaunch=True))], limits={"a": 0.5}, env=[("run a", lambda w: w.task["a"].run(), 3), op_term("a", 1)], env_max=3,
                   plans={"a": [(2.0, "ok"), (0.4, "ok")]}, horizon=1.3, early=False, total=3, budgets=bud, order=False, preempt=False)
        yield Term(f"{ex}: execution and timeout given by the session", [T("a", ex, body, [{}, {}], kw=dict(execution=None)), T("b", ex, body, [{}], kw=dict(execution=None, timeout="never"))],
                   config=dict(timeout=0.3, execution=ex), limits={"a": 0.3, "b": None}, plans={"a": durs, "b": [(1.1, "ok")]}, horizon=1.3, early=False, total=2, order=False, preempt=False, env=[op_term("b", 1)], env_max=1)
        yield Term(f"{ex}: told to terminate", [T("a", ex, body, [{}, {}]), T("b", ex, body, [{}])], plans={"a": [(0.45, "ok"), (0.15, "fail")], "b": [(0.6, "ok")]},
                   horizon=0.8 if q else 1.0, env=[op_term("a"), op_term("b", 1)], env_max=2, total=k, budgets={"preempt": 1} if q else {}, early=False, order=False)
        yield Term(f"{ex}: end condition", [T("a", ex, body, [{}, {}], end=end("a")), T("b", ex, body, [{}], end=end("b"))], plans={"a": [(0.45, "ok"), (0.15, "fail")], "b": [(0.6, "ok")]},
                   horizon=0.8 if q else 1.0, env=[op_end("a"), op_end("b"), op_term("a", 1)], env_max=2 if q else 3, total=k, budgets={"preempt": 1} if q else {}, early=False, order=False)
        yield Term(f"{ex}: start-up tasks", [T("a", ex, body, [], kw=dict(timeout=0.3, on_startup=True)), T("b", ex, body, [], end=end("b"), kw=dict(on_startup=True)), T("c", ex, body, [{}])], limits={"a": 0.3},
                   plans={"a": durs, "b": [(0.6, "ok"), (0.15, "fail")], "c": [(0.5, "ok")]}, horizon=1.0, env=[op_end("b"), op_term("a", 1), op_term("b", 1)], env_max=2, total=2, preempt=False, early=False, order=False)
    yield Term("threads that do not listen", [T("a", "thread", "flag", [{}, {}], kw=dict(timeout=0.3), end=end("a")), T("b", "thread", "sync", [{}])], limits={"a": 0.3},
               plans={"a": [(0.5, "ignore"), (0.1, "ok"), (0.6, "fail")], "b": [(0.4, "ok")]}, horizon=1.0, env=[op_end("a"), op_term("a", 1), op_term("b", 1)], env_max=2, total=k,
               budgets={"preempt": 1}, early=False, order=False)
    yield Term("one of many", [T("a", "async", None, [{}, {}]), T("b", "thread", "flag", [{}]), T("c", "process", None, [{}, {}]), T("d", "process", None, [{}])],
               plans={n: [(0.5, "ok")] for n in "abcd"}, horizon=0.9, env=[op_term(n, 1) for n in "abcd"], env_max=2 if q else 3, total=2 if q else 3, preempt=False, order=False, early=False)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
