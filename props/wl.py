"""Scenario building and the monitors shared by the scheduler properties."""
import dataclasses
from typing import Any

from mc import explore, world

TERMINAL = ("success", "fail", "inaction", "terminate")
WANT = {"ok": "success", "fail": "fail", "inaction": "inaction", "terminate": "terminate", "cancelled": "terminate",
        "killed": "terminate", "restart": "success", "sysexit": "success"}


@dataclasses.dataclass
class T:
    """A task of a scenario."""
    name: str
    exec: str = "async"
    body: str = None              # sync, async, flag
    batches: Any = ()             # parameters of the run() calls made before the start
    kw: dict = dataclasses.field(default_factory=dict)
    cond: Any = None              # (world) -> bool, start condition
    end: Any = None               # (world) -> bool, end condition

    def func(self):
        from mc import bodies
        kind = self.body or {"async": "async", "thread": "flag", "process": "sync", "main": "sync"}[self.exec]
        return bodies.body(kind, self.name)


def make_cond(fn, w):
    """A condition whose truth is decided by the scenario."""
    from rocketry.core.condition import BaseCondition

    class ScenarioCond(BaseCondition):
        def get_state(self, *a, **k):
            return fn(w)

        def __copy__(self):
            return self

        def __reduce__(self):
            from rocketry.conditions import AlwaysFalse
            return (AlwaysFalse, ())
    return ScenarioCond()


class Std(explore.Scenario):
    """Scenario given by tasks, plans, configuration and environment operations."""

    def __init__(self, name, tasks, *, config=None, env=(), env_max=1, hooks=None, **kw):
        self.name = name
        self.tasks = tasks
        self.config = config or {}
        self.env_ops = env                # [(label, fn(world), max uses)]
        self.env_max = env_max
        self.hooks = hooks
        self.monitors = ()
        for k, v in kw.items():
            setattr(self, k, v)

    def build(self, w):
        from rocketry import Session
        from rocketry.tasks import FuncTask
        cfg = dict(time_func=world.now, func_run_id=world.run_id, execution="async")
        cfg.update(self.config)
        w.session = s = Session(config=cfg)
        w.task = {}
        w.used = {}
        n = len(self.tasks)
        if self.hooks:
            self.hooks(w, s)
        for i, t in enumerate(self.tasks):
            kw = dict(name=t.name, execution=t.exec, priority=n - i, session=s)
            if t.cond is not None:
                kw["start_cond"] = make_cond(t.cond, w)
            if t.end is not None:
                kw["end_cond"] = make_cond(t.end, w)
            kw.update(t.kw)
            if callable(kw.get("start_cond")) and not hasattr(kw["start_cond"], "observe"):
                kw["start_cond"] = kw["start_cond"](w)
            task = FuncTask(t.func(), **kw)
            w.task[t.name] = task
            for b in t.batches:
                task.run(**b) if b else task.run()

    def env(self, w):
        if self.env_max is not None and sum(w.used.values()) >= self.env_max:
            return []
        out = []
        for label, fn, mx in self.env_ops:
            if w.used.get(label, 0) < mx:
                def do(fn=fn, label=label):
                    w.used[label] = w.used.get(label, 0) + 1
                    fn(w)
                out.append((label, do))
        return out

    def finish(self, w):
        w.final = {}
        for name, t in w.task.items():
            w.final[name] = dict(status=t.status, alive=t.is_alive(), n_alive=t.n_alive,
                                 batches=[dict(b) for b in t.batches],
                                 **{f"last_{a}": ts(getattr(t, f"last_{a}")) for a in
                                    ("run", "success", "fail", "inaction", "terminate", "crash")})
        w.final_repo = [(r.task_name, r.action, r.run_id) for r in w.session.get_repo().filter_by().all()]

    def check(self, w):
        out = []
        for m in self.monitors:
            out += m(w)
        return out


def ts(dt):
    return None if dt is None else dt.timestamp()


def logs(w, task=None):
    return [e for e in w.events if e["k"] == "log" and (task is None or e["task"] == task)]


def runs(w):
    """rid -> task name of every run the world saw."""
    out = {}
    for e in w.events:
        rid = e.get("rid")
        if rid:
            out.setdefault(rid, rid.split("#")[0])
    return out


def returned(w):
    if w.result[0] != "returned":
        return [("the session did not end normally", f"session.start() {w.result[0]} {w.result[1]}")]
    return []


def slow(w, rid):
    """How much time the explorer held the run up between two of its steps."""
    return sum(0.3 for e in w.events if e["k"] == "stall" and e["rid"] == rid)


def lifecycle(w, multi=()):
    """One run record, then exactly one terminal record matching what the body did."""
    bad = []
    by = {}
    for e in logs(w):
        if e["rid"] is None:
            bad.append(("a log record has no run id", f"{e['task']}: {e['action']} {e['msg']}"))
        else:
            by.setdefault(e["rid"], []).append(e)
    for rid, task in runs(w).items():
        es = by.get(rid, [])
        acts = [e["action"] for e in es]
        if any(e["task"] != task for e in es):
            bad.append(("a record names another task", f"run {rid}: {[(e['task'], e['action']) for e in es]}"))
        if len(acts) != 2 or acts[0] != "run" or acts[1] not in TERMINAL:
            bad.append(("a run is not logged as one start and one end", f"run {rid} of {task}: records {acts}, body {w.outcomes.get(rid)}"))
            continue
        how = w.outcomes.get(rid)
        ok = {WANT[how]} if how else {"terminate"}
        if any(e["k"] == "sigterm" and e["rid"] == rid for e in w.events):
            ok.add("terminate")
        if acts[1] not in ok:
            bad.append(("the logged outcome is not what happened", f"run {rid}: body {how}, logged {acts[1]}"))
        r, t = es
        if t["runtime"] is not None and not (t["runtime"] >= 0):
            bad.append(("negative runtime", f"run {rid}: {t['runtime']}"))
        if t["runtime"] is not None:
            # all clock readings of a start (and of an end) lie within the few ticks the code takes there
            tol = 0.15 + slow(w, rid)
            if abs(t["start"] - r["created"]) > tol or abs(t["end"] - t["start"] - t["runtime"]) > 1e-6 or abs(t["end"] - t["created"]) > tol:
                bad.append(("the times in the end record are wrong", f"run {rid}: started {r['created'] - world.T0:.3f}, end record start {t['start'] - world.T0:.3f} end {t['end'] - world.T0:.3f} runtime {t['runtime']:.3f} created {t['created'] - world.T0:.3f}"))
    if hasattr(w, "final_repo"):
        seen = [(e["task"], e["action"], e["rid"]) for e in logs(w)]
        if w.final_repo != seen:
            bad.append(("the log repository differs from what was logged", f"{w.final_repo} vs {seen}"))
    return bad


def final_status(w):
    bad = []
    for name, f in w.final.items():
        es = logs(w, name)
        want = es[-1]["action"] if es else None
        if f["status"] != want:
            bad.append(("the status is not that of the last record", f"{name}: status {f['status']}, last record {want}"))
        for a in ("run",) + TERMINAL:
            last = [e for e in es if e["action"] == a]
            got = f[f"last_{a}"]
            if (got is None) != (not last):
                bad.append((f"last_{a} disagrees with the log", f"{name}: last_{a}={got}, records {len(last)}"))
            elif last and abs(got - last[-1]["created"]) > 0.3 + slow(w, last[-1]["rid"]):
                bad.append((f"last_{a} disagrees with the log", f"{name}: {got - world.T0} vs {last[-1]['created'] - world.T0}"))
    return bad


def spans(w):
    """rid -> [first event index, last event index] of the run being in progress."""
    out = {}
    actor = {e["rid"]: e["kind"] for e in w.events if e["k"] == "spawn"}
    for i, e in enumerate(w.events):
        rid = e.get("rid")
        if not rid:
            continue
        if e["k"] in ("spawn", "enter") or (e["k"] == "log" and e["action"] == "run"):
            out.setdefault(rid, [i, None])
        end = (e["k"] == "dead") if rid in actor else (e["k"] == "exit" or (e["k"] == "log" and e["action"] in TERMINAL))
        if end and rid in out and out[rid][1] is None:
            out[rid][1] = i
    return out


def exclusive(w, multi=()):
    bad = []
    by = {}
    for rid, (a, b) in spans(w).items():
        by.setdefault(rid.split("#")[0], []).append((a, b if b is not None else len(w.events), rid))
    for name, ss in by.items():
        if name in multi:
            continue
        ss.sort()
        for x, y in zip(ss, ss[1:]):
            if y[0] < x[1]:
                bad.append(("two runs of one task overlap", f"{x[2]} still in progress when {y[2]} starts"))
    return bad


def all_dead(w):
    bad = []
    if w.alive_at_end or w.live_at_end:
        bad.append(("work is left running when the session ends", f"alive {w.alive_at_end}, bodies {list(w.live_at_end)}"))
    for name, f in getattr(w, "final", {}).items():
        if f["alive"] or f["n_alive"]:
            bad.append(("a task counts as alive after the session ended", f"{name}: {f}"))
    return bad
