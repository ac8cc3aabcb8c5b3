"""P03: a task starts exactly when it is due (condition, queue, priority, hold, phases)."""
from mc import explore
from .wl import *


def snapshot(w, at):
    w.nopoint += 1
    try:
        snap = {n: dict(alive=t.is_alive(), batches=[b.get("p") for b in t.batches], disabled=t.disabled, prio=t.priority,
                        cond=w.data["cond"].get(n)) for n, t in w.task.items()}
        w.ev("cycle", at=at, snap=snap, hold=w.session.scheduler.on_hold)
    finally:
        w.nopoint -= 1


def cycle():
    """Cycle hook: snapshots what is due at the beginning of the cycle."""
    w = world.CUR
    snapshot(w, "begin")
    yield
    w.ev("cycle", at="end")


class Due(Std):
    """Snapshots what is due at the beginning of each cycle and compares with what is started in it."""
    preempt = False
    acts = ()                # what the first task may do while it runs
    conds = {}               # initial truth of the start conditions

    def build(self, w):
        w.data["cond"] = dict(self.conds)
        w.data["hold"] = False
        super().build(w)
        w.session.hook_scheduler_cycle()(cycle)

    def during(self, w, name):
        if self.acts and name == self.tasks[0].name:
            i = w.choose("act", 1 + len(self.acts))
            if i:
                label, fn, _ = self.acts[i - 1]
                w.ev("env", op=label)
                fn(w)
                snapshot(w, "changed")
                w.events[-1]["by"] = name

    def check(self, w):
        bad = returned(w) + all_dead(w)
        spec = {t.name: t for t in self.tasks}
        phase = {n: "startup" if t.kw.get("on_startup") else "shutdown" if t.kw.get("on_shutdown") else None for n, t in spec.items()}
        want, got, cyc, inside = [], [], 0, False
        params = {}
        enters = {e["rid"]: e["kw"].get("p") for e in w.events if e["k"] == "enter"}
        out = {"startup": [], "shutdown": []}
        ended = False
        last_end = max((i for i, e in enumerate(w.events) if e["k"] == "cycle" and e["at"] == "end"), default=-1)
        for i, e in enumerate(w.events):
            if e["k"] == "cycle" and e["at"] == "begin":
                inside, got, cyc = True, [], cyc + 1
                snap, hold = e["snap"], e["hold"]
                done = []
            if e["k"] == "cycle" and e["at"] in ("begin", "changed"):
                if e["at"] == "changed":
                    # done by the task started first in the cycle: holds for the others
                    old, snap, hold = snap, e["snap"], e["hold"]
                    snap[e["by"]] = old[e["by"]]
                    done = [e["by"]]
                want = done + [n for n in sorted(snap, key=lambda n: -snap[n]["prio"])
                        if n not in done and not hold and not snap[n]["alive"] and phase[n] is None
                        and (snap[n]["batches"] or (not snap[n]["disabled"] and snap[n]["cond"]))]
            elif e["k"] == "cycle" and e["at"] == "end":
                inside = False
                if [n for n, _ in got] != want:
                    bad.append(("the tasks started in a cycle are not those that were due", f"cycle {cyc}: started {[n for n, _ in got]}, due {want}; {snap} hold={hold}"))
                for n, rid in got:
                    p = (snap[n]["batches"] or [None])[0]
                    if rid not in enters or enters[rid] != p:
                        bad.append(("a run did not get the parameters queued for it", f"cycle {cyc}: run {rid} got {enters.get(rid, 'no execution')!r}, queue was {snap[n]['batches']}"))
            elif e["k"] == "log" and e["action"] == "run":
                if inside:
                    got.append((e["task"], e["rid"]))
                else:
                    out["startup" if cyc == 0 else "shutdown"].append((e["task"], i, enters.get(e["rid"])))
        # the queue afterwards: exactly what was queued and not started
        queued = {n: [b.get("p") for b in t.batches] for n, t in spec.items()}
        for e in w.events:
            if e["k"] == "queue":
                queued[e["task"]].append(e["p"])
            if e["k"] == "log" and e["action"] == "run" and queued[e["task"]]:
                queued[e["task"]].pop(0)
        if hasattr(w, "final"):
            for n, f in w.final.items():
                left = [b.get("p") for b in f["batches"]]
                if left != queued[n]:
                    bad.append(("the queue of manual runs is not what was queued and not started", f"{n}: left {left}, expected {queued[n]}"))
        for ph in ("startup", "shutdown"):
            exp = [n for n, t in sorted(spec.items(), key=lambda x: -x[1].kw.get("priority", len(self.tasks) - self.tasks.index(x[1])))
                   if phase[n] == ph and self.phase_due(w, t)]
            if [n for n, _, _ in out[ph]] != exp:
                bad.append((f"the {ph} tasks are not run once each in order", f"started {[x[0] for x in out[ph]]}, expected {exp}"))
        if any(i < last_end for _, i, _ in out["shutdown"]):
            bad.append(("a task is started between two cycles", str(out["shutdown"])))
        return bad

    def phase_due(self, w, t):
        if t.batches or any(e["k"] == "queue" and e["task"] == t.name for e in w.events):
            return True
        if t.kw.get("disabled"):
            return False
        return t.cond is None or bool(self.conds.get(t.name))


def c(name):
    return lambda w: w.data["cond"][name]


def op_toggle(n):
    def f(w):
        w.data["cond"][n] = not w.data["cond"][n]
    return (f"toggle {n}", f, 2)


def op_run(n, mx=2):
    def f(w):
        k = w.data["q"] = w.data.get("q", 10) + 1
        w.ev("queue", task=n, p=k)
        w.task[n].run(p=k)
    return (f"run {n}", f, mx)


def op_run_plain(n):
    def f(w):
        w.ev("queue", task=n, p=None)
        w.task[n].run()
    return (f"plain run {n}", f, 2)


def op_hold():
    def f(w):
        w.session.scheduler.on_hold = not w.session.scheduler.on_hold
    return ("hold/resume", f, 2)


def op_disable(n):
    def f(w):
        w.task[n].disabled = not w.task[n].disabled
    return (f"disable/enable {n}", f, 2)


def op_prio(n, v):
    def f(w):
        w.task[n].priority = v
    return (f"priority {n}={v}", f, 1)


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    ops = lambda *ns: [x for n in ns for x in (op_toggle(n), op_run(n), op_disable(n))] + [op_hold()]
    for ex in ("async", "thread", "process", "main"):
        yield Due(f"one {ex} task, every history of operations", [T("a", ex, None if ex != "thread" else "sync", [{}], cond=c("a"))], conds={"a": False},
                  env=ops("a") + [op_run_plain("a")], env_max=k + 1, total=k + 1, early=False, order=False, horizon=0.45,
                  plans={"a": [(0.0, "ok")]})
        yield Due(f"one {ex} task taking time", [T("a", ex, None if ex != "thread" else "sync", [{"p": 1}, {"p": 2}], cond=c("a"))], conds={"a": False},
                  env=ops("a"), env_max=k, total=k, horizon=0.7, order=False, plans={"a": [(0.15, "ok"), (0.0, "fail")]})
    mix = ("main", "async", "thread", "process")
    for i in (0, 2) if q else range(4):
        e = mix[i:] + mix[:i]
        yield Due(f"four tasks {'/'.join(e)} of different priority", [T(n, e[j], "sync" if e[j] == "thread" else None, cond=c(n)) for j, n in enumerate("abcd")],
                  conds=dict.fromkeys("abcd", False), env=ops("a", "b", "c", "d"), env_max=k, total=k, early=False, order=False, horizon=0.45)
        yield Due(f"priorities of {'/'.join(e)}", [T(n, e[j], "sync" if e[j] == "thread" else None, cond=c(n), kw=dict(priority=p)) for j, (n, p) in enumerate(zip("abcd", (0, -5, 7, 3)))],
                  conds=dict.fromkeys("abcd", True), env=[op_prio("a", 20), op_prio("c", -9), op_prio("b", 5), op_disable("c"), op_hold()], env_max=k, total=k,
                  early=False, order=False, horizon=0.35)
        yield Due(f"a task controlling others in the cycle, {'/'.join(e)}", [T("a", "main", "sync", cond=c("a"))] + [T(n, e[j], "sync" if e[j] == "thread" else None, cond=c(n)) for j, n in enumerate("bcde")],
                  conds=dict(zip("abcde", (True, True, False, True, False))), acts=ops("b", "c", "d", "e"), env=[op_toggle("b"), op_hold()], env_max=1, total=k, early=False, order=False, horizon=0.35)
    on = lambda ph, **kw: dict({f"on_{ph}": True}, **kw)
    for ph in ("startup", "shutdown"):
        for ex in ("main", "async", "thread", "process"):
            yield Due(f"{ph} tasks as {ex}", [
                T("a", ex, "sync" if ex == "thread" else None, kw=on(ph)), T("b", ex, "sync" if ex == "thread" else None, kw=on(ph, disabled=True)),
                T("c", ex, "sync" if ex == "thread" else None, kw=on(ph), cond=c("c")), T("d", ex, "sync" if ex == "thread" else None, kw=on(ph), cond=c("d")),
                T("e", ex, "sync" if ex == "thread" else None, [{"p": 5}], kw=on(ph, disabled=True)), T("f", "main", cond=c("f"))],
                conds={"c": True, "d": False, "f": True}, config=dict(max_process_count=10), total=1, early=False, order=False, horizon=0.35,
                env=[op_toggle("f"), op_hold()])


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
