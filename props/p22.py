"""P22: hooks run exactly once around each thing they watch."""
from mc import explore
from .wl import *
from .p08 import run_id


def note(kind, name, phase, task=None, exc=None):
    w = world.CUR
    w.ev("hook", kind=kind, name=name, phase=phase, task=getattr(task, "name", None), rid=w.rid() if kind == "task_execute" else None,
         exc=None if exc is None else [getattr(exc[0], "__name__", None), type(exc[1]).__name__ if exc[1] is not None else None, exc[2] is not None] if len(exc) == 3 else list(exc))


def _make():
    """Hooks must be module level, to be sent to child processes."""
    ns = globals()
    for kind in ("task_execute", "startup", "scheduler_cycle", "shutdown", "task_init"):
        arg = "task=TaskArg()" if kind in ("task_execute", "task_init") else "session=SessionArg()"
        t = "task" if kind in ("task_execute",) else "None"
        for i in (1, 2):
            exec(f'''
def f{i}_{kind}({arg}):
    note({kind!r}, "f{i}", "pre", {t})
def g{i}_{kind}({arg}):
    note({kind!r}, "g{i}", "pre", {t})
    exc = yield
    note({kind!r}, "g{i}", "post", {t}, exc)
''', ns)


def stranger():
    world.CUR.ev("hook", kind="stranger", name="x", phase="pre", rid=None)


KINDS = ("task_execute", "startup", "scheduler_cycle", "shutdown", "task_init")
ORDER = ["f1", "g1", "f2", "g2"]


class Hook(Std):
    where = None
    inside = ()

    def during(self, w, name):
        if self.inside and name == self.tasks[0].name:
            i = w.choose("act", 1 + len(self.inside))
            if i:
                label, fn = self.inside[i - 1]
                w.ev("env", op=label)
                fn(w)

    def build(self, w):
        from rocketry import Session
        from rocketry.args import Task as TaskArg, Session as SessionArg, FuncArg
        globals().update(TaskArg=TaskArg, SessionArg=SessionArg)
        _make()
        self.config = dict(self.config, func_run_id=run_id)
        other = Session(config=dict(time_func=world.now, func_run_id=world.run_id, execution="async"))

        def hooks(w_, s):
            for kind in KINDS:
                for n in ORDER:
                    getattr(s, f"hook_{kind}")()(globals()[f"{n}_{kind}"])
            for kind in KINDS:
                getattr(other, f"hook_{kind}")()(stranger)
        self.hooks = hooks
        w.data["armed"] = True
        super().build(w)
        if self.where == "param":
            from .p08 import arg_value
            w.task["a"].parameters["x"] = FuncArg(arg_value)

    def check(self, w):
        bad = returned(w) + all_dead(w)
        hs = [e for e in w.events if e["k"] == "hook"]
        if any(e["kind"] == "stranger" for e in hs):
            bad.append(("hooks of another session are called", ""))
        # task creation
        got = [(e["name"], e["phase"]) for e in hs if e["kind"] == "task_init"]
        want = ([(n, "pre") for n in ORDER] + [("g1", "post"), ("g2", "post")]) * len(self.tasks)
        if got != want:
            bad.append(("task creation hooks", f"{got}"))
        # scheduler
        seq = [(i, e) for i, e in enumerate(w.events) if e["k"] == "hook" and e["kind"] in ("startup", "scheduler_cycle", "shutdown")]
        block = [(n, "pre") for n in ORDER] + [("g1", "post"), ("g2", "post")]
        names = [(e["kind"], e["name"], e["phase"]) for _, e in seq]
        n_cyc = sum(1 for k, n, p in names if k == "scheduler_cycle" and (n, p) == ("f1", "pre"))
        want = [("startup",) + b for b in block] + [("scheduler_cycle",) + b for b in block] * n_cyc + [("shutdown",) + b for b in block]
        if names != want:
            bad.append(("start-up, cycle or shutdown hooks are not called once each in order", f"{names}"))
        elif n_cyc != w.session.scheduler.n_cycles:
            bad.append(("not every cycle has its hooks", f"{n_cyc} of {w.session.scheduler.n_cycles}"))
        else:
            first = {k: min(i for i, e in seq if e["kind"] == k and e["phase"] == "post") for k in ("startup",)}
            up_tasks = {t.name for t in self.tasks if t.kw.get("on_startup")}
            down_tasks = {t.name for t in self.tasks if t.kw.get("on_shutdown")}
            s_pre = max(i for i, e in seq if e["kind"] == "startup" and e["phase"] == "pre")
            s_post = min(i for i, e in seq if e["kind"] == "startup" and e["phase"] == "post")
            d_pre = max(i for i, e in seq if e["kind"] == "shutdown" and e["phase"] == "pre")
            d_post = min(i for i, e in seq if e["kind"] == "shutdown" and e["phase"] == "post")
            for i, e in enumerate(w.events):
                if e["k"] == "log" and e["action"] == "run":
                    if e["task"] in up_tasks and not s_pre < i < s_post:
                        bad.append(("start-up hooks do not surround the start-up tasks", f"{e['rid']}"))
                    elif e["task"] in down_tasks and not d_pre < i < d_post:
                        bad.append(("shutdown hooks do not surround the shut-down tasks", f"{e['rid']}"))
                    elif e["task"] not in up_tasks | down_tasks and not s_post < i < d_pre:
                        bad.append(("a task starts outside the hooks of the cycles", f"{e['rid']}"))
                    elif e["task"] not in up_tasks | down_tasks:
                        pre = [x for j, x in seq if j < i and x["kind"] == "scheduler_cycle"]
                        if not pre or (pre[-1]["name"], pre[-1]["phase"]) != ("g2", "pre"):
                            bad.append(("a task starts outside the hooks of the cycle", f"{e['rid']}"))
                if e["k"] == "log" and e["action"] in TERMINAL and i > d_post:
                    bad.append(("a run ends after the shutdown hooks", f"{e['rid']}"))
        # executions
        sig = {e["rid"] for e in w.events if e["k"] == "sigterm"}
        ids = [e["rid"] for e in w.events if e["k"] == "id"]
        WHAT = {"ok": None, "fail": "BodyError", "inaction": "TaskInactionException", "terminate": "TaskTerminationException", "cancelled": "CancelledError"}
        for rid in ids:
            mine = [(i, e) for i, e in enumerate(w.events) if e.get("rid") == rid and e["k"] in ("hook", "enter", "exit")]
            seqn = [(e["name"], e["phase"]) if e["k"] == "hook" else e["k"] for _, e in mine]
            pre, post = [(n, "pre") for n in ORDER], [("g1", "post"), ("g2", "post")]
            how = w.outcomes.get(rid)
            if rid in sig:
                full = pre + ["enter", "exit"] + post
                ok = seqn == full[:len(seqn)] or seqn == (pre + ["enter"])[:len(seqn)]
            elif how is None and not any(x == "enter" for x in seqn):
                faulty = any(e["k"] == "fault" for e in w.events)
                ok = seqn == [] if not faulty else seqn in ([], pre + post)
                if faulty and seqn and ok:
                    ex = [e["exc"] for _, e in mine if e["k"] == "hook" and e["phase"] == "post"]
                    if any(x is None or x[0] != "Boom" for x in ex):
                        bad.append(("a hook is not told the error", f"{rid}: {ex}"))
            else:
                ok = seqn == pre + ["enter", "exit"] + post
                if ok:
                    for _, e in mine:
                        if e["k"] == "hook" and e["phase"] == "post":
                            w_ = WHAT[how]
                            if e["exc"] != [w_, w_, w_ is not None]:
                                bad.append(("a hook is not told the outcome", f"{rid}: body {how}, told {e['exc']}"))
            if not ok:
                bad.append(("execution hooks are not called once each around the execution", f"{rid}: {seqn}, body {how}"))
            if any(e["k"] == "hook" and e["task"] != rid.split("#")[0] for _, e in mine):
                bad.append(("a hook is told another task", f"{rid}"))
        return bad


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    outs = [(0.15, "ok"), (0.0, "fail"), (0.0, "inaction"), (0.3, "ok"), (0.1, "fail")]
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync"), ("thread", "sync"), ("async", "sync")):
        tasks = [T("a", ex, body, [{}, {}]), T("b", ex, body, kw=dict(on_startup=True)), T("c", ex, body, kw=dict(on_shutdown=True))]
        yield Hook(f"{ex} {body}", tasks, plans={"a": outs, "b": [(0.1, "ok"), (0.0, "fail")], "c": [(0.1, "ok"), (0.0, "fail")]}, horizon=0.5, total=k + 1, preempt=False, env=[("terminate a", lambda w: w.task["a"].terminate(), 1), ("shut down", lambda w: w.session.shut_down(), 2)], env_max=2)
        yield Hook(f"{ex} {body}: parameters fail", [T("a", ex, body, [{}, {}]), T("b", ex, body, [{}])], where="param", config=dict(silence_task_prerun=True), plans={"b": [(0.1, "ok"), (0.0, "fail")]}, horizon=0.4, total=k, preempt=False)
    def force(w):
        w.session.shut_down(force=True)
    acts = [("shut down", lambda w: w.session.shut_down()), ("shut down now", force)]
    for ex, body in (("main", "sync"), ("async", "async"), ("thread", "flag"), ("thread", "sync")):
        tasks = [T("a", ex, body, [{}, {}]), T("b", "main", "sync", [{}, {}]), T("d", "async", "async", [{}]), T("c", ex, body, kw=dict(on_shutdown=True))]
        yield Hook(f"{ex} {body} acting on the session", tasks, inside=acts, plans={"a": outs, "b": [(0.0, "ok"), (0.0, "fail")]}, horizon=0.5, total=k, preempt=ex == "thread", budgets={"preempt": 1})
    few = [T("a", "thread", "flag", [{}]), T("b", "process", "sync", [{}]), T("c", "async", "async", [{}])]
    yield Hook("thread, process and async", few, plans={n: [(0.1, "ok"), (0.0, "fail")] for n in "abc"}, horizon=0.35, total=k, budgets={"preempt": 1}, order=False)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
