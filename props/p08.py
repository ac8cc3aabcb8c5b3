"""P08: an error in one task or condition is contained as configured."""
import logging

from mc import explore
from .wl import *


class Boom(Exception):
    pass


def cyc():
    w = world.CUR
    w.ev("cycle", at="begin")
    yield
    w.ev("cycle", at="end")


def arg_value():
    w = world.CUR
    if w.data["armed"]:
        w.ev("fault", where="param", rid=w.rid() if w.cur is not w.main else None)
        raise Boom("param")
    return "arg"


def run_id(task, params=None):
    w = world.CUR
    rid = world.run_id(task, params)
    w.ev("id", rid=rid, task=task.name)
    return rid


class FaultHandler(logging.Handler):
    def __init__(self, w, actions):
        super().__init__()
        self.w, self.actions = w, actions

    def handle(self, record):
        d = record.__dict__
        w = world.CUR
        if w is self.w and w.data["armed"] and d.get("task_name") == "v" and d.get("action") in self.actions and not w.muted:
            w.ev("fault", where="log", action=d["action"], rid=d.get("run_id"))
            raise Boom("log")
        return True


class Fault(Std):
    where = None            # cond, end, param, pre, log, child
    actions = ()
    silent = True
    OPT = {"cond": "silence_cond_check", "end": "silence_cond_check", "param": "silence_task_prerun", "pre": "silence_task_prerun", "child": "silence_task_prerun", "log": "silence_task_logging", "path": "silence_task_prerun", "body": None}

    def build(self, w):
        w.data["armed"] = self.armed
        self.config = dict(self.config, func_run_id=run_id)
        if self.OPT[self.where]:
            # the options about other errors must not matter
            self.config.update({o: not self.silent for o in self.OPT.values() if o})
            self.config[self.OPT[self.where]] = self.silent
        super().build(w)
        if self.where == "path":
            # the code of the task is not there
            from rocketry.tasks import FuncTask
            w.session.remove_task("v")
            t = w.task["v"]
            w.task["v"] = FuncTask(path="/nonexistent/code.py", func_name="f", name="v", execution=t.execution, priority=t.priority, multilaunch=t.multilaunch, session=w.session)
            for _ in t.batches:
                w.task["v"].run()
        w.session.hook_scheduler_cycle()(cyc)
        if self.where == "log":
            logging.getLogger("rocketry.task").addHandler(FaultHandler(w, self.actions))
        if self.where in ("param", "pre"):
            from rocketry.args import FuncArg
            w.task["v"].parameters["x"] = FuncArg(arg_value, materialize={"param": "post", "pre": "pre"}[self.where])

    armed = True

    def child_dies(self, w, rid):
        if self.where == "child" and w.data["armed"] and rid.startswith("v#"):
            w.ev("fault", where="child", rid=rid)
            return True
        return False

    def check(self, w):
        ended = {e["rid"] for e in w.events if e["k"] == "log" and e["action"] in TERMINAL}
        threads = {e["rid"] for e in w.events if e["k"] == "spawn" and e["kind"] == "thread"}
        w.alive_at_end = [r for r in w.alive_at_end if r not in ended or r not in threads]    # a thread may be about to exit
        bad = all_dead(w) + exclusive(w, [t.name for t in self.tasks if t.kw.get("multilaunch")])
        faults = [e for e in w.events if e["k"] == "fault"]
        ex = next(t.exec for t in self.tasks if t.name == "v")
        if self.where in ("cond", "end", "log", "child"):
            fatal = bool(faults) and not self.silent
        elif self.where == "pre":
            fatal = bool(faults) and not self.silent and ex in ("main", "thread", "process")
        elif self.where == "param":
            fatal = bool(faults) and not self.silent and ex == "main"
        else:
            fatal = False
        if self.where == "pre" and ex == "async":
            fatal = False
        if self.where == "path":
            faults = [dict(where="path", rid=e["rid"], t=e["t"]) for e in w.events if e["k"] == "id" and e["task"] == "v"]
            fatal = bool(faults) and not self.silent
        if fatal != (w.result[0] == "raised"):
            bad.append(("the error is not treated as configured", f"silenced {self.silent}, faults {[(f['where'], f.get('action'), f.get('rid')) for f in faults]}, session {w.result}"))
        if w.result[0] not in ("raised", "returned"):
            bad.append(("the session does not end", f"{w.result}"))
        if w.result[0] == "raised" and not faults:
            bad.append(("the session ends with an error", f"{w.result}"))
        t_fatal = faults[0]["t"] if fatal and faults else None
        # every run: its start, its end, and whether the body was executed
        by, ids = {}, {}
        for e in w.events:
            if e["k"] == "log":
                by.setdefault(e["rid"], []).append(e)
            elif e["k"] == "id":
                ids[e["rid"]] = e["task"]
        entered = {e["rid"] for e in w.events if e["k"] == "enter"}
        sig = {e["rid"] for e in w.events if e["k"] == "sigterm"}
        for rid in set(by) | set(ids):
            es = by.get(rid, [])
            acts = [e["action"] for e in es]
            mine = [f for f in faults if f.get("rid") == rid]
            logf = [f["action"] for f in mine if f["where"] == "log"]
            how = w.outcomes.get(rid)
            body = {WANT[how]} if how else ({"terminate"} if rid in entered or ids.get(rid) != "v" or self.where == "end" else {"terminate", "fail"})
            if rid in sig:
                body.add("terminate")
            if rid is None:
                bad.append(("a record belongs to no run", f"{acts}"))
                continue
            if ids.get(rid) != "v" or not faults:
                ok = len(acts) == 2 and acts[0] == "run" and acts[1] in body
            elif self.where == "child":
                ok = acts == ["run", "fail"] and rid not in entered if mine else (len(acts) == 2 and acts[0] == "run" and acts[1] in body)
            elif self.where == "path":
                ok = acts == ["run", "fail"]
            elif self.where in ("param", "pre"):
                ok = (acts == ["run", "fail"] or (acts == ["run", "terminate"] and (fatal or w.shut))) if rid not in entered else (len(acts) == 2 and acts[0] == "run" and acts[1] in body)
            elif self.where == "end":
                # an end condition that cannot be evaluated counts as true
                ok = len(acts) == 2 and acts[0] == "run" and acts[1] in body
            elif self.where == "log":
                if "run" in logf and ex in ("main", "async", "thread"):
                    ok = acts == ["run", "fail"]
                    if rid in entered:
                        bad.append(("a task is executed although its start could not be recorded", f"run {rid}"))
                else:
                    ok = len(acts) == 2 and acts[0] == "run" and acts[1] in body
                    if logf and acts[:1] == ["run"] and acts[1:2] and acts[1] in body and acts[2:] == ["fail"]:
                        ok = True          # the failure to record the end is recorded as well
                    if fatal and acts[:1] == ["run"] and acts[1:] and acts[1] == "terminate":
                        ok = True
            else:
                ok = len(acts) == 2 and acts[0] == "run" and acts[1] in body
            if not ok:
                bad.append(("a run is not recorded as what happened to it", f"run {rid}: records {acts}, body {how}, faults {[(f['where'], f.get('action')) for f in mine]}"))
        # the others are not disturbed
        if t_fatal is None:
            started, open_ = None, False
            for e in w.events:
                if e["k"] == "cycle":
                    if e["at"] == "end" and open_ and not started:
                        bad.append(("another task does not run on time", f"no heartbeat in the cycle ending {e['t'] - world.T0:.3f}"))
                    open_, started = e["at"] == "begin", False
                elif e["k"] == "log" and e["task"] == "h" and e["action"] == "run":
                    started = True
            # a child that dies silently is waited for 10 seconds, nothing else holds up the scheduler
            last, wait = None, 0
            for e in w.events:
                if e["k"] == "cycle" and e["at"] == "begin":
                    if last is not None and e["t"] - last > self.config.get("cycle_sleep", 0.1) + wait + 1:
                        bad.append(("the scheduler is held up", f"no cycle for {e['t'] - last:.1f} seconds until {e['t'] - world.T0:.1f}"))
                    last, wait = e["t"], 0
                elif e["k"] == "fault" and e["where"] == "child":
                    wait += 10
            for rid, es in by.items():
                if rid and rid.startswith("r") and [e["action"] for e in es] != ["run", "success"]:
                    bad.append(("another task's run is disturbed", f"{rid}: {[e['action'] for e in es]}"))
            if self.where not in ("cond",) and w.final["v"]["batches"] and self.horizon > 0.5:
                bad.append(("the queued runs of the task are not all started", f"{len(w.final['v']['batches'])} left"))
        else:
            late = [e for e in w.events if e["k"] == "log" and e["action"] == "run" and e["t"] > t_fatal + 0.3 + slow(w, e["rid"])]
            if late and self.where != "child":
                bad.append(("tasks are started after a fatal error", f"{[e['rid'] for e in late]}"))
            if self.where == "cond":
                for rid, es in by.items():
                    if rid.startswith("r") and es[-1]["action"] != "terminate" and es[-1]["t"] > t_fatal + 0.3 + slow(w, rid):
                        bad.append(("a run survives a fatal error", f"{rid}: {es[-1]['action']}"))
        # the status of the victim
        if self.where == "log" and faults and not fatal:
            last = [e for e in w.events if (e["k"] == "fault") or (e["k"] == "log" and e["task"] == "v")][-1]
            want = "fail" if last["k"] == "fault" else last["action"]
            if last["k"] == "fault" and last["action"] == "run":
                want = None
            if want and w.final["v"]["status"] != want:
                bad.append(("the status of a task whose record failed is wrong", f"{w.final['v']['status']}, expected {want}"))
        return bad


def raising(w):
    if w.data["armed"]:
        w.ev("fault", where="cond")
        raise Boom("cond")
    return w.data.get("due", False)


def raising_end(w):
    if w.data["armed"]:
        w.ev("fault", where="end")
        raise Boom("end")
    return False


TOGGLE = ("toggle", lambda w: w.data.update(armed=not w.data["armed"]), 2)


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    others = [T("h", "async", None, cond=lambda w: True), T("r1", "thread", "flag", [{}]), T("r2", "process", None, [{}]), T("r3", "async", None, [{}])]
    from mc import bodies
    for n in ("v", "r1", "r2", "r3"):
        if f"sync_{n}" not in vars(bodies):
            bodies._make(n)
            bodies.NAMES = tuple(bodies.NAMES) + (n,)
    bodies.install_flags()
    plans = {"v": [(0.12, "ok"), (0.0, "fail"), (0.25, "ok")], "r1": [(0.35, "ok")], "r2": [(0.35, "ok")], "r3": [(0.35, "ok")]}
    for ex, body in (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync")):
        for silent in (True, False):
            nm = f"{ex} {'silenced' if silent else 'not silenced'}"
            kw = dict(plans=plans, silent=silent, horizon=0.55, early=False, total=k, budgets={"preempt": 1} if q else {"preempt": 1}, env=[TOGGLE], env_max=2, order=False, preempt=False)
            yield Fault(f"{nm}: condition", [T("v", ex, body, cond=raising)] + others, where="cond", armed=False, **{**kw, "env": [TOGGLE, ("due", lambda w: w.data.update(due=not w.data.get("due")), 1)]})
            if ex != "main":
                yield Fault(f"{nm}: end condition", [T("v", ex, body, [{}, {}], end=raising_end)] + others, where="end", armed=False, **kw)
            for where in ("param", "pre"):
                for armed in (True, False):
                    yield Fault(f"{nm}: parameter {where} {'' if armed else 'later'}", [T("v", ex, body, [{}, {}])] + others, where=where, armed=armed, **kw)
            for acts in (("run",), ("success", "fail"), ("run", "success", "fail")):
                for armed in (True, False):
                    yield Fault(f"{nm}: log of {'/'.join(acts)} {'' if armed else 'later'}", [T("v", ex, body, [{}, {}])] + others, where="log", actions=acts, armed=armed, **kw)
            if ex == "process":
                for armed in (True, False):
                    yield Fault(f"{nm}: child dies in setup {'' if armed else 'later'}", [T("v", ex, body, [{}, {}])] + others, where="child", armed=armed, config=dict(cycle_sleep=2.0), **{**kw, "horizon": 25.0, "hard": 90, "total": 1 if q else 2})
            for multi in (False, True):
                if not (multi and ex == "main"):
                    yield Fault(f"{nm}: no code{', overlapping' if multi else ''}", [T("v", ex, body, [{}, {}], kw={"multilaunch": multi})] + others, where="path", **kw)
            for when in ("on_startup", "on_shutdown"):
                # outside the cycles
                at = lambda c=None: [T("v", ex, body, cond=c, kw={when: True})] + others
                yield Fault(f"{nm}: condition, {when}", at(raising), where="cond", armed=when == "on_startup", **kw)
                for where, acts in (("param", ()), ("pre", ()), ("log", ("run",)), ("log", ("success", "fail"))):
                    yield Fault(f"{nm}: {where} {acts}, {when}", at(), where=where, actions=acts, armed=when == "on_startup", **kw)
            if ex != "main":
                # another run of the task is in progress
                long = {**kw, "plans": {**plans, "v": [(0.4, "ok")]}}
                for where in ("param", "pre"):
                    yield Fault(f"{nm}: parameter {where}, overlapping", [T("v", ex, body, [{}, {}, {}], kw={"multilaunch": True})] + others, where=where, armed=False, **long)
            if ex == "process":
                yield Fault(f"{nm}: child dies in setup, overlapping", [T("v", ex, body, [{}, {}], kw={"multilaunch": True})] + others, where="child", armed=False, config=dict(cycle_sleep=2.0),
                            **{**kw, "plans": {**plans, "v": [(15.0, "ok"), (35.0, "ok")]}, "horizon": 60.0, "hard": 150, "total": 2})
            if ex in ("thread", "process"):
                few = [T("v", ex, body, [{}, {}])] + [others[0], others[1]]
                for where, acts in (("param", ()), ("log", ("run",)), ("log", ("success", "fail"))):
                    yield Fault(f"{nm}: {where} {acts} under preemption", few, where=where, actions=acts, **{**kw, "preempt": True, "total": 1 if q else 2, "horizon": 0.35, "env": []})
        yield Fault(f"{ex}: body", [T("v", ex, body, [{}, {}, {}])] + others, where="body", **{**kw, "plans": {**plans, "v": [(0.0, "fail"), (0.12, "fail"), (0.12, "inaction"), (0.12, "ok")]}})


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
