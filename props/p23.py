"""P23: another thread may control a running session at any moment."""
import os
import sys

from mc import boot, explore
from .wl import *

TRACED = tuple(os.path.join(boot.REPO, "rocketry", *p) for p in (("session.py",), ("core", "schedule.py"), ("core", "task.py")))
FINE = {}


def step():
    w = world.CUR
    if w is not None and not w.muted and (w.cur.kind == "user" or w.cur is w.main and w.sc.window[0] <= w.data.get("cycles", 0) < w.sc.window[1]):
        w.point("line")


def tracer():
    def local(frame, event, arg):
        if event == "line":
            step()
        return local

    def glob(frame, event, arg):
        return local if event == "call" and frame.f_code.co_filename in TRACED else None
    return glob


class Instructions:
    """A switch point before every instruction of the traced files."""
    tool = 3
    codes = None

    @classmethod
    def on(cls):
        import gc
        import types
        mon = sys.monitoring
        if cls.codes is None:
            todo = [f.__code__ for f in gc.get_objects() if isinstance(f, types.FunctionType) and f.__code__.co_filename in TRACED]
            cls.codes = set()
            while todo:
                c = todo.pop()
                if c not in cls.codes:
                    cls.codes.add(c)
                    todo += [k for k in c.co_consts if isinstance(k, types.CodeType)]
            mon.use_tool_id(cls.tool, "verif")
            mon.register_callback(cls.tool, mon.events.INSTRUCTION, lambda code, off: step())
        for c in cls.codes:
            mon.set_local_events(cls.tool, c, mon.events.INSTRUCTION)

    @classmethod
    def off(cls):
        for c in cls.codes or ():
            sys.monitoring.set_local_events(cls.tool, c, 0)


def cyc():
    w = world.CUR
    w.data["cycles"] = w.data.get("cycles", 0) + 1
    w.ev("cycle", at="begin")
    yield
    w.ev("cycle", at="end")


class User(world.FakeThread):
    _kind = "user"

    def start(self):
        w = world.CUR
        w.last_rid = None
        super().start()


def noop():
    pass


class Control(Std):
    """A scheduler working on some tasks and a user doing `script`: each step at any line of the scheduler."""
    preempt_kinds = ("line",)
    order = False
    horizon = 0.75
    opcodes = False
    hard = 20.0
    script = ()
    window = (0, 99)          # number of cycles begun
    at = 0.25
    within = 3                # cycles
    user_points = True
    early = False
    stall = 0

    def may_switch(self, w, me, other):
        return {me.kind, other.kind} == {"main", "user"} and (self.user_points or me.kind == "main")

    def build(self, w):
        super().build(w)
        w.session.hook_scheduler_cycle()(cyc)

    def user(self, w):
        if not self.opcodes:
            sys.settrace(tracer())
        try:
            for label in self.script:
                w.sleep(self.at)
                w.ev("op", op=label, at="begin")
                try:
                    OPS[label](w)
                except (world.Killed, world.Abort, world.Diverged):
                    raise
                except Exception as exc:
                    w.ev("op", op=label, at="end", exc=f"{type(exc).__name__}: {exc}")
                else:
                    w.ev("op", op=label, at="end", exc=None)
        finally:
            sys.settrace(None)

    def drive(self, w):
        t = User(target=self.user, args=(w,))
        w.nopoint += 1
        t.start()
        w.nopoint -= 1
        # let the user begin waiting
        w._go(t._actor)
        if self.opcodes:
            Instructions.on()
        else:
            sys.settrace(tracer())
        try:
            w.session.start()
        finally:
            sys.settrace(None)
            if self.opcodes:
                Instructions.off()

    def at_horizon(self, w):
        w.session.scheduler.on_hold = False
        w.session.shut_down()

    def check(self, w):
        w.alive_at_end = [a for a in w.alive_at_end if a is not None]
        bad = returned(w) + all_dead(w) + exclusive(w) + [b for b in lifecycle(w) if not (b[0] == "a record names another task" and any(op.startswith("rename") for op in self.script))]
        ops = [e for e in w.events if e["k"] == "op"]
        for e in ops:
            if e["at"] == "end" and e["exc"]:
                bad.append(("a call from another thread fails", f"{e['op']}: {e['exc']}"))
        cycles = [(i, e) for i, e in enumerate(w.events) if e["k"] == "cycle"]
        starts = {}                       # task -> [index of the start record]
        for i, e in enumerate(w.events):
            if e["k"] == "log" and e["action"] == "run":
                starts.setdefault(e["task"], []).append(i)
        done = {e["op"]: i for i, e in enumerate(w.events) if e["k"] == "op" and e["at"] == "end"}
        begun = {}
        for i, e in enumerate(w.events):
            if e["k"] == "op" and e["at"] == "begin":
                begun.setdefault(e["op"], i)

        def cycle_after(i, n=1):
            """Index at which the n-th cycle beginning after event i begins (None: there is none), and where it ends."""
            bs = [j for j, e in cycles if e["at"] == "begin" and j > i]
            if len(bs) < n:
                return None, None
            es = [j for j, e in cycles if e["at"] == "end" and j > bs[n - 1]]
            return bs[n - 1], (es[0] if es else None)

        enters = [e for e in w.events if e["k"] == "enter"]
        tags = [e["kw"]["tag"] for e in enters if e["kw"].get("tag") is not None]
        want = [t for l, t in TAGS.items() if l in done and cycle_after(done[l], self.within)[1] is not None and "hold" not in self.script]
        for t in set(tags):
            if tags.count(t) > 1:
                bad.append(("a queued run is executed more than once", f"{t}: {tags}"))
        for t in want:
            if t not in tags:
                bad.append(("a queued run is not executed", f"{t}: {tags}"))
        stop = {"disable": "a", "remove": "a", "remove by name": "a", "delete": "a", "hold": None, "shut down": None, "restart": None}
        for op, who in stop.items():
            if op not in done:
                continue
            b, _ = cycle_after(done[op])
            until = begun.get("resume", len(w.events)) if op == "hold" else begun.get("enable", len(w.events)) if op == "disable" else len(w.events)
            horizon = next((i for i, e in enumerate(w.events) if e["k"] == "env" and e["op"] == "horizon"), len(w.events))
            if op == "hold":
                until = min(until, horizon)
            if op == "shut down":
                if b is not None:
                    bad.append(("scheduling goes on after a shutdown", f"a cycle begins at {w.events[b]['t'] - world.T0:.3f}"))
                continue
            if op == "restart":
                starts_up = [i for i, e in enumerate(w.events) if e["k"] == "sched" and e["action"] == "setup" and i > done[op]]
                if len(starts_up) != 1 and done[op] < horizon:
                    bad.append(("a restart does not happen once", f"{len(starts_up)} start-ups after it"))
                continue
            if b is None:
                continue
            for task, idx in starts.items():
                if who in (None, task) and any(b < i < until for i in idx):
                    bad.append((f"a task is started after {op}", f"{task} in a cycle beginning after the call"))
        go = {"enable": "b", "resume": "c", "add": "n", "add due": "m"}
        for op, who in go.items():
            if op in done and op != "add":
                b, e = cycle_after(done[op])
                if e is not None and not any(begun[op] < i < e for i in starts.get(who, [])):
                    bad.append((f"a task is not started after {op}", f"{who} in the first whole cycle after the call"))
        if "terminate" in done:
            ends = [e for e in logs(w, "l") if e["action"] == "terminate"]
            b, e = cycle_after(done["terminate"], 2)
            alive = any(i < begun["terminate"] for i in starts.get("l", []))
            if b is not None and alive and len(ends) != 1:
                bad.append(("a termination does not take effect exactly once", f"{[(x['rid'], x['action']) for x in logs(w, 'l')]}"))
        for e in logs(w):
            if e["action"] == "terminate" and not (e["task"] == "l" and "terminate" in begun):
                bad.append(("a run is terminated without a reason", f"{e['rid']}"))
        if any(e["k"] == "thread-exc" for e in w.events):
            bad.append(("a thread ends with an error", f"{[e for e in w.events if e['k'] == 'thread-exc']}"))
        return bad


def add(w, name, **kw):
    from rocketry.tasks import FuncTask
    from mc import bodies
    w.task[name] = FuncTask(bodies.body("async", name), name=name, execution="async", session=w.session, **kw)
    return w.task[name]


def look(w):
    s = w.session
    for n in "abcdl":
        assert n not in w.task or n in s or n == "a"
    assert "zz" not in s
    for n in "bce":
        assert n not in w.task or s[n].name == n
    try:
        s["zz"]
    except KeyError:
        pass


def rename(w):
    w.task["c"].name = "c2"


OPS = {
    "run": lambda w: w.task["c"].run(tag="r1"),
    "run busy": lambda w: w.task["d"].run(tag="r2"),
    "run again": lambda w: w.task["c"].run(tag="r3"),
    "run disabled": lambda w: w.task["b"].run(tag="r4"),
    "force": lambda w: setattr(w.task["b"], "force_run", True),
    "terminate": lambda w: w.task["l"].terminate(),
    "disable": lambda w: setattr(w.task["a"], "disabled", True),
    "enable": lambda w: setattr(w.task["b"], "disabled", False),
    "add": lambda w: add(w, "g").run(tag="r5"),
    "add due": lambda w: add(w, "m", start_cond=make_cond(lambda w: True, w)),
    "remove": lambda w: w.session.remove_task(w.task["a"]),
    "remove by name": lambda w: w.session.remove_task("a"),
    "delete": lambda w: w.task["a"].delete(),
    "remove long": lambda w: w.session.remove_task("l"),
    "remove starting": lambda w: w.session.remove_task("f"),
    "rename starting": lambda w: setattr(w.task["f"], "name", "f2"),
    "run starting": lambda w: w.task["f"].run(tag="r6"),
    "rename": rename,
    "rename long": lambda w: setattr(w.task["l"], "name", "l2"),
    "look up": look,
    "hold": lambda w: setattr(w.session.scheduler, "on_hold", True),
    "resume": lambda w: setattr(w.session.scheduler, "on_hold", False),
    "shut down": lambda w: w.session.shut_down(),
    "restart": lambda w: w.session.restart(),
}
TAGS = {"run": "r1", "run busy": "r2", "run again": "r3", "run disabled": "r4", "add": "r5", "run starting": "r6"}
MORE = 0


def adder(w):
    """A task of the session that adds and removes tasks itself."""
    from rocketry.tasks import FuncTask
    k = w.data["k"] = w.data.get("k", 0) + 1
    FuncTask(noop, name=f"x{k}", execution="main", session=w.session)
    FuncTask(noop, name=f"y{k}", execution="main", session=w.session)        # the number of tasks changes, too
    if k > 1:
        w.session.remove_task(f"x{k - 1}")
    return False


def yes(w):
    return True


NEED = {"run": "c", "run again": "c", "run busy": "d", "run disabled": "b", "force": "b", "terminate": "l", "disable": "a", "enable": "b", "remove": "a", "remove by name": "a", "delete": "a",
        "remove starting": "f", "rename starting": "f", "run starting": "f", "remove long": "l", "rename long": "l", "rename": "c", "hold": "c", "resume": "c", "look up": "abe", "add": "e", "add due": "", "shut down": "la", "restart": "la"}


QUICK = {"async": [op for op in OPS if op not in ("run again", "delete", "remove", "add", "run disabled")], "thread": ("remove starting", "run busy", "terminate", "remove long", "remove", "disable"), "process": ("remove starting", "rename starting", "run starting", "run busy", "terminate", "remove", "remove long", "rename long", "shut down"), "main": ("run", "disable", "remove by name", "look up", "shut down")}


def tasks(ex, script, full=False):
    body = {"async": "async", "thread": "flag", "process": "sync", "main": "sync"}[ex]
    have = {"c"} | {n for op in script for n in NEED[op]} if not full else set("abcdefl")
    out = [T("a", ex, body, cond=yes), T("c", ex, body, cond=yes), T("b", ex, body, kw={"disabled": True}, cond=yes),
           T("d", "async" if ex == "main" else ex, "async" if ex == "main" else body, [{}]), T("e", "main", "sync", cond=adder),
           T("f", "async" if ex == "main" else ex, "async" if ex == "main" else body, cond=lambda w: w.data.get("cycles", 0) == 2),
           T("l", "async" if ex == "main" else ex, "async" if ex == "main" else body, [{}])]
    return [t for t in out if t.name in have]


def scenarios(tier):
    from mc import bodies
    for n in ("l", "m"):
        if f"sync_{n}" not in vars(bodies):
            bodies._make(n)
            bodies.NAMES = tuple(bodies.NAMES) + (n,)
    bodies.install_flags()
    q = tier == "quick"
    plans = {"a": [(0.0, "ok")], "b": [(0.0, "ok")], "c": [(0.0, "ok")], "d": [(0.25, "ok")], "l": [(0.45, "ok")], "f": [(0.6, "ok")], "m": [(0.0, "ok")], "g": [(0.0, "ok")]}
    kw = dict(plans=plans, horizon=0.55, config=dict(restarting="recall"))
    base = kw
    for ex in ("async", "thread", "process", "main"):
        for op in OPS:
            kw = base
            if op == "resume":
                continue
            script = (op,) if op != "hold" else ("hold", "resume")
            if op == "restart":
                kw = {**kw, "horizon": 1.3}
            if op == "run starting":
                kw = {**kw, "horizon": 1.5, "within": 9}
            if not q or op in QUICK[ex]:
                yield Control(f"{ex}: {op}", tasks(ex, script, not q), script=script, total=1, window=(2, 3) if q else (0, 99), **kw)

    # between any two instructions
    for op in ("run", "disable", "run starting", "remove starting", "terminate", "shut down"):
        for ex in ("async", "thread", "process"):
            if not q or (ex, op) == ("async", "run"):
                yield Control(f"{ex}: {op} by instruction", tasks(ex, (op,)), script=(op,), total=1, opcodes=True, window=(2, 3), MAX_STEPS=300000, **(base if op != "run starting" else {**base, "horizon": 1.5, "within": 9}))
    # the user is interrupted as well
    for op in OPS:
        if op != "resume":
            script = (op,) if op != "hold" else ("hold", "resume")
            yield Control(f"{op}, interrupted", tasks("async", script), script=script, total=1 if q else 2, window=(2, 2), user_stall=True, stall=0.05, **{**base, "horizon": 1.5 if op in ("restart", "run starting") else 0.55, "within": 9 if op == "run starting" else 3})


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
