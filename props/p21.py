"""P21: running selected tasks runs exactly those, once each, and leaves everything else as it was."""
from mc import explore, world
from .wl import Std, all_dead, logs, make_cond

NAMES = "abc"
EXECS = ("main", "async", "thread", "process")


class Boom(Exception):
    pass


def boom(w):
    raise Boom


class Sel(Std):
    """The choices made in build() enumerate the configurations: `total` of them differ from the base."""
    preempt = False
    early = False
    order = False
    horizon = 30.0
    base_exec = "main"
    obey = False

    def pick(self, w, *opts):
        return opts[w.choose("config", len(opts))]

    def build(self, w):
        from rocketry import Session
        from rocketry.conds import every
        from rocketry.core.condition import AlwaysFalse
        from rocketry.tasks import FuncTask
        from mc import bodies
        c = w.data["c"] = dict(obey=self.obey)
        c["over"] = self.pick(w, None, *[x for x in EXECS if x != self.base_exec], "bogus")
        c["prio"] = self.pick(w, (3, 2, 1), (1, 2, 3))
        c["by"] = self.pick(w, "name", "task", "function")
        c["limit"] = self.pick(w, 4, 1)
        c["op"] = self.pick(w, None, "add", "rename b", "rename c", "remove c", "disable b", "change execution")
        c["shut"] = self.pick(w, False, True)
        c["again"] = self.pick(w, False, True)
        c["started"] = self.pick(w, False, True)
        c["log"] = {}
        w.data["sel"] = sel = []
        for n in NAMES:
            f = dict(sel=self.pick(w, True, False) if n != "c" else self.pick(w, False, True))
            f["exec"] = self.pick(w, *([self.base_exec] + [x for x in EXECS if x != self.base_exec]))
            f["out"] = self.pick(w, (0.05, "ok"), (0.05, "fail"), (0, "ok"), (0.5, "inaction"))
            f["cond"] = self.pick(w, "never", "true", "raise") if not self.obey else self.pick(w, "true", "never", "raise")
            f["disabled"] = self.pick(w, False, True)
            f["queue"] = self.pick(w, 0, 2)
            f["special"] = self.pick(w, None, "on_startup", "on_shutdown")
            c[n] = f
            if f["sel"]:
                sel.append(n)
        shut_cond = make_cond(lambda w: not w.data["on"], w) if c["shut"] else None
        w.data["on"] = False
        w.session = s = Session(config=dict(time_func=world.now, func_run_id=world.run_id, execution="main",
                                            max_process_count=c["limit"], shut_cond=shut_cond))
        w.task, w.used = {}, {}
        for i, n in enumerate(NAMES):
            f = c[n]
            kind = {"async": "async", "thread": "flag", "process": "sync", "main": "sync"}[f["exec"]]
            if c["over"] or c["op"] == "change execution":
                kind = "sync"
            kw = dict(name=n, execution=f["exec"], priority=c["prio"][i], disabled=f["disabled"], session=s)
            if f["special"]:
                kw[f["special"]] = True
            kw["start_cond"] = {"never": AlwaysFalse(), "true": make_cond(lambda w: True, w), "raise": make_cond(boom, w)}[f["cond"]]
            if c["by"] == "function":
                kw["start_cond"], cond = None, kw["start_cond"]
                FuncTask(**kw)(bodies.body(kind, n))
                t = s[n]
                t.start_cond = cond
            else:
                t = FuncTask(bodies.body(kind, n), **kw)
            w.task[n] = t
            for k in range(f["queue"]):
                t.run(v=k)
        w.plan = lambda name: c[name]["out"]

    def snap(self, w):
        s = w.session
        out = {"config": {k: (id(v) if k in ("shut_cond", "time_func") else v) for k, v in s.config.__dict__.items()},
               "tasks": sorted(id(t) for t in s.tasks)}
        for n, t in w.task.items():
            out[n] = dict(name=t.name, disabled=t.disabled, execution=t.execution, queue=[dict(b) for b in t.batches], start=id(t.start_cond), end=id(t.end_cond),
                          priority=t.priority, on_startup=t.on_startup, on_shutdown=t.on_shutdown, parameters=list(t.parameters))
        return out

    def on_log(self, w, e):
        from rocketry.conditions import AlwaysTrue
        from rocketry.tasks import FuncTask
        c = w.data["c"]
        if e and e["action"] == "run" and c["op"] and not w.data.get("done"):
            w.data["done"] = True
            w.task_op = c["op"]
            if c["op"] == "add":
                FuncTask(print, name="new", session=w.session)
            elif c["op"] == "rename b":
                w.task["b"].name = "other"
            elif c["op"] == "rename c":
                w.task["c"].name = "other"
            elif c["op"] == "remove c":
                w.session.remove_task("c")
            elif c["op"] == "disable b":
                w.task["b"].disabled = True
            elif c["op"] == "change execution":
                w.task["b"].execution = "main"

    def drive(self, w):
        c = w.data["c"]
        w.data["rounds"] = []
        if c["started"]:
            # an ordinary session before it, in which nothing is to be done
            keep = {n: (t.disabled, t.batches) for n, t in w.task.items()}
            for t in w.task.values():
                t.disabled, t.batches = True, []
            from rocketry.conditions import SchedulerCycles
            old, w.session.config.shut_cond = w.session.config.shut_cond, SchedulerCycles() >= 1
            w.session.start()
            w.session.config.shut_cond = old
            for n, t in w.task.items():
                t.disabled, t.batches = keep[n]
        for k in range(1 + c["again"]):
            before = self.snap(w)
            mark = len(w.events)
            ref = {"name": lambda t: t.name, "task": lambda t: t, "function": lambda t: t.func}[c["by"]]
            gone = {c["op"][-1]} if k and c["op"] in ("remove c",) else set()
            # a function refers to the name its task was created with
            ref = {n: (lambda t: t.name) if c["by"] == "function" and w.task[n].name == "other" else ref for n in NAMES}
            chosen = [ref[n](w.task[n]) for n in w.data["sel"] if n not in gone]
            w.data["on"] = True
            err = None
            try:
                w.session.run(*chosen, execution=c["over"], obey_cond=c["obey"])
            except (Exception, KeyboardInterrupt, SystemExit) as exc:
                if isinstance(exc, world.Abort):
                    raise
                err = exc
            w.data["on"] = False
            w.data["rounds"].append((before, self.snap(w), w.events[mark:], err, [w.task[n].is_alive() for n in NAMES]))

    def at_horizon(self, w):
        w.data["late"] = True
        w.session.shut_down(force=True)

    def finish(self, w):
        w.final = {n: dict(alive=t.is_alive(), n_alive=t.n_alive) for n, t in w.task.items()}

    def check(self, w):
        c = w.data["c"]
        d = {k: v for k, v in c.items() if k not in NAMES and k != "log" and v} | {n: {k: v for k, v in c[n].items() if v} for n in NAMES}
        bad = all_dead(w)
        if w.result[0] != "returned" or w.data.get("late"):
            bad.append(("the run of selected tasks does not return", f"{w.result} [{d}]"))
            return [(k, x if "[" in x else f"{x} [{d}]") for k, x in bad]
        for k, (before, after, events, err, alive) in enumerate(w.data["rounds"]):
            self.round(w, c, d, k, before, after, events, err, bad)
            if any(alive):
                bad.append(("the call returned before the tasks were finished", f"{alive} [{d}]"))
        return bad

    def due(self, w, c, n, before):
        """(least, most) runs of the task"""
        f = c[n]
        if n not in w.data["sel"]:
            return 0, 0
        if not c["obey"]:
            lo = 1
        elif before[n]["queue"]:
            lo = 1
        elif f["disabled"] or c["op"] == "disable b" and n == "b":
            lo = 0
        elif f["special"] and f["cond"] == "never":
            lo = 1
        else:
            lo = int(f["cond"] == "true")
        hi = lo
        ex = c["over"] or f["exec"]
        if ex == "process" and c["limit"] == 1 and (c["obey"] or f["special"]):
            lo = 0       # no free process at that moment
        if c["op"] == "disable b" and n == "b" or c["op"] == "remove c" and n == "c":
            lo, hi = 0, 1
        return lo, hi

    def round(self, w, c, d, k, before, after, events, err, bad):
        sel = w.data["sel"]
        ok_err = False
        if c["over"] == "bogus" and sel:
            ok_err = True
        if c["obey"] and any(c[n]["cond"] == "raise" and (not c[n]["queue"]) and not c[n]["disabled"] for n in sel):
            ok_err = True
        if err is not None and not ok_err:
            bad.append(("the run of selected tasks fails", f"{err!r} [{d}]"))
        def who(e):
            n = e["rid"].split("#")[0]
            return c["op"][-1] if n == "other" else n
        starts = [e for e in events if e["k"] == "log" and e["action"] == "run"]
        enters = [e for e in events if e["k"] == "enter"]
        for what, es in (("logged", starts), ("executed", enters)):
            n_of = {}
            for e in es:
                n = who(e)
                n_of[n] = n_of.get(n, 0) + 1
            for n in set(NAMES) | set(n_of):
                lo, hi = self.due(w, c, n, before) if n in NAMES else (0, 0)
                if ok_err:
                    lo = 0
                if not lo <= n_of.get(n, 0) <= hi:
                    kind = "a task that was not selected ran" if n not in sel else "a selected task did not run exactly once"
                    bad.append((kind, f"task {n} was {what} {n_of.get(n, 0)} times, should be {lo}{'' if lo == hi else f'..{hi}'}, round {k} [{d}]"))
        ends = [e for e in events if e["k"] == "log" and e["action"] not in ("run",)]
        if err is None and not ok_err:
            for n in sel:
                es = [e for e in ends if who(e) == n]
                want = {"ok": "success"}.get(c[n]["out"][1], c[n]["out"][1])
                if [e["action"] for e in es] not in ([], [want]):
                    bad.append(("a selected task is logged with another outcome", f"{n}: {[e['action'] for e in es]}, should be {want} [{d}]"))
        order = [who(e) for e in starts]
        rank = {"on_startup": 0, None: 1, "on_shutdown": 2}
        prio = dict(zip(NAMES, c["prio"]))
        for i, x in enumerate(order):
            for y in order[i + 1:]:
                if x in NAMES and y in NAMES and x in sel and y in sel:
                    fx, fy = c[x], c[y]
                    late = c["limit"] == 1 and (c["over"] or fy["exec"]) == "process"
                    if (rank[fx["special"]], -prio[x]) > (rank[fy["special"]], -prio[y]) and not late:
                        bad.append(("selected tasks do not run in the order of priority", f"{order} [{d}]"))
        # everything as before
        for part in before:
            b, a = before[part], after[part]
            if part in NAMES:
                b, a = dict(b), dict(a)
                if c["op"] in ("rename b", "rename c") and part == c["op"][-1]:
                    b.pop("name"), a.pop("name")
                ex = c["over"] or c[part]["exec"] if part in sel else None
                if part in sel and c[part]["special"] and (ok_err or ex == "process" and c["limit"] == 1):
                    # the run queued by the scheduler at start-up or shutdown could not be started
                    b.pop("queue"), a.pop("queue")
                elif part in sel and c["obey"]:
                    # a queued run was taken from the queue (start-up and shut-down tasks also get one by the scheduler)
                    qb, qa = b.pop("queue"), a.pop("queue")
                    n_ran = sum(who(e) == part for e in starts)
                    if not c[part]["special"] and not ok_err and qa != (qb[n_ran:] if qb else []):
                        bad.append(("the queue of a task is not as before", f"{part}: {qb} -> {qa} after {n_ran} runs [{d}]"))
            elif part == "tasks" and c["op"] in ("add", "remove c"):
                continue
            if a != b:
                diff = {x: (b[x], a[x]) for x in b if a[x] != b[x]} if isinstance(b, dict) else (b, a)
                bad.append(("something is not as before after running selected tasks", f"{part}: {diff} [{d}]"))

    def digest(self, w):
        return (str(w.data["c"]), tuple((e["task"], e["action"]) for e in logs(w)))


def scenarios(tier):
    q = tier == "quick"
    for obey in (False, True):
        for ex in EXECS:
            yield Sel(f"{'due' if obey else 'forced'}, {ex}", [], obey=obey, base_exec=ex, total=2 if q and (obey or ex != "process") else 3)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
