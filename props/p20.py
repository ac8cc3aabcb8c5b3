"""P20: the session's task collection stays consistent under any sequence of changes."""
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap
from . import lab

BASE = D.datetime(2022, 3, 2, 10)
NAMES = ("a", "b", "c", "a - 1")


def ops(tier):
    out = [("new", "a"), ("new", "b"), ("new", "a - 1")]
    out += [("rename", 0, "b"), ("rename", 0, "a"), ("rename", 1, "c"), ("rename", 1, "a"), ("rename", 2, "b")]
    out += [("remove name", "a"), ("remove", 1), ("delete", 0), ("remove name", "nope"), ("again", 0)]
    out += [("back",), ("foreign", "a"), ("foreign", "d"), ("group", ""), ("group", "g.")]
    return out


class Model:
    """One session with what it has to contain."""

    def __init__(self, k, policy):
        from rocketry import Session
        self.clock = lab.Clock(BASE)
        self.s = lab.session(self.clock, task_pre_exist=policy)
        self.policy = policy
        self.tasks = []          # [(name, task, function or None, description)]
        self.gone = []
        self.ran = []
        self.k = k
        self.n = 0

    def func(self):
        self.n += 1
        n = self.n

        def fn():
            self.ran.append(n)
        fn.__name__ = f"fn{n}"
        return fn, n

    def names(self):
        return [x[0] for x in self.tasks]

    def expect_add(self, name, do, bad, what, get=None):
        """do() adds a task called `name`; returns the task."""
        known = {id(t) for _, t, _, _ in self.tasks}
        exists = name in self.names()
        try:
            r = do()
            err = None
        except (KeyError, ValueError) as exc:
            r, err = None, exc
        if exists and self.policy == "raise":
            if err is None:
                bad.append((what, f"no error though {name!r} exists"))
            return None
        if err is not None:
            bad.append((what, f"raised {type(err).__name__}: {str(err)[:80]}"))
            return None
        if exists and self.policy == "ignore":
            return None
        new = [t for t in self.s.tasks if id(t) not in known]
        if len(new) != 1:
            bad.append((what, f"{len(new)} tasks were added"))
            return None
        t = new[0]
        if not exists and t.name != name or exists and not self.numbered(t.name, name):
            bad.append((what, f"the task got the name {t.name!r}"))
        return t

    def numbered(self, name, base):
        rest = name[len(base):]
        return name.startswith(base) and name not in self.names() and rest.strip(" -").isdigit()

    def do(self, op, step, bad, what):
        from rocketry.tasks import FuncTask, CommandTask
        from rocketry.conds import true
        from rocketry.application import Rocketry, Grouper
        s = self.s
        kind = op[0]
        if kind == "new":
            name = op[1]
            fn, n = self.func()
            kw = dict(name=name, start_cond=true, description=f"d{n}", execution="main")
            form = (step + n) % 3
            if form == 0:
                t = self.expect_add(name, lambda: FuncTask(fn, session=s, **kw), bad, what)
            elif form == 1:
                t = self.expect_add(name, lambda: FuncTask(session=s, **kw)(fn), bad, what)
            else:
                t = self.expect_add(name, lambda: s.create_task(func=fn, **kw), bad, what)
            if t is not None:
                self.tasks.append((t.name, t, fn if form == 1 else None, n))
        elif kind in ("foreign", "back"):
            if kind == "foreign":
                fn, n = self.func()
                donor = self.donor()
                t = FuncTask(fn, name=op[1], session=donor, start_cond=true, description=f"d{n}", execution="main")
                name = op[1]
            else:
                if not self.gone:
                    return
                name, t, fn, n = self.gone.pop()
                name = t.name
            r = self.expect_add(name, lambda: s.add_task(t), bad, what)
            if r is not None:
                if r is not t:
                    bad.append((what, "another object was added"))
                if r.session is not s:
                    bad.append((what, "the added task belongs to another session"))
                self.tasks.append((r.name, r, None, n))
        elif kind == "group":
            fn, n = self.func()
            fn2, n2 = self.func()
            g = Grouper(prefix=op[1] or None)
            kw = dict(start_cond=true, execution="main")
            g.task(name="a", description=f"d{n}", func=fn, **kw)
            names = [(op[1] or "") + "a"]
            app = Rocketry.__new__(Rocketry)
            app.session = s
            t = self.expect_add(names[0], lambda: app.include_grouper(g), bad, what)
            if t is not None:
                self.tasks.append((t.name, t, None, n))
        elif kind == "again":
            if len(self.tasks) > op[1]:
                try:
                    s.add_task(self.tasks[op[1]][1])
                except (KeyError, ValueError):
                    pass
        elif kind == "rename":
            if len(self.tasks) <= op[1]:
                return
            old, t, fn, n = self.tasks[op[1]]
            new = op[2]
            exists = new in self.names() and new != old
            try:
                t.name = new
                err = None
            except (KeyError, ValueError) as exc:
                err = exc
            if not exists and err is not None:
                bad.append((what, f"renaming {old!r} to {new!r} raised {type(err).__name__}"))
            elif exists and self.policy == "raise" and err is None:
                bad.append((what, f"renaming {old!r} to {new!r}, which exists, did not raise"))
            elif exists and self.policy == "rename" and err is None:
                if not self.numbered(t.name, new):
                    bad.append((what, f"renaming {old!r} to {new!r}, which exists, gave {t.name!r}"))
                self.tasks[op[1]] = (t.name, t, None, n)
            elif not exists:
                self.tasks[op[1]] = (new, t, fn if new == old else None, n)
        elif kind in ("remove", "delete", "remove name"):
            if kind == "remove name":
                hit = [x for x in self.tasks if x[0] == op[1]]
                fn = lambda: s.remove_task(op[1])
            else:
                hit = self.tasks[op[1]:op[1] + 1]
                if not hit:
                    return
                t = hit[0][1]
                fn = (lambda: s.remove_task(t)) if kind == "remove" else t.delete
            try:
                fn()
                err = None
            except KeyError as exc:
                err = exc
            if (err is None) != bool(hit):
                bad.append((what, f"{op}: {err!r}"[:100]))
            if hit:
                self.tasks.remove(hit[0])
                self.gone.append(hit[0])

    def donor(self):
        from rocketry import Session
        return Session(config=dict(execution="main", task_pre_exist="raise"))

    def check(self, bad, what):
        s = self.s
        if sorted(t.name for t in s.tasks) != sorted(self.names()):
            bad.append((what, f"the session has {sorted(t.name for t in s.tasks)}, should have {sorted(self.names())}"))
            return
        if {id(t) for t in s.tasks} != {id(x[1]) for x in self.tasks}:
            bad.append((what, "the session has other task objects than it should"))
        if len(s.tasks) != len(self.tasks) or len(list(s.get_tasks())) != len(self.tasks):
            bad.append((what, "the number of tasks differs"))
        for name, t, fn, n in self.tasks:
            keys = [name, t] + ([fn] if fn else [])
            for k in keys:
                try:
                    got = s[k]
                except Exception as exc:
                    got = repr(exc)
                if got is not t or k not in s:
                    bad.append((what, f"{name!r} is not found by {'its name' if k is name else 'itself'}: {str(got)[:60]}"))
            if t.name != name or t.description != f"d{n}" or t.session is not s or t.batches or t.disabled:
                bad.append((what, f"the task {name!r} was disturbed: {t.name!r} {t.description!r}"))
        for name in NAMES + ("d", "g.a", "nope"):
            if name not in self.names():
                if name in s:
                    bad.append((what, f"{name!r} is found though it is not there"))
                try:
                    s[name]
                    bad.append((what, f"{name!r} is found though it is not there"))
                except KeyError:
                    pass

    def end(self, bad, what):
        self.ran.clear()
        lab.drive(self.s, self.clock, [BASE])
        if sorted(self.ran) != sorted(x[3] for x in self.tasks):
            bad.append((what, f"a cycle ran {sorted(self.ran)}, the session has {sorted(x[3] for x in self.tasks)}"))


def sequences(a):
    policy, tier, k, n_ = a
    boot.import_rocketry()
    bad, st, cnt = [], 0, 0
    O = ops(tier)
    depth = 3 if tier == "quick" else 4
    starts = ([("new", "a"), ("new", "b")],) if tier == "quick" else ([("new", "a"), ("new", "b")], [], [("new", "a"), ("new", "a - 1"), ("new", "b")])
    i = -1
    for start in starts:
        for seq in itertools.product(O, repeat=depth):
            i += 1
            if i % n_ != k:
                continue
            st += 1
            other = Model(1, policy)
            ref = []
            for o in (("new", "a"), ("new", "c")):
                other.do(o, 0, ref, "other")
            m = Model(0, policy)
            for j, o in enumerate(list(start) + list(seq)):
                what = f"[{policy}] {list(start) + list(seq)[:j - len(start) + 1]}"
                b0 = len(bad)
                m.do(o, j, bad, what)
                m.check(bad, what)
                cnt += 1
                if len(bad) > b0:
                    break
            else:
                what = f"[{policy}] {list(start) + list(seq)}"
                m.end(bad, what)
                other.check(bad, "other session after " + what)
                if i % 5 == 0:
                    other.end(bad, "other session after " + what)
            if len(bad) > 30:
                return policy, st, cnt, bad
    return policy, st, cnt, bad


def isolation(a):
    """Two sessions with settings of their own, started in any order."""
    _, tier, k, n_ = a
    boot.import_rocketry()
    import logging
    from rocketry import Session
    from rocketry.tasks import FuncTask
    from rocketry.args import Return, Arg
    from rocketry.log import MinimalRecord
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    bad, st, cnt = [], 0, 0
    times = {"a": D.datetime(2001, 1, 1), "b": D.datetime(2002, 2, 2), None: None}
    depth = 3 if tier == "quick" else 4
    cases = list(itertools.product(itertools.product("ab", repeat=depth), ("a", None), ("b", None), ("same log", "own logs")))
    for i, (order, ta, tb, log) in enumerate(cases):
        if i % n_ != k:
            continue
        st += 1
        what = f"clocks {ta}, {tb}; sessions started {order}; {log}"
        seen = []
        S, repos, tasks = {}, {}, {}
        for x, tf in (("a", ta), ("b", tb)):
            base = "rocketry.task" if log == "same log" else f"rocketry.task{x}"
            cfg = dict(cycle_sleep=None, execution="main", task_logger_basename=base)
            if tf:
                cfg["time_func"] = lab.Clock(times[tf])
            S[x] = s = Session(config=cfg, delete_existing_loggers=log != "same log" or x == "a")
            lg = logging.getLogger(base)
            lg.setLevel(logging.INFO)
            if log != "same log" or x == "a":
                repos[x] = MemoryRepo(model=MinimalRecord)
                lg.addHandler(RepoHandler(repo=repos[x]))
            else:
                repos[x] = repos["a"]
            s.parameters["p"] = x
            s.parameters[f"only{x}"] = x

            def hook(x=x):
                seen.append(("hook", x))
            s.hook_scheduler_cycle()(hook)

            def init(x=x):
                seen.append(("init", x))
            s.hook_task_init()(init)

            def work(p, only=Arg("onlya", default=None), x=x):
                seen.append(("run", x, p, only))
                return f"val{x}"

            def user(v=Return("w"), p="none", x=x):
                seen.append(("use", x, v, p))
            n0 = len(seen)
            tasks[x] = FuncTask(work, name="w", start_cond="true", priority=2, session=s)
            FuncTask(user, name="u", start_cond="true", priority=1, session=s)
            if set(seen[n0:]) != {("init", x)}:
                bad.append((what, f"hooks called when creating the tasks of {x}: {seen[n0:]}"))
            del seen[:]
            cnt += 1
        from rocketry.conditions import SchedulerCycles
        for j, x in enumerate(order):
            del seen[:]
            n = len(repos[x].filter_by().all())
            S[x].config.shut_cond = SchedulerCycles() >= 1
            S[x].start()
            cnt += 1
            want = [("hook", x), ("run", x, x, "a" if x == "a" else None), ("use", x, f"val{x}", x)]
            if seen != want:
                bad.append((what, f"start {j + 1}, of {x}: {seen}, should be {want}"))
            tf = (ta, tb)["ab".index(x)]
            recs = repos[x].filter_by().all()[n:]
            if len(recs) != 4:
                bad.append((what, f"start {j + 1}, of {x}: {len(recs)} records"))
            for r in recs:
                t = D.datetime.fromtimestamp(float(r.created), D.timezone.utc).replace(tzinfo=None)
                if tf is None and t.year < 2010 or tf is not None and t != times[tf]:
                    bad.append((what, f"start {j + 1}, of {x}: record of {t}"))
            o = "ab"["ba".index(x)]
            if dict(S[o].parameters.items()) != {"p": o, f"only{o}": o}:
                bad.append((what, f"parameters of {o}: {S[o].parameters}"))
            if len(S[o].tasks) != 2 or S[o]["w"] is not tasks[o]:
                bad.append((what, f"tasks of {o}"))
        for x in "ab":
            got = S[x].returns.get(tasks[x])
            if got != (f"val{x}" if x in order else None):
                bad.append((what, f"return value in {x}: {got}"))
    return "two sessions", st, cnt, bad[:30]


def job(a):
    return isolation(a) if a[0] == "two sessions" else sequences(a)


def run(ctx):
    n = 16
    jobs = [(pol, ctx.tier, k, n) for pol in ("raise", "ignore", "rename") for k in range(n)] + [("two sessions", ctx.tier, k, 8) for k in range(8)]
    agg = {}
    for name, st, cnt, bad in pmap(job, jobs):
        a = agg.setdefault(name, [0, 0])
        a[0] += st
        a[1] += cnt
        for what, how in bad:
            ctx.violation(f"{name}: {how[:40]}", f"{what}: {how}", {"what": what, "how": how})
    for name, (st, cnt) in agg.items():
        ctx.add(name, states=st, transitions=cnt, traces=st)
