"""P24: scheduler, parameter and custom conditions tell the present state."""
import datetime as D
import itertools
import re

from mc import boot
from mc.pool import pmap
from . import lab

T0 = D.datetime(2022, 3, 1, 10, 0)
MIN = D.timedelta(minutes=1)
SEC = D.timedelta(seconds=1)


class Watch:
    """Tasks started by the conditions under test; `run` gives for each cycle the names of those that ran."""

    def __init__(self, conds, clock=None, session=None, execution="main"):
        self.clock = clock or lab.Clock(T0)
        self.s = session or lab.session(self.clock)
        self.ran = []
        for k, c in enumerate(conds):
            self.add(f"t{k}", c)

    def add(self, name, cond):
        from rocketry.tasks import FuncTask

        def body():
            self.ran[-1].append(name)
        FuncTask(body, name=name, start_cond=cond, execution="main", session=self.s)

    def drive(self, moments, each=lambda i: None):
        self.ran = []

        def before(i):
            self.ran.append([])
            each(i)
        lab.drive(self.s, self.clock, moments, before)
        return [sorted(r, key=lambda n: (len(n), n)) for r in self.ran]


def compare(bad, what, conds, got, want):
    """got, want: per cycle, names of tasks; reports the conditions that differ."""
    for i, (g, w) in enumerate(zip(got, want)):
        for n in sorted(set(g) ^ set(w)):
            bad.append((f"{what}: {conds[int(n[1:])]}", f"cycle {i}: the condition was {'true' if n in g else 'false'}, should be {'true' if n in w else 'false'}"))


# ---- scheduler -------------------------------------------------------------------------------------------------

def running_cases():
    from rocketry.conds import scheduler_running
    from rocketry.conditions import SchedulerStarted
    from rocketry.time import TimeDelta
    spans = {None: None, "5 minutes": 300, "10 minutes": 600, "1 hour 30 seconds": 3630}
    for m, l in itertools.product(spans, spans):
        a, b = spans[m], spans[l]
        if a is not None and b is not None and a > b:
            continue
        yield f"scheduler_running(more_than={m!r}, less_than={l!r})", scheduler_running(more_than=m, less_than=l), lambda e, a=a, b=b: (a is None or e >= a) and (b is None or e <= b)
    for m, a in list(spans.items())[1:]:
        yield f"scheduler has run over {m}", f"scheduler has run over {m}", lambda e, a=a: e > a
        yield f"scheduler started {m} ago", f"scheduler started {m} ago", lambda e, a=a: e <= a
        yield f"SchedulerStarted({m})", SchedulerStarted(TimeDelta(m)), lambda e, a=a: e <= a
        yield f"~scheduler_running({m})", ~scheduler_running(more_than=m), lambda e, a=a: e < a
    yield "SchedulerStarted()", SchedulerStarted(), lambda e: True


def cycle_cases():
    from rocketry.conds import scheduler_cycles
    from rocketry.conditions import SchedulerCycles
    for m, l in itertools.product((None, 0, 1, 3), (None, 1, 2, 4)):
        if m is None and l is None:
            continue
        yield f"scheduler_cycles(more_than={m}, less_than={l})", scheduler_cycles(more_than=m, less_than=l), lambda n, m=m, l=l: (m is None or n > m) and (l is None or n < l)
    for v in (0, 1, 2, 4):
        yield f"scheduler has more than {v} cycles", f"scheduler has more than {v} cycles", lambda n, v=v: n > v
        yield f"scheduler has less than {v} cycles", f"scheduler has less than {v} cycles", lambda n, v=v: n < v
        yield f"scheduler has {v} cycles", f"scheduler has {v} cycles", lambda n, v=v: n == v
        for op, f in (("__eq__", lambda n, v: n == v), ("__ne__", lambda n, v: n != v), ("__gt__", lambda n, v: n > v), ("__ge__", lambda n, v: n >= v), ("__lt__", lambda n, v: n < v), ("__le__", lambda n, v: n <= v)):
            yield f"SchedulerCycles {op} {v}", getattr(SchedulerCycles(), op)(v), lambda n, v=v, f=f: f(n, v)


def scheduler(bad, k, n, tier):
    cases = list(running_cases())
    marks = (0, 300, 600, 3630)
    offs = sorted({max(0, m + d) for m in marks for d in (-1, -0.001, 0, 0.001, 1, 61)})
    st = cnt = 0
    for j, tz in enumerate((None, D.timezone(D.timedelta(hours=2)))):
        if (j + k) % n and n > 1 and (j % n) != k:
            continue
        for first in (0.0, 12.5):
            cfg = {} if tz is None else dict(timezone=tz)
            w = Watch([], session=None)
            w.s = lab.session(w.clock, **cfg)
            for q, c in enumerate(cases):
                w.add(f"t{q}", c[1])
            for round_ in range(2):             # the session is started again later: counts from the new start
                base = T0 + D.timedelta(days=round_, seconds=first)
                w.clock.set(base)
                got = w.drive([base + o * SEC for o in offs])
                want = [[f"t{q}" for q, c in enumerate(cases) if c[2](o)] for o in offs]
                compare(bad, f"started {base} tz={tz}", [c[0] for c in cases], got, want)
                st += len(cases)
                cnt += len(cases) * len(offs)
    if k == 0:
        cases = list(cycle_cases())
        w = Watch([c[1] for c in cases])
        for round_ in range(3):
            got = w.drive([T0 + D.timedelta(days=round_) + i * SEC for i in range(7)])
            want = [[f"t{q}" for q, c in enumerate(cases) if c[2](i)] for i in range(7)]
            compare(bad, f"round {round_}", [c[0] for c in cases], got, want)
            st += len(cases)
            cnt += len(cases) * 7
    # as shut conditions: the session ends at the first check at which they hold
    if k == n - 1:
        for step in (1.0, 7.0, 150.0, 300.0):
            for name, cond, ref in list(running_cases()) + list(cycle_cases()):
                by_time = "cycles" not in name.lower()
                for again in range(2):
                    clock = lab.Clock(T0)
                    s = lab.session(clock)
                    done = [0]

                    def cycle():
                        yield
                        done[0] += 1
                        clock.t += step
                        if done[0] > 40:
                            s.shut_down()
                    s.hook_scheduler_cycle()(cycle)
                    s.config.shut_cond = cond
                    s.start()
                    want = next((i for i in range(41) if ref(i * step if by_time else i)), 41)
                    st += 1
                    cnt += done[0]
                    if done[0] != want:
                        bad.append((f"shut_cond {name} step {step}", f"the session ended after {done[0]} cycles, should after {want}"))
                    break
    return st, cnt


# ---- parameters -------------------------------------------------------------------------------------------------

ABSENT = object()


def params(bad, k, n, tier):
    from rocketry.conditions import ParamExists, IsEnv
    from rocketry.core import Parameters
    vals = {"x": (ABSENT, 1, "1", None), "y": (ABSENT, 2, "yes"), "env": (ABSENT, "prod", "dev")}
    has = lambda st, key: st[key] is not ABSENT
    cases = [
        ("ParamExists('x')", ParamExists("x"), lambda s: has(s, "x")),
        ("ParamExists('x', 'y')", ParamExists("x", "y"), lambda s: has(s, "x") and has(s, "y")),
        ("ParamExists(x=1)", ParamExists(x=1), lambda s: s["x"] == 1),
        ("ParamExists(x=None)", ParamExists(x=None), lambda s: s["x"] is None),
        ("ParamExists(x='1', y=2)", ParamExists(x="1", y=2), lambda s: s["x"] == "1" and s["y"] == 2),
        ("ParamExists('y', x=1)", ParamExists("y", x=1), lambda s: has(s, "y") and s["x"] == 1),
        ("ParamExists()", ParamExists(), lambda s: True),
        ("~ParamExists('y')", ~ParamExists("y"), lambda s: not has(s, "y")),
        ("param 'x' exists", "param 'x' exists", lambda s: has(s, "x")),
        ("param 'x' is '1'", "param 'x' is '1'", lambda s: s["x"] == "1"),
        ("param 'y' is 'yes' | ~ param 'x' exists", "param 'y' is 'yes' | ~ param 'x' exists", lambda s: s["y"] == "yes" or not has(s, "x")),
        ("IsEnv('prod')", IsEnv("prod"), lambda s: s["env"] == "prod"),
        ("env 'dev'", "env 'dev'", lambda s: s["env"] == "dev"),
        ("IsEnv('prod') & ParamExists('x')", IsEnv("prod") & ParamExists("x"), lambda s: s["env"] == "prod" and has(s, "x")),
    ]
    states = [dict(zip(vals, c)) for c in itertools.product(*vals.values())]
    # every state after every other
    seq = []
    for i, a in enumerate(states):
        for b in states[i:]:
            seq += [a, b]
    seq = [s for i, s in enumerate(seq) if (i // 40) % n == k]
    other = lab.session(lab.Clock(T0))
    other.parameters.update({"x": "1", "y": 2, "env": "test"})
    w = Watch([c[1] for c in cases])

    def each(i):
        if any(v is ABSENT and key in w.s.parameters for key, v in seq[i].items()):
            w.s.parameters = Parameters()
        for key, v in seq[i].items():
            if v is not ABSENT:
                w.s.parameters[key] = v
    got = w.drive([T0 + i * SEC for i in range(len(seq))], each)
    want = [[f"t{q}" for q, c in enumerate(cases) if c[2](s)] for s in seq]
    compare(bad, "parameters", [c[0] for c in cases], got, want)
    return len(states), len(seq) * len(cases)


# ---- custom conditions -------------------------------------------------------------------------------------------

def custom(bad, k, n, tier):
    from rocketry import Rocketry, Grouper, Session
    from rocketry.args import Task, Session as SessionArg, Arg, FuncArg, Return
    from rocketry.conditions import FuncCond
    from rocketry.conds import true, false
    import logging
    places = ("home", "work", "a b")
    st = cnt = 0
    for how in range(3):
        if how % n != k and n >= 3:
            continue
        clock = lab.Clock(T0)
        s = lab.session(clock)
        state = {p: False for p in places}
        state["up"] = False
        calls = []
        if how == 0:
            app = Rocketry(session=s)
            logging.getLogger("rocketry.task").handlers[1:] = []
            deco = app.cond
        elif how == 1:
            deco = lambda syntax=None: FuncCond(syntax=syntax, session=s)
        else:
            # defined in another session or group: the function conditions themselves are not tied to it
            g = Grouper()
            deco = lambda syntax=None: FuncCond(syntax=syntax, session=s) if syntax else g.cond()
        s.parameters["where"] = "work"

        def call(name, value, *a):
            calls.append((name,) + a)
            return value

        @deco()
        def is_up():
            return call("is_up", state["up"])

        @deco()
        def at(place):
            return call("at", state[place], place)

        @deco()
        def both(a, b="home"):
            return call("both", state[a] and state[b], a, b)

        @deco("is up now")
        def is_up_now():
            return call("now", state["up"])

        @deco(re.compile(r"is someone in (?P<place>.+)"))
        def someone(place):
            return call("someone", state[place], place)

        @deco(["ready", re.compile(r"ready at (?P<place>.+)")])
        def ready(place="home"):
            return call("ready", state[place], place)

        @deco()
        def by_task(task=Task()):
            return call("by_task", state[places[int(task.name[1:]) % 3]], task.name)

        @deco()
        def by_arg(place, want=True, session=SessionArg()):
            return call("by_arg", state[place] is want and session is s, place)

        @deco()
        def param(where=Arg("where")):
            return call("param", state[where], where)

        up = lambda: state["up"]
        is_ = lambda p: (lambda: state[p])
        cases = [
            ("is_up", is_up, up, ("is_up",)), ("is_up()", is_up(), up, ("is_up",)), ("~is_up", ~is_up, lambda: not state["up"], ("is_up",)),
            ("at('home')", at("home"), is_("home"), ("at", "home")), ("at('work')", at("work"), is_("work"), ("at", "work")), ("at(place='a b')", at(place="a b"), is_("a b"), ("at", "a b")),
            ("both('work')", both("work"), lambda: state["work"] and state["home"], ("both", "work", "home")),
            ("both('work', b='a b')", both("work", b="a b"), lambda: state["work"] and state["a b"], ("both", "work", "a b")),
            ("both(b='work', a='a b')", both(b="work", a="a b"), lambda: state["work"] and state["a b"], ("both", "a b", "work")),
            ("'is up now'", "is up now", up, ("now",)), ("'is someone in home'", "is someone in home", is_("home"), ("someone", "home")),
            ("'is someone in a b'", "is someone in a b", is_("a b"), ("someone", "a b")),
            ("'ready'", "ready", is_("home"), ("ready", "home")), ("'ready at work'", "ready at work", is_("work"), ("ready", "work")),
            ("at('home') & ~at('work')", at("home") & ~at("work"), lambda: state["home"] and not state["work"], None),
            ("is_up | at('a b')", is_up | at("a b"), lambda: state["up"] or state["a b"], None),
            ("'is someone in home & ~ is someone in work'", "is someone in home & ~ is someone in work", lambda: state["home"] and not state["work"], None),
            ("'(is up now | ready at work) & ready'", "(is up now | ready at work) & ready", lambda: (state["up"] or state["work"]) and state["home"], None),
            ("by_task", by_task, None, None), ("by_task (2)", by_task, None, None), ("by_task (3)", by_task(), None, None),
            ("by_arg('home')", by_arg("home"), is_("home"), ("by_arg", "home")), ("by_arg('home', want=False)", by_arg("home", want=False), lambda: not state["home"], ("by_arg", "home")),
            ("by_arg('work', False)", by_arg("work", False), lambda: not state["work"], ("by_arg", "work")),
            ("param", param, lambda: state[s.parameters["where"]], None),
        ]
        w = Watch([c[1] for c in cases], clock=clock, session=s)
        seq = list(itertools.product((False, True), repeat=4))
        seq = [x for i, a in enumerate(seq) for b in seq[i:] for x in (a, b)]
        want = []

        def each(i):
            state.update(zip(places + ("up",), seq[i]))
            s.parameters["where"] = places[i % 3]
            row = []
            for q, c in enumerate(cases):
                v = c[2]() if c[2] else state[places[q % 3]]
                if v:
                    row.append(f"t{q}")
            want.append(row)
            if calls:
                # each task's condition was checked exactly once in the cycle, with the arguments given
                for name, _, _, call_ in cases:
                    if call_ is not None:
                        exp = sum(1 for c in cases if c[3] == call_)
                        have = sum(1 for c in calls if c == call_)
                        lo = exp
                        if have < lo:
                            bad.append((f"custom {how}: {name}", f"the function was called {have} times with {call_}, {exp} tasks use it: {calls}"))
            calls.clear()
        got = w.drive([T0 + i * SEC for i in range(len(seq))], each)
        compare(bad, f"custom {how}", [c[0] for c in cases], got, want)
        st += len(cases)
        cnt += len(cases) * len(seq)
    return st, cnt


# ---- conditions determined by a task -------------------------------------------------------------------------------

def taskcond(bad, k, n, tier):
    """The outcome of the check at each of its turns x the active time."""
    from rocketry.conditions import TaskCond
    st = cnt = 0
    outs = ("yes", "no", "fail", "skip")
    depth = 4 if tier == "quick" else 5
    for j, (active, span) in enumerate((("always", None), ("past 10 minutes", 600), ("past 4 minutes", 240))):
        for m, seq in enumerate(itertools.product(outs, repeat=depth)):
            if (j * 1000 + m) % n != k:
                continue
            clock = lab.Clock(T0)
            s = lab.session(clock)
            cur = [None]
            checks = []
            from rocketry.conditions import FuncCond
            turn = FuncCond(lambda: cur[0] != "skip")

            @TaskCond(s, syntax=re.compile(r"is foo at (?P<place>.+)"), start_cond=turn, execution="main", active_time=active, priority=5)
            def is_foo(place):
                checks.append((clock.t, place))
                if cur[0] == "fail":
                    raise RuntimeError("expected")
                return (cur[0] == "yes") == (place == "home")
            names = ["is foo at home", "is foo at work", "~ is foo at home", "is foo at home & is foo at work"]
            w = Watch(names, clock=clock, session=s)
            last = {"home": None, "work": None}
            want = []

            def each(i):
                cur[0] = seq[i]
                if seq[i] in ("yes", "no"):
                    for p in last:
                        last[p] = (clock.t, (seq[i] == "yes") == (p == "home"))
                v = {p: x is not None and x[1] and (span is None or clock.t - x[0] <= span) for p, x in last.items()}
                truth = [v["home"], v["work"], not v["home"], v["home"] and v["work"]]
                want.append([f"t{q}" for q, b in enumerate(truth) if b])
            got = w.drive([T0 + i * 5 * MIN for i in range(len(seq))], each)
            compare(bad, f"TaskCond active {active}, checks {seq}", names, got, want)
            exp = sorted((lab.ts(T0 + i * 5 * MIN), p) for i, c in enumerate(seq) if c != "skip" for p in last)
            if sorted(checks) != exp:
                bad.append((f"TaskCond active {active}, checks {seq}: checks", f"checked {sorted(checks)}, should be once per turn and place: {exp}"))
            st += 1
            cnt += len(seq) * len(names)
    return st, cnt


PARTS = {"scheduler": scheduler, "parameters": params, "custom": custom, "tasks": taskcond}


def job(a):
    part, tier, k, n = a
    bad = []
    try:
        st, cnt = PARTS[part](bad, k, n, tier)
    except Exception as exc:
        import traceback
        if not boot.in_repo_traceback(exc):
            raise
        st = cnt = 0
        bad.append((f"{part} {k} of {n}", "the code under test raised: " + "".join(traceback.format_exception(exc)[-4:])[-600:]))
    return part, st, cnt, bad[:40]


def run(ctx):
    boot.import_rocketry()
    jobs = [("scheduler", ctx.tier, k, 2) for k in range(2)] + [("parameters", ctx.tier, k, 8) for k in range(8)] + [("custom", ctx.tier, k, 3) for k in range(3)] + [("tasks", ctx.tier, k, 16) for k in range(16)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
