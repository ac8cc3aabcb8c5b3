"""P17: conditions compose as Boolean logic, in objects and in strings."""
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap

VARS = "abc"
V = {}


# ---- reference parser ------------------------------------------------------------------------------------------

def ref_parse(toks):
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def expr():
        nonlocal pos
        l = [term()]
        while peek() == "|":
            pos += 1
            l.append(term())
        return ("|", l) if len(l) > 1 else l[0]

    def term():
        nonlocal pos
        l = [fac()]
        while peek() == "&":
            pos += 1
            l.append(fac())
        return ("&", l) if len(l) > 1 else l[0]

    def fac():
        nonlocal pos
        t = peek()
        pos += 1
        if t == "~":
            return ("~", [fac()])
        if t == "(":
            e = expr()
            if peek() != ")":
                raise SyntaxError
            pos += 1
            return e
        if t is not None and t in VARS:
            return t
        raise SyntaxError

    e = expr()
    if pos != len(toks):
        raise SyntaxError
    return e


def ev(t, env):
    if isinstance(t, str):
        return env[t]
    op, kids = t
    if op == "~":
        return not ev(kids[0], env)
    return (all if op == "&" else any)([ev(k, env) for k in kids])


PREC = {"|": 0, "&": 1, "~": 2}


def render(t, style, up=-1):
    """style 0: minimal parentheses, no spaces; 1: spaces; 2: all parentheses; 3: odd whitespace."""
    if isinstance(t, str):
        s, p = t, 9
    else:
        op, kids = t
        p = PREC[op]
        if op == "~":
            s = "~" + (" " if style in (1, 3) else "") + render(kids[0], style, p)
        else:
            sep = {0: op, 1: f" {op} ", 2: f" {op} ", 3: f"  {op}\n\t "}[style]
            s = sep.join(render(k, style, p if i else p) for i, k in enumerate(kids))
    if p < up or (style >= 2 and up >= 0 and p < 9) or (p == up and p < 2):
        return "(" + (" " if style == 3 else "") + s + (" " if style == 3 else "") + ")"
    return s


def trees(n, leaves, neg):
    """All trees with n leaves (binary), each node possibly negated."""
    if n == 1:
        for v in leaves:
            yield v
            if neg:
                yield ("~", [v])
        return
    for k in range(1, n):
        for l in trees(k, leaves, neg):
            for r in trees(n - k, leaves, neg):
                for op in "&|":
                    t = (op, [l, r])
                    yield t
                    if neg:
                        yield ("~", [t])


def envs():
    for v in itertools.product((False, True), repeat=len(VARS)):
        yield dict(zip(VARS, v))


ENVS = list(envs())


class Labbench:
    def __init__(self):
        boot.import_rocketry()
        from rocketry import Session
        from rocketry.conditions import FuncCond
        self.s = Session()
        self.leaf = {}
        for n in VARS:
            self.leaf[n] = FuncCond(lambda n=n: V[n], syntax=n, session=self.s)

    def value(self, c, env):
        V.clear()
        V.update(env)
        return c.observe(session=self.s)

    def obj(self, t, how):
        from rocketry.core.condition import All, Any, Not
        if isinstance(t, str):
            return self.leaf[t]
        op, kids = t
        ks = [self.obj(k, how) for k in kids]
        if op == "~":
            return Not(ks[0]) if how else ~ks[0]
        if how:
            return (All if op == "&" else Any)(*ks)
        out = ks[0]
        for k in ks[1:]:
            if op == "&":
                out = out & k
            else:
                out = out | k
        return out


def truth(t):
    return [ev(t, e) for e in ENVS]


def tokens_job(a):
    L, k, n = a
    lb = Labbench()
    from rocketry.parse import parse_condition
    bad, cnt, st = [], 0, 0
    for i, toks in enumerate(itertools.product("ab~&|()", repeat=L)):
        if i % n != k:
            continue
        st += 1
        for txt in ({" ".join(toks), "".join(toks)} if not any(x in VARS and y in VARS for x, y in zip(toks, toks[1:])) else {" ".join(toks)}):
            try:
                r = ref_parse(toks)
            except SyntaxError:
                r = None
            try:
                c = parse_condition(txt, session=lb.s)
                err = None
            except Exception as exc:
                c, err = None, exc
            cnt += 1
            if r is None and c is not None:
                bad.append((f"string {txt!r}", "is malformed but was accepted"))
            elif r is not None and c is None:
                bad.append((f"string {txt!r}", f"was rejected: {err!r}"))
            elif r is not None:
                got = [lb.value(c, e) for e in ENVS]
                cnt += len(ENVS)
                if got != truth(r):
                    bad.append((f"string {txt!r}", f"truth table {got}, logic says {truth(r)}"))
        if len(bad) > 50:
            break
    return f"token strings of length {L}", st, cnt, bad


def tree_job(a):
    n, leaves, neg, k, m = a
    lb = Labbench()
    from rocketry.parse import parse_condition
    bad, cnt, st = [], 0, 0
    for i, t in enumerate(trees(n, leaves, neg)):
        if i % m != k:
            continue
        st += 1
        want = truth(t)
        forms = [("operators", lb.obj(t, 0)), ("classes", lb.obj(t, 1))]
        for style in (0, 1, 2, 3):
            txt = render(t, style)
            try:
                forms.append((f"string {txt!r}", parse_condition(txt, session=lb.s)))
            except Exception as exc:
                bad.append((f"string {txt!r}", f"was rejected: {exc!r}"))
        for name, c in forms:
            cnt += len(ENVS)
            try:
                got = [lb.value(c, e) for e in ENVS]
            except Exception as exc:
                got = f"raised {exc!r}"
            if got != want:
                bad.append((f"{render(t, 1)} as {name}", f"truth table {got}, logic says {want}"))
        if len(bad) > 50:
            break
    return f"trees of {n} leaves", st, cnt, bad


def mutate_job(a):
    """Combining, inverting and in-place operators never change the combined conditions."""
    n, = a
    lb = Labbench()
    bad, cnt, st = [], 0, 0
    ts = [t for m in range(1, n + 1) for t in trees(m, VARS[:m], True)]
    objs = [(t, lb.obj(t, 0)) for t in ts]
    pairs = list(itertools.product(objs, repeat=2)) if len(objs) < 120 else [(objs[i], objs[(i * 7 + 3) % len(objs)]) for i in range(len(objs))]
    for (t1, o1), (t2, o2) in pairs:
        st += 1
        x = o1
        x &= o2
        y = o1
        y |= o2
        z = ~o1
        w = ~(o1 & o2)
        for name, c, t in (("x &= y", x, ("&", [t1, t2])), ("x |= y", y, ("|", [t1, t2])), ("~x", z, ("~", [t1])), ("~(x & y)", w, ("~", [("&", [t1, t2])])),
                           ("x afterwards", o1, t1), ("y afterwards", o2, t2)):
            cnt += len(ENVS)
            got = [lb.value(c, e) for e in ENVS]
            if got != truth(t):
                bad.append((f"{name} with x={render(t1, 1)} y={render(t2, 1)}", f"truth table {got}, logic says {truth(t)}"))
        if len(bad) > 30:
            break
    return "combining leaves the parts alone", st, cnt, bad


def compare_job(a):
    """Counting conditions: comparisons give new conditions with the arithmetic meaning."""
    lb = Labbench()
    from rocketry.core.condition import BaseComparable
    import operator
    bad, cnt, st = [], 0, 0

    class Count(BaseComparable):
        def get_measurement(self):
            return V["n"]

        def __str__(self):
            return "count"

    ops = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, ">": operator.gt, "<=": operator.le, ">=": operator.ge}
    base = Count()
    made = [("count", base, lambda m: m > 0)]
    for o, f in ops.items():
        for k in range(0, 4):
            made.append((f"count {o} {k}", f(base, k), lambda m, f=f, k=k: f(m, k)))
    for (o1, f1), (o2, f2) in itertools.permutations(ops.items(), 2):
        for k1, k2 in itertools.product(range(0, 4), repeat=2):
            made.append((f"(count {o1} {k1}) {o2} {k2}", f2(f1(base, k1), k2),
                         lambda m, f1=f1, f2=f2, k1=k1, k2=k2: f1(m, k1) and f2(m, k2)))
    made.append(("count after comparing", base, lambda m: m > 0))
    for name, c, f in made:
        for form, v in (("number", lambda m: m), ("list", lambda m: ["x"] * m)):
            for m in range(0, 5):
                V.clear()
                V["n"] = v(m)
                cnt += 1
                st += 1
                if c.observe(session=lb.s) is not f(m):
                    bad.append((f"{name} with {m} ({form})", f"is {c.observe(session=lb.s)}"))
                n = ~c
                if n.observe(session=lb.s) is f(m):
                    bad.append((f"~({name}) with {m} ({form})", f"is {n.observe(session=lb.s)}"))
    return "comparisons", st, cnt, bad


# ---- strings against objects -----------------------------------------------------------------------------------

UNIT = {"minute": "this minute", "hour": "this hour", "day": "today", "week": "this week", "month": "this month"}
ARGS = {"minute": ("15", "45"), "hour": ("10:00", "40:00"), "day": ("10:00", "22:30"), "week": ("Tue", "Fri 12:00"), "month": ("2nd", "28th")}
ADV = {"minute": "minutely", "hour": "hourly", "day": "daily", "week": "weekly", "month": "monthly"}


def pairs():
    """(string, object) for the condition strings of the grammar."""
    from rocketry import conds as C
    from rocketry.conditions import (TaskTerminated, TaskInacted, TaskStarted, TaskFailed, TaskSucceeded, TaskFinished, TaskRunning,
                                     SchedulerStarted, SchedulerCycles, ParamExists, IsEnv, IsPeriod)
    from rocketry.time import TimeOfMinute, TimeOfHour, TimeOfDay, TimeOfWeek, TimeOfMonth, TimeDelta
    per = {"minute": TimeOfMinute, "hour": TimeOfHour, "day": TimeOfDay, "week": TimeOfWeek, "month": TimeOfMonth}
    out = []
    api = {"failed": C.failed, "succeeded": C.succeeded, "finished": C.finished, "started": C.started}
    cls = {"failed": TaskFailed, "succeeded": TaskSucceeded, "finished": TaskFinished, "started": TaskStarted,
           "terminated": TaskTerminated, "inacted": TaskInacted}
    for who in (None, "u"):
        pre = "" if who is None else f"task '{who}' "
        kw = {} if who is None else {"task": who}
        for act, k in cls.items():
            out.append((f"{pre}has {act}", k(**kw)))
            for past in ("1 hour", "2 days 3 hours", "30 seconds"):
                out.append((f"{pre}has {act} past {past}", k(period=TimeDelta(past), **kw)))
                out.append((f"{pre}has {act} in past {past}", k(period=TimeDelta(past), **kw)))
            for u, word in UNIT.items():
                a, b = ARGS[u]
                P = per[u]
                forms = [("", P(), lambda w: w), (f" between {a} and {b}", P(a, b), lambda w: w.between(a, b)), (f" between {b} and {a}", P(b, a), lambda w: w.between(b, a)),
                         (f" after {a}", P(a, None), lambda w: w.after(a)), (f" before {b}", P(None, b), lambda w: w.before(b)),
                         (f" on {a}", P.at(a), lambda w: w.on(a)), (f" starting {a}", P.starting(a), lambda w: w.starting(a))]
                for suf, p, f in forms:
                    out.append((f"{pre}has {act} {word}{suf}", k(period=p, **kw)))
                    if act in api:
                        w = api[act] if who is None else api[act](who)
                        out.append((f"{pre}has {act} {word}{suf}", f(getattr(w, f"this_{u}"))))
    for u, adv in ADV.items():
        a, b = ARGS[u]
        w = getattr(C, adv)
        t = getattr(C, f"time_of_{u}")
        out += [(adv, w), (f"{adv} between {a} and {b}", w.between(a, b)), (f"{adv} between {b} and {a}", w.between(b, a)), (f"{adv} after {a}", w.after(a)),
                (f"{adv} before {b}", w.before(b)), (f"{adv} on {a}", w.on(a)), (f"{adv} on {a}", w.at(a)), (f"{adv} starting {b}", w.starting(b))]
        out += [(f"time of {u} between {a} and {b}", t.between(a, b)), (f"time of {u} after {a}", t.after(a)), (f"time of {u} before {b}", t.before(b)),
                (f"time of {u} between {b} and {a}", IsPeriod(per[u](b, a)))]
        if u in ("week", "month"):
            out += [(f"time of {u} on {a}", t.on(a))]
    for e in ("30 seconds", "10 minutes", "1 hour", "1 day 12 hours"):
        out.append((f"every {e}", C.every(e)))
    for e in ("*/2 * * * *", "0-29 10-12 * * mon-fri", "30 10 * * *"):
        out.append((f"cron {e}", C.cron(e)))
    out += [("after task 'u'", C.after_success("u")), ("after task 'u' succeeded", C.after_success("u")), ("after task 'u' failed", C.after_fail("u")),
            ("after task 'u' finished", C.after_finish("u"))]
    for act, suf in (("success", ""), ("success", " succeeded"), ("fail", " failed"), ("finish", " finished")):
        out += [(f"after tasks 'u', 'v'{suf}", getattr(C, f"after_all_{act}")("u", "v")), (f"after any tasks 'u', 'v'{suf}", getattr(C, f"after_any_{act}")("u", "v")),
                (f"after any tasks 'v'{suf}", getattr(C, f"after_{act}")("v"))]
    out += [("task 'u' is running", TaskRunning(task="u")), ("while task 'u' is running", C.running("u"))]
    for n in (0, 1, 3, 12):
        out += [(f"scheduler has more than {n} cycles", C.scheduler_cycles(more_than=n)), (f"scheduler has less than {n} cycles", C.scheduler_cycles(less_than=n)),
                (f"scheduler has {n} cycles", SchedulerCycles() == n)]
    for d in ("10 minutes", "2 hours", "1 day"):
        out += [(f"scheduler has run over {d}", ~SchedulerStarted(period=TimeDelta(d))), (f"scheduler started {d} ago", SchedulerStarted(period=TimeDelta(d)))]
    out += [("always", C.true), ("never", C.false), ("true", C.true), ("false", C.false), ("always true", C.true), ("always false", C.false)]
    out += [("env 'prod'", IsEnv("prod")), ("env 'dev'", IsEnv("dev")), ("param 'env' exists", ParamExists("env")), ("param 'nope' exists", ParamExists("nope")),
            ("param 'x' is 'yes'", ParamExists(x="yes")), ("param 'x' is 'no'", ParamExists(x="no"))]
    return out


BASE = D.datetime(2022, 3, 2, 10, 30, 20)      # a Wednesday


def histories():
    H = D.timedelta(hours=1)
    offs = [D.timedelta(days=-40), D.timedelta(days=-2), -H, D.timedelta(seconds=-15)]
    yield []
    for act in ("success", "fail", "terminate", "inaction"):
        for who in ("t", "u"):
            for o in offs:
                yield [(who, "run", BASE + o - D.timedelta(seconds=5)), (who, act, BASE + o)]
    yield [("u", "success", BASE - H), ("v", "success", BASE - 2 * H), ("t", "run", BASE - D.timedelta(minutes=90))]
    yield [("u", "success", BASE - H), ("v", "success", BASE - 2 * H), ("t", "run", BASE - 3 * H)]
    yield [("u", "fail", BASE - H), ("v", "fail", BASE - 2 * H), ("t", "run", BASE - D.timedelta(minutes=90))]
    yield [("u", "fail", BASE - H), ("v", "fail", BASE - 2 * H)]


NOWS = [BASE, BASE + D.timedelta(seconds=30), BASE + D.timedelta(hours=13), BASE + D.timedelta(days=3), BASE + D.timedelta(days=30)]


def strings_job(a):
    k, n = a
    boot.import_rocketry()
    from . import lab
    from rocketry.parse import parse_condition
    from rocketry.tasks import FuncTask
    bad, cnt, st = [], 0, 0
    for i, hist in enumerate(histories()):
        if i % n != k:
            continue
        clock = lab.Clock(BASE)
        s = lab.session(clock)
        s.parameters["env"] = "prod"
        s.parameters["x"] = "yes"
        tasks = {x: FuncTask(lambda: None, name=x, execution="main", session=s) for x in "tuv"}
        for who, act, at in sorted(hist, key=lambda r: r[2]):
            clock.set(at)
            getattr(tasks[who], {"run": "log_running", "success": "log_success", "fail": "log_failure", "terminate": "log_termination",
                                 "inaction": "log_inaction"}[act])()
        s.scheduler.startup_time = s._format_timestamp(lab.ts(BASE - D.timedelta(hours=1)))
        s.scheduler.n_cycles = i % 4
        prs = pairs()
        for txt, obj in prs:
            st += 1
            try:
                c = parse_condition(txt, session=s)
            except Exception as exc:
                bad.append((f"string {txt!r}", f"was rejected: {exc!r}"))
                continue
            for now in NOWS:
                clock.set(now)
                cnt += 1
                x = y = None
                try:
                    x = c.observe(task=tasks["t"], session=s)
                except Exception as exc:
                    x = f"raised {exc!r}"
                try:
                    y = obj.observe(task=tasks["t"], session=s)
                except Exception as exc:
                    y = f"raised {exc!r}"
                if x != y or isinstance(x, str) or not isinstance(x, bool):
                    bad.append((f"string {txt!r} at {now} after {[(w, ac, str(at)) for w, ac, at in hist]}", f"string gives {x}, object gives {y}"))
                z = (~c).observe(task=tasks["t"], session=s) if isinstance(x, bool) else None
                if z is not None and z is x:
                    bad.append((f"negation of {txt!r} at {now}", f"both are {x}"))
        if len(bad) > 200:
            break
    return "strings against objects", st, cnt, bad


def own_session_job(a):
    """A condition registered in one session is not known in another, and the same words may mean different things."""
    boot.import_rocketry()
    from rocketry import Session
    from rocketry.conditions import FuncCond
    from rocketry.parse import parse_condition
    from rocketry.tasks import FuncTask
    bad, cnt = [], 0
    for order in itertools.permutations(range(3)):
        ss = [Session() for _ in range(3)]
        for j in order[:2]:
            FuncCond(lambda j=j: j == 0, syntax="is it", session=ss[j])
        for j in range(3):
            cnt += 1
            try:
                c = parse_condition("is it | never", session=ss[j])
                got = c.observe(session=ss[j])
            except Exception:
                got = "rejected"
            want = (j == 0) if j in order[:2] else "rejected"
            if got != want:
                bad.append((f"condition string of session {j} registered in {order[:2]}", f"is {got}, expected {want}"))
            if want != "rejected":
                t = FuncTask(lambda: None, name="t", start_cond="~is it", execution="main", session=ss[j])
                if t.start_cond.observe(task=t, session=ss[j]) is want:
                    bad.append((f"task condition string in session {j} registered in {order[:2]}", "evaluates as another session's"))
    return "sessions", cnt, cnt, bad


def job(a):
    return {"tok": tokens_job, "tree": tree_job, "mut": mutate_job, "cmp": compare_job, "str": strings_job, "own": own_session_job}[a[0]](a[1])


def run(ctx):
    boot.import_rocketry()
    q = ctx.quick
    jobs = [("tok", (L, 0, 1)) for L in range(0, 4)] + [("tok", (L, k, 16)) for L in ((4, 5) if q else (4, 5, 6, 7)) for k in range(16)]
    jobs += [("tree", (1, VARS, True, 0, 1)), ("tree", (2, VARS, True, 0, 1))]
    jobs += [("tree", (3, "ab" if q else VARS, True, k, 8)) for k in range(8)]
    jobs += [("tree", (4, "ab" if not q else "a", False, k, 8)) for k in range(8)]
    if not q:
        jobs += [("tree", (5, "a", False, k, 8)) for k in range(8)]
    jobs += [("mut", (2 if q else 3,)), ("cmp", ()), ("own", ())] + [("str", (k, 37)) for k in range(37)]
    for name, st, cnt, bad in pmap(job, jobs):
        ctx.add(name, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    t = ("|", [("&", ["a", ("~", ["b"])]), "c"])
    ctx.sample(f"{render(t, 0)!r} = {render(t, 3)!r}: {truth(t)} over {VARS}")
