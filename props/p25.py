"""P25: tasks of a group work as tasks of the application, with the settings of the group."""
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap
from . import lab

T0 = D.datetime(2022, 3, 1, 10, 0)
SEC = D.timedelta(seconds=1)
EXECS = (None, "main", "async", "thread", "process")


def world(execution="main", **cfg):
    import logging
    from rocketry import Rocketry
    clock = lab.Clock(T0)
    s = lab.session(clock, execution=execution, **cfg)
    app = Rocketry(session=s)
    logging.getLogger("rocketry.task").handlers[1:] = []
    return clock, s, app


def flag(state, name):
    from rocketry.conditions import FuncCond
    return FuncCond(lambda: state[name])


def executions(bad, k, n, tier):
    """Which execution is used: own, else the innermost group's, else the outer group's, else the session's."""
    from rocketry import Grouper
    st = 0
    for i, (own, inner, outer, sess) in enumerate(itertools.product(EXECS, EXECS, EXECS + ("none",), EXECS[1:])):
        if i % n != k:
            continue
        _, s, app = world(sess)
        g = Grouper(execution=inner)

        @g.task("always true", execution=own)
        def a():
            pass

        @g.task("always true")
        def b():
            pass

        @app.task("always true")
        def c():
            pass
        if outer == "none":
            app.include_grouper(g)
            h = None
        else:
            h = Grouper(execution=outer)

            @h.task("always true", execution=own)
            def d():
                pass
            h.include_grouper(g)
            app.include_grouper(h)
        oe = None if outer == "none" else outer
        want = {"a": own or inner or oe or sess, "b": inner or oe or sess, "c": sess}
        if h is not None:
            want["d"] = own or oe or sess
        got = {t.name: t.get_execution() for t in s.tasks}
        st += len(want)
        if got != want:
            bad.append((f"execution own={own} group={inner} outer={outer} session={sess}", f"tasks {got}, should be {want}"))
        if any(t.session is not s for t in s.tasks):
            bad.append((f"session of own={own} group={inner} outer={outer} session={sess}", "a task does not belong to the session of the application"))
        # changed afterwards: those without any setting follow the session
        new = EXECS[1:][(EXECS[1:].index(sess) + 1) % 4]
        s.config.execution = new
        want = {"a": own or inner or oe or new, "b": inner or oe or new, "c": new, **({"d": own or oe or new} if h is not None else {})}
        got = {t.name: t.get_execution() for t in s.tasks}
        if got != want:
            bad.append((f"execution own={own} group={inner} outer={outer} session={sess} changed", f"tasks {got}, should be {want}"))
    return st, st


FORMS = ("none", "object", "string", "function")


def conditions(bad, k, n, tier):
    """Names and start conditions: every combination of settings x every truth assignment, driven end to end."""
    from rocketry import Grouper
    st = cnt = 0
    for i, (own, inner, outer, p1, p2, nest, dis) in enumerate(itertools.product(FORMS, FORMS[:3], FORMS[:3], (None, "g."), (None, "h."), (False, True), (False, True))):
        if not nest and (outer != "none" or p2) or dis and (p1 or p2):
            continue
        if i % n != k:
            continue
        clock, s, app = world("main")
        state = {"own": False, "inner": False, "outer": False, "other": False}
        g = Grouper(prefix=p1)
        h = Grouper(prefix=p2)

        def make(grp, form, name):
            if form == "none":
                return None
            if form == "object":
                return flag(state, name)
            if form == "string":
                grp.cond(f"{name} holds")(lambda: state[name])
                return f"{name} holds"
            return grp.cond()(lambda: state[name])
        ran = []
        g.start_cond = make(g, inner, "inner")
        h.start_cond = make(h, outer, "outer")

        @g.task(make(g, own, "own"), disabled=dis)
        def a():
            ran[-1].append("a")

        @g.task(flag(state, "other"), name="named")
        def b():
            ran[-1].append("b")

        # (a name beginning like the prefix is prefixed as well)
        @g.task(flag(state, "other"), name="g.e", disabled=True)
        def e():
            ran[-1].append("e")

        @app.task(flag(state, "own"))
        def c():
            ran[-1].append("c")
        late = []
        if nest:
            @h.task(flag(state, "own"))
            def d():
                ran[-1].append("d")
            h.include_grouper(g)
            app.include_grouper(h)
        else:
            app.include_grouper(g)
        pre = ((p2 or "") if nest else "") + (p1 or "")
        names = {pre + "a": "a", pre + "named": "b", pre + "g.e": "e", "c": "c"}
        if nest:
            names[(p2 or "") + "d"] = "d"
        label = f"task {own}{' disabled' if dis else ''}, group {inner} {p1}, outer {outer + ' ' + str(p2) if nest else '-'}"
        st += 1
        if sorted(t.name for t in s.tasks) != sorted(names):
            bad.append((f"names: {label}", f"{sorted(t.name for t in s.tasks)}, should be {sorted(names)}"))
            continue
        for nm in names:
            if s[nm].name != nm:
                bad.append((f"names: {label}", f"session[{nm!r}] is {s[nm].name}"))
        for f, key in ((a, "a"), (b, "b"), (c, "c")):
            t = s[f]
            if names.get(t.name) != key:
                bad.append((f"references: {label}", f"the function of {key} refers to {t.name}"))
        # a task added to the group later is not part of the application
        @g.task("always true")
        def later():
            ran[-1].append("later")
        seq = list(itertools.product((False, True), repeat=4))
        seq += seq
        want = []
        on = {"a": not dis, "e": False}

        def each(j):
            ran.append([])
            if j == 16:
                # enabled later
                s[a].disabled = s[e].disabled = False
                on.update(a=True, e=True)
            state.update(zip(("own", "inner", "outer", "other"), seq[j]))
            grp = (inner == "none" or state["inner"]) and (not nest or outer == "none" or state["outer"])
            row = []
            if own != "none" and state["own"] and grp and on["a"]:
                row.append("a")
            if state["other"] and grp:
                row.append("b")
            if state["own"]:
                row.append("c")
            if nest and state["own"] and (outer == "none" or state["outer"]):
                row.append("d")
            if state["other"] and grp and on["e"]:
                row.append("e")
            want.append(row)
        lab.drive(s, clock, [T0 + j * SEC for j in range(len(seq))], each)
        cnt += len(seq)
        for j, (g_, w_) in enumerate(zip(ran, want)):
            if sorted(g_) != w_:
                bad.append((f"conditions: {label}", f"with {dict(zip(('own', 'inner', 'outer', 'other'), seq[j]))} ran {sorted(g_)}, should {w_}"))
                break
    return st, cnt


def pipelines(bad, k, n, tier):
    """Tasks referring to each other by function across groups; parameters and return values."""
    from rocketry import Grouper
    from rocketry.args import Return, Arg
    from rocketry.conds import after_success, after_fail, succeeded
    st = cnt = 0
    pres = (None, "g.", "x - ")
    for i, (p1, p2, same, order, out, where) in enumerate(itertools.product(pres, pres, (False, True), (0, 1), ("ok", "fail"), ("app", "first", "second", "both"))):
        if i % n != k:
            continue
        if same and p1 == p2:
            continue            # the names would clash
        clock, s, app = world("main")
        g1, g2 = Grouper(prefix=p1), Grouper(prefix=p2)
        ran = []
        if where == "app":
            app.params(v="app")
        if where in ("first", "both"):
            g1.params(v="first")
        if where in ("second", "both"):
            @g2.param("v")
            def v():
                return "second"
        go = {"now": True}

        def first(v=Arg("v")):
            ran[-1].append(("first", v))
            if out == "fail":
                raise RuntimeError("expected")
            return "value"
        g1.task(flag(go, "now"), name="do")(first)

        def second(x=Return(first, default="nothing"), v=Arg("v")):
            ran[-1].append(("second", x, v))
        g2.task(after_success(first), name="do" if same else None)(second)

        @app.task(after_fail(first))
        def third():
            ran[-1].append(("third",))
        for g in (g1, g2) if order == 0 else (g2, g1):
            app.include_grouper(g)
        s[first].priority, s[second].priority, s[third].priority = 3, 2, 1
        label = f"prefixes {p1} {p2}, same names {same}, order {order}, first {out}, parameter of {where}"
        val = {"app": "app", "first": "first", "second": "second", "both": "second" if order == 0 else "first"}[where]
        exp = {(p1 or "") + "do", (p2 or "") + ("do" if same else "second"), "third"}
        if {t.name for t in s.tasks} != exp:
            bad.append((f"names: {label}", f"{ {t.name for t in s.tasks} }, should be {exp}"))
            continue
        seq = [True, False, True, False]
        want = []

        def each(j):
            ran.append([])
            go["now"] = seq[j]
            row = []
            if seq[j]:
                row.append(("first", val))
                row.append(("second", "value", val) if out == "ok" else ("third",))
            want.append(row)
        lab.drive(s, clock, [T0 + j * SEC for j in range(len(seq))], each)
        st += 1
        cnt += len(seq)
        if ran != want:
            bad.append((f"pipeline: {label}", f"ran {ran}, should {want}"))
    return st, cnt


PARTS = {"executions": executions, "conditions": conditions, "pipelines": pipelines}


def job(a):
    part, tier, k, n = a
    bad = []
    try:
        st, cnt = PARTS[part](bad, k, n, tier)
    except Exception as exc:
        import traceback
        if not boot.in_repo_traceback(exc):
            raise
        st = cnt = 0
        bad.append((f"{part} {k} of {n}", "the code under test raised: " + "".join(traceback.format_exception(exc)[-4:])[-600:]))
    return part, st, cnt, bad[:40]


def run(ctx):
    boot.import_rocketry()
    jobs = [(part, ctx.tier, k, 16) for part in PARTS for k in range(16)]
    for part, st, cnt, bad in pmap(job, jobs):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
