"""Deviation-bounded exhaustive exploration of the executions of a scenario."""
import time

from . import world
from .pool import Pool, NPROC, cpu_guard, Hang


class Scenario:
    name = "?"
    preempt = True
    preempt_kinds = None
    early = True
    order = True
    stall = 0.15
    user_stall = False
    env_fine = False
    horizon = 1.0
    hard = 60.0
    total = 1
    budgets = {}
    plans = {}
    during = None             # (world, task name), called in the bodies

    def env(self, w):
        return []

    def fine_env(self, w):
        return self.env(w)

    def build(self, w):
        raise NotImplementedError

    def drive(self, w):
        w.session.start()

    def at_horizon(self, w):
        w.session.shut_down()

    def may_switch(self, w, me, other):
        return True

    def on_log(self, w, e):
        pass

    def child_dies(self, w, rid):
        """Whether a child process dies before it has done anything."""
        return False

    def on_idle(self, w):
        pass

    def finish(self, w):
        pass

    def check(self, w):
        """-> [(key, what)]"""
        return []

    def digest(self, w):
        """Observable outcome, used for replay comparison and counting distinct outcomes."""
        return tuple((e["k"], e.get("action"), e.get("task"), e.get("rid"), e.get("how"), e.get("op"))
                     for e in w.events if e["k"] in ("log", "enter", "exit", "env", "dead")) + (w.result[0], str(w.result[1]))


def run_one(sc, devs, cpu=20):
    w = world.World(sc, devs)
    try:
        with cpu_guard(cpu):
            w.execute()
    except Hang as exc:
        w.result = ("abort", str(exc))
    return w


def _children(sc, w, devs):
    spent = {}
    for d in devs:
        spent[d[2]] = spent.get(d[2], 0) + 1
    if len(devs) >= sc.total:
        return []
    out = []
    start = devs[-1][0] + 1 if devs else 0
    for i in range(start, len(w.points)):
        kind, n = w.points[i]
        if spent.get(kind, 0) + 1 > sc.budgets.get(kind, sc.total):
            continue
        for alt in range(1, n):
            out.append(tuple(devs) + ((i, alt, kind, n),))
    return out


def _job(scs, job, chunk):
    """job = (scenario index, [deviation lists])."""
    k, lists = job
    sc = scs[k]
    viol, kids, stats, digs = [], [], [0, 0, 0, 0], set()
    for devs in lists:
        w = run_one(sc, devs)
        stats[0] += 1
        stats[1] += len(w.points)
        stats[2] += w.steps
        stats[3] += bool(w.diverged)
        digs.add(hash(sc.digest(w)))
        for key, what in safe_check(sc, w):
            viol.append((key, what, devs))
        ch = _children(sc, w, devs)
        for c in range(0, len(ch), chunk):
            kids.append((k, ch[c:c + chunk]))
        if w.result and w.result[0] == "abort":
            break_after = True
            if "CPU time" in str(w.result[1]):
                break
    return viol, kids, stats, list(digs)


def safe_check(sc, w):
    if w.result[0] == "abort":
        return [("the scheduler makes no progress", w.result[1])]
    return sc.check(w)


def explore(ctx, scenarios, prop_filter=None, deadline=None, chunk=24, stop_after=60):
    """Explore every scenario within its budgets; report violations through ctx."""
    world.install()
    from . import bodies
    bodies.install_flags()
    scs = list(scenarios)
    agg = {k: {"execs": 0, "points": 0, "steps": 0, "div": 0, "outs": set(), "viol": 0} for k in range(len(scs))}
    # replay determinism: the default execution of each scenario twice
    nviol = [0]
    pool = Pool(lambda job: _job(scs, job, chunk))

    def on_result(job, res):
        viol, kids, stats, digs = res
        a = agg[job[0]]
        a["execs"] += stats[0]
        a["points"] += stats[1]
        a["steps"] += stats[2]
        a["div"] += stats[3]
        a["outs"].update(digs)
        for key, what, devs in viol:
            a["viol"] += 1
            nviol[0] += 1
            ctx.violation(f"{scs[job[0]].name}: {key}", f"{what} [schedule {fmt(devs)}]",
                          {"scenario": scs[job[0]].name, "deviations": devs})
        if a["viol"] > stop_after:
            return []
        return kids

    with pool:
        pool.run([(k, [()]) for k in range(len(scs))] , on_result, deadline=deadline)
        left = pool.left
    for k, sc in enumerate(scs):
        a = agg[k]
        ctx.add(sc.name, states=a["points"], transitions=a["steps"], traces=a["execs"],
                executions=a["execs"], distinct_outcomes=len(a["outs"]), deviations=sc.total, budgets=dict(sc.budgets), **({"diverged": a["div"]} if a["div"] else {}))
    if left:
        ctx.cov["exhaustive"] = False
        ctx.cov["cap"] = f"time cap hit with {left} work items left"
    return agg


def fmt(devs):
    return "default" if not devs else ", ".join(f"{d[2]}@{d[0]}={d[1]}" for d in devs)


def replay(mod, rec):
    """Run one recorded execution again and print what happens."""
    world.install()
    from . import bodies
    bodies.install_flags()
    for tier in ("quick", "thorough"):
        for sc in mod.scenarios(tier):
            if sc.name == rec["scenario"]:
                w = run_one(sc, [tuple(d) for d in rec["deviations"]])
                for e in w.events:
                    print(f"{e['t'] - world.T0:8.3f} actor{e['a']}", {k: v for k, v in e.items() if k not in ("t", "a") and v is not None})
                print("session:", w.result)
                bad = safe_check(sc, w)
                for b in bad:
                    print("violated:", b)
                return 1 if bad else 0
    print("no such scenario")
    return 2
