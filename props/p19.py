"""P19: a task's return value is available to others exactly as returned."""
from mc import explore
from .wl import *
from .p08 import run_id

NOTHING = "<nothing>"


def stored(w, name):
    r = w.session.returns
    t = w.task[name]
    for k, v in r.items():
        if k is t or k == name:
            return v
    return NOTHING


class Ret(Std):
    users = {}          # task -> (task whose value it takes, default)

    def build(self, w):
        self.config = dict(self.config, func_run_id=run_id)
        super().build(w)
        from rocketry.args import Return
        for n, (src, default) in self.users.items():
            w.task[n].parameters["p"] = Return(src, default=default)

    def on_idle(self, w):
        w.nopoint += 1
        try:
            w.ev("returns", val={n: stored(w, n) for n in w.task})
        finally:
            w.nopoint -= 1

    def finish(self, w):
        super().finish(w)
        w.ev("returns", val={n: stored(w, n) for n in w.task})

    def check(self, w):
        bad = returned(w) + all_dead(w)
        multi = tuple(t.name for t in self.tasks if t.kw.get("multilaunch"))
        bad += lifecycle(w, multi)
        val = {e["rid"]: e["val"] for e in w.events if e["k"] == "exit" and e["how"] == "ok"}
        cur = {t.name: NOTHING for t in self.tasks}       # by the log
        alt = {t.name: set() for t in self.tasks}          # values of other runs that succeeded since the body of the last one was over
        since = {}                                         # run whose body is over -> values of the successes logged since
        pend = {t.name: {} for t in self.tasks}            # value of bodies that are over but not yet logged
        lo = {}                                            # run -> values its argument may have
        for e in w.events:
            if e["k"] == "exit" and e["how"] == "ok":
                pend[e["task"]][e["rid"]] = e["val"]
                since[e["rid"]] = set()
            elif e["k"] == "log" and e["action"] in TERMINAL:
                n = e["task"]
                if e["action"] == "success":
                    cur[n] = val.get(e["rid"])
                    alt[n] = since.pop(e["rid"], set())
                    for rid in pend[n]:
                        if rid in since and rid != e["rid"]:
                            since[rid].add(cur[n])
                pend[n].pop(e["rid"], None)
            elif e["k"] == "id" and e["task"] in self.users:
                lo[e["rid"]] = set()
            elif e["k"] == "returns":
                for n, v in e["val"].items():
                    if v != cur[n] and v not in pend[n].values() and v not in alt[n]:
                        bad.append(("the return value is not that of the last success", f"{n}: {v!r}, last success returned {cur[n]!r}"))
            for rid, vals in lo.items():
                if vals is not None:
                    src, default = self.users[rid.split("#")[0]]
                    vals.update([default if cur[src] == NOTHING else cur[src]] + list(pend[src].values()) + list(alt[src]))
            if e["k"] == "enter" and e["rid"] in lo:
                if e["kw"].get("p") not in lo[e["rid"]]:
                    bad.append(("a task gets a wrong return value of another", f"{e['rid']} got {e['kw'].get('p')!r}, possible {lo[e['rid']]}"))
                lo[e["rid"]] = None
        return bad


def scenarios(tier):
    q = tier == "quick"
    k = 2 if q else 3
    outs = [(0.15, "ok"), (0.0, "none"), (0.1, "fail"), (0.0, "inaction"), (0.0, "ok")]
    term = [("terminate a", lambda w: w.task["a"].terminate(), 1)]
    kinds = (("async", "async"), ("main", "sync"), ("thread", "flag"), ("process", "sync"), ("thread", "sync"), ("main", "async"))
    for ex, body in kinds:
        yield Ret(f"{ex} {body}: every sequence of outcomes", [T("a", ex, body, [{}, {}, {}])], plans={"a": outs}, horizon=0.9, total=3 if q else 4, preempt=False, env=term, env_max=1)
    for ex, body in kinds[:4]:
        for ex2, body2 in kinds[:4]:
            yield Ret(f"{ex} to {ex2}", [T("a", ex, body, [{}, {}]), T("b", ex2, body2, [{}, {}])], users={"b": ("a", "dflt")}, plans={"a": outs, "b": [(0.1, "ok")]}, horizon=0.6, total=k,
                      preempt=not q or ex in ("thread", "process") and ex2 == "async", budgets={"preempt": 1}, env=[("again", lambda w: w.task["b"].run(), 1)], order=False)
    yield Ret("two processes", [T("a", "process", "sync", [{}, {}]), T("b", "process", "sync", [{}, {}])], plans={"a": [(0.1, "ok"), (0.0, "ok"), (0.0, "fail")], "b": [(0.1, "ok"), (0.0, "none")]}, horizon=0.5, total=k, budgets={"preempt": 1} if q else {}, order=False)
    yield Ret("thread and process", [T("a", "process", "sync", [{}, {}]), T("b", "thread", "flag", [{}, {}])], plans={"a": [(0.1, "ok"), (0.0, "ok"), (0.0, "fail")], "b": [(0.1, "ok"), (0.0, "none")]}, horizon=0.5, total=k, budgets={"preempt": 1} if q else {}, order=False)
    yield Ret("chain", [T("a", "process", "sync", [{}, {}]), T("b", "thread", "sync", [{}, {}]), T("c", "async", "async", [{}, {}]), T("d", "process", "sync", [{}, {}])],
              users={"b": ("a", None), "c": ("b", None), "d": ("c", None)}, plans={n: [(0.05, "ok"), (0.0, "fail")] for n in "abcd"}, horizon=0.6, total=k, preempt=False, order=False)
    from datetime import timedelta
    for ex, body in kinds[:1] + kinds[2:5]:
        for how in ("", "with a timeout", "terminated"):
            kw = dict(multilaunch=True)
            if how == "with a timeout":
                kw["timeout"] = timedelta(seconds=0.2)
            yield Ret(f"overlapping runs {how}, {ex} {body}", [T("a", ex, body, [{}, {}, {}], kw=kw), T("b", "async", "async", [{}, {}])], users={"b": ("a", "dflt")},
                      plans={"a": [(0.3, "ok"), (0.1, "ok"), (0.0, "fail")], "b": [(0.1, "ok")]}, horizon=0.6, total=2 if q else 3, preempt=False, order=False,
                      env=[("again", lambda w: w.task["a"].run(), 1)] + (term if how == "terminated" else []), env_max=1)


def run(ctx):
    explore.explore(ctx, scenarios(ctx.tier))
