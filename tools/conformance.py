"""Compare the controlled world with real threads, processes and time.

    python tools/conformance.py          (from /verif; ~1 min; not a check: real time is not deterministic)

Each case is run twice on the code of /repo: once as the default execution of a scenario in the controlled world, once
with the interpreter's own threading, multiprocessing, asyncio and clock. The log records of each run and what the
session was left with must be the same."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))

DUR = {"short": 0.0, "long": 0.6, "endless": 20.0}
KINDS = [("async", "async"), ("main", "sync"), ("thread", "flag"), ("thread", "sync"), ("process", "sync")]


def cases():
    for ex, body in KINDS:
        for out in ("ok", "fail", "inaction", "none"):
            for dur in ("short", "long"):
                yield dict(name=f"{ex} {body} {dur} {out}", tasks=[dict(name="a", exec=ex, body=body, n=2, plan=[dur, out])])
        if (ex, body) not in (("main", "sync"), ("thread", "sync")):
            yield dict(name=f"{ex} {body} timeout", tasks=[dict(name="a", exec=ex, body=body, n=2, plan=["endless", "ok"], timeout=0.5)])
            yield dict(name=f"{ex} {body} shut down now", tasks=[dict(name="a", exec=ex, body=body, n=1, plan=["endless", "ok"])], config=dict(instant_shutdown=True))
            yield dict(name=f"{ex} {body} overlapping", tasks=[dict(name="a", exec=ex, body=body, n=3, plan=["long", "ok"], multilaunch=True)])
    yield dict(name="all", tasks=[dict(name=n, exec=ex, body=body, n=2, plan=["long", "ok"]) for n, (ex, body) in zip("abcde", KINDS)])
    yield dict(name="one process at a time", tasks=[dict(name=n, exec="process", body="sync", n=2, plan=["long", out]) for n, out in zip("abc", ("ok", "fail", "ok"))], config=dict(max_process_count=1))


def summary(session):
    recs = {}
    for r in session.get_repo().filter_by().all():
        recs.setdefault(r.task_name, {}).setdefault(r.run_id, []).append(r.action)
    out = {}
    for t in session.tasks:
        out[t.name] = dict(runs=sorted(recs.get(t.name, {}).values()), status=t.status, queued=len(t.batches), alive=t.is_alive(),
                           returned=repr(session.returns[t] if t in session.returns else "-"))
    return out


def in_world(case):
    from mc import boot
    boot.setup()
    from mc import explore, world
    world.install()
    from mc import bodies
    bodies.install_flags()
    from props.wl import Std, T
    import datetime
    ts = []
    for t in case["tasks"]:
        kw = {}
        if "timeout" in t:
            kw["timeout"] = datetime.timedelta(seconds=t["timeout"])
        if "multilaunch" in t:
            kw["multilaunch"] = True
        ts.append(T(t["name"], t["exec"], t["body"], [{}] * t["n"], kw=kw))

    class Case(Std):
        def finish(self, w):
            w.data["summary"] = summary(w.session)
    sc = Case(case["name"], ts, config=case.get("config", {}), plans={t["name"]: [(DUR[t["plan"][0]], t["plan"][1])] for t in case["tasks"]}, horizon=6.0, preempt=False)
    w = explore.run_one(sc, ())
    assert w.result[0] == "returned", w.result
    return w.data["summary"]


PLAN = {}


def _body(name):
    out, dur = os.environ["CONF_" + name].split(":")
    return out, float(dur)


def _end(out, name):
    from rocketry.exc import TaskInactionException
    if out == "fail":
        raise ValueError("body")
    if out == "inaction":
        raise TaskInactionException()
    return None if out == "none" else "value"


def _define():
    from rocketry.args import TerminationFlag
    from rocketry.exc import TaskTerminationException
    for n in "abcde":
        exec(f'''
def sync_{n}():
    out, dur = _body("{n}")
    time.sleep(dur)
    return _end(out, "{n}")
async def async_{n}():
    import asyncio
    out, dur = _body("{n}")
    await asyncio.sleep(dur)
    return _end(out, "{n}")
def flag_{n}(flag=TerminationFlag()):
    out, dur = _body("{n}")
    till = time.time() + dur
    while time.time() < till:
        if flag.is_set():
            raise TaskTerminationException()
        time.sleep(0.01)
    return _end(out, "{n}")
''', dict(globals(), TerminationFlag=TerminationFlag, TaskTerminationException=TaskTerminationException), globals())
        for k in ("sync", "async", "flag"):
            globals()[f"{k}_{n}"].__module__ = __name__


def in_reality(case):
    from mc import boot
    boot.setup()
    import datetime
    from rocketry import Session
    from rocketry.tasks import FuncTask
    _define()
    import logging
    from redbird.logging import RepoHandler
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRunRecord
    logging.getLogger("rocketry.task").handlers = [RepoHandler(repo=MemoryRepo(model=MinimalRunRecord))]
    s = Session(config=dict(execution="async", cycle_sleep=0.05, **case.get("config", {})))
    for t in case["tasks"]:
        os.environ["CONF_" + t["name"]] = f"{t['plan'][1]}:{DUR[t['plan'][0]]}"
        kw = {}
        if "timeout" in t:
            kw["timeout"] = datetime.timedelta(seconds=t["timeout"])
        if "multilaunch" in t:
            kw["multilaunch"] = True
        task = FuncTask(globals()[f"{t['body']}_{t['name']}"], name=t["name"], execution=t["exec"], session=s, **kw)
        for _ in range(t["n"]):
            task.run()
    begin = time.time()
    horizon = 8.0

    def over():
        if time.time() - begin > (2.5 if case.get("config", {}).get("instant_shutdown") else horizon):
            return True
        return not case.get("config", {}).get("instant_shutdown") and all(not t.batches and not t.is_alive() for t in s.tasks)
    from rocketry.core.condition import BaseCondition

    class Over(BaseCondition):
        def get_state(self):
            return over()

        def __reduce__(self):
            from rocketry.conditions import AlwaysFalse
            return (AlwaysFalse, ())
    s.config.shut_cond = Over()
    s.start()
    return summary(s)


if os.environ.get("CONF_a") and __name__ == "__mp_main__":
    from mc import boot as _b
    _b.setup()
    _define()

if __name__ == "__main__":
    if len(sys.argv) > 2:
        print(json.dumps({"world": in_world, "real": in_reality}[sys.argv[1]](json.loads(sys.argv[2]))))
        sys.exit(0)
    from concurrent.futures import ThreadPoolExecutor

    def both(case):
        res = {}
        for mode in ("world", "real"):
            r = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), mode, json.dumps(case)], capture_output=True, text=True, timeout=120, cwd=os.path.dirname(HERE))
            res[mode] = json.loads(r.stdout.splitlines()[-1]) if r.returncode == 0 else "error: " + r.stderr[-2000:]
        return case, res
    bad = n = 0
    with ThreadPoolExecutor(4) as ex:
        for case, res in ex.map(both, cases()):
            n += 1
            for r in res.values():
                if isinstance(r, dict):
                    for t in r.values():
                        t["returned"] = t["returned"] in ("'-'", "None") and t["returned"] or "a value"
            if res["world"] != res["real"] or not isinstance(res["world"], dict):
                bad += 1
                print("DIFFERS", case["name"], json.dumps(res, indent=1))
    print(f"{n} cases, {bad} differ")
    sys.exit(bool(bad))
