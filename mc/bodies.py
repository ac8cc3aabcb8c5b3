"""Task bodies (module level, so that they can be sent to a child process)."""
import asyncio

from . import world


class BodyError(Exception):
    pass


def _finish(w, name, rid, out):
    from rocketry.exc import TaskInactionException
    if out == "ok":
        val = f"ret:{rid}"
        w.body_exit(name, rid, "ok", val)
        return val
    if out == "none":
        w.body_exit(name, rid, "ok", None)
        return None
    if out == "fail":
        w.body_exit(name, rid, "fail")
        raise BodyError(rid)
    if out == "inaction":
        w.body_exit(name, rid, "inaction")
        raise TaskInactionException(rid)
    if out == "restart":
        from rocketry.exc import SchedulerRestart
        w.body_exit(name, rid, "restart")
        raise SchedulerRestart()
    if out == "exit":
        from rocketry.exc import SchedulerExit
        w.body_exit(name, rid, "sysexit")
        raise SchedulerExit()
    if out == "terminate":
        from rocketry.exc import TaskTerminationException
        w.body_exit(name, rid, "terminate")
        raise TaskTerminationException(rid)
    raise ValueError(out)


def run_sync(name, kw, flag=None):
    w = world.CUR
    rid = w.body_enter(name, kw)
    try:
        if w.sc.during is not None:
            w.sc.during(w, name)
        dur, out = w.plan(name)
        if dur:
            if flag is not None:
                w.sleep(dur, until=lambda: flag._flag)
                if flag.is_set() and out != "ignore":
                    out = "terminate"
            else:
                w.sleep(dur)
        if out == "ignore":
            out = "ok"
    except world.Killed:
        if rid in w.live:
            w.live.pop(rid, None)
            w.outcomes[rid] = "killed"
        raise
    return _finish(w, name, rid, out)


async def run_async(name, kw):
    w = world.CUR
    rid = w.body_enter(name, kw)
    try:
        if w.sc.during is not None:
            w.sc.during(w, name)
        dur, out = w.plan(name)
        if dur:
            await w.asleep(dur, name)
    except world.Killed:
        w.live.pop(rid, None)
        w.outcomes[rid] = "killed"
        raise
    except asyncio.CancelledError:
        w.body_exit(name, rid, "cancelled")
        raise
    return _finish(w, name, rid, out)


def _make(name):
    src = f'''
def sync_{name}(p=None, **kw):
    kw["p"] = p
    return run_sync({name!r}, kw)
async def async_{name}(p=None, **kw):
    kw["p"] = p
    return await run_async({name!r}, kw)
def plain_{name}():
    return run_sync({name!r}, {{}})
'''
    ns = globals()
    exec(compile(src, __file__, "exec"), ns)


NAMES = "abcdefgh"
for _n in NAMES:
    _make(_n)


def install_flags():
    """Bodies that watch the termination flag (needs rocketry imported)."""
    from rocketry.args import TerminationFlag
    ns = globals()
    ns["TerminationFlag"] = TerminationFlag
    for n in NAMES:
        src = f'''
def flag_{n}(p=None, flag=TerminationFlag(), **kw):
    kw["p"] = p
    return run_sync({n!r}, kw, flag)
'''
        exec(compile(src, __file__, "exec"), ns)


def body(kind, name):
    return globals()[f"{kind}_{name}"]
