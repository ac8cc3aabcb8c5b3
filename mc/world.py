"""Controlled world: runs the real scheduler/task code under a virtual clock, with every
thread, child process, event, queue and event-loop idle decided by an explorer.

Exactly one *actor* runs at a time (the scheduler's main thread, a task thread or an
emulated child process); control moves only at switch points: clock reads, log emission,
event and queue operations, liveness queries, thread start/exit and event-loop idles.
What happens at a switch point is a *choice*; choice 0 is the default and every other
option is a deviation that costs one unit of a budget.

The patches are installed by install(), which must run before rocketry is imported.
"""
import asyncio
import contextvars
import copyreg  # noqa: F401  (kept loaded before patching)
import datetime
import logging
import pickle
import queue as _queue
import sys
import threading
import time
import _thread

from . import boot

REAL_THREAD = threading.Thread
REAL_TIME = time.time
REAL_SLEEP = time.sleep
TICK = 1.0 / 1024
T0 = datetime.datetime(2022, 1, 3, 10, 0, tzinfo=datetime.timezone.utc).timestamp()

CUR = None                      # the world of the running execution
RID = contextvars.ContextVar("rid", default=None)


class Abort(BaseException):
    """The execution is abandoned (limit, deadlock, teardown)."""


class Killed(BaseException):
    """The emulated child process received SIGTERM."""


def now():
    """config.time_func: the virtual clock; every read is a switch point."""
    w = CUR
    if w is None:
        return REAL_TIME()
    w.clock += TICK
    t = w.clock
    w.point("clock")
    return t


def peek_time():
    w = CUR
    return REAL_TIME() if w is None else w.clock


def run_id(task, params=None):
    w = CUR
    w.n_ids += 1
    rid = f"{task.name}#{w.n_ids}"
    w.last_rid = rid
    RID.set(rid)
    return rid


class Actor:
    def __init__(self, world, idn, kind, name):
        self.world, self.id, self.kind, self.name = world, idn, kind, name
        self.sem = _thread.allocate_lock()
        self.sem.acquire()
        self.pred = None
        self.wake = None
        self.state = "new"         # new, ready, blocked, dead
        self.killed = False
        self.rid = None
        self.early = None          # callable: end the current sleep now

    def runnable(self):
        if self.state == "dead" or self.killed:
            return False
        if self.state == "ready":
            return True
        if self.state == "blocked":
            return bool(self.pred()) or (self.wake is not None and self.world.clock >= self.wake)
        return False


class FakeThread:
    _kind = "thread"

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, kwargs or {}
        self.name = name or "vt"
        self.daemon = daemon
        self._actor = None

    def start(self):
        w = CUR
        self._actor = w.spawn(self, self._kind)
        w.point("start")

    def _main(self):
        self._target(*self._args, **self._kwargs)

    def is_alive(self):
        CUR.point("is_alive")
        return self._actor is not None and self._actor.state != "dead"

    def join(self, timeout=None):
        w, a = CUR, self._actor
        if a.killed:
            w.reap(a)
            return
        w.block(lambda: a.state == "dead", None if timeout is None else w.clock + timeout)

    @property
    def ident(self):
        return None if self._actor is None else self._actor.id


class FakeProcess(FakeThread):
    _kind = "process"
    pid = 1
    exitcode = None

    def start(self):
        blob = pickle.dumps((self._target, self._args, self._kwargs))
        self._target, self._args, self._kwargs = pickle.loads(blob)
        super().start()

    def terminate(self):
        w = CUR
        w.point("terminate")
        a = self._actor
        if a is not None and a.state != "dead":
            w.ev("sigterm", rid=a.rid)
            a.killed = True     # stops running; stays "alive" until joined or reaped

    kill = terminate

    def _main(self):
        w = CUR
        if w.sc.child_dies(w, self._actor.rid):
            w.ev("child died", rid=self._actor.rid)
            return
        super()._main()

    def close(self):
        pass

    def __getstate__(self):
        return {}


_QUEUES = {}


def _get_queue(idn):
    return _QUEUES[idn]


class FakeQueue:
    def __init__(self, maxsize=0, **kw):
        self._items = []
        self._id = len(_QUEUES)
        _QUEUES[self._id] = self

    def __reduce__(self):
        return (_get_queue, (self._id,))

    def put(self, obj, block=True, timeout=None):
        w = CUR
        if w is not None and w.cur.killed:
            return
        try:
            self._items.append(pickle.dumps(obj))
        except Exception:
            if w is not None:
                w.ev("unpicklable")

    def put_nowait(self, obj):
        self.put(obj)

    def get(self, block=True, timeout=None):
        w = CUR
        if w is not None:
            w.point("queue")
            if not self._items and block:
                w.block(lambda: bool(self._items), None if timeout is None else w.clock + timeout)
        if not self._items:
            raise _queue.Empty
        return pickle.loads(self._items.pop(0))

    def get_nowait(self):
        return self.get(block=False)

    def empty(self):
        return not self._items

    def qsize(self):
        return len(self._items)

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class FakeEvent:
    def __init__(self):
        self._flag = False

    def is_set(self):
        if CUR is not None:
            CUR.point("event")
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        if CUR is not None:
            CUR.point("event")

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        w = CUR
        if not self._flag and w is not None:
            w.block(lambda: self._flag, None if timeout is None else w.clock + timeout)
        return self._flag


class FakeLock:
    """Lock of the code under test: waiting for it gives way to the other actors."""
    reentrant = False

    def __init__(self):
        self._owner, self._n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        w = CUR
        me = w.cur if w is not None else "outside"
        if self._owner is not None and not (self.reentrant and self._owner is me):
            if not blocking:
                return False
            if w is None:
                raise RuntimeError("deadlock outside an execution")
            w.block(lambda: self._owner is None, None if timeout is None or timeout < 0 else w.clock + timeout)
            if self._owner is not None:
                return False
        self._owner, self._n = me, self._n + 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._n -= 1
        if not self._n:
            self._owner = None

    def locked(self):
        return self._owner is not None

    __enter__ = acquire

    def __exit__(self, *exc):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


class FakeRLock(FakeLock):
    reentrant = True


REAL_LOCK, REAL_RLOCK = threading.Lock, threading.RLock


def _lock():
    return FakeLock() if sys._getframe(1).f_globals.get("__name__", "").startswith("rocketry") else REAL_LOCK()


def _rlock(*a, **k):
    return FakeRLock() if sys._getframe(1).f_globals.get("__name__", "").startswith("rocketry") else REAL_RLOCK(*a, **k)


class VLoop(asyncio.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._selector = self
        self._clock_resolution = 1e-4

    def time(self):
        return peek_time()

    def select(self, timeout):
        w = CUR
        if w is None:
            raise RuntimeError("event loop used outside an execution")
        if self._ready or self._stopping:
            return []
        if timeout == 0:
            return []
        w.idle(self, timeout)
        return []

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass


class VPolicy(asyncio.DefaultEventLoopPolicy):
    def new_event_loop(self):
        return VLoop()


def vsleep(secs):
    w = CUR
    if w is None:
        return
    if secs < 0.001:
        w.point("sleep")
        return
    w.sleep(secs)


class RecHandler(logging.Handler):
    """Observes the task log; no lock, so it may be a switch point."""

    def handle(self, record):
        w = CUR
        if w is not None:
            w.on_record(record)
        return True


class SchedHandler(logging.Handler):
    def handle(self, record):
        w = CUR
        if w is not None:
            w.ev("sched", action=getattr(record, "action", None), level=record.levelname, msg=record.getMessage())
        return True


_installed = False


def install():
    """Patch the environment; call before the first import of rocketry."""
    global _installed
    if _installed:
        return
    assert "rocketry" not in sys.modules, "world.install() must precede the import of rocketry"
    import multiprocessing
    import concurrent.futures.thread  # noqa: F401  (binds the real primitives)
    import redbird.logging, redbird.repos  # noqa: F401,E401
    import pydantic  # noqa: F401
    import subprocess
    import types
    # real child programs run in no virtual time
    subprocess.time = types.SimpleNamespace(**{**vars(time), "sleep": REAL_SLEEP})
    threading.Thread = FakeThread
    threading.Event = FakeEvent
    threading.Lock, threading.RLock = _lock, _rlock
    multiprocessing.Process = FakeProcess
    multiprocessing.Queue = FakeQueue
    time.sleep = vsleep
    time.time = peek_time
    asyncio.set_event_loop_policy(VPolicy())
    _installed = True
    for name in ("asyncio", "root"):
        logging.getLogger(name).addHandler(logging.NullHandler())
    logging.getLogger("asyncio").propagate = False
    logging.lastResort = None
    boot.import_rocketry()


class Diverged(BaseException):
    """The harness itself went wrong (replay divergence or an internal error)."""


def guarded(fn):
    def wrapper(self, *a, **k):
        try:
            return fn(self, *a, **k)
        except (Abort, Killed, asyncio.CancelledError):
            raise
        except BaseException as exc:
            if self.harness_error is None:
                import traceback
                self.harness_error = "".join(traceback.format_exception(exc))
            raise Diverged(str(exc))
    wrapper.__name__ = fn.__name__
    return wrapper


class World:
    MAX_STEPS = 30000

    def __init__(self, scenario, devs=()):
        self.sc = scenario
        self.devs = {d[0]: d for d in devs}
        self.last_dev = max(self.devs, default=-1)
        self.points = []              # (kind, n, label) for points with n > 1
        self.events = []
        self.clock = T0
        self.n_ids = 0
        self.last_rid = None
        self.main = Actor(self, 0, "main", "main")
        self.main.state = "ready"
        self.actors = [self.main]
        self.cur = self.main
        self.aborted = None
        self.steps = 0
        self.async_waits = []         # (label, future, loop)
        self.live = {}                # rid -> (task name, actor id): bodies being executed
        self.spent = {}
        self.shut = False
        self.session = None
        self.data = {}
        self.muted = False
        self.nopoint = 0
        self.harness_error = None
        self.diverged = 0
        self.hard = T0 + scenario.hard
        self.horizon = T0 + scenario.horizon
        self.outcomes = {}            # rid -> how its body ended

    # -- events -------------------------------------------------------------------
    @guarded
    def ev(self, _k, /, **kw):
        if self.muted or self.cur.killed:
            return
        kw["k"] = _k
        kw["t"] = self.clock
        kw["a"] = self.cur.id
        self.events.append(kw)

    @guarded
    def on_record(self, record):
        d = record.__dict__
        ei = record.exc_info
        err = f"{type(ei[1]).__name__}: {ei[1]}" if isinstance(ei, tuple) and ei[1] is not None else (record.exc_text or "").strip().splitlines()[-1:]
        err = "".join(err)
        self.ev("log", err=err, action=d.get("action"), task=d.get("task_name"), rid=d.get("run_id"),
                created=record.created, start=d.get("start"), end=d.get("end"), runtime=d.get("runtime"),
                msg=record.getMessage(), ret=d.get("__return__"), level=record.levelname)
        self.sc.on_log(self, self.events[-1] if self.events else None)
        self.point("log")

    # -- choices ------------------------------------------------------------------
    @guarded
    def choose(self, kind, n, label=None):
        """Pick 0..n-1; 0 is free, the others cost one of budget `kind`."""
        if n <= 1 or self.muted:
            return 0
        i = len(self.points)
        self.points.append((kind, n))
        dev = self.devs.get(i)
        if dev is None:
            return 0
        if dev[2] != kind or dev[3] != n:
            # the code under test is not deterministic here: still a real execution, but not the planned one
            self.diverged += 1
            return dev[1] % n
        self.spent[kind] = self.spent.get(kind, 0) + 1
        return dev[1]

    def affordable(self, kind):
        return True

    # -- switching ----------------------------------------------------------------
    def _switch(self, target):
        me = self.cur
        if target is me:
            return
        self.cur = target
        target.sem.release()
        me.sem.acquire()
        self._resumed(me)

    def _resumed(self, me):
        if me.killed:
            raise Killed()
        if self.aborted and me is self.main:
            raise Abort(self.aborted)

    def abort(self, why):
        """Give up the execution: control returns to main, which raises Abort."""
        if self.aborted is None:
            self.aborted = why
        me = self.cur
        if me is self.main:
            raise Abort(why)
        me.state = "blocked"
        me.pred, me.wake = (lambda: False), None
        self._switch(self.main)

    def _limit(self):
        self.steps += 1
        if self.steps > getattr(self.sc, 'MAX_STEPS', self.MAX_STEPS):
            self.abort(f"no progress: {self.MAX_STEPS} steps")
        if self.clock > self.hard:
            self.abort(f"still running {self.sc.hard} virtual seconds after the start")

    @guarded
    def point(self, kind):
        """A switch point: the running actor stays enabled."""
        me = self.cur
        if self.muted or self.nopoint:
            return
        if me.killed:
            raise Killed()
        if self.aborted:
            if me is self.main:
                raise Abort(self.aborted)
            self.abort(self.aborted)
        self._limit()
        if not self.sc.preempt or (self.sc.preempt_kinds and kind not in self.sc.preempt_kinds):
            return
        opts = [a for a in self.actors if a is not me and a.state != "dead" and not a.killed
                and (a.runnable() or a.early is not None) and self.sc.may_switch(self, me, a)]
        env = self.sc.fine_env(self) if self.sc.env_fine else []
        # a thread or process may also be slow: held up until the scheduler has gone through a cycle
        main = self.main
        stall = (self.sc.stall and me is not main and (me.kind != "user" or self.sc.user_stall) and main.state == "blocked"
                 and main.wake is not None and main.wake < self.clock + 1.0)
        n = 1 + len(opts) + len(env) + bool(stall)
        c = self.choose("preempt", n)
        if c == 0:
            return
        if stall and c == n - 1:
            self.ev("stall", rid=me.rid)
            until = main.wake + self.sc.stall
            me.state, me.pred, me.wake = "blocked", (lambda: False), until
            while self.clock < until:
                self._limit()
                self._switch(main)
            me.state = "ready"
            me.pred = me.wake = None
            return
        if c <= len(opts):
            a = opts[c - 1]
            if not a.runnable():
                a.early()
            me.state = "ready"
            self._go(a)
        else:
            self._do_env(env[c - 1 - len(opts)])

    def _go(self, a):
        a.state = "ready"
        a.pred = a.wake = None
        self._switch(a)

    @guarded
    def block(self, pred, wake=None):
        """The running actor waits until pred() or the clock reaches wake."""
        me = self.cur
        if self.muted:
            raise Abort("blocked during teardown")
        if me.killed:
            raise Killed()
        while not pred() and not (wake is not None and self.clock >= wake):
            self._limit()
            me.state, me.pred, me.wake = "blocked", pred, wake
            self._resched(me)
        me.state = "ready"
        me.pred = me.wake = None

    def _resched(self, me):
        if me is not self.main:
            # main decides what runs next (it re-evaluates its own wait when it is blocked)
            self._switch(self.main)
            return
        ready = [a for a in self.actors if a is not me and a.runnable()]
        if ready:
            c = self.choose("order", len(ready)) if self.sc.order else 0
            self._go(ready[c])
            return
        early = [a for a in self.actors if a is not me and not a.killed
                 and a.state != "dead" and a.early is not None] if self.sc.early else []
        c = self.choose("early", 1 + len(early))
        if c:
            early[c - 1].early()
            self._go(early[c - 1])
            return
        self._advance()

    def _advance(self):
        waits = [a.wake for a in self.actors if a.state == "blocked" and not a.killed and a.wake is not None]
        if not waits:
            self.abort("deadlock: every thread waits forever")
            return
        self.clock = max(self.clock, min(waits))

    def idle(self, loop, timeout):
        """Event-loop idle of the running actor."""
        me = self.cur
        wake = None if timeout is None else self.clock + timeout
        pred = lambda: bool(loop._ready)
        if me is not self.main:
            self.block(pred, wake)
            return
        self.reap_killed()
        self.sc.on_idle(self)
        while not pred() and not (wake is not None and self.clock >= wake):
            self._limit()
            me.state, me.pred, me.wake = "blocked", pred, wake
            if not self.shut and self.clock >= self.horizon:
                self.shut = True
                me.state = "ready"
                self.ev("env", op="horizon")
                self.sc.at_horizon(self)
                continue
            ready = [a for a in self.actors if a is not me and a.runnable()]
            sleepers = [a for a in self.actors if a is not me and not a.runnable() and not a.killed
                        and a.state != "dead" and a.early is not None] if self.sc.early else []
            awaits = [x for x in self.async_waits if x[3] is me] if self.sc.early else []
            env = self.sc.env(self)
            opts = [("early", a) for a in sleepers] + [("await", x) for x in awaits] + [("env", e) for e in env]
            c = self.choose("idle", 1 + len(opts))
            if c:
                kind, what = opts[c - 1]
                if kind == "early":
                    what.early()
                    self._go(what)
                elif kind == "await":
                    self._fire(what)
                else:
                    me.state = "ready"
                    self._do_env(what)
                continue
            if ready:
                k = self.choose("order", len(ready)) if self.sc.order else 0
                self._go(ready[k])
                continue
            self._advance()
        me.state = "ready"
        me.pred = me.wake = None

    def _do_env(self, env):
        label, fn = env
        self.ev("env", op=label)
        self.nopoint += 1
        try:
            fn()
        finally:
            self.nopoint -= 1

    def _fire(self, x):
        self.async_waits.remove(x)
        if not x[1].done():
            x[1].set_result(None)

    # -- sleeping (work of unknown duration) -----------------------------------------
    def sleep(self, secs, until=None):
        """Work taking `secs`, unless the explorer lets it end earlier. until(): stop condition."""
        me = self.cur
        box = []
        if secs <= 0:
            self.point("work")
            return
        me.early = lambda: box.append(1)
        try:
            self.block(lambda: bool(box) or (until is not None and until()), self.clock + secs)
        finally:
            me.early = None

    async def asleep(self, secs, label="work"):
        loop = asyncio.get_running_loop()
        fut = loop.create_future()
        x = (label, fut, loop, self.cur)
        me = self.cur
        self.async_waits.append(x)
        h = loop.call_later(secs, lambda: fut.done() or fut.set_result(None))
        if me is not self.main:
            me.early = lambda: self._fire(x) if x in self.async_waits else None
        try:
            await fut
        finally:
            h.cancel()
            if x in self.async_waits:
                self.async_waits.remove(x)
            if me is not self.main:
                me.early = None

    # -- threads and processes --------------------------------------------------------
    @guarded
    def spawn(self, obj, kind):
        a = Actor(self, len(self.actors), kind, f"{kind}{len(self.actors)}")
        a.rid = self.last_rid
        a.state = "ready"
        a.obj = obj
        self.actors.append(a)
        self.ev("spawn", kind=kind, rid=a.rid, id=a.id)

        def boot_():
            ident = _thread.get_ident()
            threading._active[ident] = obj
            a.sem.acquire()
            try:
                try:
                    if a.killed:
                        raise Killed()
                    RID.set(a.rid)
                    obj._main()
                    self.point("exit")
                except (Killed, Abort):
                    pass
                except BaseException as exc:
                    self.ev("thread-exc", rid=a.rid, exc=f"{type(exc).__name__}: {exc}")
            finally:
                threading._active.pop(ident, None)
                self._die(a)

        _thread.start_new_thread(boot_, ())
        return a

    def _die(self, a):
        a.state = "dead"
        if not a.killed:
            self.ev("dead", rid=a.rid, kind=a.kind)
        nxt = self.main
        if self.reaper is not None:
            nxt, self.reaper = self.reaper, None
        self.cur = nxt
        nxt.sem.release()

    reaper = None

    def reap(self, a):
        """Unwind a killed child."""
        if a.state == "dead":
            return
        me = self.cur
        self.reaper = me
        self.cur = a
        a.sem.release()
        me.sem.acquire()
        self.ev("dead", rid=a.rid, kind=a.kind, killed=True)

    def reap_killed(self):
        for a in list(self.actors):
            if a.killed and a.state != "dead":
                if self.sc.preempt and self.choose("preempt", 2):
                    continue            # slow to die
                self.reap(a)

    def teardown(self):
        self.muted = True
        for a in self.actors[1:]:
            if a.state != "dead":
                a.killed = True
                self.reap(a)

    # -- bodies -------------------------------------------------------------------------
    def rid(self):
        return self.cur.rid if self.cur is not self.main else RID.get()

    def body_enter(self, name, kw):
        rid = self.rid()
        self.live[rid] = (name, self.cur.id)
        self.ev("enter", task=name, rid=rid, kw=kw, live=[r for r, (n, _) in self.live.items() if n == name])
        return rid

    def body_exit(self, name, rid, how, val=None):
        self.live.pop(rid, None)
        self.outcomes[rid] = how
        self.ev("exit", task=name, rid=rid, how=how, val=val)

    def plan(self, name):
        plans = self.sc.plans.get(name) or [(0.0, "ok")]
        return plans[self.choose("body", len(plans))]

    # -- execution ------------------------------------------------------------------------
    def execute(self):
        global CUR
        _QUEUES.clear()
        logger = logging.getLogger("rocketry.task")
        proc = logging.getLogger("rocketry.task._process")
        sched = logging.getLogger("rocketry.scheduler")
        for lg in (logger, proc, sched):
            lg.handlers = []
            lg.__dict__.pop("makeRecord", None)
            lg.__dict__.pop("__rocketry_wrapped__", None)
        logger.setLevel(logging.INFO)
        logger.propagate = sched.propagate = False
        sched.setLevel(logging.INFO)
        from redbird.logging import RepoHandler
        from redbird.repos import MemoryRepo
        from rocketry.log import MinimalRunRecord
        self.repo = MemoryRepo(model=MinimalRunRecord)
        logger.addHandler(RepoHandler(repo=self.repo))
        logger.addHandler(RecHandler())
        sched.addHandler(SchedHandler())
        CUR = self
        RID.set(None)
        self.result = None
        try:
            try:
                self.nopoint = 1
                self.sc.build(self)
                self.nopoint = 0
                self.sc.drive(self)
                self.result = ("returned", None)
            except Abort as exc:
                self.result = ("abort", str(exc))
                self.exc = exc
            except Killed:
                self.result = ("abort", "killed main")
            except Diverged:
                self.result = ("harness", self.harness_error)
            except BaseException as exc:
                self.result = ("raised", f"{type(exc).__name__}: {exc}")
                self.exc = exc
            self.nopoint = 1
            self.alive_at_end = [a.rid for a in self.actors[1:] if a.state != "dead"]
            self.live_at_end = dict(self.live)
            try:
                if self.result[0] in ("returned", "raised") and self.harness_error is None:
                    self.sc.finish(self)
            finally:
                self.teardown()
        finally:
            CUR = None
            # the event loop of an aborted run may be left in a running state
            asyncio._set_running_loop(None)
            try:
                asyncio.set_event_loop(None)
            except Exception:
                pass
        if self.harness_error:
            raise RuntimeError("harness error: " + self.harness_error)
        return self
