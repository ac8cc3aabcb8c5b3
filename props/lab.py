"""A session on a virtual clock, driven end to end in this process: the real
Session.start() runs, and the harness moves the clock at the beginning of every
scheduling cycle.  Only public means are used (config.time_func, hooks, shut_cond,
task log, repo)."""
import datetime as D

EPOCH = D.datetime(1970, 1, 1, tzinfo=D.timezone.utc)


def ts(dt):
    """POSIX timestamp of a wall clock moment (naive moments are those of UTC, the local zone of the checks)."""
    if dt.tzinfo is None:
        dt = dt.replace(tzinfo=D.timezone.utc)
    d = dt - EPOCH
    return (d.days * 86400 + d.seconds) + d.microseconds / 1e6


class Clock:
    def __init__(self, now=None):
        self.t = ts(now) if now is not None else 0.0

    def set(self, dt):
        self.t = ts(dt)

    def __call__(self):
        return self.t


N = [0]


def session(clock, repo=None, **config):
    from rocketry import Session
    from redbird.repos import MemoryRepo
    from rocketry.log import MinimalRecord
    import logging
    from redbird.logging import RepoHandler
    old = logging.getLogger("rocketry.task")      # logging remembers the logger of the previous session, and it the session
    old.__dict__.pop("makeRecord", None)
    old.handlers = []
    N[0] += 1
    if N[0] % 60 == 0:
        import gc
        gc.collect()          # every run of a session leaves a pipe to be collected
    cfg = dict(time_func=clock, cycle_sleep=None, execution="main")
    cfg.update(config)
    s = Session(config=cfg, delete_existing_loggers=True)
    if repo is None:
        from rocketry.log import LogRecord
        repo = MemoryRepo(model=LogRecord)
    logger = logging.getLogger(s.config.task_logger_basename)
    for h in list(logger.handlers):
        logger.removeHandler(h)
    logger.addHandler(RepoHandler(repo=repo))
    logger.setLevel(logging.DEBUG)
    return s


def drive(s, clock, moments, each=None):
    """Start the session; cycle i happens at moments[i]; `each(i)` is called before the cycle.
    Returns when all the moments have been used."""
    from rocketry.core.condition.base import BaseCondition
    state = {"i": 0}

    class Over(BaseCondition):
        def observe(self, **kw):
            if state["i"] >= len(moments):
                return True
            clock.set(moments[state["i"]]) if isinstance(moments[state["i"]], D.datetime) else setattr(clock, "t", moments[state["i"]])
            if each is not None:
                each(state["i"])
            state["i"] += 1
            return False

        def __str__(self):
            return "over"

    s.config.shut_cond = Over()
    s.start()
    return state["i"]
