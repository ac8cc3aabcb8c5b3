"""Fork-based work distribution (independent of the multiprocessing attributes the
world patches)."""
import os
import pickle
import struct
import sys
import time
import traceback
import select
import signal

NPROC = int(os.environ.get("VERIF_NPROC", "0")) or min(8, os.cpu_count() or 1)


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        chunk = os.read(fd, min(1 << 20, n - len(buf)))
        if not chunk:
            raise EOFError
        buf += chunk
    return buf


def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv(fd):
    (n,) = struct.unpack("<Q", _read_exact(fd, 8))
    return pickle.loads(_read_exact(fd, n))


class WorkerDied(RuntimeError):
    pass


class Pool:
    """`fn(job) -> result` in forked workers; on_result(job, result) may return new jobs."""

    def __init__(self, fn, nproc=None):
        self.fn = fn
        self.nproc = nproc or NPROC
        self.workers = []
        sys.stdout.flush()
        sys.stderr.flush()
        for _ in range(self.nproc):
            r1, w1 = os.pipe()
            r2, w2 = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(w1)
                os.close(r2)
                for _, pr, pw in self.workers:
                    os.close(pr)
                    os.close(pw)
                code = 0
                try:
                    self._loop(r1, w2)
                except EOFError:
                    pass
                except BaseException:
                    traceback.print_exc()
                    code = 1
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
            os.close(r1)
            os.close(w2)
            self.workers.append((pid, r2, w1))

    def _loop(self, rfd, wfd):
        while True:
            job = _recv(rfd)
            try:
                res = ("ok", self.fn(job))
            except BaseException as exc:
                res = ("err", "".join(traceback.format_exception(exc)))
            _send(wfd, res)

    def run(self, jobs, on_result=None, deadline=None, should_stop=None):
        """Returns list of (job, result); with on_result results are not kept."""
        queue = list(jobs)[::-1]
        out = []
        busy = {}
        idle = list(range(self.nproc))
        stopped = False
        while True:
            while idle and queue and not stopped:
                if (deadline and time.time() > deadline) or (should_stop and should_stop()):
                    stopped = True
                    break
                i = idle.pop()
                job = queue.pop()
                busy[i] = job
                _send(self.workers[i][2], job)
            if not busy:
                break
            fds = {self.workers[i][1]: i for i in busy}
            ready, _, _ = select.select(list(fds), [], [])
            for fd in ready:
                i = fds[fd]
                try:
                    kind, res = _recv(fd)
                except EOFError:
                    raise WorkerDied(f"worker died on job {busy[i]!r}")
                job = busy.pop(i)
                idle.append(i)
                if kind == "err":
                    raise WorkerDied(f"worker error on job {str(job)[:300]}:\n{res}")
                if on_result is None:
                    out.append((job, res))
                else:
                    new = on_result(job, res)
                    if new:
                        queue.extend(reversed(new))
        self.left = len(queue)
        return out

    def close(self):
        for pid, r, w in self.workers:
            os.close(r)
            os.close(w)
        for pid, r, w in self.workers:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            os.waitpid(pid, 0)
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def pmap(fn, items, nproc=None):
    """Ordered parallel map; items are indices into a list inherited through fork."""
    items = list(items)
    if not items:
        return []
    res = [None] * len(items)
    with Pool(lambda i: fn(items[i]), min(nproc or NPROC, len(items))) as pool:
        for i, r in pool.run(range(len(items))):
            res[i] = r
    return res


class Hang(BaseException):
    pass


class cpu_guard:
    """Raise Hang in the main thread when the block burns more than `secs` of CPU."""

    def __init__(self, secs):
        self.secs = secs

    def _fire(self, *a):
        raise Hang(f"no result after {self.secs} s of CPU time")

    def __enter__(self):
        self.old = signal.signal(signal.SIGVTALRM, self._fire)
        signal.setitimer(signal.ITIMER_VIRTUAL, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, self.old)
        return False
