"""P18: parameters reach the task from the right source with the right value."""
import os
import sys

from mc import boot, explore, world
from .wl import *

MISSING = ("arg missing", "ret missing")
EXECS = ("main", "async", "thread", "process")
HERE = os.path.dirname(os.path.abspath(__file__))


def funcs():
    from . import p18_funcs
    return p18_funcs


def value(kind, tag, i, task):
    """What the argument is for the i-th run; None: the run has to fail."""
    return {
        "const": tag, "none": None, "simple": tag, "private": tag, "arg": f"k{i}", "arg default": tag, "arg of arg": f"k{i}", "arg of func": f"func{i}", "arg of private": "secret",
        "ret": f"ret{i}", "ret default": tag, "env": f"env{i}", "env default": tag, "cli": f"cli{i}", "cli default": tag,
        "func": f"func{i}", "func pre": f"func{i}", "func post": f"func{i}", "func args": f"{tag}q{i}", "func nested": f"k{i}+{task}", "func ret": f"<ret{i}>",
        "pipe": f"k{i}", "pipe last": tag, "pipe first": f"ret{i}", "task": f"task {task}", "other task": "task s", "session": "session", "config": "config", "logger": f"logger {task}", "flag": "flag",
    }[kind]


def source(w, i):
    """The surroundings for the i-th run."""
    F = funcs()
    F.STATE["i"] = i
    os.environ["VP_P18"] = f"env{i}"
    from rocketry.args import CliArg
    for j, a in enumerate(CliArg.cli_args):
        if a == "--vp18":
            CliArg.cli_args[j + 1] = f"cli{i}"
    w.session.parameters["k"] = f"k{i}"


def s_body():
    w = world.CUR
    w.data["i"] += 1
    i = w.data["i"]
    source(w, i)
    w.ev("surroundings", i=i)
    return f"ret{i}"


def never():
    pass


PATTERNS = [(1, 0, 1, 0), (0, 1, 0, 0), (0, 0, 0, 0), (1, 1, 1, 1)]   # which of the runs have x queued


class Par(Std):
    """The choices made in build() enumerate the configurations."""
    preempt = False
    early = False
    order = False
    horizon = 0.75
    total = 12
    part = "sources"
    execs = EXECS
    delayed = (0, 1)

    def pick(self, w, *opts):
        return opts[w.choose("config", len(opts))]

    def build(self, w):
        from rocketry import Session, args as A
        from rocketry.tasks import FuncTask
        F = funcs()
        if "--vp18" not in sys.argv:
            sys.argv.extend(["--vp18", "cli0"])
        A.CliArg.cli_args = sys.argv
        w.data["i"] = 0
        c = self.choices(w, F)
        w.data["c"] = c
        cfg = dict(time_func=world.now, func_run_id=world.run_id, execution=c["exec"] if c.get("by_config") else "main", param_materialize=c.get("mat", "post"), silence_task_prerun=True)
        w.session = s = Session(config=cfg)
        w.task, w.used = {}, {}
        junk = dict(zz="junk", zf=A.FuncArg(F.fresh), zr=A.Return("never"), za=A.Arg("nokey"), zo=open)
        s.parameters.update(dict(k="k0", k2=A.Arg("k"), kf=A.FuncArg(F.fresh), kp=A.Private("secret"), **junk))
        w.task["s"] = FuncTask(s_body, name="s", execution="main", priority=10, session=s)
        w.task["never"] = FuncTask(never, name="never", execution="main", session=s)
        for _ in range(4):
            w.task["s"].run()
        for n in c["tasks"]:
            kw = dict(name=n, priority=5, session=s)
            if not c.get("by_config"):
                kw["execution"] = c["exec"]
            if c["own"]:
                kw["parameters"] = {k: a(n) for k, a in c["own"].items()}
            kw["start_cond"] = make_cond(lambda w: w.data["i"] == 4 and not w.data.get("fourth"), w)
            if c["delayed"]:
                kw.update(path=os.path.join(HERE, "p18_script.py"), func_name=F.form_name(c["form"], c["sig"], c["async"], n))
            else:
                kw["func"] = getattr(F, F.form_name(c["form"], c["sig"], c["async"], n))
            w.task[n] = t = FuncTask(**kw)
            for i in range(3):
                b = {k: a(n) for k, a in c["batch"].items()} if c["pattern"][i] else {}
                t.run(b) if c.get("as_dict") else t.run(**b)
        for k, a in c["session"].items():
            s.parameters[k] = a("session")
        w.data["before"] = self.snapshot(w)

    def snapshot(self, w):
        out = {"session": [(k, id(v)) for k, v in w.session.parameters.items() if k != "k"]}
        for n, t in w.task.items():
            out[n] = [(k, id(v)) for k, v in t.parameters.items()]
        return out

    def finish(self, w):
        w.data["after"] = self.snapshot(w)
        w.final = {n: dict(status=t.status, alive=t.is_alive(), n_alive=t.n_alive, left=len(t.batches)) for n, t in w.task.items()}

    def expected(self, c, n, i):
        """The values the i-th run of the task gets; None: the run has to fail (an argument cannot be computed or passed)."""
        out = {}
        accepts = {"optional": "xy", "required": "x", "keyword only": "x", "any": None, "some": None, "nothing": "", "signature": "x"}[c["form"]]
        named = {"optional": "xy", "required": "x", "keyword only": "x", "any": "", "some": "x", "nothing": "", "signature": "x"}[c["form"]]
        dflt = {"x": "<dflt>", "y": "<dflt y>"}
        batch = c["batch_kinds"] if i < 4 and c["pattern"][i - 1] else {}
        for a in "xy":
            if a in batch:
                k, tag = batch[a], f"batch{n}"
            elif a in c["own_kinds"]:
                k, tag = c["own_kinds"][a], f"own{n}"
            elif a == "x" and c["sig"]:
                k, tag = c["sig"], "sig"
            elif a in c["session_kinds"] and a in named:
                k, tag = c["session_kinds"][a], "session"
            elif a in named:
                if c["form"] == "required":
                    return None
                out[a] = dflt[a]
                continue
            else:
                continue
            if accepts is not None and a not in accepts or k in MISSING:
                return None
            out[a] = value(k, tag, i, n)
        return out

    def check(self, w):
        c = w.data["c"]
        desc = {k: v for k, v in c.items() if k not in ("own", "batch", "session")}
        bad = returned(w) + all_dead(w)
        i = 0
        n_run = {n: 0 for n in c["tasks"]}
        rid_i = {}
        for e in w.events:
            if e["k"] == "log" and e["action"] == "run" and e["task"] in n_run:
                n_run[e["task"]] += 1
                rid_i[e["rid"]] = min(n_run[e["task"]], 4)
        seen = {}
        for e in w.events:
            if e["k"] == "enter":
                seen[e["rid"]] = e["kw"]
        # a run whose parameters cannot be collected fails: it is still logged as a run
        for rid, i in rid_i.items():
            n = rid.split("#")[0]
            want = self.expected(c, n, i)
            got = seen.get(rid)
            if got != want:
                bad.append(("a run gets wrong parameters", f"run {i} of {n}: got {got}, should get {want} [{desc}]"))
            end = [e["action"] for e in logs(w, n) if e["rid"] == rid][1:]
            if end != (["fail"] if want is None else ["success"]):
                bad.append(("a run with parameters ends wrongly", f"run {i} of {n}: {end}, parameters {got}, should get {want} [{desc}] {[e['msg'] for e in logs(w, n)][:3]}"))
        for n, k in n_run.items():
            if k < 4 or w.final[n]["left"]:
                bad.append(("a run did not happen", f"{n} ran {k} times [{desc}]"))
        if w.data["before"] != w.data["after"]:
            diff = [k for k in w.data["before"] if w.data["before"][k] != w.data["after"][k]]
            bad.append(("the parameters of the session or a task were changed by a run", f"{diff} [{desc}]"))
        return bad

    def digest(self, w):
        return (str(w.data["c"]["desc"]),)


def const(kind, tag):
    def make(n):
        return funcs().kinds(tag if tag == "session" else tag + n)[kind]()
    make.__repr__ = lambda: kind
    return make


class Sources(Par):
    """Every subset of the sources, for two arguments, every form of function, execution and sequence of runs."""

    def choices(self, w, F):
        c = dict(exec=self.ex)
        c["form"] = self.pick(w, *(["signature"] + list(F.FORMS)))
        c["async"] = self.pick(w, False, True) if c["exec"] == "async" else False
        c["delayed"] = self.dl
        plain = ("const",) if not self.deep else ("const", "simple")
        c["sig"] = self.pick(w, "simple", "arg", "func") if c["form"] == "signature" else ""
        kinds = {}
        for src in ("session", "own", "batch"):
            d = {}
            x = self.pick(w, None, *({"session": ("const", "func"), "own": ("simple",), "batch": ("const", "none")}[src] if not self.deep else plain + ("func", "none")))
            if x:
                d["x"] = x
            if c["form"] in (("optional", "nothing") if not self.deep else ("optional", "any", "some", "nothing")) and self.pick(w, 0, 1):
                d["y"] = "const"
            kinds[src] = d
        c["pattern"] = self.pick(w, *PATTERNS) if kinds["batch"] else PATTERNS[2]
        c["tasks"] = "ab" if self.two else "a"
        c.update({f"{k}_kinds": v for k, v in kinds.items()})
        for src, d in kinds.items():
            c[src] = {a: const(k, src) for a, k in d.items()}
        c["by_config"] = self.two
        c["as_dict"] = self.dl
        c["desc"] = {k: c[k] for k in ("exec", "form", "async", "delayed", "sig", "pattern", "tasks", "session_kinds", "own_kinds", "batch_kinds")}
        return c


class Kinds(Par):
    """Every kind of argument from every source in every execution."""

    def choices(self, w, F):
        c = dict(exec=self.ex, delayed=self.dl)
        c["async"] = self.pick(w, False, True) if c["exec"] == "async" else False
        src = self.pick(w, "session", "own", "batch", "sig")
        kind = self.pick(w, *[k for k in F.kinds("") if self.possible(k, src)])
        c["mat"] = self.pick(w, "post", "pre")
        c["form"] = "signature" if src == "sig" else self.pick(w, "optional", "required")
        c["sig"] = kind if src == "sig" else ""
        kinds = {"session": {}, "own": {}, "batch": {}}
        if src != "sig":
            kinds[src]["x"] = kind
        c["pattern"] = self.pick(w, *PATTERNS[:2], PATTERNS[3]) if src == "batch" else PATTERNS[2]
        c["tasks"] = "a" if not self.two else "ab"
        c.update({f"{k}_kinds": v for k, v in kinds.items()})
        for s, d in kinds.items():
            c[s] = {a: const(k, s) for a, k in d.items()}
        c["desc"] = {k: c[k] for k in ("exec", "form", "async", "delayed", "sig", "pattern", "mat", "session_kinds", "own_kinds", "batch_kinds")}
        return c

    def possible(self, kind, src):
        if src == "sig" and kind in ("const", "none"):
            return False
        if self.ex == "process" and kind in ("session", "config", "other task"):
            return False
        return True


class Other(Par):
    """Tasks that are not functions: pieces of code and commands."""

    def build(self, w):
        import tempfile
        from rocketry import Session, args as A
        from rocketry.tasks import FuncTask, CommandTask, CodeTask
        F = funcs()
        w.data["i"] = 0
        c = w.data["c"] = dict(exec=self.ex, what=self.what, tasks="a")
        kinds = {}
        for src in ("session", "own", "batch"):
            d = kinds[src] = {}
            x = self.pick(w, None, *{"session": ("const",), "own": ("simple", "arg", "ret"), "batch": ("const", "func nested")}[src])
            if x:
                d["x"] = x
            if self.pick(w, 0, 1):
                d["y"] = "const"
        c["pattern"] = self.pick(w, *PATTERNS[:2]) if kinds["batch"] else PATTERNS[2]
        c.update({f"{k}_kinds": v for k, v in kinds.items()}, form="any", sig="", delayed=False)
        c["desc"] = dict(c)
        w.session = s = Session(config=dict(time_func=world.now, func_run_id=world.run_id, silence_task_prerun=True))
        w.task, w.used = {}, {}
        s.parameters.update(dict(k="k0", k2=A.Arg("k"), zr=A.Return("never"), zo=open, **{a: const(k, "session")("") for a, k in kinds["session"].items()}))
        w.task["s"] = FuncTask(s_body, name="s", execution="main", priority=10, session=s)
        w.task["never"] = FuncTask(never, name="never", execution="main", session=s)
        for _ in range(4):
            w.task["s"].run()
        kw = dict(name="a", priority=5, session=s, execution=self.ex)
        if kinds["own"]:
            kw["parameters"] = {k: const(a, "own")("a") for k, a in kinds["own"].items()}
        kw["start_cond"] = make_cond(lambda w: w.data["i"] == 4, w)
        if self.what == "code":
            t = CodeTask(code="d = dict(locals())\n__import__('mc.world').world.CUR.ev('code', kw=d)\nleft = 1", **kw)
        else:
            fd, w.data["file"] = tempfile.mkstemp()
            os.close(fd)
            c["argform"] = self.pick(w, "absent", "short", "-", "long", "--", None)
            c["timeout"] = self.pick(w, "absent", "1 hour", "never")
            if c["argform"] != "absent":
                kw["argform"] = c["argform"]
            if c["timeout"] != "absent":
                kw["timeout"] = c["timeout"]
            script = f'(printf "%s|" "$@"; echo) >> {w.data["file"]}'
            if self.shell:
                t = CommandTask(command=f"sh -c '{script}' sh", shell=True, **kw)
            else:
                t = CommandTask(command=["sh", "-c", script, "sh"], **kw)
        w.task["a"] = t
        for i in range(3):
            b = {k: const(a, "batch")("a") for k, a in kinds["batch"].items()} if c["pattern"][i] else {}
            t.run(**b)
        w.data["before"] = self.snapshot(w)

    def snapshot(self, w):
        out = super().snapshot(w)
        out["command"] = str(getattr(w.task["a"], "command", None))
        return out

    def finish(self, w):
        super().finish(w)
        if self.what == "code":
            w.data["got"] = [e["kw"] for e in w.events if e["k"] == "code"]
        else:
            w.data["got"] = [l.rstrip("\n").split("|")[:-1] for l in open(w.data["file"])]
            os.unlink(w.data["file"])

    def check(self, w):
        c = w.data["c"]
        bad = returned(w) + all_dead(w)
        if w.data["before"] != w.data["after"]:
            bad.append(("the parameters or the command were changed by a run", f"{w.data['before']} -> {w.data['after']} [{c['desc']}]"))
        got = w.data["got"]
        if len(got) < 4:
            bad.append(("a run did not happen", f"{got} [{c}]"))
        for i, g in enumerate(got, 1):
            want = self.expected(dict(c, form="any"), "a", min(i, 4))
            if self.what == "command":
                pre = {"short": "-", "-": "-"}.get(c["argform"], "--")
                want = sorted((pre + k, v) for k, v in want.items())
                g = sorted(zip(g[::2], g[1::2])) if g != [""] else []
            if g != want:
                bad.append(("a run gets wrong parameters", f"run {i}: got {g}, should get {want} [{c}]"))
        for e in logs(w, "a"):
            if e["action"] not in ("run", "success"):
                bad.append(("a run with parameters ends wrongly", f"{e['action']} [{c}]"))
        return bad


# ---- runs started directly, with parameters -----------------------------------------------------------------------

def direct_job(a):
    """Every choice of who provides x and y, for runs started by calling the task."""
    ex, = a
    import itertools
    import datetime
    boot.import_rocketry()
    from rocketry.args import SimpleArg, Arg, FuncArg
    from rocketry.tasks import FuncTask
    from . import lab
    bad, st, cnt = [], 0, 0
    srcs = ("session", "passed", "own", "batch")
    vals = {"plain": lambda src, p: f"{src} {p}", "none": lambda src, p: None, "arg": lambda src, p: SimpleArg(f"{src} {p}"), "func": lambda src, p: FuncArg(lambda: f"{src} {p}")}
    got = []

    def both(x="dflt x", y="dflt y"):
        got.append((x, y))

    def one(x="dflt x"):
        got.append((x,))
    for fn, kind, having in itertools.product((both, one), vals, itertools.product(itertools.product((0, 1), repeat=4), repeat=2)):
        if fn is one and having[1] != (0, 0, 0, 0) and having[1] != (1, 1, 0, 0):
            continue
        st += 1
        names = {"x": having[0], "y": having[1]}
        give = {src: {p: vals[kind](src, p) for p in "xy" if names[p][i]} for i, src in enumerate(srcs)}
        clock = lab.Clock(datetime.datetime(2022, 3, 2, 10))
        s = lab.session(clock)
        s.parameters.update(give["session"])
        t = FuncTask(fn, name="t", execution=ex, parameters=give["own"], session=s)
        want = []
        for run in ("first", "second", "third"):
            # only the first is queued with parameters, the last is not given any
            if run == "first" and give["batch"]:
                t.run(give["batch"])
            passed = dict(give["passed"]) if run != "third" else None
            del got[:]
            try:
                t(passed) if run != "second" else t.start(params=passed)
            except Exception as exc:
                bad.append((f"direct start {ex}", f"{give} {run}: raised {exc!r}"))
                break
            for r in list(t._run_stack):
                if ex == "thread":
                    r.task.join()
            cnt += 1
            res = []
            for i, p in enumerate("xy" if fn is both else "x"):
                order = [src for src in srcs if names[p][srcs.index(src)] and not (src == "batch" and run != "first") and not (src == "passed" and run == "third")]
                res.append((None if kind == "none" else f"{order[-1]} {p}") if order else f"dflt {p}")
            if got != [tuple(res)]:
                bad.append((f"direct start {ex} {kind}: a run gets wrong parameters", f"{ {k: sorted(v) for k, v in give.items()} } {run} run: got {got}, should get {tuple(res)}"))
        if [dict(b) for b in t.batches]:
            bad.append((f"direct start {ex}", f"queued runs are left: {t.batches}"))
    return f"direct start, {ex}", st, cnt, bad[:20]


def scenarios(tier):
    q = tier == "quick"
    for ex in EXECS:
        yield Other(f"code, {ex}", [], ex=ex, what="code")
        for shell in (False, True):
            if not q or not shell or ex == "main":
                yield Other(f"command{' in shell' if shell else ''}, {ex}", [], ex=ex, what="command", shell=shell, budgets={"config": 4} if q else {})
    for ex in EXECS:
        for dl in (False, True):
            yield Sources(f"sources, {ex}{' by path' if dl else ''}", [], ex=ex, dl=dl, deep=not q, two=not q)
            yield Kinds(f"kinds, {ex}{' by path' if dl else ''}", [], ex=ex, dl=dl, two=True)
    for ex in EXECS:
        if q:
            yield Kinds(f"kinds, one task, {ex}", [], ex=ex, dl=False, two=False)


def run(ctx):
    from mc.pool import pmap
    for part, st, cnt, bad in pmap(direct_job, [(ex,) for ex in ("main", "thread")]):
        ctx.add(part, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": what})
    explore.explore(ctx, scenarios(ctx.tier))
