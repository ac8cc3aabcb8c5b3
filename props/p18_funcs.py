"""Functions of the tasks of P18 (also imported by path, as a user's script would be)."""
from mc import bodies
from rocketry import args as A

STATE = bodies.__dict__.setdefault("P18_STATE", {"i": 0})


def fresh():
    return f"func{STATE['i']}"


def nested(k=A.Arg("k"), t=A.Task()):
    return f"{k}+{t.name}"


def nested_ret(r=A.Return("s")):
    return f"<{r}>"


def with_args(p, *, q):
    return f"{p}{q}{STATE['i']}"


def kinds(tag):
    """Every kind of argument: name -> the argument (or plain value)."""
    return {
        "const": lambda: tag,
        "none": lambda: None,
        "simple": lambda: A.SimpleArg(tag),
        "private": lambda: A.Private(tag),
        "arg": lambda: A.Arg("k"),
        "arg default": lambda: A.Arg("nokey", default=tag),
        "arg of arg": lambda: A.Arg("k2"),
        "arg of func": lambda: A.Arg("kf"),
        "arg of private": lambda: A.Arg("kp"),
        "arg missing": lambda: A.Arg("nokey"),
        "ret": lambda: A.Return("s"),
        "ret default": lambda: A.Return("never", default=tag),
        "ret missing": lambda: A.Return("never"),
        "env": lambda: A.EnvArg("VP_P18"),
        "env default": lambda: A.EnvArg("VP_P18_NO", default=tag),
        "cli": lambda: A.CliArg("--vp18"),
        "cli default": lambda: A.CliArg("--vpno", default=tag),
        "func": lambda: A.FuncArg(fresh),
        "func pre": lambda: A.FuncArg(fresh, materialize="pre"),
        "func post": lambda: A.FuncArg(fresh, materialize="post"),
        "func args": lambda: A.FuncArg(with_args, tag, q="q"),
        "func nested": lambda: A.FuncArg(nested, materialize="pre"),
        "func ret": lambda: A.FuncArg(nested_ret, materialize="pre"),
        "pipe": lambda: A.Arg("nokey") >> A.Arg("k"),
        "pipe last": lambda: A.Return("never") >> A.Arg("nokey") >> A.SimpleArg(tag),
        "pipe first": lambda: A.Return("s") >> A.SimpleArg(tag),
        "task": lambda: A.Task(),
        "other task": lambda: A.Task("s"),
        "session": lambda: A.Session(),
        "config": lambda: A.Config(),
        "logger": lambda: A.TaskLogger(),
        "flag": lambda: A.TerminationFlag(),
    }


def describe(v):
    if v is None or isinstance(v, str):
        return v
    n = type(v).__name__
    if hasattr(v, "start_cond"):
        return f"task {v.name}"
    if n == "Session":
        return "session"
    if hasattr(v, "task_logger_basename"):
        return "config"
    if hasattr(v, "task_name") and hasattr(v, "info"):
        return f"logger {v.task_name}"
    if hasattr(v, "is_set") and not v.is_set():
        return "flag"
    return f"{n} {v!r}"


def got(kw):
    return {k: describe(v) for k, v in kw.items()}


NAMES = "ab"
FORMS = {
    "optional": ('x="<dflt>", y="<dflt y>"', "dict(x=x, y=y)"),
    "required": ("x", "dict(x=x)"),
    "keyword only": ('*, x="<dflt>"', "dict(x=x)"),
    "any": ("**kw", "kw"),
    "some": ('x="<dflt>", **kw', "dict(kw, x=x)"),
    "nothing": ("", "{}"),
}


def form_name(form, kind, is_async, task):
    return f"{'async' if is_async else 'sync'}_{form}_{kind}_{task}".replace(" ", "_")


def _make():
    ns = globals()
    for task in NAMES:
        for a in ("", "async "):
            for form, (sig, val) in FORMS.items():
                fn = form_name(form, "", bool(a), task)
                call = f"await bodies.run_async({task!r}, got({val}))" if a else f"bodies.run_sync({task!r}, got({val}))"
                exec(f"{a}def {fn}({sig}):\n    return {call}\n", ns)
            for kind in kinds(""):
                if kind in ("const", "none"):
                    continue
                ns["_k"] = kinds("sig")[kind]()
                fn = form_name("signature", kind, bool(a), task)
                call = f"await bodies.run_async({task!r}, got(dict(x=x)))" if a else f"bodies.run_sync({task!r}, got(dict(x=x)))"
                exec(f"{a}def {fn}(x=_k):\n    return {call}\n", ns)


_make()
