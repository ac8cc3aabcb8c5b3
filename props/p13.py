"""P13: membership of a datetime in an anchored period equals calendar arithmetic."""
import datetime as D

from mc import boot
from mc.pool import pmap, cpu_guard, Hang
from . import timeref as R

TZS = [None, D.timezone(D.timedelta(hours=3)), D.timezone(D.timedelta(hours=-9, minutes=-30))]


def job(args):
    unit, tier, k, n = args
    boot.import_rocketry()
    import rocketry.time as T
    bad, cnt, specs = [], 0, 0
    for i, spec in enumerate(R.specs(unit, tier)):
        if i % n != k:
            continue
        specs += 1
        try:
            per = spec.build(T)
        except Exception as exc:
            bad.append((f"{spec} cannot be built", repr(exc)))
            continue
        for dt in R.probe_times(spec, tier):
            for tz in (TZS if (i % 7 == 0) else TZS[:1]):
                d = dt.replace(tzinfo=tz)
                cnt += 1
                want = spec.contains(dt)
                try:
                    with cpu_guard(10):
                        got = d in per
                except (Exception, Hang) as exc:
                    got = f"raised {exc!r}"
                if got is False and want and R.last_us_of_year_end_month(spec, dt):
                    bad.append((R.KEY_YEAR_US, f"{spec} at {d.isoformat()}: got False, calendar says True"))
                    continue
                if got is not want:
                    bad.append((f"{spec} at {d.isoformat()}", f"got {got}, calendar says {want}"))
                    if len(bad) > 400:
                        return unit, specs, cnt, bad
    return unit, specs, cnt, bad


def run(ctx):
    boot.import_rocketry()
    import rocketry.time as T
    jobs = [(u, ctx.tier, k, 8) for u in R.UNITS for k in range(8)]
    for unit, specs, cnt, bad in pmap(job, jobs):
        ctx.add(f"membership:{unit}", states=specs, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    cond_layer(ctx)
    spec = R.Spec("week", "between", R.values("week")[8], R.values("week")[1])
    for dt in R.probe_times(spec)[:4]:
        ctx.sample(f"{dt.isoformat()} in {spec!r} -> {spec.contains(dt)}")
    ctx.assume("membership is decided on wall-clock fields; the grid covers every period boundary +-1 us in "
               "leap/non-leap years and 28..31-day months")


# ---- the same through the user-facing condition API and the string syntax, on a virtual clock
API = {"second": "time_of_second", "minute": "time_of_minute", "hour": "time_of_hour",
       "day": "time_of_day", "week": "time_of_week", "month": "time_of_month"}


def cond_layer(ctx):
    import rocketry
    from rocketry import conds
    from rocketry.parse import parse_condition
    now = [0.0]
    session = rocketry.Session(config={"time_func": lambda: now[0]})
    session.set_as_default()
    n = st = 0
    for unit, api in API.items():
        wrap = getattr(conds, api)
        for i, spec in enumerate(R.specs(unit)):
            if spec.kind == "between" and i % 5:
                continue
            forms = []
            k = spec.kind
            if k == "full":
                forms.append(("api", wrap))
            elif k == "between":
                forms.append(("api", wrap.between(spec.a.arg, spec.b.arg)))
            elif k == "after":
                forms.append(("api", wrap.after(spec.a.arg)))
            elif k == "before":
                forms.append(("api", wrap.before(spec.b.arg)))
            elif k == "at":
                forms += [("api.at", wrap.at(spec.a.arg)), ("api.on", wrap.on(spec.a.arg))]
            else:
                forms.append(("api", wrap.starting(spec.a.arg)))
            args = [x.arg for x in (spec.a, spec.b) if x is not None]
            if unit not in ("second",) and all(isinstance(a, str) for a in args):
                txt = {"full": None, "between": "between {} and {}", "after": "after {}", "before": "before {}",
                       "at": "on {}", "starting": "starting {}"}[k]
                if txt and k in STR_KINDS and (k != "at" or unit in ("week", "month")):
                    s = f"time of {unit} " + txt.format(*args)
                    try:
                        forms.append(("string " + repr(s), parse_condition(s, session=session)))
                    except Exception as exc:
                        ctx.violation(f"parse {s!r}", f"documented syntax does not parse: {exc!r}", {"case": s})
            for name, cond in forms:
                st += 1
                for dt in R.probe_times(spec)[::3]:
                    ts = dt.replace(tzinfo=D.timezone.utc).timestamp()
                    if D.datetime.fromtimestamp(ts) != dt:
                        continue
                    now[0] = ts
                    n += 1
                    want = spec.contains(dt)
                    try:
                        got = cond.observe(session=session)
                    except Exception as exc:
                        got = f"raised {exc!r}"
                    if bool(got) is not want or not isinstance(got, bool):
                        ctx.violation(f"{name} {spec} at {dt.isoformat()}", f"got {got}, calendar says {want}",
                                      {"case": repr(spec)})
                        break
    ctx.add("membership via conditions and strings", states=st, transitions=n, traces=n)


STR_KINDS = ("between", "after", "before", "at")
