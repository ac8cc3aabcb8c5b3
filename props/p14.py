"""P14: rolling forward/back yields the calendar-correct adjacent interval."""
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap, cpu_guard, Hang
from . import timeref as R


def year_end_off_by_us(spec, got, want):
    if spec.unit != "year" or spec.kind not in ("between", "before", "at"):
        return False
    return (spec.raw_e[1] == D.timedelta(0) and spec.raw_e[0] % 32 == 0
            and got[0] == want[0] and got[1] == want[1] - R.US)


def job(args):
    unit, tier, k, n = args
    boot.import_rocketry()
    import rocketry.time as T
    bad, cnt, specs = [], 0, 0
    for i, spec in enumerate(R.specs(unit, tier)):
        if i % n != k:
            continue
        specs += 1
        per = spec.build(T)
        for dt in R.probe_times(spec, tier):
            for tz in ((None, D.timezone.utc) if i % 5 == 0 else (None,)):
                d = dt.replace(tzinfo=tz)
                for name in ("rollforward", "rollback"):
                    cnt += 1
                    want = getattr(spec, name)(dt)
                    if R.last_us_of_year_end_month(spec, dt):
                        continue
                    try:
                        with cpu_guard(10):
                            iv = getattr(per, name)(d)
                        got = (iv.left.replace(tzinfo=None), iv.right.replace(tzinfo=None))
                        closed = iv.closed
                        if iv.left.tzinfo != tz or iv.right.tzinfo != tz:
                            bad.append((f"{spec}.{name}({d.isoformat()})", "time zone lost"))
                    except (Exception, Hang) as exc:
                        got = f"raised {exc!r}"
                    if got == want and closed == ("both" if want[0] == want[1] else "left"):
                        continue
                    if year_end_off_by_us(spec, got, want) or (
                            unit == "year" and spec.full and spec.kind in ("between", "before")
                            and (dt == spec.place(spec.cycle_start(dt), spec.s)[0])):
                        bad.append((R.KEY_YEAR_US, f"{spec}.{name}({d.isoformat()})"))
                        continue
                    bad.append((f"{spec}.{name}({d.isoformat()})", f"got {got} {closed}, calendar says {want}"))
                    if len(bad) > 400:
                        return unit, specs, cnt, bad
    return unit, specs, cnt, bad


def run(ctx):
    boot.import_rocketry()
    jobs = [(u, ctx.tier, k, 8) for u in R.UNITS for k in range(8)]
    for unit, specs, cnt, bad in pmap(job, jobs):
        ctx.add(f"rolls:{unit}", states=specs, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    fixed(ctx)
    spans(ctx)
    spec = R.Spec("month", "after", R.values("month")[9])
    for dt in R.probe_times(spec)[:3]:
        ctx.sample(f"{spec!r}: forward({dt}) -> {spec.rollforward(dt)}, back -> {spec.rollback(dt)}")


def fixed(ctx):
    """Fixed (possibly open-ended) periods and spans relative to a moment."""
    from rocketry.core.time import StaticInterval
    from rocketry.time import TimeDelta
    H = D.timedelta(hours=1)
    base = D.datetime(2022, 3, 1)
    grid = [base + k * H + e for k in range(-3, 4) for e in (-R.US, D.timedelta(0), R.US)]
    n = st = 0
    for tz in (None, D.timezone.utc, D.timezone(D.timedelta(hours=3))):
        z = lambda d: d.replace(tzinfo=tz)
        for a in [None] + [base + k * H for k in (-2, -1, 0, 1)]:
            for b in [None] + [base + k * H for k in (-1, 0, 1, 2)]:
                if a is not None and b is not None and a >= b:
                    continue
                st += 1
                try:
                    per = StaticInterval(None if a is None else z(a), None if b is None else z(b))
                except Exception as exc:
                    ctx.violation(f"StaticInterval({a}, {b}) tz={tz}", f"cannot be built: {exc!r}", {})
                    continue
                for dt in grid:
                    d = z(dt)
                    inside = (a is None or dt >= a) and (b is None or dt < b)
                    n += 3
                    name = f"fixed period {a}..{b} tz={tz} at {dt.isoformat()}"
                    try:
                        if (d in per) is not inside:
                            ctx.violation(name, f"membership is {d in per}", {})
                        f, r = per.rollforward(d), per.rollback(d)
                        if b is None or dt < b:
                            want = z(dt if a is None else max(a, dt))
                            if f.left != want or (b is not None and f.right != z(b)) or (b is None and f.right.year < 2200):
                                ctx.violation(name, f"rollforward gives {f}", {})
                        elif not f.is_empty and dt > b:
                            ctx.violation(name, f"rollforward gives {f} though the period is over", {})
                        if a is None or dt > a:
                            want = z(dt if b is None else min(b, dt))
                            if r.right != want or (a is not None and r.left != z(a)) or (a is None and r.left.year > 1971):
                                ctx.violation(name, f"rollback gives {r}", {})
                        elif dt < a and not r.is_empty:
                            ctx.violation(name, f"rollback gives {r} though the period is in the future", {})
                    except Exception as exc:
                        ctx.violation(name, f"raised {exc!r}", {})
        for span, secs in (("1 hour", 3600), ("90 minutes", 5400), ("1 day 2 hours", 93600), ("10 seconds", 10), ("2 days", 172800)):
            st += 2
            past, fut = TimeDelta(span), TimeDelta(future=span)
            L = D.timedelta(seconds=secs)
            for dt in grid:
                d = z(dt)
                n += 6
                name = f"span {span} tz={tz} at {dt.isoformat()}"
                i = past.rollback(d)
                j = fut.rollforward(d)
                if (i.left, i.right) != (d - L, d):
                    ctx.violation(name, f"rollback gives {i}", {})
                if (j.left, j.right) != (d, d + L):
                    ctx.violation(name, f"rollforward gives {j}", {})
                both = TimeDelta(span, future=span).use_reference(d)
                for e, want in ((-L - R.US, False), (-L, True), (L, True), (L + R.US, False)):
                    if (d + e in both) is not want:
                        ctx.violation(name, f"membership of {e} in past and future around the reference is not {want}", {})
                for e, want in ((-L - R.US, False), (-L, True), (D.timedelta(0), True), (R.US, False)):
                    if (d + e in past.use_reference(d)) is not want:
                        ctx.violation(name, f"membership of {e} relative to the reference is not {want}", {})
    ctx.add("fixed periods and spans", states=st, transitions=n, traces=n)


UNIT = {"ms": 0.001, "millisecond": 0.001, **dict.fromkeys(("s", "sec", "secs", "second", "seconds"), 1), **dict.fromkeys(("m", "min", "mins", "minute", "minutes"), 60),
        **dict.fromkeys(("h", "hr", "hrs", "hour", "hours"), 3600), **dict.fromkeys(("d", "day", "days"), 86400)}


def spans(ctx):
    """Lengths of time in every notation: as a past, a future and a near/far span around a moment."""
    from rocketry.time import TimeDelta, TimeSpanDelta
    q = ctx.tier == "quick"
    dt = D.datetime(2024, 2, 29, 13, 30, 15, 123456)
    nums = ("1", "2", "10", "90", "1.5", "0.25", "2.125")
    one = [(f"{x}{g}{u}", float(x) * UNIT[u]) for x in nums for u in UNIT for g in ("", " ", "  ")]
    order = ("days", "d", "hours", "h", "hr", "minutes", "min", "m", "seconds", "s", "sec", "ms")
    val = {u: ("1.5" if u in ("s", "seconds", "hours") else "3") for u in order}
    two = [(f"{val[a]}{g}{a}{j}{y}{g}{b}", float(val[a]) * UNIT[a] + float(y) * UNIT[b]) for a in order for b in order if UNIT[a] > UNIT[b]
           for g in ("", " ") for j in (" ", ", ") for y in ("2", "0.5")]
    three = [(f"{x} {a} {y} {b} {z} {c}", x * UNIT[a] + y * UNIT[b] + z * UNIT[c]) for a, b, c in itertools.combinations(order, 3) if UNIT[a] > UNIT[b] > UNIT[c]
             for x, y, z in itertools.product((1, 7), repeat=3)]
    clock = [(f"{p}{h:02d}:{m:02d}:{x}", e + h * 3600 + m * 60 + float(x)) for h in (0, 1, 23) for m in (0, 5, 59) for x in ("00", "07", "59", "01.5", "30.250000")
             for p, e in (("", 0), ("2 days ", 172800), ("1 d, ", 86400))]
    objs = [(D.timedelta(seconds=x), x) for x in (0.5, 1, 59.999999, 61.25, 86399.5, 90000)]
    texts = one + two + three + clock + objs
    st = n = 0
    for text, secs in texts:
        if secs == 0:
            continue
        L = D.timedelta(seconds=secs)
        st += 1
        name = f"span {text!r}"
        ok = lambda x, y: abs(x - y) <= R.US
        try:
            i, j = TimeDelta(text).rollback(dt), TimeDelta(future=text).rollforward(dt)
            far, near = TimeSpanDelta(far=text), TimeSpanDelta(near=text)
            k, l = far.rollback(dt), near.rollback(dt)
            f, g = far.rollforward(dt), near.rollforward(dt)
        except Exception as exc:
            ctx.violation(name, f"raised {exc!r}", {})
            continue
        n += 6
        for what, x, y in (("past", i.left, dt - L), ("past, end", i.right, dt), ("future", j.right, dt + L), ("future, start", j.left, dt), ("far, past", k.left, dt - L), ("far, past, end", k.right, dt),
                           ("near, past", l.right, dt - L), ("far, future", f.right, dt + L), ("far, future, start", f.left, dt), ("near, future", g.left, dt + L)):
            if not ok(x, y):
                ctx.violation(name, f"{what}: {x} should be {y}", {})
        for e, inf, inn in ((-2, False, True), (-1.01, False, True), (-0.99, True, False), (-0.5, True, False), (0.5, True, False), (0.99, True, False), (1.01, False, True), (2, False, True)):
            n += 2
            at = dt + e * L
            if (at in far.use_reference(dt)) is not inf or (at in near.use_reference(dt)) is not inn:
                ctx.violation(name, f"membership of the moment {e} spans from the reference: far {at in far.use_reference(dt)}, near {at in near.use_reference(dt)}", {})
    lens = (0, 1, 60, 90, 3600, 86400)
    for a, b in itertools.combinations(lens, 2):
        st += 1
        per = TimeSpanDelta(near=D.timedelta(seconds=a), far=D.timedelta(seconds=b))
        for x in range(len(lens)):
            for sign in (-1, 1):
                for us in (-1, 0, 1):
                    at = dt + sign * D.timedelta(seconds=lens[x]) + us * R.US
                    dist = abs(at - dt)
                    want = D.timedelta(seconds=a) <= dist <= D.timedelta(seconds=b)
                    n += 1
                    if (at in per.use_reference(dt)) is not want:
                        ctx.violation(f"span from {a} s to {b} s", f"membership of the moment {at - dt} from the reference is not {want}", {})
    ctx.add("lengths of time", states=st, transitions=n, traces=n)
