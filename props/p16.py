"""P16: cron expressions against an independent cron matcher."""
import calendar
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap, cpu_guard, Hang

US = D.timedelta(microseconds=1)
MIN = D.timedelta(minutes=1)
FIELDS = ("minute", "hour", "day_of_month", "month", "day_of_week")
RANGE = {"minute": (0, 59), "hour": (0, 23), "day_of_month": (1, 31), "month": (1, 12), "day_of_week": (0, 7)}
MON = "jan feb mar apr may jun jul aug sep oct nov dec".split()
DOW = "sun mon tue wed thu fri sat".split()


# ---- reference -------------------------------------------------------------------------------------------------

def num(field, s, end=False):
    if s.isdigit():
        return int(s)
    if field == "month":
        return MON.index(s.lower()[:3]) + 1
    v = DOW.index(s.lower()[:3])
    return 7 if v == 0 and end else v


def values(field, expr):
    lo, hi = RANGE[field]
    if field == "day_of_week":
        hi = 6
    out = set()
    for part in expr.split(","):
        body, _, step = part.partition("/")
        step = int(step or 1)
        if body == "*":
            out |= set(range(lo, hi + 1, step))
        elif "-" in body:
            a, b = body.split("-")
            out |= set(range(num(field, a), num(field, b, True) + 1, step))
        else:
            out.add(num(field, body))
    return {v % 7 for v in out} if field == "day_of_week" else out


class Ref:
    def __init__(self, fields):
        self.f = fields
        self.v = {n: values(n, fields[n]) for n in FIELDS}
        self.dom_star = "*" in fields["day_of_month"].split(",")
        self.dow_star = "*" in fields["day_of_week"].split(",")

    def day(self, d):
        if d.month not in self.v["month"]:
            return False
        a = d.day in self.v["day_of_month"]
        b = d.isoweekday() % 7 in self.v["day_of_week"]
        if self.dom_star and self.dow_star:
            return True
        if self.dom_star:
            return b
        if self.dow_star:
            return a
        return a or b

    def __contains__(self, d):
        return self.day(d) and d.hour in self.v["hour"] and d.minute in self.v["minute"]

    def next(self, dt):
        """First matching moment at or after dt."""
        if dt in self:
            return dt
        m = dt.replace(second=0, microsecond=0) + MIN
        while True:
            if not self.day(m):
                m = m.replace(hour=0, minute=0) + D.timedelta(days=1)
            elif m.hour not in self.v["hour"]:
                m = m.replace(minute=0) + D.timedelta(hours=1)
            elif m.minute not in self.v["minute"]:
                m += MIN
            else:
                return m

    def prev(self, dt):
        """(start, end) of the matching moments of the latest matching minute that begins before dt."""
        m = dt.replace(second=0, microsecond=0)
        if m == dt:
            m -= MIN
        while True:
            if not self.day(m):
                m = m.replace(hour=0, minute=0) - MIN
            elif m.hour not in self.v["hour"]:
                m = m.replace(minute=0) - MIN
            elif m.minute not in self.v["minute"]:
                m -= MIN
            else:
                return m, min(m + MIN, dt)


# ---- enumeration -----------------------------------------------------------------------------------------------

def field_exprs(field, tier):
    lo, hi = RANGE[field]
    q = tier == "quick"
    vals = sorted({lo, lo + 1, (lo + hi) // 2, hi - 1, hi}) if q or hi - lo > 24 else list(range(lo, hi + 1))
    if field == "day_of_week":
        vals = list(range(8))
    if field == "day_of_month":
        vals = sorted({1, 2, 15, 28, 29, 30, 31})
    if field == "month":
        vals = [1, 2, 3, 6, 11, 12] if q else list(range(1, 13))
    out = ["*"] + [str(v) for v in vals]
    pairs = [(a, b) for a, b in itertools.combinations(vals, 2)]
    out += [f"{a}-{b}" for a, b in pairs] + [f"{a}-{a}" for a in vals[:2]]
    steps = (2, 3, 5) if q else (2, 3, 4, 5, 7, 10, 15)
    out += [f"*/{s}" for s in steps + (1, 20, 30)]
    out += [f"{a}-{b}/{s}" for a, b in pairs for s in steps if b - a > 1]
    out += [f"{a},{b}" for a, b in pairs[::3]] + [f"{b},{a}" for a, b in pairs[1::5]]
    out += [f"{a}-{a + 2},{b}" for a, b in pairs if a + 2 < b][:6]
    out += [f"{vals[0]},{a}-{b}/2" for a, b in pairs if b - a > 3][:4]
    out += [f"*/{s},{vals[1]}" for s in (7,)] + [f"{vals[1]},*", f"*,{vals[1]}"]
    if field == "month":
        out += ["JAN", "feb", "Dec", "FEB-MAR", "jan-jun", "Feb-Aug/3", "OCT-DEC", "JAN,FEB,DEC", "jan-dec/5", "2-DEC/4", "JUN-9"]
    if field == "day_of_week":
        out += ["SUN", "mon", "Sat", "FRI-SUN", "mon-fri", "SUN-TUE", "Tue-Fri/2", "SUN-SAT/2", "MON-SUN/3", "mon,wed,fri", "1-FRI", "sun-3",
                "MON-5/2", "0-6", "0-7", "1-7", "5-7", "6-7", "0-5", "0-1", "0-0", "7-7", "0,7", "5-7/2"]
    seen, res = set(), []
    for e in out:
        if e not in seen:
            seen.add(e)
            if e.startswith("*/1") and e != "*/1" and field == "day_of_week":
                continue
            res.append(e)
    return res


def mk(**kw):
    return {n: kw.get(n, "*") for n in FIELDS}


def text(f):
    return " ".join(f[n] for n in FIELDS)


LEAP = D.datetime(2024, 2, 29)


def probes(field, tier):
    """Moments that tell the values of a field apart, with the last and first instants around."""
    base = []
    if field == "minute":
        base = [D.datetime(2022, 8, 31, 23, 0) + k * MIN for k in range(-2, 62)]
    elif field == "hour":
        base = [D.datetime(2022, 12, 31, 0, 0) + D.timedelta(hours=k) for k in range(-2, 26)]
    elif field == "day_of_month":
        for y, m in ((2022, 1), (2022, 2), (2024, 2), (2022, 4)):
            n = calendar.monthrange(y, m)[1]
            base += [D.datetime(y, m, d) for d in range(1, n + 1)]
        if tier == "quick":
            base = [b for b in base if b.day in (1, 2, 3, 4, 5, 7, 8, 10, 14, 15, 16, 17, 27, 28, 29, 30, 31)]
    elif field == "month":
        base = [D.datetime(y, m, 1) for y in (2022, 2024) for m in range(1, 13)]
    else:
        base = [D.datetime(2022, 2, 26) + D.timedelta(days=k) for k in range(9)]
    out = []
    for b in base:
        out += [b - US, b, b + US] if field != "minute" else [b, b + MIN - US]
    return out


def roll_probes(field, tier):
    base = {"minute": [D.datetime(2022, 12, 31, 23, k) for k in (0, 1, 29, 30, 58, 59)],
            "hour": [D.datetime(2022, 12, 31, k, 30) for k in (0, 1, 11, 22, 23)],
            "day_of_month": [D.datetime(2022, 1, 28), D.datetime(2022, 1, 31), D.datetime(2022, 2, 1), D.datetime(2022, 2, 28, 12), LEAP,
                             D.datetime(2022, 4, 30, 23, 59), D.datetime(2022, 12, 15)],
            "month": [D.datetime(2022, 1, 1), D.datetime(2022, 2, 15), D.datetime(2022, 3, 1), D.datetime(2022, 11, 30, 23, 59), D.datetime(2022, 12, 31, 23, 59), LEAP],
            "day_of_week": [D.datetime(2022, 2, 26) + D.timedelta(days=k) for k in range(7)]}[field]
    out = []
    for b in base:
        out += [b, b + D.timedelta(seconds=30)]
    return out


COMBO = {
    "minute": ["*", "30", "45-59", "*/20", "0,59"],
    "hour": ["*", "0", "10-13", "*/6", "2-17/6", "23"],
    "day_of_month": ["*", "1", "31", "28-30", "1-31/10", "*/10"],
    "month": ["*", "2", "FEB-MAR", "*/5", "12", "4-6"],
    "day_of_week": ["*", "0", "1-5", "FRI-SUN", "0-6/2", "*/3", "SUN"],
}


def combos(tier):
    names = FIELDS
    for a, b in itertools.combinations(names, 2):
        for x, y in itertools.product(COMBO[a][1:], COMBO[b][1:]):
            yield (a, b), mk(**{a: x, b: y})
    tri = [("minute", "hour", "day_of_month"), ("minute", "hour", "day_of_week"), ("hour", "day_of_month", "day_of_week"),
           ("hour", "day_of_month", "month"), ("day_of_month", "month", "day_of_week")]
    k = (2, 4) if tier == "quick" else (1, 9)
    for t in tri:
        for v in itertools.product(*(COMBO[n][k[0] - 1:k[1]] for n in t)):
            yield t, mk(**dict(zip(t, v)))
    for v in (("0", "0", "1", "1", "*"), ("59", "23", "31", "12", "*"), ("45-59", "10-13", "28-30", "FEB-MAR", "FRI-SUN"),
              ("0", "12", "29", "2", "*"), ("*/15", "9-17", "*", "*", "1-5"), ("5", "0", "1-7", "*", "0"), ("0", "0", "29", "feb", "mon")):
        yield FIELDS, mk(**dict(zip(FIELDS, v)))


def satisfiable(ref):
    d = D.datetime(2024, 1, 1)
    return any(ref.day(d + D.timedelta(days=k)) for k in range(366))


def star_steps(f):
    return any(f[n].startswith("*/") for n in ("day_of_month", "day_of_week")) and f["day_of_month"] != "*" and f["day_of_week"] != "*"


def check_roll(bad, name, per, ref, dt):
    try:
        with cpu_guard(10):
            f, b = per.rollforward(dt), per.rollback(dt)
    except (Exception, Hang) as exc:
        bad.append((f"{name} rolled from {dt.isoformat()}", f"raised {exc!r}"))
        return
    left = ref.next(dt)
    right = left.replace(second=0, microsecond=0) + MIN
    if f.left != left or f.right not in (right, right - US):
        bad.append((f"{name} rolled forward from {dt.isoformat()}", f"got {f.left} .. {f.right}, the next matching minute is {left} .. {right}"))
    l2, r2 = ref.prev(dt)
    if b.left != l2 or b.right not in (r2, r2 - US):
        bad.append((f"{name} rolled back from {dt.isoformat()}", f"got {b.left} .. {b.right}, the previous matching minute is {l2} .. {r2}"))


def last_us(dt):
    """Last microsecond of a month (the convention of whole-month ends, see P13)."""
    return dt.microsecond == 999999 and (dt + US).day == 1 and (dt + US).hour == 0 and (dt + US).minute == 0


def job(a):
    kind, tier, k, n = a
    boot.import_rocketry()
    from rocketry.time import Cron
    from rocketry import conds
    bad, cnt, st = [], 0, 0

    def contains(name, per, ref, dt):
        try:
            with cpu_guard(10):
                got = dt in per
        except (Exception, Hang) as exc:
            got = f"raised {exc!r}"
        if got is not (dt in ref) and not last_us(dt):
            bad.append((f"{name} at {dt.isoformat()}", f"match is {got}, cron says {dt in ref}"))

    if kind in FIELDS:
        for i, e in enumerate(field_exprs(kind, tier)):
            if i % n != k:
                continue
            st += 1
            f = mk(**{kind: e})
            name, ref = f"cron({text(f)})", Ref(f)
            per = Cron(*(f[x] for x in FIELDS)) if i % 2 else Cron(**{kind: e})
            for dt in probes(kind, tier):
                cnt += 1
                contains(name, per, ref, dt)
            for dt in roll_probes(kind, tier):
                cnt += 2
                check_roll(bad, name, per, ref, dt)
    elif kind == "combo":
        for i, (names, f) in enumerate(combos(tier)):
            if i % n != k:
                continue
            ref = Ref(f)
            if star_steps(f) or not satisfiable(ref):
                continue
            st += 1
            name = f"cron({text(f)})"
            per = Cron(*(f[x] for x in FIELDS))
            pts = []
            for m in names:
                pts += roll_probes(m, tier)[::(3 if tier == "quick" else 1)]
            for dt in pts:
                cnt += 3
                contains(name, per, ref, dt)
                check_roll(bad, name, per, ref, dt)
    elif kind == "task":
        st, cnt = tasks(bad, tier, k, n)
    return kind, st, cnt, bad[:300]


EXPRS = [("*/2 * * * *", "2022-12-31T23:50", 20), ("0-29,45-59 0-10,20-23 * * *", "2022-12-31T23:40", 40), ("* * * * *", "2022-02-28T23:55", 12),
         ("59 23 31 * *", "2022-03-31T23:57", 6), ("0 0 1 1 *", "2022-12-31T23:57", 8), ("*/15 * * * 0-6/2", "2022-02-26T23:40", 50),
         ("1-59/3 10-12 * * mon", "2022-02-28T09:58", 12), ("0  12 *  feb\t*", "2022-02-28T11:58", 5), ("30 12 29 2 *", "2024-02-29T12:28", 5),
         ("5 0 15 * fri", "2022-04-15T00:03", 5)]


def tasks(bad, tier, k, n):
    """A task on a cron schedule, run end to end on a virtual clock with cycles every 20 s (offset so that no
    cycle is exactly at a full minute, and once so that it is)."""
    from . import lab
    from rocketry import conds
    from rocketry.conditions.api import cron, crontime
    from rocketry.parse import parse_condition
    st = cnt = 0
    for i, (expr, start, mins) in enumerate(EXPRS):
        ref = Ref(dict(zip(FIELDS, expr.split())))
        base = D.datetime.fromisoformat(start)
        for j, (off, step, dur, out, form) in enumerate(itertools.product((7.5, 0.0), (20, 35), (0, 3, 45), ("ok", "fail"), ("cond", "string"))):
            if (i * 48 + j) % n != k or (tier == "quick" and (i + j) % 3):
                continue
            if dur > step and off == 0.0:
                continue
            st += 1
            clock = lab.Clock(base)
            s = lab.session(clock)
            runs = []

            def body():
                runs.append(clock.t)
                clock.t += dur
                if out == "fail":
                    raise RuntimeError("expected")

            from rocketry.tasks import FuncTask
            cond = cron(expr) if form == "cond" else "cron " + expr
            FuncTask(body, name="t", start_cond=cond, execution="main", session=s)
            moments = [base + D.timedelta(seconds=off + step * q) for q in range(mins * 60 // step)]
            used = []

            def each(q):
                used.append(clock.t)

            # the clock only goes forward: a cycle scheduled while the body was running happens right after it
            class M(list):
                def __getitem__(self, q):
                    return max(lab.ts(list.__getitem__(self, q)), clock.t)
            lab.drive(s, clock, M(moments), each)
            cnt += len(used)
            want, last = [], None
            for u in used:
                d = D.datetime.utcfromtimestamp(u)
                m = d.replace(second=0, microsecond=0)
                if d in ref and m != last:
                    if d == m and last is not None and u not in runs:
                        continue        # exactly at the first instant the previous minute may still count (see DESIGN)
                    want.append(u)
                    last = m
            if runs != want:
                fm = lambda xs: [D.datetime.utcfromtimestamp(x).strftime("%d. %H:%M:%S") for x in xs]
                bad.append((f"task on cron({expr}) from {start} off={off} step={step} dur={dur} {out} {form}",
                            f"ran at {fm(runs)}, cron says {fm(want)}"))
            # crontime is true exactly in the matching minutes
            s2 = lab.session(clock)
            ct = crontime(expr)
            for q in range(0, mins * 4):
                d = base + D.timedelta(seconds=15 * q)
                clock.set(d)
                cnt += 1
                if ct.observe(session=s2) is not (d in ref):
                    bad.append((f"crontime({expr}) at {d}", f"is {ct.observe(session=s2)}"))
    return st, cnt


def run(ctx):
    boot.import_rocketry()
    jobs = [("task", ctx.tier, k, 16) for k in range(16)] + [("combo", ctx.tier, k, 24) for k in range(24)]
    jobs += [(f, ctx.tier, k, 8) for f in FIELDS for k in range(8)]
    for kind, st, cnt, bad in pmap(job, jobs):
        ctx.add(kind, states=st, transitions=cnt, traces=cnt)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    f = mk(day_of_week="0-6/2", hour="12")
    ref = Ref(f)
    ctx.sample(f"cron({text(f)}): next after 2022-02-28T13:00 is {ref.next(D.datetime(2022, 2, 28, 13))}")
    ctx.assume("expressions that match no minute at all, N/step without a range, wrapping ranges and the day-of-month/day-of-week rule for */n are not covered")
