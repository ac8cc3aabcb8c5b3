"""Independent reference semantics of the anchored time periods (calendar arithmetic on
datetime fields only; shares nothing with rocketry's microsecond axis)."""
import calendar
import datetime as D
from bisect import bisect_right

DAY = D.timedelta(days=1)
US = D.timedelta(microseconds=1)
TD = D.timedelta
UNITS = ("second", "minute", "hour", "day", "week", "month", "year")
CLS = {u: "TimeOf" + u.capitalize() for u in UNITS}
WD = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
WDL = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MON = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]


def nth(i):
    return f"{i}{ {1: 'st', 2: 'nd', 3: 'rd'}.get(i if i < 20 else i % 10 if i in (21, 22, 23, 31) else 0, 'th')}"


class Val:
    """One endpoint: how it is written for rocketry (`arg`), its position when used as a start
    (`start`), when used as an end (`end`, exclusive), and as the end of 'at'."""
    __slots__ = ("arg", "start", "end", "at_end")

    def __init__(self, arg, start, end=None, at_end=None):
        self.arg = arg
        self.start = start
        self.end = start if end is None else end
        self.at_end = at_end

    def __repr__(self):
        return repr(self.arg)


# A position is (index, timedelta): index of the calendar sub-unit inside the cycle (weekday,
# day-of-month-1, (month-1)*32+day-1) and the time offset from that sub-unit's start.
def values(unit, tier="quick"):
    Z = TD(0)
    out = []
    if unit == "second":
        for ms in (0, 1, 250, 500, 999):
            out.append(Val(ms, (0, TD(milliseconds=ms)), (0, TD(milliseconds=ms + 1)), (0, TD(milliseconds=ms + 1))))
        for f in (0.5, 250.25):
            out.append(Val(f, (0, TD(milliseconds=f))))
        out.append(Val("750", (0, TD(milliseconds=750)), at_end=(0, TD(milliseconds=751))))
    elif unit == "minute":
        for s in (0, 1, 30, 59):
            t = (0, TD(seconds=s))
            out.append(Val(s, t, (0, TD(seconds=s + 1)), (0, TD(seconds=s + 1))))
        for s, txt in ((0, "00"), (15, "15"), (45, "45"), (59, "59")):
            out.append(Val(txt, (0, TD(seconds=s)), at_end=(0, TD(seconds=s + 1))))
        out.append(Val("30.25", (0, TD(seconds=30, microseconds=250000)), at_end=(0, TD(seconds=31, microseconds=250000))))
        out.append(Val("59.999999", (0, TD(seconds=59, microseconds=999999)), at_end=(0, TD(microseconds=999999))))
    elif unit == "hour":
        for m in (0, 1, 30, 59):
            t = (0, TD(minutes=m))
            out.append(Val(m, t, (0, TD(minutes=m + 1)), (0, TD(minutes=m + 1))))
        for m, s in ((0, 0), (15, 0), (29, 59), (45, 30), (59, 0), (59, 59)):
            e = TD(minutes=m + 1, seconds=s)
            out.append(Val(f"{m:02d}:{s:02d}", (0, TD(minutes=m, seconds=s)), at_end=(0, e)))
        out.append(Val("05:30.5", (0, TD(minutes=5, seconds=30, microseconds=500000))))
    elif unit == "day":
        for h in (0, 1, 12, 23):
            t = (0, TD(hours=h))
            out.append(Val(h, t, (0, TD(hours=h + 1)), (0, TD(hours=h + 1))))
        for h, m, s in ((0, 0, 0), (6, 0, 0), (10, 0, 0), (10, 30, 0), (12, 0, 30), (20, 15, 0), (23, 0, 0), (23, 30, 0), (23, 59, 59)):
            txt = f"{h:02d}:{m:02d}" + (f":{s:02d}" if s else "")
            out.append(Val(txt, (0, TD(hours=h, minutes=m, seconds=s)), at_end=(0, TD(hours=h + 1, minutes=m, seconds=s))))
        out.append(Val("3 PM", (0, TD(hours=15)), at_end=(0, TD(hours=16))))
    elif unit == "week":
        for i in range(7):
            e = (i + 1, Z)
            out.append(Val(WD[i], (i, Z), e, e))
            out.append(Val(f"{WD[i]} 10:00", (i, TD(hours=10)), at_end=(i + 1, TD(hours=10))))
        for i in (0, 4, 6):
            e = (i + 1, Z)
            out.append(Val(i + 1, (i, Z), e, e))
            out.append(Val(WDL[i], (i, Z), e, e))
        out.append(Val("sunday 23:59", (6, TD(hours=23, minutes=59)), at_end=(7, TD(hours=23, minutes=59))))
    elif unit == "month":
        days = (1, 2, 3, 10, 15, 21, 22, 28, 29, 30, 31) if tier == "quick" else range(1, 32)
        for i in days:
            e = (i, Z)
            out.append(Val(nth(i), (i - 1, Z), e, e))
        for i in (1, 15, 28, 29, 30, 31):
            out.append(Val(f"{nth(i)} 12:30", (i - 1, TD(hours=12, minutes=30))))
        for i in (1, 28, 31):
            out.append(Val(i, (i - 1, Z), (i, Z), (i, Z)))
        out.append(Val("5.", (4, Z), (5, Z), (5, Z)))
        out.append(Val("7", (6, Z), (7, Z), (7, Z)))
    elif unit == "year":
        for i in range(12):
            e = ((i + 1) * 32, Z)
            out.append(Val(MON[i], (i * 32, Z), e, e))
        for i in (0, 1, 11):
            e = ((i + 1) * 32, Z)
            out.append(Val(i + 1, (i * 32, Z), e, e))
        out.append(Val("February", (32, Z), (64, Z), (64, Z)))
        for m, d in ((2, 28), (2, 29), (3, 1), (7, 15), (12, 31)):
            out.append(Val(f"{MON[m-1]} {nth(d)} 12:00", ((m - 1) * 32 + d - 1, TD(hours=12))))
    return out


def more_values(unit):
    """Every value of the unit in every notation; used in the one-ended forms only."""
    Z = TD(0)
    out = []
    def add(arg, start, end=None, at_end=None):
        out.append(Val(arg, start, end, at_end))
    if unit == "second":
        for ms in range(3, 1000, 83):
            add(ms, (0, TD(milliseconds=ms)), (0, TD(milliseconds=ms + 1)), (0, TD(milliseconds=ms + 1)))
    elif unit == "minute":
        for s in range(60):
            add(s, (0, TD(seconds=s)), (0, TD(seconds=s + 1)), (0, TD(seconds=s + 1)))
            add(f"{s:02d}", (0, TD(seconds=s)), at_end=(0, TD(seconds=s + 1)))
    elif unit == "hour":
        for m in range(60):
            add(m, (0, TD(minutes=m)), (0, TD(minutes=m + 1)), (0, TD(minutes=m + 1)))
            add(f"{m:02d}:00", (0, TD(minutes=m)), at_end=(0, TD(minutes=m + 1)))
    elif unit == "day":
        for h in range(24):
            add(h, (0, TD(hours=h)), (0, TD(hours=h + 1)), (0, TD(hours=h + 1)))
            add(f"{h:02d}:00", (0, TD(hours=h)), at_end=(0, TD(hours=h + 1)))
            add(f"{(h - 1) % 12 + 1}:05 {'AM' if h < 12 else 'PM'}", (0, TD(hours=h, minutes=5)), at_end=(0, TD(hours=h + 1, minutes=5)))
        for h, m, s, us, txt in ((10, 0, 0, 500000, "10:00:00.500"), (23, 59, 59, 999999, "23:59:59.999999"), (0, 0, 0, 1, "00:00:00.000001")):
            add(txt, (0, TD(hours=h, minutes=m, seconds=s, microseconds=us)))
    elif unit == "week":
        for i in range(7):
            e = (i + 1, Z)
            for txt in (i + 1, WD[i].lower(), WD[i].upper(), WDL[i], WDL[i].lower()):
                add(txt, (i, Z), e, e)
            add(f"{WDL[i]} 10:30:15", (i, TD(hours=10, minutes=30, seconds=15)), at_end=(i + 1, TD(hours=10, minutes=30, seconds=15)))
            add(f"{WD[i]} 23:59:59.75", (i, TD(hours=23, minutes=59, seconds=59, microseconds=750000)))
    elif unit == "month":
        for i in range(1, 32):
            e = (i, Z)
            for txt in (i, nth(i), f"{i}.", str(i)):
                add(txt, (i - 1, Z), e, e)
            add(f"{nth(i)} 06:15:30", (i - 1, TD(hours=6, minutes=15, seconds=30)))
        add("9th 23:59:59.75", (8, TD(hours=23, minutes=59, seconds=59, microseconds=750000)))
    elif unit == "year":
        long = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
        for i in range(12):
            e = ((i + 1) * 32, Z)
            for txt in (i + 1, MON[i].lower(), MON[i].upper(), long[i], long[i].lower()):
                add(txt, (i * 32, Z), e, e)
            add(f"{long[i]} 15th 06:30", (i * 32 + 14, TD(hours=6, minutes=30)))
    return out


def position(unit, dt):
    """Position of a datetime inside its cycle."""
    if unit == "second":
        return (0, TD(microseconds=dt.microsecond))
    if unit == "minute":
        return (0, TD(seconds=dt.second, microseconds=dt.microsecond))
    if unit == "hour":
        return (0, TD(minutes=dt.minute, seconds=dt.second, microseconds=dt.microsecond))
    tod = TD(hours=dt.hour, minutes=dt.minute, seconds=dt.second, microseconds=dt.microsecond)
    if unit == "day":
        return (0, tod)
    if unit == "week":
        return (dt.weekday(), tod)
    if unit == "month":
        return (dt.day - 1, tod)
    return ((dt.month - 1) * 32 + dt.day - 1, tod)


CYCLE_LEN = {"second": TD(seconds=1), "minute": TD(minutes=1), "hour": TD(hours=1), "day": DAY}


def norm(unit, pos):
    """Normalize an end position produced by arithmetic (e.g. 24:30 or weekday 7)."""
    idx, off = pos
    if unit in CYCLE_LEN:
        return (0, off)
    if unit == "week":
        return (idx, off)
    return (idx, off)


def top(unit):
    if unit in CYCLE_LEN:
        return (0, CYCLE_LEN[unit])
    return ({"week": 7, "month": 31, "year": 12 * 32}[unit], TD(0))


class Spec:
    """A period in reference form: start/end positions; start==end means full cycle."""

    def __init__(self, unit, kind, a=None, b=None):
        self.unit, self.kind, self.a, self.b = unit, kind, a, b
        zero = (0, TD(0))
        t = top(unit)
        if kind == "full":
            s, e = zero, zero
        elif kind == "between":
            s, e = a.start, b.end
        elif kind == "after":
            s, e = a.start, t
        elif kind == "before":
            s, e = zero, b.end
        elif kind == "at":
            s, e = a.start, a.at_end
        elif kind == "starting":
            s, e = a.start, a.start
        self.raw_e = e
        if kind == "at" and e >= t and unit in CYCLE_LEN and e != t:
            e = (0, e[1] - t[1])
        if kind == "at" and e >= t and unit == "week" and e != t:
            e = (e[0] - 7, e[1])
        if e == t and s == zero:
            s = e = zero
        if e == t and s != zero:
            e = t
        self.s, self.e = s, e
        self.full = s == e
        self.wrap = s > e

    def __repr__(self):
        return f"{self.unit}:{self.kind}({', '.join(repr(x) for x in (self.a, self.b) if x is not None)})"

    def build(self, T):
        cls = getattr(T, CLS[self.unit])
        k = self.kind
        if k == "full":
            return cls()
        if k == "between":
            return cls(self.a.arg, self.b.arg)
        if k == "after":
            return cls(self.a.arg, None)
        if k == "before":
            return cls(None, self.b.arg)
        if k == "at":
            return cls.at(self.a.arg)
        return cls.starting(self.a.arg)

    def contains(self, dt):
        if self.full:
            return True
        p = position(self.unit, dt)
        if self.wrap:
            return p >= self.s or p < self.e
        return self.s <= p < self.e

    # ---- calendar placement
    def cycle_start(self, dt):
        u = self.unit
        if u == "second":
            return dt.replace(microsecond=0)
        if u == "minute":
            return dt.replace(second=0, microsecond=0)
        if u == "hour":
            return dt.replace(minute=0, second=0, microsecond=0)
        d = dt.replace(hour=0, minute=0, second=0, microsecond=0)
        if u == "day":
            return d
        if u == "week":
            return d - TD(days=d.weekday())
        if u == "month":
            return d.replace(day=1)
        return d.replace(day=1, month=1)

    def shift(self, c0, n):
        u = self.unit
        if u in CYCLE_LEN:
            return c0 + n * CYCLE_LEN[u]
        if u == "week":
            return c0 + n * 7 * DAY
        if u == "month":
            k = c0.year * 12 + c0.month - 1 + n
            return c0.replace(year=k // 12, month=k % 12 + 1)
        return c0.replace(year=c0.year + n)

    def place(self, c0, pos):
        """Datetime of `pos` in the cycle starting at c0, and whether that calendar slot exists."""
        u = self.unit
        idx, off = pos
        if u in CYCLE_LEN:
            return c0 + off, True
        if u == "week":
            return c0 + idx * DAY + off, True
        if u == "month":
            n = calendar.monthrange(c0.year, c0.month)[1]
            if idx >= n:
                return c0 + n * DAY, False
            return c0 + idx * DAY + off, True
        m, d = divmod(idx, 32)
        if m >= 12:
            return c0.replace(year=c0.year + 1), False
        n = calendar.monthrange(c0.year, m + 1)[1]
        base = c0.replace(month=m + 1)
        if d >= n:
            return base + n * DAY, False
        return base + d * DAY + off, True

    SPAN = {"second": 3, "minute": 3, "hour": 3, "day": 3, "week": 3, "month": 5, "year": 10}

    def intervals(self, dt):
        """Maximal-in-cycle intervals around dt, sorted, non-empty."""
        c = self.cycle_start(dt)
        n = self.SPAN[self.unit]
        out = []
        for k in range(-n, n + 1):
            c0, c1 = self.shift(c, k), self.shift(c, k + 1)
            s, s_ok = self.place(c0, self.s)
            if self.full or self.wrap:
                e, _ = self.place(c1, self.e)
            else:
                e, _ = self.place(c0, self.e)
            if s < e:
                out.append((s, e))
        return out

    def rollforward(self, dt):
        for s, e in self.intervals(dt):
            if e > dt:
                return (max(s, dt), e)

    def rollback(self, dt):
        best = None
        for s, e in self.intervals(dt):
            if s < dt or (s == dt and not self.full):
                best = (s, min(e, dt))
        return best


KEY_YEAR_US = "year period ending with a whole month misses the last microsecond of that month"


def last_us_of_year_end_month(spec, dt):
    """The instant excluded by the year cycle's whole-month ends (see known_findings.txt)."""
    if spec.unit != "year" or spec.kind not in ("between", "before", "at"):
        return False
    nxt = dt + US
    return (nxt.day, nxt.hour, nxt.minute, nxt.second, nxt.microsecond) == (1, 0, 0, 0, 0) and \
        spec.raw_e[1] == TD(0) and spec.raw_e[0] % 32 == 0 and dt.month == spec.raw_e[0] // 32


def specs(unit, tier="quick"):
    vs = values(unit, tier)
    yield Spec(unit, "full")
    for a in vs:
        yield Spec(unit, "after", a)
        yield Spec(unit, "before", None, a)
        yield Spec(unit, "starting", a)
        if a.at_end is not None:
            yield Spec(unit, "at", a)
    more = more_values(unit)
    for a in more:
        yield Spec(unit, "after", a)
        yield Spec(unit, "before", None, a)
        yield Spec(unit, "starting", a)
        if a.at_end is not None:
            yield Spec(unit, "at", a)
    for a, b in zip(more, more[7:] + more[:7]):
        yield Spec(unit, "between", a, b)
    for a in vs:
        for b in vs:
            yield Spec(unit, "between", a, b)


def probe_times(spec, tier="quick"):
    """Datetimes around every boundary of the period plus a fixed calendar grid."""
    u = spec.unit
    out = set()
    bases = {
        "second": [D.datetime(2022, 5, 31, 23, 59, 59), D.datetime(2024, 2, 29, 12, 0, 0)],
        "minute": [D.datetime(2022, 5, 31, 23, 59), D.datetime(2024, 2, 29, 12, 0)],
        "hour": [D.datetime(2021, 12, 31, 23), D.datetime(2024, 2, 29, 11)],
        "day": [D.datetime(2021, 12, 31), D.datetime(2022, 1, 1), D.datetime(2024, 2, 28), D.datetime(2024, 2, 29), D.datetime(2022, 7, 15)],
        "week": [D.datetime(2021, 12, 27), D.datetime(2022, 7, 11), D.datetime(2024, 2, 26)],
        "month": [D.datetime(2022, m, 1) for m in (1, 2, 3, 4, 12)] + [D.datetime(2024, 2, 1), D.datetime(2023, 1, 1)],
        "year": [D.datetime(y, 1, 1) for y in (2022, 2023, 2024, 2025)],
    }[u]
    if tier != "quick":
        if u == "month":
            bases = [D.datetime(y, m, 1) for y in (2022, 2023, 2024) for m in range(1, 13)]
        if u == "year":
            bases = [D.datetime(y, 1, 1) for y in (1996, 2000, 2022, 2023, 2024, 2025, 2096)]
        if u == "day":
            bases = bases + [D.datetime(2022, 3, 31), D.datetime(2023, 2, 28), D.datetime(2000, 2, 29)]
    for c0 in bases:
        c1 = spec.shift(c0, 1)
        for pos in {spec.s, spec.e, (0, TD(0))}:
            p, _ = spec.place(c0, pos)
            out.update((p - US, p, p + US))
        mid = c0 + (c1 - c0) / 2
        out.update((c1 - US, c1, mid))
        n = {"week": 14, "month": 10, "year": 24}.get(u, 8)
        step = (c1 - c0) / n
        for i in range(n):
            out.add(c0 + i * step)
    return sorted(out)
