"""P15: & and | of periods are intersection and union (membership and rolls)."""
import datetime as D
import itertools

from mc import boot
from mc.pool import pmap, cpu_guard, Hang
from . import timeref as R

US = R.US


class Static:
    """Reference static interval [a, b)."""

    def __init__(self, a, b, name):
        self.a, self.b, self.name = a, b, name

    def __repr__(self):
        return self.name

    def build(self, T):
        return T.StaticInterval(self.a, self.b)

    def contains(self, dt):
        return self.a <= dt < self.b

    def intervals(self, dt):
        return [(self.a, self.b)]


def V(unit, arg):
    for v in R.values(unit, "thorough"):
        if v.arg == arg:
            return v
    raise KeyError(arg)


def S(unit, kind, a=None, b=None):
    return R.Spec(unit, kind, V(unit, a) if a is not None else None, V(unit, b) if b is not None else None)


def components():
    return [
        S("hour", "at", "15:00"), S("hour", "between", "45:30", "15:00"), S("minute", "full"),
        S("day", "between", "10:00", "12:00:30"), S("day", "between", "23:00", "06:00"),
        S("day", "between", "10:30", "20:15"), S("day", "after", "12:00:30"), S("day", "full"),
        S("day", "starting", "10:00"),
        S("week", "between", "Mon", "Fri"), S("week", "at", "Sat"), S("week", "between", "Fri 10:00", "Mon 10:00"),
        S("month", "after", "15th"), S("month", "at", "31st"), S("month", "between", "28th", "2nd"),
        Static(D.datetime(2022, 1, 29, 11), D.datetime(2022, 3, 1, 11), "static(2022-01-29T11..2022-03-01T11)"),
        Static(D.datetime(2022, 2, 26, 10, 30), D.datetime(2022, 2, 26, 11), "static(2022-02-26T10:30..11:00)"),
    ]


class Node:
    def __init__(self, op, kids):
        self.op, self.kids = op, kids

    def __repr__(self):
        return "(" + f" {self.op} ".join(map(repr, self.kids)) + ")"

    def leaves(self):
        for k in self.kids:
            if isinstance(k, Node):
                yield from k.leaves()
            else:
                yield k

    def build(self, T):
        objs = [k.build(T) for k in self.kids]
        out = objs[0]
        for o in objs[1:]:
            out = (out & o) if self.op == "&" else (out | o)
        return out

    def contains(self, dt):
        return (all if self.op == "&" else any)(k.contains(dt) for k in self.kids)


def nodes(tier):
    cs = components()
    for a, b in itertools.combinations(cs, 2):
        for op in "&|":
            yield Node(op, [a, b])
            yield Node(op, [b, a])
    idx = range(len(cs)) if tier != "quick" else (0, 2, 3, 5, 9, 12, 15, 16)
    for i, j, k in itertools.permutations(idx, 3):
        a, b, c = cs[i], cs[j], cs[k]
        if i < j:
            yield Node("|", [Node("&", [a, b]), c])
            yield Node("&", [Node("|", [a, b]), c])
        if i < j < k:
            yield Node("&", [a, b, c])
            yield Node("|", [a, b, c])


ANCHORS = [D.datetime(2022, 2, 26, 10, 45, 30), D.datetime(2022, 2, 28, 23, 15, 10), D.datetime(2022, 3, 1, 11),
           D.datetime(2021, 12, 31, 12, 0, 30), D.datetime(2022, 1, 29, 6, 0)]


def boundaries(leaf, dt, lo, hi):
    """Boundaries of the leaf within [lo, hi] (for the sub-day units only the ones near dt)."""
    out = set()
    if isinstance(leaf, Static):
        cand = [(leaf.a, leaf.b)]
    else:
        cand = list(leaf.intervals(dt))
    for s, e in cand:
        for p in (s, e):
            if lo <= p <= hi:
                out.add(p)
    return out


def flat_and(node):
    """Leaves if node is a pure conjunction of leaves, else None."""
    if isinstance(node, Node) and node.op == "&" and not any(isinstance(k, Node) for k in node.kids):
        return node.kids
    return None


def check_forward(node, dt, iv, bad):
    left, right = iv
    # 1. nothing in the set is skipped: no boundary/probe in [dt, left) belongs to the set
    pts = {dt}
    for leaf in node.leaves():
        for b in boundaries(leaf, dt, dt, left) | boundaries(leaf, left - US, dt, left):
            pts.add(b)
    for p in pts:
        if dt <= p < left and node.contains(p):
            return f"skips {p} which is in the period"
    # 2. the interval only has members
    pts = {left}
    for leaf in node.leaves():
        pts |= boundaries(leaf, left, left, right) | boundaries(leaf, right - US, left, right)
    for p in pts:
        if left <= p < right and not node.contains(p):
            return f"contains {p} which is not in the period"
    if not left < right:
        return "is empty"
    leaves = flat_and(node)
    if leaves:
        want = min(component_at(leaf, left)[1] for leaf in leaves)
        if right != want:
            return f"ends at {right}, the components allow until {want}"
    elif node.op == "|":
        ends = [component_at(leaf, left) for leaf in node.kids if not isinstance(leaf, Node)]
        ends = [e for e in ends if e]
        if ends and right < max(e[1] for e in ends):
            return f"ends at {right} although a component runs until {max(e[1] for e in ends)}"
    return None


def component_at(leaf, dt):
    for s, e in leaf.intervals(dt):
        if s <= dt < e:
            return (s, e)
    return None


def check_back(node, dt, iv):
    left, right = iv
    pts = {dt}
    for leaf in node.leaves():
        pts |= boundaries(leaf, dt, right, dt) | boundaries(leaf, right, right, dt)
    for p in pts:
        if right < p <= dt and (node.contains(p - US)):
            return f"skips {p - US} which is in the period"
    pts = {left}
    for leaf in node.leaves():
        pts |= boundaries(leaf, left, left, right) | boundaries(leaf, right - US, left, right)
    for p in pts:
        if left <= p < right and not node.contains(p):
            return f"contains {p} which is not in the period"
    if not left < right:
        return "is empty"
    leaves = flat_and(node)
    if leaves:
        want = max(component_at(leaf, right - US)[0] for leaf in leaves)
        if left != want:
            return f"starts at {left}, the components allow from {want}"
    elif node.op == "|":
        ends = [component_at(leaf, right - US) for leaf in node.kids if not isinstance(leaf, Node)]
        ends = [e for e in ends if e]
        if ends and left > min(e[0] for e in ends):
            return f"starts at {left} although a component runs from {min(e[0] for e in ends)}"
    return None


def satisfiable(node, dt, sign):
    """Some member exists between dt and dt + sign*3 years (scanned on all boundaries)."""
    if isinstance(node, Node) and node.op == "|":
        return any(satisfiable(k, dt, sign) for k in node.kids)
    leaves = list(node.leaves()) if isinstance(node, Node) else [node]
    pts = {dt, dt - US}
    t = dt
    for _ in range(400):
        for leaf in leaves:
            pts |= {p for iv in leaf.intervals(t) for p in (iv[0], iv[1] - US)}
        t += sign * D.timedelta(days=3)
    return any((p >= dt if sign > 0 else p < dt) and node.contains(p) for p in pts)


def job(args):
    tier, k, n = args
    boot.import_rocketry()
    import rocketry.time as T
    bad, cnt, rolls, st = [], 0, 0, 0
    for i, node in enumerate(nodes(tier)):
        if i % n != k:
            continue
        st += 1
        per = node.build(T)
        edge = set()
        for a in ANCHORS:
            for leaf in node.leaves():
                edge |= boundaries(leaf, a, a - D.timedelta(days=40), a + D.timedelta(days=40))
        probes = set(ANCHORS)
        for p in edge:
            probes.update((p - US, p, p + US))
        probes = sorted(probes)
        for dt in probes:
            cnt += 1
            want = node.contains(dt)
            try:
                with cpu_guard(10):
                    got = dt in per
            except (Exception, Hang) as exc:
                got = f"raised {type(exc).__name__}"
            if got is not want:
                bad.append((f"{node} contains {dt.isoformat()}", f"got {got}, components say {want}"))
                break
        step = 1 if tier != "quick" else max(1, len(probes) // 12)
        for dt in probes[::step]:
            for name in ("rollforward", "rollback"):
                if name == "rollback" and dt in edge:
                    continue
                if not satisfiable(node, dt, 1 if name == "rollforward" else -1):
                    continue
                rolls += 1
                try:
                    with cpu_guard(10):
                        iv = getattr(per, name)(dt)
                    err = (check_forward(node, dt, (iv.left, iv.right), bad) if name == "rollforward"
                           else check_back(node, dt, (iv.left, iv.right)))
                except (Exception, Hang) as exc:
                    iv, err = None, f"raised {type(exc).__name__}"
                if err:
                    bad.append((f"{node}.{name}({dt.isoformat()})", f"{iv} {err}"))
        if len(bad) > 100:
            break
    return st, cnt, rolls, bad


def run(ctx):
    boot.import_rocketry()
    import rocketry.time as T
    for st, cnt, rolls, bad in pmap(job, [(ctx.tier, k, 32) for k in range(32)]):
        ctx.add("membership", states=st, transitions=cnt, traces=cnt)
        ctx.add("rolls", transitions=rolls, traces=rolls)
        for key, what in bad:
            ctx.violation(key, what, {"case": key})
    # always/never are the neutral/absorbing elements
    n = 0
    for c in components():
        p = c.build(T)
        for dt in ANCHORS:
            w = c.contains(dt)
            for name, per, want in (("always & p", T.always & p, w), ("p & always", p & T.always, w), ("always | p", T.always | p, True),
                                    ("p | always", p | T.always, True), ("p | never", p | T.never, w), ("never | p", T.never | p, w),
                                    ("All(always, p)", T.All(T.always, p), w), ("Any(p, always)", T.Any(p, T.always), True),
                                    ("never & p", T.never & p, False)):
                n += 1
                try:
                    got = dt in per
                except (Exception, RecursionError) as exc:
                    got = f"raised {type(exc).__name__}"
                if got is not want:
                    ctx.violation(f"{name}, p={c!r} at {dt.isoformat()}", f"got {got}, want {want}", {})
    ctx.add("always/never", states=len(components()), transitions=n, traces=n)
    for node in itertools.islice(nodes("quick"), 0, 400, 100):
        ctx.sample(f"{node!r} at {ANCHORS[0]} -> {node.contains(ANCHORS[0])}")
    ctx.assume("rolls are checked where the combined period occurs within 3 years of the probe; combinations that never "
               "occur again (mutually exclusive clock times) have no adjacent interval and are out of scope")
