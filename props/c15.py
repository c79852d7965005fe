"""Calendar durations: signs, normalisation, arithmetic, parts."""
from sx.runner import Prop, cross

PROP = Prop(
    "C15",
    functions=["DateDelta.__init__/__add__/__radd__/__sub__/__rsub__/__mul__/__rmul__/__neg__/"
               "__abs__/__pos__/__bool__", "DateDelta.in_months_days/in_years_months_days",
               "DateTimeDelta.__init__/__add__/__radd__/__sub__/__rsub__/__mul__/__rmul__/__neg__/"
               "__abs__/__bool__/_from_parts", "DateTimeDelta.date_part/time_part/"
               "in_months_days_secs_nanos", "years()/months()/weeks()/days()"],
    bounds="every DateDelta, TimeDelta and DateTimeDelta; integer keywords ±10^12 (time units "
           "±10^30); integer factors ±10^12",
    outside="float time units (see C14)",
    stubs=[],
)
NS = 10**9
MMAX, DMAX = 9999 * 12, 9999 * 366
TMAX = DMAX * 86400 * NS


def valid(w, m, d, t):
    return w.band(w.bor(w.band(m >= 0, d >= 0, t >= 0), w.band(m <= 0, d <= 0, t <= 0)),
                  m >= -MMAX, m <= MMAX, d >= -DMAX, d <= DMAX, t >= -TMAX, t <= TMAX)


def parts(x):
    """months, days, nanoseconds of any delta, through the public API"""
    k = type(x).__name__
    if k == "TimeDelta":
        return 0, 0, x.in_nanoseconds()
    if k == "DateDelta":
        m, d = x.in_months_days()
        return m, d, 0
    m, d = x.date_part().in_months_days()
    return m, d, x.time_part().in_nanoseconds()


def outcome(w, r, m, d, t, kind, what):
    if valid(w, m, d, t):
        w.check(what + ": accepted", r.ok)
        w.check(what + ": type", type(r.value).__name__ == kind)
        a, b, c = parts(r.value)
        w.check(what + ": months", a == m)
        w.check(what + ": days", b == d)
        w.check(what + ": time", c == t)
    else:
        w.check(what + ": refused", r.raised(ValueError))


def make(w, kind, name):
    m = w.int(name + ".m", -MMAX, MMAX) if kind != "TimeDelta" else 0
    d = w.int(name + ".d", -DMAX, DMAX) if kind != "TimeDelta" else 0
    t = w.int(name + ".t", -TMAX, TMAX) if kind != "DateDelta" else 0
    w.assume(valid(w, m, d, t))
    M = w.m
    if kind == "TimeDelta":
        return M.TimeDelta(nanoseconds=t), m, d, t
    if kind == "DateDelta":
        return M.DateDelta(months=m, days=d), m, d, t
    return M.DateTimeDelta(months=m, days=d, nanoseconds=t), m, d, t


KINDS = ["DateDelta", "TimeDelta", "DateTimeDelta"]


@PROP.job(cross(kind=["DateDelta", "DateTimeDelta"],
                units=[("years", "months", "weeks", "days"), ("years", "days"), ("weeks",),
                       ("months", "weeks"), ()]))
def construct(w, kind, units):
    kw = {u: w.int(u, -10**12, 10**12) for u in units}
    g = lambda u: kw.get(u, 0)
    t = 0
    if kind == "DateTimeDelta":
        kw["nanoseconds"] = t = w.int("ns", -10**30, 10**30)
    r = w.attempt(getattr(w.m, kind), **kw)
    outcome(w, r, g("years") * 12 + g("months"), g("weeks") * 7 + g("days"), t, kind, kind)


TU = dict(hours=3600 * NS, minutes=60 * NS, seconds=NS, milliseconds=10**6, microseconds=1000)


@PROP.job(cross(u=list(TU)))
def construct_time(w, u):
    m = w.int("m", -MMAX, MMAX)
    v = w.int("v", -10**20, 10**20)
    n = w.int("n", -10**20, 10**20)
    r = w.attempt(w.m.DateTimeDelta, months=m, **{u: v}, nanoseconds=n)
    outcome(w, r, m, 0, v * TU[u] + n, "DateTimeDelta", u)


@PROP.job(cross(u=["years", "months", "weeks", "days"]))
def helper(w, u):
    v = w.int("v", -10**12, 10**12)
    r = w.attempt(getattr(w.m, u), v)
    m = v * 12 if u == "years" else v if u == "months" else 0
    d = v * 7 if u == "weeks" else v if u == "days" else 0
    outcome(w, r, m, d, 0, "DateDelta", u)


@PROP.job(cross(a=KINDS, b=KINDS, op=["+", "-"]))
def add_sub(w, a, b, op):
    if (a, b) == ("TimeDelta", "TimeDelta"):
        w.check("n/a", True)
        return
    x, m, d, t = make(w, a, "a")
    y, n, e, u = make(w, b, "b")
    r = w.attempt((lambda: x + y) if op == "+" else (lambda: x - y))
    s = 1 if op == "+" else -1
    outcome(w, r, m + s * n, d + s * e, t + s * u,
            "DateDelta" if (a, b) == ("DateDelta", "DateDelta") else "DateTimeDelta", op)


@PROP.job(cross(kind=["DateDelta", "DateTimeDelta"]))
def unary(w, kind):
    x, m, d, t = make(w, kind, "x")
    outcome(w, w.attempt(lambda: -x), -m, -d, -t, kind, "neg")
    outcome(w, w.attempt(lambda: +x), m, d, t, kind, "pos")
    g = w.bor(m < 0, d < 0, t < 0)
    outcome(w, w.attempt(abs, x), w.ite(g, -m, m), w.ite(g, -d, d), w.ite(g, -t, t), kind, "abs")
    w.check("bool", w.iff(bool(x), w.bnot(w.band(m == 0, d == 0, t == 0))))
    w.check("zero", parts(getattr(w.m, kind).ZERO) == (0, 0, 0))


@PROP.job(cross(kind=["DateDelta", "DateTimeDelta"], left=[0, 1]))
def multiply(w, kind, left):
    x, m, d, t = make(w, kind, "x")
    k = w.int("k", -10**12, 10**12)
    r = w.attempt((lambda: k * x) if left else (lambda: x * k))
    outcome(w, r, m * k, d * k, t * k, kind, "*")


@PROP.job()
def date_parts(w):
    x, m, d, _ = make(w, "DateDelta", "x")
    y, mm, dd = x.in_years_months_days()
    w.check("years and months", w.band(y * 12 + mm == m, mm > -12, mm < 12, dd == d))
    w.check("one sign", w.bor(w.band(y >= 0, mm >= 0), w.band(y <= 0, mm <= 0)))
    w.check("integers", all(w.is_int(v) for v in (y, mm, dd)))


@PROP.job()
def all_parts(w):
    x, m, d, t = make(w, "DateTimeDelta", "x")
    a, b, s, n = x.in_months_days_secs_nanos()
    w.check("months and days", w.band(a == m, b == d))
    w.check("seconds and nanoseconds", s * NS + n == t)
    w.check("one sign", w.bor(w.band(s >= 0, n >= 0), w.band(s <= 0, n <= 0)))
    w.check("nanoseconds under a second", w.band(n > -NS, n < NS))
    w.check("integers", all(w.is_int(v) for v in (a, b, s, n)))


@PROP.job(cross(kind=["DateDelta", "TimeDelta", "DateTimeDelta"]))
def as_parts(w, kind):
    """adding the parts gives the whole"""
    x, m, d, t = make(w, "DateTimeDelta", "x")
    p, q = x.date_part(), x.time_part()
    w.check("date + time", p + q == x)
    w.check("time + date", q + p == x)
    y, n, e, u = make(w, kind, "y")
    w.assume(valid(w, m + n, d + e, t + u))
    w.check("commutes", x + y == y + x)
    w.check("undone", (x + y) - y == x)
