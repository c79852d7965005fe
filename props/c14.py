"""Exact durations: construction, arithmetic, decomposition, conversion."""
from sx.runner import Prop, cross

PROP = Prop(
    "C14",
    functions=["TimeDelta.__init__/__add__/__sub__/__neg__/__abs__/__pos__/__mul__/__rmul__/"
               "__truediv__/__floordiv__/__mod__/__bool__", "TimeDelta.in_*",
               "TimeDelta.py_timedelta/from_py_timedelta", "hours()/minutes()/.../nanoseconds()",
               "TimeDelta.MIN/MAX/ZERO"],
    bounds="every duration; integer keywords of any size (±10^30), products with any integer "
           "(±10^25), integer divisors 1, 2, 3, 7, 10, 60, 1000, 86400, 10^9, 10^18 and their "
           "negatives, floor division and modulo by any duration; floats that are multiples of "
           "1/2, 1/8, 1/1024 up to ±10^6",
    outside="other floats (their rounding is IEEE's); NaN and infinities are replayed only",
    stubs=["datetime.timedelta: model of CPython 3.12", "IEEE doubles: exact rationals with a "
           "relative error bound"],
)
NS = 10**9
MX = 9999 * 366 * 86400 * NS
UNIT = dict(hours=3600 * NS, minutes=60 * NS, seconds=NS, milliseconds=10**6, microseconds=1000,
            nanoseconds=1)


def outcome(w, r, tot, what):
    if w.band(tot >= -MX, tot <= MX):
        w.check(what + ": accepted", r.ok)
        w.check(what + ": value", r.value.in_nanoseconds() == tot)
    else:
        w.check(what + ": out of range raises", r.raised(ValueError, OverflowError))


@PROP.job(cross(units=[("hours", "minutes", "seconds"), ("milliseconds", "microseconds",
                       "nanoseconds"), ("hours", "nanoseconds"), ()]))
def construct(w, units):
    kw = {u: w.int(u, -10**30, 10**30) for u in units}
    tot = 0
    for u in units:
        tot = tot + kw[u] * UNIT[u]
    outcome(w, w.attempt(w.m.TimeDelta, **kw), tot, "TimeDelta")


@PROP.job(cross(u=list(UNIT)))
def helper(w, u):
    v = w.int("v", -10**30, 10**30)
    outcome(w, w.attempt(getattr(w.m, u), v), v * UNIT[u], u)


@PROP.job(cross(u=[k for k in UNIT if k != "nanoseconds"], den=[2, 8, 1024]))
def fractional(w, u, den):
    """floats: exact up to the truncation of a part of a nanosecond"""
    k = w.int("k", -10**6, 10**6)
    for d in (w.m.TimeDelta(**{u: k / den}), getattr(w.m, u)(k / den)):
        diff = d.in_nanoseconds() * den - k * UNIT[u]
        w.check("float amount: whole nanoseconds", w.is_int(d.in_nanoseconds()))
        w.check("float amount: within a nanosecond", w.band(diff < den, diff > -den))
        if UNIT[u] % den == 0:
            w.check("float amount: exact", diff == 0)


@PROP.job(cross(op=["+", "-"]))
def add_sub(w, op):
    a, x = w.tdelta("a")
    b, y = w.tdelta("b")
    r = w.attempt((lambda: a + b) if op == "+" else (lambda: a - b))
    outcome(w, r, x + y if op == "+" else x - y, op)


@PROP.job()
def unary(w):
    a, x = w.tdelta("a")
    w.check("neg", (-a).in_nanoseconds() == -x)
    w.check("pos", (+a).in_nanoseconds() == x)
    w.check("abs", abs(a).in_nanoseconds() == w.ite(x < 0, -x, x))
    w.check("bool", w.iff(bool(a), w.bnot(x == 0)))
    m = w.m.TimeDelta
    w.check("bounds", w.band(m.MIN <= a, a <= m.MAX, m.MAX.in_nanoseconds() == MX,
                             m.MIN.in_nanoseconds() == -MX, m.ZERO.in_nanoseconds() == 0))


@PROP.job(cross(left=[0, 1]))
def multiply(w, left):
    a, x = w.tdelta("a")
    n = w.int("n", -10**25, 10**25)
    r = w.attempt((lambda: n * a) if left else (lambda: a * n))
    outcome(w, r, x * n, "*")


@PROP.job(cross(num=[1, 3, -1, -5], den=[2, 8, 1024]))
def multiply_float(w, num, den):
    """product with a binary fraction, for durations a double holds exactly"""
    a, x = w.tdelta("a", -10**6, 10**6)
    f = num / den
    for r in (a * f, f * a):
        diff = r.in_nanoseconds() * den - x * num
        w.check("* float: whole nanoseconds", w.is_int(r.in_nanoseconds()))
        w.check("* float: within a nanosecond", w.band(diff < den, diff > -den))


DIVS = [1, 2, 3, 7, 10, 60, 1000, 86400, 10**9, 10**18]


@PROP.job(cross(n=DIVS + [-d for d in DIVS]))
def divide(w, n):
    a, x = w.tdelta("a")
    r = (a / n).in_nanoseconds()
    w.check("/ int: whole nanoseconds", w.is_int(r))
    diff = r * n - x
    w.check("/ int: within a nanosecond", w.band(diff < abs(n), diff > -abs(n)))
    # d * n / n is d
    w.assume(w.band(x * n <= MX, x * n >= -MX))
    w.check("* int / int", (a * n / n).in_nanoseconds() == x)


@PROP.job(cross(den=[2, -4, 0.5, -0.125]))
def divide_float(w, den):
    a, x = w.tdelta("a", -10**6, 10**6)
    r = (a / float(den)).in_nanoseconds()
    w.check("/ float: whole nanoseconds", w.is_int(r))
    if abs(den) >= 1:
        d = int(den)
        diff = r * d - x
        w.check("/ float: within a nanosecond", w.band(diff < abs(d), diff > -abs(d)))
    else:
        w.check("/ float: exact", r == x * int(1 / den))


@PROP.job()
def by_zero(w):
    a, x = w.tdelta("a")
    z = w.m.TimeDelta()
    for nm, f in {"/ 0": lambda: a / 0, "/ 0.0": lambda: a / 0.0, "/ zero": lambda: a / z,
                  "// zero": lambda: a // z, "% zero": lambda: a % z}.items():
        w.must_raise(nm, ZeroDivisionError, f)


@PROP.job(cross(sa=[0, 1], sb=[0, 1]))
def floordiv_mod(w, sa, sb):
    a, x = w.tdelta("a", *((0, 10**10) if sa else (-10**10, -1)))
    b, y = w.tdelta("b", *((0, 10**10) if sb else (-10**10, -1)))
    w.assume(w.bnot(y == 0))
    q, r = w.int_div(x, y)
    w.check("//", a // b == q)
    w.check("%", (a % b).in_nanoseconds() == r)


@PROP.job()
def ratio(w):
    a, x = w.tdelta("a")
    for u, f in (("hours", "in_hours"), ("minutes", "in_minutes"), ("seconds", "in_seconds"),
                 ("milliseconds", "in_milliseconds"), ("microseconds", "in_microseconds")):
        w.check(f, getattr(a, f)() == x / UNIT[u])
        w.check("/ " + u, a / w.m.TimeDelta(**{u: 1}) == x / UNIT[u])
    w.check("in_days_of_24h", a.in_days_of_24h() == x / (86400 * NS))


@PROP.job()
def decompose(w):
    a, x = w.tdelta("a")
    h, mi, s, n = a.in_hrs_mins_secs_nanos()
    w.check("whole numbers", all(w.is_int(v) for v in (h, mi, s, n)))
    w.check("parts add up", ((h * 60 + mi) * 60 + s) * NS + n == x)
    if x >= 0:
        w.check("parts in range", w.band(h >= 0, mi >= 0, mi < 60, s >= 0, s < 60, n >= 0, n < NS))
    else:
        w.check("parts in range", w.band(h <= 0, mi <= 0, mi > -60, s <= 0, s > -60, n <= 0,
                                         n > -NS))


@PROP.job()
def to_py(w):
    a, x = w.tdelta("a")
    p = a.py_timedelta()
    us = (p.days * 86400 + p.seconds) * 10**6 + p.microseconds
    d = us * 1000 - x
    w.check("py_timedelta: to the microsecond", w.band(d < 1000, d > -1000))
    w.check("py_timedelta: truncates", w.implies(x >= 0, d <= 0))
    w.check("py_timedelta: exact when possible", w.implies(x % 1000 == 0, d == 0))


@PROP.job()
def from_py(w):
    days = w.int("days", -999999999, 999999999)
    s = w.int("s", 0, 86399)
    us = w.int("us", 0, 999999)
    p = w.pytimedelta(days=days, seconds=s, microseconds=us)
    r = w.attempt(w.m.TimeDelta.from_py_timedelta, p)
    outcome(w, r, ((days * 86400 + s) * 10**6 + us) * 1000, "from_py_timedelta")
    if r.ok:
        w.check("py_timedelta round trip", r.value.py_timedelta() == p)
