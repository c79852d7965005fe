"""ISO 8601: canonical text, and reading it back."""
from sx.runner import Prop, cross

PROP = Prop(
    "C17",
    functions=["*.format_common_iso/__str__/__repr__", "*.parse_common_iso"],
    bounds="every value of every type; zones and system zone with any 1 (thorough: 2) transitions",
    outside="other time zone keys than the ones used (their text is copied verbatim)",
    stubs=["datetime/zoneinfo/localtime, re: models of CPython 3.12"],
)
NS = 10**9


def digits(w, v, n):
    """decimal digits of v, n of them, as code points"""
    out = []
    for i in range(n - 1, -1, -1):
        q, _ = w.int_div(v, 10**i)
        _, r = w.int_div(q, 10)
        out.append(r + 48)
    return out


def codes(s):
    return [ord(c) for c in s]


def frac(w, n, length):
    """'' or '.' and the digits of n nanoseconds without trailing zeros, given how many"""
    if length == 0:
        return []
    return [46] + digits(w, n, 9)[:length]


def frac_len(w, n):
    """number of digits after the point"""
    if n == 0:
        return 0
    for k in range(1, 9):
        if w.int_div(n, 10**(9 - k))[1] == 0:
            return k
    return 9


def same(w, label, text, want):
    got = w.chars(text)
    w.check(label + ": length", len(got) == len(want))
    w.check(label + ": text", w.band(*[a == b for a, b in zip(got, want)]))


def date_text(w, y, m, d):
    return digits(w, y, 4) + [45] + digits(w, m, 2) + [45] + digits(w, d, 2)


def time_text(w, h, mi, s, n):
    return (digits(w, h, 2) + [58] + digits(w, mi, 2) + [58] + digits(w, s, 2)
            + frac(w, n, frac_len(w, n)))


def offset_text(w, o):
    neg = o < 0
    if neg:
        o = -o
        sign = [45]
    else:
        sign = [43]
    h, r = w.int_div(o, 3600)
    m, s = w.int_div(r, 60)
    t = sign + digits(w, h, 2) + [58] + digits(w, m, 2)
    if s == 0:
        return t
    return t + [58] + digits(w, s, 2)


def back(w, cls, text, x):
    r = w.attempt(cls.parse_common_iso, text)
    w.check("parses", r.ok)
    w.check("reads back equal", r.value == x)
    w.check("same type", type(r.value).__name__ == type(x).__name__)
    return r.value


def shown(w, x, want):
    """str() is the canonical text; repr() puts it in the type's name, with a blank for the T"""
    same(w, "str", w.str(x), want)
    want = [32 if isinstance(c, int) and c == 84 else c for c in want]
    same(w, "repr", w.repr(x), codes(type(x).__name__ + "(") + want + [41])


@PROP.job()
def dates(w):
    y, m, d = w.ymd("x")
    x = w.m.Date(y, m, d)
    t = x.format_common_iso()
    same(w, "Date", t, date_text(w, y, m, d))
    back(w, w.m.Date, t, x)
    shown(w, x, date_text(w, y, m, d))


@PROP.job()
def yearmonths(w):
    y, m = w.int("y", 1, 9999), w.int("m", 1, 12)
    x = w.m.YearMonth(y, m)
    t = x.format_common_iso()
    want = digits(w, y, 4) + [45] + digits(w, m, 2)
    same(w, "YearMonth", t, want)
    shown(w, x, want)
    back(w, w.m.YearMonth, t, x)


@PROP.job()
def monthdays(w):
    _, m, d = w.ymd("x", 2000, 2000)
    x = w.m.MonthDay(m, d)
    t = x.format_common_iso()
    want = [45, 45] + digits(w, m, 2) + [45] + digits(w, d, 2)
    same(w, "MonthDay", t, want)
    shown(w, x, want)
    back(w, w.m.MonthDay, t, x)


@PROP.job()
def times(w):
    x, _ = w.time_of("x")
    t = x.format_common_iso()
    want = time_text(w, x.hour, x.minute, x.second, x.nanosecond)
    same(w, "Time", t, want)
    shown(w, x, want)
    back(w, w.m.Time, t, x)


def fields(w, x):
    d = x.date()
    return (date_text(w, d.year, d.month, d.day) + [84]
            + time_text(w, x.hour, x.minute, x.second, x.nanosecond))


@PROP.job()
def locals_(w):
    x, _, _ = w.local_dt("x")
    t = x.format_common_iso()
    want = fields(w, x)
    same(w, "LocalDateTime", t, want)
    shown(w, x, want)
    back(w, w.m.LocalDateTime, t, x)


@PROP.job()
def instants(w):
    x, u, n = w.instant("x")
    t = x.format_common_iso()
    l = x.to_fixed_offset(0)
    want = fields(w, l) + [90]
    same(w, "Instant", t, want)
    shown(w, x, want)
    back(w, w.m.Instant, t, x)


@PROP.job()
def offsets(w):
    x, u, n, o = w.offset_dt("x")
    t = x.format_common_iso()
    want = fields(w, x) + offset_text(w, o)
    same(w, "OffsetDateTime", t, want)
    shown(w, x, want)
    y = back(w, w.m.OffsetDateTime, t, x)
    w.check("exactly", y.exact_eq(x))


@PROP.job(cross(K=[1]), thorough=cross(K=[2]), fork=True)
def zoneds(w, K):
    z = w.zone("Z/A", K)
    x, u, n, o = w.exact("zoned", "x", z, None)
    t = x.format_common_iso()
    want = fields(w, x) + offset_text(w, o) + codes("[Z/A]")
    same(w, "ZonedDateTime", t, want)
    shown(w, x, want)
    y = back(w, w.m.ZonedDateTime, t, x)
    w.check("exactly", y.exact_eq(x))


@PROP.job(cross(K=[1]), thorough=cross(K=[2]), fork=True)
def systems(w, K):
    z = w.system_zone(K)
    x, u, n, o = w.exact("system", "x", None, z)
    t = x.format_common_iso()
    want = fields(w, x) + offset_text(w, o)
    same(w, "SystemDateTime", t, want)
    shown(w, x, want)
    y = back(w, w.m.SystemDateTime, t, x)
    w.check("exactly", y.exact_eq(x))


@PROP.job()
def timedeltas(w):
    x, tot = w.tdelta("x")
    neg = tot < 0
    h, mi, s, n = abs(x).in_hrs_mins_secs_nanos()     # C14 decides these
    w.assume(h < 100)
    same(w, "repr", w.repr(x), codes("TimeDelta(") + ([45] if neg else [])
         + time_text(w, h, mi, s, n) + [41])


@PROP.job(cross(sign=[1, -1], y=[0, 1], m=[0, 1], d=[0, 1]))
def deltas(w, sign, y, m, d):
    """repr of the calendar durations: their ISO text in the type's name"""
    mo = w.int("y", 1, 900) * 12 * y + w.int("m", 1, 11) * m
    x = w.m.DateDelta(months=sign * mo, days=sign * w.int("d", 1, 900) * d)
    same(w, "DateDelta", w.repr(x), codes("DateDelta(") + w.chars(x.format_common_iso()) + [41])
    s = w.int("s", 0, 59)
    v = w.m.DateTimeDelta(months=sign * mo, days=x.in_months_days()[1], seconds=sign * s)
    same(w, "DateTimeDelta", w.repr(v),
         codes("DateTimeDelta(") + w.chars(v.format_common_iso()) + [41])
    same(w, "str", w.str(v), w.chars(v.format_common_iso()))
    same(w, "str", w.str(x), w.chars(x.format_common_iso()))


@PROP.job(fork=True)
def made_later(w):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    zoneds(w, 1)
