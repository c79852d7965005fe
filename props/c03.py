"""Components: constructors and replace of every type."""
from sx.runner import Prop, cross

PROP = Prop(
    "C03",
    functions=["Date.__init__", "Date.replace", "Date.year_month", "Date.month_day",
               "Date.day_of_week", "Date.at", "Date.py_date", "Date.from_py_date",
               "YearMonth.__init__/replace/on_day", "MonthDay.__init__/replace/in_year/is_leap",
               "LocalDateTime.date/time/replace_date", "Weekday",
               "Instant.from_utc, OffsetDateTime/ZonedDateTime/SystemDateTime.__init__, "
               "OffsetDateTime.replace"],
    bounds="components -10..10100 / -5..40 around every valid value; every valid date; every clock field -5..70, nanosecond -10..2*10^9; offsets of "
           "±100000 s; zones of any constant offset",
    outside="integers beyond the C int range",
    stubs=["datetime.date: model of CPython 3.12"],
)


def valid(w, y, m, d):
    if not w.band(y >= 1, y <= 9999, m >= 1, m <= 12):
        return False
    return w.band(d >= 1, d <= w.dim(y, m))


def raw(w, n="r"):
    return w.int(n + ".y", -10, 10100), w.int(n + ".m", -5, 40), w.int(n + ".d", -5, 40)


@PROP.job()
def date_ctor(w):
    y, m, d = raw(w)
    r = w.attempt(w.m.Date, y, m, d)
    if valid(w, y, m, d):
        w.check("valid date is constructed", r.ok)
        w.check("components", w.band(r.value.year == y, r.value.month == m, r.value.day == d))
        w.check("py_date", w.ord_of(r.value) == w.ordinal(y, m, d))
        w.check("from_py_date inverts py_date", w.m.Date.from_py_date(r.value.py_date()) == r.value)
    else:
        w.check("invalid date raises ValueError", r.raised(ValueError))


@PROP.job()
def ym_ctor(w):
    y, m, d = raw(w)
    r = w.attempt(w.m.YearMonth, y, m)
    if w.band(y >= 1, y <= 9999, m >= 1, m <= 12):
        w.check("valid YearMonth is constructed", r.ok)
        w.check("components", w.band(r.value.year == y, r.value.month == m))
        q = w.attempt(r.value.on_day, d)
        if valid(w, y, m, d):
            w.check("on_day", w.band(q.ok))
            w.check("on_day gives that date", q.value == w.m.Date(y, m, d))
            w.check("year_month of on_day", q.value.year_month() == r.value)
        else:
            w.check("on_day of an absent day raises ValueError", q.raised(ValueError))
    else:
        w.check("invalid YearMonth raises ValueError", r.raised(ValueError))


@PROP.job()
def md_ctor(w):
    y, m, d = raw(w)
    r = w.attempt(w.m.MonthDay, m, d)
    if valid(w, 2000, m, d):
        w.check("valid MonthDay is constructed", r.ok)
        w.check("components", w.band(r.value.month == m, r.value.day == d))
        w.check("is_leap", w.iff(r.value.is_leap(), w.band(m == 2, d == 29)))
        q = w.attempt(r.value.in_year, y)
        if valid(w, y, m, d):
            w.check("in_year succeeds", q.ok)
            w.check("in_year gives that date", q.value == w.m.Date(y, m, d))
            w.check("month_day of in_year", q.value.month_day() == r.value)
        else:
            w.check("in_year without that day raises ValueError", q.raised(ValueError))
    else:
        w.check("invalid MonthDay raises ValueError", r.raised(ValueError))


@PROP.job()
def date_parts(w):
    y, m, d = w.ymd("d")
    x = w.m.Date(y, m, d)
    w.check("year_month", w.band(x.year_month().year == y, x.year_month().month == m))
    w.check("month_day", w.band(x.month_day().month == m, x.month_day().day == d))
    w.check("year_month.on_day(day)", x.year_month().on_day(d) == x)
    w.check("month_day.in_year(year)", x.month_day().in_year(y) == x)
    wd = x.day_of_week()
    w.obs("wd", wd.value)
    w.check("day_of_week", wd.value == (w.ordinal(y, m, d) - 1) % 7 + 1)
    w.check("0001-01-01 is a Monday; names run on", wd.name == [
        "MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"][wd.value - 1])


@PROP.job(cross(which=["y", "m", "d", "ymd", "md"]))
def date_replace(w, which):
    y, m, d = w.ymd("d")
    x = w.m.Date(y, m, d)
    ry, rm, rd = raw(w)
    kw = {}
    ny, nm, nd = y, m, d
    if "y" in which:
        kw["year"] = ny = ry
    if "m" in which:
        kw["month"] = nm = rm
    if "d" in which:
        kw["day"] = nd = rd
    r = w.attempt(x.replace, **kw)
    if valid(w, ny, nm, nd):
        w.check("replace succeeds", r.ok)
        w.check("replace changes only what was named",
                w.band(r.value.year == ny, r.value.month == nm, r.value.day == nd))
    else:
        w.check("replace to an absent date raises ValueError", r.raised(ValueError))
    w.check("operand unchanged", w.band(x.year == y, x.month == m, x.day == d))


@PROP.job(cross(which=["y", "m", "ym"]))
def ym_replace(w, which):
    y, m = w.int("y", 1, 9999), w.int("m", 1, 12)
    x = w.m.YearMonth(y, m)
    ry, rm, _ = raw(w)
    kw = {}
    ny, nm = y, m
    if "y" in which:
        kw["year"] = ny = ry
    if "m" in which:
        kw["month"] = nm = rm
    r = w.attempt(x.replace, **kw)
    if w.band(ny >= 1, ny <= 9999, nm >= 1, nm <= 12):
        w.check("replace succeeds", r.ok)
        w.check("replace", w.band(r.value.year == ny, r.value.month == nm))
    else:
        w.check("out of range raises ValueError", r.raised(ValueError))
    w.must_raise("replace(day=) is refused", TypeError, x.replace, day=1)


@PROP.job(cross(which=["m", "d", "md"]))
def md_replace(w, which):
    _, m, d = w.ymd("d", 4, 4)
    x = w.m.MonthDay(m, d)
    _, rm, rd = raw(w)
    kw = {}
    nm, nd = m, d
    if "m" in which:
        kw["month"] = nm = rm
    if "d" in which:
        kw["day"] = nd = rd
    r = w.attempt(x.replace, **kw)
    if valid(w, 4, nm, nd):
        w.check("replace succeeds", r.ok)
        w.check("replace", w.band(r.value.month == nm, r.value.day == nd))
    else:
        w.check("absent day raises ValueError", r.raised(ValueError))
    w.must_raise("replace(year=) is refused", TypeError, x.replace, year=4)


@PROP.job()
def time_ctor(w):
    h, mi, s = w.int("h", -5, 70), w.int("mi", -5, 70), w.int("s", -5, 70)
    n = w.int("n", -10, 2_000_000_000)
    r = w.attempt(w.m.Time, h, mi, s, nanosecond=n)
    ok = w.band(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, n >= 0, n < 1_000_000_000)
    if ok:
        w.check("valid time is constructed", r.ok)
        t = r.value
        w.check("components", w.band(t.hour == h, t.minute == mi, t.second == s, t.nanosecond == n))
    else:
        w.check("invalid time raises ValueError", r.raised(ValueError))


@PROP.job(cross(f=["hour", "minute", "second", "nanosecond"]))
def time_replace(w, f):
    t, ns = w.time_of("t")
    v = w.int("v", -5, 2_000_000_000)
    lim = {"hour": 24, "minute": 60, "second": 60, "nanosecond": 1_000_000_000}[f]
    r = w.attempt(t.replace, **{f: v})
    if w.band(v >= 0, v < lim):
        w.check("replace succeeds", r.ok)
        for k in ("hour", "minute", "second", "nanosecond"):
            w.check("replace changes only what was named",
                    getattr(r.value, k) == (v if k == f else getattr(t, k)))
    else:
        w.check("out of range raises ValueError", r.raised(ValueError))


@PROP.job()
def local_ctor(w):
    y, m, d = w.ymd("d")
    h, mi, s = w.int("h", -5, 70), w.int("mi", -5, 70), w.int("s", -5, 70)
    n = w.int("n", -10, 2_000_000_000)
    r = w.attempt(w.m.LocalDateTime, y, m, d, h, mi, s, nanosecond=n)
    ok = w.band(h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, n >= 0, n < 1_000_000_000)
    if ok:
        w.check("valid local datetime is constructed", r.ok)
        x = r.value
        w.check("components", w.band(
            x.year == y, x.month == m, x.day == d, x.hour == h, x.minute == mi, x.second == s,
            x.nanosecond == n))
        w.check("date()", x.date() == w.m.Date(y, m, d))
        w.check("time()", x.time() == w.m.Time(h, mi, s, nanosecond=n))
        w.check("date().at(time())", x.date().at(x.time()) == x)
        w.check("time().on(date())", x.time().on(x.date()) == x)
    else:
        w.check("invalid local datetime raises ValueError", r.raised(ValueError))


@PROP.job(cross(f=["year", "month", "day", "hour", "minute", "second", "nanosecond"]))
def local_replace(w, f):
    y, m, d = w.ymd("d")
    t, ns = w.time_of("t")
    x = w.m.Date(y, m, d).at(t)
    lo, hi = {"year": (-5, 10100), "month": (-5, 40), "day": (-5, 40)}.get(f, (-5, 2_000_000_000))
    v = w.int("v", lo, hi)
    r = w.attempt(x.replace, **{f: v})
    if f in ("year", "month", "day"):
        n = dict(year=y, month=m, day=d)
        n[f] = v
        ok = valid(w, n["year"], n["month"], n["day"])
    else:
        lim = {"hour": 24, "minute": 60, "second": 60, "nanosecond": 1_000_000_000}[f]
        ok = w.band(v >= 0, v < lim)
    if ok:
        w.check("replace succeeds", r.ok)
        for k in ("year", "month", "day", "hour", "minute", "second", "nanosecond"):
            w.check("replace changes only what was named",
                    getattr(r.value, k) == (v if k == f else getattr(x, k)))
    else:
        w.check("out of range raises ValueError", r.raised(ValueError))


@PROP.job()
def local_replace_parts(w):
    x, l, n = w.local_dt("x")
    d, o = w.ord_date("o")
    t, ns = w.time_of("t")
    a, b = x.replace_date(d), x.replace_time(t)
    w.check("replace_date keeps the time", w.band(a.date() == d, a.time() == x.time()))
    w.check("replace_time keeps the date", w.band(b.time() == t, b.date() == x.date()))


MAKERS = {"instant": "Instant", "offset": "OffsetDateTime", "zoned": "ZonedDateTime",
          "system": "SystemDateTime"}


def maker(w, kind, form="seconds"):
    """(constructor, offset seconds, is the offset valid?)"""
    m = w.m
    if kind == "instant":
        return m.Instant.from_utc, 0, True
    if kind == "offset":
        if form == "hours":
            o = w.int("off", -30, 30)
            return (lambda *a, **k: m.OffsetDateTime(*a, **k, offset=o)), o * 3600, w.band(o > -24, o < 24)
        o = w.int("off", -100_000, 100_000)
        return ((lambda *a, **k: m.OffsetDateTime(*a, **k, offset=m.TimeDelta(seconds=o))), o,
                w.band(o > -86400, o < 86400))
    if kind == "zoned":
        z = w.zone("Z", 0)
        return (lambda *a, **k: m.ZonedDateTime(*a, **k, tz="Z")), z.offs[0], True
    z = w.system_zone(0)
    return m.SystemDateTime, z.offs[0], True


def reported(w, x, kind, y, m, d, h, mi, s, n):
    if kind == "instant":
        p = x.py_datetime()
        w.check("components", w.band(
            p.year == y, p.month == m, p.day == d, p.hour == h, p.minute == mi, p.second == s,
            p.microsecond == n // 1000))
        return
    w.check("components", w.band(
        x.year == y, x.month == m, x.day == d, x.hour == h, x.minute == mi, x.second == s,
        x.nanosecond == n))


@PROP.job(cross(kind=list(MAKERS), form=["seconds"]) + [dict(kind="offset", form="hours")])
def exact_ctor(w, kind, form):
    """constructors of exact types: clock fields, nanosecond, offset"""
    make, off, ok_off = maker(w, kind, form)
    y, m, d = w.ymd("d")
    h, mi, s = w.int("h", -5, 70), w.int("mi", -5, 70), w.int("s", -5, 70)
    n = w.int("n", -10, 2_000_000_000)
    r = w.attempt(make, y, m, d, h, mi, s, nanosecond=n)
    ok = w.band(ok_off, h >= 0, h < 24, mi >= 0, mi < 60, s >= 0, s < 60, n >= 0, n < 1_000_000_000)
    if not ok:
        w.check("invalid fields raise ValueError", w.bor(
            r.raised(ValueError), w.band(r.raised(OverflowError), w.bor(y == 1, y == 9999))))
        return
    u = w.ordinal(y, m, d) * 86400 + h * 3600 + mi * 60 + s - off
    if not r.ok:
        w.check("refused with ValueError or OverflowError", r.raised(ValueError, OverflowError))
        w.check("valid fields are refused only outside the UTC range", w.bor(
            u < 86400, u >= 3652060 * 86400, w.near_edge(u) if kind == "system" else False))
        return
    w.check("accepted only within the UTC range", w.band(u >= 86400, u < 3652060 * 86400))
    reported(w, r.value, kind, y, m, d, h, mi, s, n)
    if kind != "instant":
        w.check("offset", w.off_s(r.value) == off)


@PROP.job(cross(kind=list(MAKERS)))
def exact_date(w, kind):
    """... and the calendar fields"""
    make, off, ok_off = maker(w, kind)
    w.assume(ok_off)
    y, m, d = raw(w)
    r = w.attempt(make, y, m, d, 12)
    if not valid(w, y, m, d):
        w.check("absent day raises ValueError", r.raised(ValueError))
    elif r.ok:
        reported(w, r.value, kind, y, m, d, 12, 0, 0, 0)
    else:
        u = w.ordinal(y, m, d) * 86400 + 43200 - off
        w.check("refused only outside the UTC range", w.bor(
            u < 86400, u >= 3652060 * 86400, w.near_edge(u) if kind == "system" else False))


@PROP.job(cross(kind=["time", "local"] + list(MAKERS), given=[0, 1, 2, 3]))
def defaults(w, kind, given):
    """clock fields that are left out are zero"""
    if kind == "time":
        make = w.m.Time
        v = ()
    else:
        v = w.ymd("d", 2, 9998)
        make = w.m.LocalDateTime if kind == "local" else None
        if make is None:
            make, off, ok_off = maker(w, kind)
            w.assume(ok_off)
    clock = tuple(w.int(f, 0, hi) for f, hi in (("h", 23), ("mi", 59), ("s", 59)))[:given]
    x = make(*v, *clock)
    full = clock + (0,) * (3 - given)
    if kind == "time":
        w.check("components", w.band(x.hour == full[0], x.minute == full[1], x.second == full[2],
                                     x.nanosecond == 0))
    else:
        reported(w, x, kind, *v, *full, 0)


@PROP.job(cross(f=["year", "month", "day", "hour", "minute", "second", "nanosecond", "offset"]))
def offset_replace(w, f):
    x, u, n, off = w.offset_dt("x")
    lo, hi = {"year": (-5, 10100), "month": (-5, 40), "day": (-5, 40), "offset": (-100_000, 100_000)
              }.get(f, (-5, 2_000_000_000))
    v = w.int("v", lo, hi)
    r = w.attempt(x.replace, ignore_dst=True, **{f: w.m.TimeDelta(seconds=v) if f == "offset" else v})
    new = {k: getattr(x, k) for k in ("year", "month", "day", "hour", "minute", "second", "nanosecond")}
    o = off
    if f == "offset":
        o = v
        ok = w.band(v > -86400, v < 86400)
    elif f in ("year", "month", "day"):
        new[f] = v
        ok = valid(w, new["year"], new["month"], new["day"])
    else:
        new[f] = v
        ok = w.band(v >= 0, v < {"hour": 24, "minute": 60, "second": 60, "nanosecond": 1_000_000_000}[f])
    if not ok:
        w.check("out of range raises ValueError", r.raised(ValueError))
        return
    u2 = (w.ordinal(new["year"], new["month"], new["day"]) * 86400 + new["hour"] * 3600
          + new["minute"] * 60 + new["second"] - o)
    if r.ok:
        w.check("accepted only within the UTC range", w.band(u2 >= 86400, u2 < 3652060 * 86400))
        reported(w, r.value, "offset", *new.values())
        w.check("offset", w.off_s(r.value) == o)
    else:
        w.check("valid fields are refused only outside the UTC range", w.band(
            r.raised(ValueError, OverflowError), w.bor(u2 < 86400, u2 >= 3652060 * 86400)))
