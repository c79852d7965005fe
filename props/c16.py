"""Pickling and copying."""
import copy

from sx.runner import Prop, cross

PROP = Prop(
    "C16",
    functions=["*.__reduce__", "_unpkl_date/_unpkl_ym/_unpkl_md/_unpkl_time/_unpkl_tdelta/"
               "_unpkl_ddelta/_unpkl_dtdelta/_unpkl_utc/_unpkl_offset/_unpkl_zoned/"
               "_unpkl_system/_unpkl_local", "_adjust_fold_to_offset", "__copy__/__deepcopy__"],
    bounds="every value of every type; zones and system zone with any 2 (thorough: 3) transitions; "
           "the layouts written by released versions, with every content",
    outside="the pickle protocol itself (CPython's); zones whose rules change between dump and load",
    stubs=["struct: model over symbolic fields", "datetime/zoneinfo/localtime: models of "
           "CPython 3.12"],
)
NS = 10**9


def copies(w, x):
    for name, c in (("copy", copy.copy(x)), ("deepcopy", copy.deepcopy(x))):
        if c is x:  # as it should be; another equal object would do
            continue
        w.check(name + ": same type", type(c) is type(x))
        w.check(name + ": equal", c == x)
        if hasattr(x, "exact_eq"):
            w.check(name + ": exactly equal", x.exact_eq(c))


def written(w, x, *parts):
    """the arguments of the reader: bytes as (format, values...), or plain values"""
    fn, args = x.__reduce__()[:2]
    w.check("as many arguments as documented", len(args) == len(parts))
    for a, p in zip(args, parts):
        want = w.pack(*p) if isinstance(p, tuple) else p
        w.check("the documented byte layout", a == want)
    y = getattr(w.m, fn.__name__)(*args)
    w.check("the reader is found by its name", y == x)


def trip(w, x):
    r = w.attempt(w.pickled, x)
    w.check("loads", r.ok)
    y = r.value
    w.check("same type", type(y).__name__ == type(x).__name__)
    w.check("equal", y == x)
    copies(w, x)
    return y


@PROP.job()
def dates(w):
    y, m, d = w.ymd("x")
    r = trip(w, w.m.Date(y, m, d))
    written(w, r, ("<HBB", y, m, d))
    w.check("fields", w.band(r.year == y, r.month == m, r.day == d))


@PROP.job()
def yearmonths(w):
    y, m = w.int("y", 1, 9999), w.int("m", 1, 12)
    r = trip(w, w.m.YearMonth(y, m))
    written(w, r, ("<HB", y, m))
    w.check("fields", w.band(r.year == y, r.month == m))
    w.check("on_day works", r.on_day(1).year == y)


@PROP.job()
def monthdays(w):
    _, m, d = w.ymd("x", 2000, 2000)
    r = trip(w, w.m.MonthDay(m, d))
    written(w, r, ("<BB", m, d))
    w.check("fields", w.band(r.month == m, r.day == d))


@PROP.job()
def times(w):
    x, s = w.time_of("x")
    r = trip(w, x)
    written(w, x, ("<BBBI", x.hour, x.minute, x.second, x.nanosecond))
    w.check("fields", w.band(r.hour == x.hour, r.minute == x.minute, r.second == x.second,
                             r.nanosecond == x.nanosecond))


@PROP.job()
def locals_(w):
    x, s, n = w.local_dt("x")
    r = trip(w, x)
    d = x.date()
    written(w, x, ("<HBBBBBI", d.year, d.month, d.day, x.hour, x.minute, x.second, n))
    w.check("fields", w.band(w.loc_s(r) == s, r.nanosecond == n))


@PROP.job()
def tdeltas(w):
    x, t = w.tdelta("x")
    r = trip(w, x)
    written(w, x, ("<qI", *w.int_div(t, NS)))
    w.check("value", r.in_nanoseconds() == t)


@PROP.job()
def ddeltas(w):
    from props.c15 import make

    x, m, d, _ = make(w, "DateDelta", "x")
    r = trip(w, x)
    written(w, x, m, d)
    a, b = r.in_months_days()
    w.check("value", w.band(a == m, b == d))


@PROP.job()
def dtdeltas(w):
    from props.c15 import make

    x, m, d, t = make(w, "DateTimeDelta", "x")
    r = trip(w, x)
    written(w, x, m, d, *w.int_div(t, NS))
    a, b = r.date_part().in_months_days()
    w.check("value", w.band(a == m, b == d, r.time_part().in_nanoseconds() == t))


def same_exact(w, r, x, u, n, off):
    w.check("moment", r.timestamp_nanos() == (u - 719163 * 86400) * NS + n)
    w.check("exact_eq", r.exact_eq(x))
    if off is not None:
        w.check("local time", w.band(w.loc_s(r) == u + off, r.nanosecond == n))
        w.check("offset", r.offset.in_nanoseconds() == off * NS)


@PROP.job()
def instants(w):
    x, u, n = w.instant("x")
    same_exact(w, trip(w, x), x, u, n, None)
    written(w, x, ("<qL", u, n))


def exact_layout(x, n, o):
    l = x.local()
    d = l.date()
    return ("<HBBBBBIl", d.year, d.month, d.day, l.hour, l.minute, l.second, n, o)


@PROP.job()
def offsets(w):
    x, u, n, o = w.offset_dt("x")
    same_exact(w, trip(w, x), x, u, n, o)
    written(w, x, exact_layout(x, n, o))


@PROP.job(cross(K=[2]), thorough=cross(K=[3]))
def zoneds(w, K):
    z = w.zone("Z/A", K)
    x, u, n, o = w.exact("zoned", "x", z, None)
    r = trip(w, x)
    same_exact(w, r, x, u, n, o)
    w.check("tz", r.tz == "Z/A")
    written(w, x, exact_layout(x, n, o), "Z/A")


@PROP.job(cross(K=[2]), thorough=cross(K=[3]))
def systems(w, K):
    z = w.system_zone(K)
    x, u, n, o = w.exact("system", "x", None, z)
    same_exact(w, trip(w, x), x, u, n, o)
    written(w, x, exact_layout(x, n, o))


@PROP.job(cross(K=[1]), thorough=cross(K=[1, 2]))
def system_elsewhere(w, K):
    """loading in another system zone keeps moment and offset"""
    z = w.system_zone(K)
    x, u, n, o = w.exact("system", "x", None, z)
    fn, args = x.__reduce__()
    w.system_zone(0, name="SYS2")
    same_exact(w, fn(*args), x, u, n, o)


# -- data written by released versions (0.7): fixed layouts ------------------

@PROP.job()
def wire_dates(w):
    y, m, d = w.ymd("x")
    M = w.m
    w.check("date", M._unpkl_date(w.pack("<HBB", y, m, d)) == M.Date(y, m, d))
    w.check("year-month", M._unpkl_ym(w.pack("<HB", y, m)) == M.YearMonth(y, m))
    w.check("month-day", M._unpkl_md(w.pack("<BB", m, d)) == M.MonthDay(m, d))


@PROP.job()
def wire_times(w):
    t, _ = w.time_of("t")
    h, mi, s, n = t.hour, t.minute, t.second, t.nanosecond
    w.check("time", w.m._unpkl_time(w.pack("<BBBI", h, mi, s, n)) == t)
    l, _, _ = w.local_dt("l")
    d = l.date()
    w.check("local", w.m._unpkl_local(w.pack(
        "<HBBBBBI", d.year, d.month, d.day, l.hour, l.minute, l.second, l.nanosecond)) == l)


@PROP.job()
def wire_deltas(w):
    from props.c15 import make

    x, m, d, t = make(w, "DateTimeDelta", "x")
    s, n = w.int_div(t, NS)
    w.check("time delta", w.m._unpkl_tdelta(w.pack("<qI", s, n)).in_nanoseconds() == t)
    w.check("date delta", w.m._unpkl_ddelta(m, d).in_months_days() == (m, d))
    w.check("date-time delta", w.m._unpkl_dtdelta(m, d, s, n) == x)


@PROP.job()
def wire_instant(w):
    x, u, n = w.instant("x")
    w.check("instant", w.m._unpkl_utc(w.pack("<qL", u, n)) == x)


@PROP.job(cross(kind=["offset", "system", "zoned"], K=[1]),
          thorough=cross(kind=["offset", "system", "zoned"], K=[1, 2]))
def wire_exact(w, kind, K):
    z = w.zone("Z/A", K) if kind == "zoned" else None
    s = w.system_zone(K) if kind == "system" else None
    x, u, n, o = w.exact(kind, "x", z, s)
    l = x.local()
    d = l.date()
    data = w.pack("<HBBBBBIl", d.year, d.month, d.day, l.hour, l.minute, l.second,
                  l.nanosecond, o)
    args = (data, "Z/A") if kind == "zoned" else (data,)
    y = getattr(w.m, "_unpkl_" + kind)(*args)
    w.check("value", y.exact_eq(x))
    w.check("moment", y.timestamp_nanos() == (u - 719163 * 86400) * NS + n)


@PROP.job(cross(K=[1], wire=[0, 1]))
def made_later(w, K, wire):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    if wire:
        wire_exact(w, "zoned", K)
    else:
        zoneds(w, K)
