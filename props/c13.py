"""Arithmetic on local and fixed-offset time, and the ignore_dst guard."""
from sx.runner import Prop, cross

PROP = Prop(
    "C13",
    functions=["LocalDateTime.add/subtract/__add__/__sub__/difference/replace_date/replace_time",
               "OffsetDateTime.add/subtract/replace/replace_date/replace_time/__add__/__sub__",
               "OffsetDateTime.now/from_timestamp* and Instant guards"],
    bounds="every value; months ±10000 years, days ±4·10^6, time units up to ±10^7 of each",
    outside="larger amounts; fractional (float) time units (see C14)",
    stubs=["datetime: model of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
NS = 10**9
DAY = 86400
END = 3652060 * DAY


def value(w, kind):
    """value, local seconds, nanos, offset (0 for local)"""
    if kind == "local":
        l, s, n = w.local_dt("x")
        return l, s, n, 0
    x, u, n, o = w.offset_dt("x")
    return x, u + o, n, o


def dst(kind, always=True):
    return {"ignore_dst": True} if always or kind == "offset" else {}


def moved(w, s, months, days):
    """local second after the calendar part, or None out of range"""
    day, tod = w.int_div(s, DAY)
    p = w.pydate.fromordinal(day)
    ny, nm = w.int_div(p.year * 12 + p.month - 1 + months, 12)
    nm = nm + 1
    if not w.band(ny >= 1, ny <= 9999):
        return None
    o = w.ordinal(ny, nm, w.min(p.day, w.dim(ny, nm))) + days
    if not w.band(o >= 1, o <= 3652059):
        return None
    return o * DAY + tod


def judge(w, r, kind, s, n, off, months, days, ns, what):
    v = moved(w, s, months, days)
    if v is None:
        w.check(what + ": date out of range raises", r.raised(*RANGE))
        return
    mid = v
    c, m = w.int_div(n + ns, NS)
    v = v + c
    if not w.band(v >= DAY, v < END, v - off >= DAY, v - off < END):
        w.check(what + ": out of range raises", r.raised(*RANGE))
        return
    if kind == "offset" and not r.ok and w.bor(mid - off < DAY, mid - off >= END):
        w.check(what + ": refused, the new date itself has no UTC time", r.raised(*RANGE))
        return
    w.check(what + ": accepted", r.ok)
    x = r.value
    w.check(what + ": local time", w.band(w.loc_s(x) == v, x.nanosecond == m))
    if kind == "offset":
        w.check(what + ": offset kept", w.off_s(x) == off)
    w.obs(what, (w.loc_s(x),))


@PROP.job(cross(kind=["local", "offset"], sign=[1, -1], units=["ym", "wd", "time", "mix"]))
def shift_kwargs(w, kind, sign, units):
    x, s, n, off = value(w, kind)
    kw, months, days, ns = {}, 0, 0, 0
    if units == "ym":
        kw = {"years": w.int("years", -9999, 9999), "months": w.int("months", -120000, 120000)}
        months = kw["years"] * 12 + kw["months"]
    elif units == "wd":
        kw = {"weeks": w.int("weeks", -10**5, 10**5), "days": w.int("days", -4 * 10**6, 4 * 10**6)}
        days = kw["weeks"] * 7 + kw["days"]
    elif units == "time":
        kw = {k: w.int(k, -10**7, 10**7) for k in ("hours", "minutes", "seconds")}
        ss = kw["hours"] * 3600 + kw["minutes"] * 60 + kw["seconds"]
        kw["milliseconds"] = w.int("milliseconds", -10**4, 10**4)
        kw["nanoseconds"] = w.int("nanoseconds", -10**9, 10**9)
        ns = ss * NS + kw["milliseconds"] * 10**6 + kw["nanoseconds"]
    else:
        kw = {"months": w.int("months", -240, 240), "days": w.int("days", -400, 400),
              "seconds": w.int("seconds", -10**7, 10**7),
              "nanoseconds": w.int("nanoseconds", -NS, NS)}
        months, days = kw["months"], kw["days"]
        ns = kw["seconds"] * NS + kw["nanoseconds"]
    timed = units in ("time", "mix")
    r = w.attempt(x.add if sign > 0 else x.subtract, **kw, **dst(kind, timed))
    judge(w, r, kind, s, n, off, sign * months, sign * days, sign * ns, "shift")


@PROP.job(cross(kind=["local", "offset"], form=["add", "subtract"], neg=[0, 1],
                typ=["DateDelta", "TimeDelta", "DateTimeDelta"]))
def shift_delta(w, kind, form, typ, neg):
    x, s, n, off = value(w, kind)
    g = -1 if neg else 1
    months = days = ns = 0
    if typ != "TimeDelta":
        months, days = g * w.int("months", 0, 12000), g * w.int("days", 0, 70000)
    if typ != "DateDelta":
        sec, nn = g * w.int("secs", 0, 10**7), g * w.int("nanos", 0, NS - 1)
        ns = sec * NS + nn
    d = {"DateDelta": lambda: w.m.DateDelta(months=months, days=days),
         "TimeDelta": lambda: w.m.TimeDelta(nanoseconds=ns),
         "DateTimeDelta": lambda: w.m.DateTimeDelta(months=months, days=days, nanoseconds=ns)}[typ]()
    r = w.attempt(x.add if form == "add" else x.subtract, d, **dst(kind, typ != "DateDelta"))
    sg = 1 if form == "add" else -1
    judge(w, r, kind, s, n, off, sg * months, sg * days, sg * ns, form)


@PROP.job(cross(form=["+", "-"], neg=[0, 1]))
def local_operator(w, form, neg):
    x, s, n, off = value(w, "local")
    g = -1 if neg else 1
    months, days = g * w.int("months", 0, 12000), g * w.int("days", 0, 70000)
    d = w.m.DateDelta(months=months, days=days)
    r = w.attempt((lambda: x + d) if form == "+" else (lambda: x - d))
    sg = 1 if form == "+" else -1
    judge(w, r, "local", s, n, 0, sg * months, sg * days, 0, form)


@PROP.job()
def difference(w):
    """LocalDateTime.difference is the exact distance on the wall clock"""
    a, sa, na = w.local_dt("a")
    b, sb, nb = w.local_dt("b")
    d = a.difference(b, ignore_dst=True)
    w.check("difference", d.in_nanoseconds() == (sa - sb) * NS + na - nb)
    w.check("b + (a - b) is a", b.add(d, ignore_dst=True) == a)
    w.must_raise("difference needs ignore_dst", w.m.ImplicitlyIgnoringDST, a.difference, b)
    w.must_raise("operator refused", w.m.ImplicitlyIgnoringDST, lambda: a - b)


@PROP.job(cross(what=["date", "time"], kind=["local", "offset"]))
def replace_part(w, what, kind):
    x, s, n, off = value(w, kind)
    kw = dst(kind, False)
    if what == "date":
        d, o = w.ord_date("d")
        r = w.attempt(x.replace_date, d, **kw)
        v, m = o * DAY + w.int_div(s, DAY)[1], n
    else:
        t, ns = w.time_of("t")
        r = w.attempt(x.replace_time, t, **kw)
        c, m = w.int_div(ns, NS)
        v = w.int_div(s, DAY)[0] * DAY + c
    if not w.band(v - off >= DAY, v - off < END):
        w.check("replace: out of range raises", r.raised(*RANGE))
        return
    w.check("replace: accepted", r.ok)
    w.check("replace: local time", w.band(w.loc_s(r.value) == v, r.value.nanosecond == m))
    if kind == "offset":
        w.check("replace: offset kept", w.off_s(r.value) == off)


@PROP.job(cross(f=["year", "month", "day", "hour", "minute", "second", "nanosecond", "offset"]))
def replace_field(w, f):
    """OffsetDateTime.replace: one field, the rest kept, offset not applied"""
    x, s, n, off = value(w, "offset")
    day, tod = w.int_div(s, DAY)
    p = w.pydate.fromordinal(day)
    fl = dict(year=p.year, month=p.month, day=p.day, hour=x.hour, minute=x.minute,
              second=x.second, nanosecond=n, offset=off)
    if f == "offset":
        v = w.int("v", -2 * DAY, 2 * DAY)
        r = w.attempt(x.replace, offset=w.m.TimeDelta(seconds=v), ignore_dst=True)
    else:
        v = w.int("v", -5, {"year": 11000, "nanosecond": 2 * NS}.get(f, 70))
        r = w.attempt(x.replace, **{f: v}, ignore_dst=True)
    fl[f] = v
    ok = w.band(fl["year"] >= 1, fl["year"] <= 9999, fl["month"] >= 1, fl["month"] <= 12)
    if ok:
        ok = w.band(fl["day"] >= 1, fl["day"] <= w.dim(fl["year"], fl["month"]),
                    fl["hour"] >= 0, fl["hour"] < 24, fl["minute"] >= 0, fl["minute"] < 60,
                    fl["second"] >= 0, fl["second"] < 60, fl["nanosecond"] >= 0,
                    fl["nanosecond"] < NS, fl["offset"] > -DAY, fl["offset"] < DAY)
    if ok:
        l = s
        if f in ("year", "month", "day"):
            l = w.ordinal(fl["year"], fl["month"], fl["day"]) * DAY + tod
        elif f in ("hour", "minute", "second"):
            l = day * DAY + fl["hour"] * 3600 + fl["minute"] * 60 + fl["second"]
        ok = w.band(l - fl["offset"] >= DAY, l - fl["offset"] < END)
    if not ok:
        w.check("replace: invalid field raises ValueError", r.raised(ValueError))
        return
    w.check("replace: accepted", r.ok)
    w.check("replace: fields", w.band(w.loc_s(r.value) == l, r.value.nanosecond == fl["nanosecond"],
                                      w.off_s(r.value) == fl["offset"]))


@PROP.job(cross(bad=[0, 1]))
def guards(w, bad):
    """nothing that can be off by a DST shift happens without ignore_dst=True"""
    m = w.m
    E = m.ImplicitlyIgnoringDST
    kw = {"ignore_dst": w.choice("flag", [False, 1, "yes", None])} if bad else {}
    x, s, n, off = value(w, "offset")
    l, _, _ = w.local_dt("l")
    h = w.int("h", -10**5, 10**5)
    dd = m.DateDelta(days=h)
    td = m.TimeDelta(seconds=h)
    dtd = m.DateTimeDelta(days=h, hours=h)
    d, t = w.date_of(w.int("o", 1, 3652059)), m.Time(4)
    for nm, f in {
        "replace": lambda: x.replace(hour=3, **kw), "replace_date": lambda: x.replace_date(d, **kw),
        "replace_time": lambda: x.replace_time(t, **kw), "add kw": lambda: x.add(hours=h, **kw),
        "add days": lambda: x.add(days=h, **kw), "subtract": lambda: x.subtract(weeks=h, **kw),
        "add delta": lambda: x.add(td, **kw), "sub delta": lambda: x.subtract(dd, **kw),
        "round": lambda: x.round("hour", **kw),
        "+ td": lambda: x + td, "+ dd": lambda: x + dd, "- dtd": lambda: x - dtd,
        "- td": lambda: x - td, "- dd": lambda: x - dd, "+ dtd": lambda: x + dtd,
        "now": lambda: m.OffsetDateTime.now(3, **kw),
        "from_timestamp": lambda: m.OffsetDateTime.from_timestamp(h, offset=3, **kw),
        "from_timestamp_millis": lambda: m.OffsetDateTime.from_timestamp_millis(h, offset=3, **kw),
        "from_timestamp_nanos": lambda: m.OffsetDateTime.from_timestamp_nanos(h, offset=3, **kw),
    }.items():
        w.must_raise("OffsetDateTime " + nm, (E,) if "td" not in nm and "dd" not in nm
                     else (E, TypeError), f)
    w.assume(h > 0)
    for nm, f in {
        "add hours": lambda: l.add(hours=h, **kw), "add delta": lambda: l.add(td, **kw),
        "subtract ns": lambda: l.subtract(nanoseconds=h, **kw),
        "add mixed": lambda: l.add(days=0, minutes=h, **kw),
        "+ td": lambda: l + td, "- td": lambda: l - td, "+ dtd": lambda: l + dtd,
        "- dtd": lambda: l - dtd, "- local": lambda: l - l,
        "difference": lambda: l.difference(l, **kw),
    }.items():
        w.must_raise("LocalDateTime " + nm, E, f)
