"""Calendar operations on zoned and system time keep the wall clock."""
from sx.runner import Prop, cross

PROP = Prop(
    "C11",
    functions=["ZonedDateTime/SystemDateTime.replace/replace_date/replace_time/add/subtract/"
               "__add__/__sub__", "_resolve_ambiguity(_using_prev_offset)",
               "_resolve_system_ambiguity(_using_prev_offset)"],
    bounds="every moment; every target date/time; shifts of ±200 years (months/days) and ±10^7 s; "
           "zones and the system zone with any 2 (thorough: 3) transitions (mixed shifts in the "
           "system zone: 1, thorough 2)",
    outside="zones outside the stated zone bounds; larger shifts",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
NS = 10**9
HOW = ["compatible", "earlier", "later", "raise", None]
BOTH = ["zoned", "system"]


def setup(w, kind, K):
    z = w.zone("Z/A", K) if kind == "zoned" else w.system_zone(K)
    x, u, n, off = w.exact(kind, "x", z, z)
    return z, x, u, n, off


def chosen(w, z, s, how, prev):
    """moment for local second s; None keeps the offset if that is possible"""
    if how is not None:
        return z.resolve(s, "compatible" if how == "raise" else how)
    return z.resolve_keeping(s, prev)


def in_range(w, u):
    return w.band(u >= 86400, u < 3652060 * 86400)


def judge(w, r, z, s, n, how, prev, what, extra=0):
    """s: local second asked for; extra: exact nanoseconds added afterwards.
    Only moments at least 2 days inside the range are judged as accepted."""
    gap, rep = z.is_gap(s), z.is_repeated(s)
    if how == "raise":
        if gap:
            w.check(what + ": skipped raises", r.raised(w.m.SkippedTime))
            return
        if rep:
            w.check(what + ": repeated raises", r.raised(w.m.RepeatedTime))
            return
    u = chosen(w, z, s, how, prev)
    if not in_range(w, u):
        w.check(what + ": out of range raises", r.raised(*RANGE))
        return
    if not (isinstance(extra, int) and extra == 0):
        c, n = w.int_div(n + extra, NS)
        u = u + c
        if not in_range(w, u):
            w.check(what + ": out of range raises", r.raised(*RANGE))
            return
    o = z.off_utc(u)
    if not in_range(w, u + o):
        w.check(what + ": out of range raises", r.raised(*RANGE))
        return
    if z.name == "SYS" and not r.ok and w.near_edge(s, u):
        w.check(what + ": refused near the limits", r.raised(*RANGE))
        return
    w.check(what + ": accepted", r.ok)
    v = r.value
    w.check(what + ": moment", v.timestamp_nanos() == (u - 719163 * 86400) * NS + n)
    w.check(what + ": local and offset", w.band(w.loc_s(v) == u + o, v.nanosecond == n,
                                                w.off_s(v) == o))
    if hasattr(v, "tz"):
        w.check(what + ": zone kept", v.tz == z.name)
    w.obs(what, (w.loc_s(v), w.off_s(v)))


def kwargs(how):
    return {} if how is None else {"disambiguate": how}


@PROP.job(cross(kind=BOTH, how=HOW, K=[2]), thorough=cross(kind=BOTH, how=HOW, K=[3]))
def replace_date(w, kind, how, K):
    z, x, u, n, off = setup(w, kind, K)
    d, o = w.ord_date("d")
    r = w.attempt(x.replace_date, d, **kwargs(how))
    tod = w.int_div(u + off, 86400)[1]
    judge(w, r, z, o * 86400 + tod, n, how, off, "replace_date")


@PROP.job(cross(kind=BOTH, how=HOW, K=[2]), thorough=cross(kind=BOTH, how=HOW, K=[3]))
def replace_time(w, kind, how, K):
    z, x, u, n, off = setup(w, kind, K)
    t, ns = w.time_of("t")
    r = w.attempt(x.replace_time, t, **kwargs(how))
    day = w.int_div(u + off, 86400)[0]
    sec, m = w.int_div(ns, NS)
    judge(w, r, z, day * 86400 + sec, m, how, off, "replace_time")


@PROP.job(cross(kind=BOTH, how=["raise", "later", None], K=[2],
                f=["year", "month", "day", "hour", "minute", "second", "nanosecond"]))
def replace_field(w, kind, how, f, K):
    z, x, u, n, off = setup(w, kind, K)
    hi = {"year": 11000, "nanosecond": 2 * NS}.get(f, 70)
    v = w.int("v", -5, hi)
    r = w.attempt(x.replace, **{f: v}, **kwargs(how))
    day, tod = w.int_div(u + off, 86400)
    p = w.date_of(day)
    fl = dict(year=p.year, month=p.month, day=p.day, hour=x.hour, minute=x.minute,
              second=x.second, nanosecond=n)
    fl[f] = v
    ok = w.band(fl["year"] >= 1, fl["year"] <= 9999, fl["month"] >= 1, fl["month"] <= 12)
    if ok:
        ok = w.band(fl["day"] >= 1, fl["day"] <= w.dim(fl["year"], fl["month"]),
                    fl["hour"] >= 0, fl["hour"] < 24, fl["minute"] >= 0, fl["minute"] < 60,
                    fl["second"] >= 0, fl["second"] < 60, fl["nanosecond"] >= 0,
                    fl["nanosecond"] < NS)
    if not ok:
        w.check("replace: invalid field raises ValueError", r.raised(ValueError))
        return
    if f in ("year", "month", "day"):
        s = w.ordinal(fl["year"], fl["month"], fl["day"]) * 86400 + tod
    else:
        s = day * 86400 + fl["hour"] * 3600 + fl["minute"] * 60 + fl["second"]
    judge(w, r, z, s, fl["nanosecond"], how, off, "replace")


@PROP.job(cross(how=HOW, same=[0, 1]))
def replace_tz(w, how, same):
    """replacing the zone keeps the wall clock, resolved in the new zone"""
    z, x, u, n, off = setup(w, "zoned", 2)
    z2 = z if same else w.zone("Z/B", 2)
    r = w.attempt(x.replace, tz=z2.name, **kwargs(how))
    if how is None and not same:
        how = "compatible"
    judge(w, r, z2, u + off, n, how, off, "replace tz")


YEARS = 200


def shifted(w, x, u, off, months, days):
    """local second after the calendar shift, or None when out of range"""
    day, tod = w.int_div(u + off, 86400)
    p = w.date_of(day)
    ny, nm = w.int_div(p.year * 12 + p.month - 1 + months, 12)
    nm = nm + 1
    if not w.band(ny >= 1, ny <= 9999):
        return None
    o = w.ordinal(ny, nm, w.min(p.day, w.dim(ny, nm))) + days
    if not w.band(o >= 1, o <= 3652059):
        return None
    return o * 86400 + tod


def exact_judge(w, r, z, x, u, n, off, months, days, ns, how, what):
    if w.band(months == 0, days == 0):
        s = u + off
        c, m = w.int_div(n + ns, NS)
        v = u + c
        o = z.off_utc(v)
        if not w.band(in_range(w, v), in_range(w, v + o)):
            w.check(what + ": out of range raises", r.raised(*RANGE))
            return
        if z.name == "SYS" and not r.ok and w.near_edge(s, v):
            w.check(what + ": refused near the limits", r.raised(*RANGE))
            return
        w.check(what + ": exact part only", r.ok)
        w.check(what + ": exact moment",
                r.value.timestamp_nanos() == (v - 719163 * 86400) * NS + m)
        return
    s = shifted(w, x, u, off, months, days)
    if s is None:
        w.check(what + ": date out of range raises", r.raised(*RANGE))
        return
    judge(w, r, z, s, n, how, off, what, ns)


@PROP.job([c for c in cross(kind=BOTH, how=HOW, sign=[1, -1], units=["ym", "wd", "mix"], K=[1, 2])
           if c["K"] == (1 if c["kind"] == "system" and c["units"] == "mix" else 2)],
          thorough=cross(kind=BOTH, how=HOW, sign=[1, -1], units=["ym", "wd", "mix"], K=[3]))
def shift_kwargs(w, kind, how, sign, units, K):
    z, x, u, n, off = setup(w, kind, K)
    kw, months, days, ns = {}, 0, 0, 0
    if units == "ym":
        kw = {"years": w.int("years", -YEARS, YEARS), "months": w.int("months", -2400, 2400)}
        months = kw["years"] * 12 + kw["months"]
    elif units == "wd":
        kw = {"weeks": w.int("weeks", -10000, 10000), "days": w.int("days", -70000, 70000)}
        days = kw["weeks"] * 7 + kw["days"]
    else:
        kw = {"months": w.int("months", -240, 240), "days": w.int("days", -400, 400),
              "hours": w.int("hours", -3000, 3000), "seconds": w.int("seconds", -10**7, 10**7),
              "nanoseconds": w.int("nanoseconds", -NS, NS)}
        months, days = kw["months"], kw["days"]
        ns = (kw["hours"] * 3600 + kw["seconds"]) * NS + kw["nanoseconds"]
    r = w.attempt(x.add if sign > 0 else x.subtract, **kw, **kwargs(how))
    exact_judge(w, r, z, x, u, n, off, sign * months, sign * days, sign * ns, how, "shift")


@PROP.job([c for c in cross(kind=BOTH, form=["+", "-", "add", "subtract"],
                            typ=["DateDelta", "DateTimeDelta"], neg=[0, 1], K=[1, 2])
           if c["K"] == (1 if c["kind"] == "system" else 2)],
          thorough=cross(kind=BOTH, form=["+", "-", "add", "subtract"],
                         typ=["DateDelta", "DateTimeDelta"], neg=[0, 1], K=[2]))
def shift_delta(w, kind, form, typ, neg, K):
    z, x, u, n, off = setup(w, kind, K)
    g = -1 if neg else 1
    months, days = g * w.int("months", 0, 2400), g * w.int("days", 0, 70000)
    ns = 0
    if typ == "DateDelta":
        d = w.m.DateDelta(months=months, days=days)
    else:
        sec = g * w.int("secs", 0, 10**7)
        nn = g * w.int("nanos", 0, NS - 1)
        ns = sec * NS + nn
        d = w.m.DateTimeDelta(months=months, days=days, seconds=sec, nanoseconds=nn)
    f = {"+": lambda: x + d, "-": lambda: x - d, "add": lambda: x.add(d),
         "subtract": lambda: x.subtract(d)}[form]
    r = w.attempt(f)
    sg = 1 if form in ("+", "add") else -1
    exact_judge(w, r, z, x, u, n, off, sg * months, sg * days, sg * ns, None, form)


@PROP.job(cross(kind=BOTH))
def no_change(w, kind):
    """operations that ask for no change keep the value, fold included"""
    z, x, u, n, off = setup(w, kind, 2)
    w.assume(w.bnot(w.near_edge(u, u + off)))
    w.check("replace()", x.replace().exact_eq(x))
    w.check("replace_date of the same date", x.replace_date(x.date()).exact_eq(x))
    w.check("replace_time of the same time", x.replace_time(x.time()).exact_eq(x))
    w.check("replace of the same fields",
            x.replace(year=x.year, day=x.day, hour=x.hour, second=x.second).exact_eq(x))
    w.check("add()", x.add().exact_eq(x))
    w.check("+ zero DateDelta", (x + w.m.DateDelta()).exact_eq(x))
    w.check("days=7, weeks=-1", x.add(days=7, weeks=-1).exact_eq(x))


LATER = {
    "replace_date": lambda w, k: replace_date(w, k, None, 1),
    "replace_time": lambda w, k: replace_time(w, k, None, 1),
    "replace_hour": lambda w, k: replace_field(w, k, None, "hour", 1),
    "replace_nanosecond": lambda w, k: replace_field(w, k, None, "nanosecond", 1),
    "add": lambda w, k: shift_kwargs(w, k, None, 1, "wd", 1),
    "subtract": lambda w, k: shift_kwargs(w, k, None, -1, "wd", 1),
    "raise": lambda w, k: replace_time(w, k, "raise", 1),
    "no_change": lambda w, k: no_change(w, k),
}


@PROP.job(cross(kind=["zoned"], op=list(LATER)))
def made_later(w, kind, op):
    """values that were themselves made with disambiguate="later" """
    w.made_later = True
    LATER[op](w, kind)
