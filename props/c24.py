"""SystemDateTime values when the system time zone changes under them."""
from sx.runner import Prop, cross
from sx.world import DAY, EPOCH, MAXTS, NS
from props.c11 import RANGE, HOW, judge, exact_judge, kwargs, in_range
from props.c17 import same, fields, offset_text
from props.c12 import judge as judge_round

PROP = Prop(
    "C24",
    functions=["SystemDateTime: everything, Instant/OffsetDateTime/ZonedDateTime/LocalDateTime "
               "conversions to it", "_resolve_system_ambiguity(_using_prev_offset)", "_unpkl_system"],
    bounds="every moment, every offset the value was created with; a new system zone with any 1 "
           "(thorough: 2) transitions; shifts of ±200 years, ±10^7 s",
    outside="a change of the zone during an operation",
    stubs=["datetime/localtime: models of CPython 3.12"],
)


def setup(w, K):
    """a value created while the system zone had some constant offset"""
    old = w.system_zone(0, name="OLD")
    x, u, n, off = w.exact("system", "x", None, old)
    z = w.system_zone(K)
    return x, u, n, off, z


@PROP.job(cross(K=[1]))
def unchanged(w, K):
    """the value itself stays what it was"""
    x, u, n, off, z = setup(w, K)
    ts = (u - EPOCH) * NS + n
    w.check("moment", x.timestamp_nanos() == ts)
    w.check("local", w.band(w.loc_s(x) == u + off, x.nanosecond == n, w.off_s(x) == off))
    w.check("instant", x.instant().timestamp_nanos() == ts)
    l = x.local()
    w.check("local()", w.band(w.loc_s(l) == u + off, l.nanosecond == n))
    f = x.to_fixed_offset()
    w.check("to_fixed_offset", w.band(f.timestamp_nanos() == ts, w.off_s(f) == off,
                                      w.loc_s(f) == u + off))
    w.check("order and equality with the moment", w.band(
        x == x.instant(), w.bnot(x < x.instant()), w.bnot(x > x.instant())))
    w.check("hash", w.hash(x) == w.hash(x.instant()))
    p = x.py_datetime()
    w.check("py_datetime", w.band(
        p.toordinal() * DAY + p.hour * 3600 + p.minute * 60 + p.second == u + off,
        p.utcoffset() == w.pytimedelta(seconds=off)))
    y = w.pickled(x)
    w.check("pickle", w.band(y.timestamp_nanos() == ts, w.off_s(y) == off, x.exact_eq(y)))


@PROP.job(cross(K=[1], part=["text", "parse"]), fork=True)
def text(w, K, part):
    x, u, n, off, z = setup(w, K)
    f = x.to_fixed_offset()
    if part == "text":
        same(w, "text", w.str(x), fields(w, x) + offset_text(w, off))
        return
    y = w.attempt(w.m.SystemDateTime.parse_common_iso, w.str(x))
    w.check("parsed", y.ok)
    w.check("parsing keeps the offset in the text",
            w.band(y.value.exact_eq(x), w.off_s(y.value) == off))


@PROP.job(cross(how=["offset", "system", "instant"], K=[1]))
def same_moment(w, how, K):
    """to_system_tz(): the same moment, shown in the new zone"""
    x, u, n, off, z = setup(w, K)
    src = {"offset": x.to_fixed_offset, "instant": x.instant, "system": lambda: x}[how]()
    r = w.attempt(src.to_system_tz)
    o = z.off_utc(u)
    if not in_range(w, u + o):
        w.check("out of range raises", r.raised(*RANGE))
        return
    if not r.ok and w.near_edge(u):
        w.check("refused near the limits", r.raised(*RANGE))
        return
    w.check("accepted", r.ok)
    y = r.value
    w.check("moment", y.timestamp_nanos() == (u - EPOCH) * NS + n)
    w.check("new offset", w.band(w.loc_s(y) == u + o, w.off_s(y) == o, y.nanosecond == n))


@PROP.job(cross(how=HOW[:-1], K=[1]), thorough=cross(how=HOW[:-1], K=[2]))
def same_clock(w, how, K):
    """local().assume_system_tz(): the same clock time, in the new zone"""
    x, u, n, off, z = setup(w, K)
    r = w.attempt(x.local().assume_system_tz, disambiguate=how)
    judge(w, r, z, u + off, n, how, off, "assume")


@PROP.job(cross(how=HOW, op=["date", "time"], K=[1]), thorough=cross(
    how=HOW, op=["date", "time"], K=[2]))
def replaced(w, how, op, K):
    x, u, n, off, z = setup(w, K)
    day, tod = w.int_div(u + off, DAY)
    if op == "date":
        d, o = w.ord_date("d")
        r = w.attempt(x.replace_date, d, **kwargs(how))
        judge(w, r, z, o * DAY + tod, n, how, off, "replace_date")
    else:
        t, ns = w.time_of("t")
        sec, m = w.int_div(ns, NS)
        r = w.attempt(x.replace_time, t, **kwargs(how))
        judge(w, r, z, day * DAY + sec, m, how, off, "replace_time")


@PROP.job(cross(how=HOW, which=["minute+nanosecond", "", "nanosecond", "second", "hour"], K=[1]))
def replaced_field(w, how, which, K):
    x, u, n, off, z = setup(w, K)
    kw = {f: w.int(f, 0, {"hour": 23, "nanosecond": NS - 1}.get(f, 59))
          for f in which.split("+") if f}
    l = u + off
    for f, size in (("hour", 3600), ("minute", 60), ("second", 1)):
        if f in kw:
            l = l + (kw[f] - getattr(x, f)) * size
    r = w.attempt(x.replace, **kw, **kwargs(how))
    judge(w, r, z, l, kw.get("nanosecond", n), how, off, "replace")


@PROP.job(cross(how=[None, "compatible", "raise"], units=["exact", "days", "months"], K=[1]),
          thorough=cross(how=HOW, units=["exact", "days", "months"], K=[2]))
def shifted_by(w, how, units, K):
    x, u, n, off, z = setup(w, K)
    kw, months, days, ns = {}, 0, 0, 0
    if units == "exact":
        kw = {"seconds": w.int("seconds", -10**7, 10**7),
              "nanoseconds": w.int("nanoseconds", -NS, NS)}
        ns = kw["seconds"] * NS + kw["nanoseconds"]
    elif units == "days":
        kw = {"days": w.int("days", -70000, 70000)}
        days = kw["days"]
    else:
        kw = {"months": w.int("months", -2400, 2400)}
        months = kw["months"]
    r = w.attempt(x.add, **kw, **kwargs(how))
    exact_judge(w, r, z, x, u, n, off, months, days, ns, how, "shift")


@PROP.job(cross(K=[1]))
def plus_delta(w, K):
    """x + TimeDelta: the moment moves exactly, the offset is the new zone's"""
    x, u, n, off, z = setup(w, K)
    d, tot = w.tdelta("d", -10**7, 10**7)
    r = w.attempt(lambda: x + d)
    exact_judge(w, r, z, x, u, n, off, 0, 0, tot, None, "plus")
    if r.ok:
        v, c = r.value, w.int_div(n + tot, NS)[0]
        w.check("plus: new offset", w.off_s(v) == z.off_utc(u + c))


@PROP.job(cross(unit=["hour", "second", "millisecond"], K=[1]), fork=True)
def rounded(w, unit, K):
    x, u, n, off, z = setup(w, K)
    r = w.attempt(x.round, unit, mode="floor")
    s = {"hour": lambda: u + off - w.int_div(u + off, 3600)[1]}.get(unit, lambda: u + off)()
    m = n - w.int_div(n, 10**6)[1] if unit == "millisecond" else 0
    judge_round(w, r, z, s, m, off)


@PROP.job(cross(K=[1]))
def days(w, K):
    x, u, n, off, z = setup(w, K)
    day, tod = w.int_div(u + off, DAY)
    a, b = z.first_at_or_after(day * DAY), z.first_at_or_after(day * DAY + DAY)
    w.assume(w.bnot(w.bor(z.late_gap_over(day * DAY), z.late_gap_over(day * DAY + DAY))))
    w.assume(w.bnot(w.near_edge(a, b, u, day * DAY, day * DAY + DAY)))
    w.check("start_of_day", x.start_of_day().timestamp_nanos() == (a - EPOCH) * NS)
    w.check("day_length", x.day_length().in_nanoseconds() == (b - a) * NS)
    s = u + off
    w.check("is_ambiguous", w.iff(x.is_ambiguous(), z.is_repeated(s)))
