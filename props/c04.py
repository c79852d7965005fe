"""Rounding of times, deltas and fixed-offset moments."""
from sx.runner import Prop, cross

PROP = Prop(
    "C04",
    functions=["increment_to_ns", "Time.round", "Time._round_unchecked", "TimeDelta.round",
               "Instant.round", "LocalDateTime.round", "OffsetDateTime.round"],
    bounds="every value of each type; every unit, every valid increment (hours of a TimeDelta: "
           "1..1000 sampled at 1,2,5,7,24,36,1000), all five modes; invalid increments -5..2000",
    outside="hour increments of TimeDelta other than those listed",
    stubs=["datetime: model of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
NS = {"day": 86_400_000_000_000, "hour": 3_600_000_000_000, "minute": 60_000_000_000,
      "second": 1_000_000_000, "millisecond": 1_000_000, "microsecond": 1_000, "nanosecond": 1}
MODES = ["ceil", "floor", "half_ceil", "half_floor", "half_even"]
DIV = {"hour": 24, "minute": 60, "second": 60, "millisecond": 1000, "microsecond": 1000,
       "nanosecond": 1000}
INCS = {u: [i for i in range(1, n + 1) if n % i == 0] for u, n in DIV.items()}
UNITS = list(INCS)
DAYNS = NS["day"]


def expected(w, x, inc, mode):
    """the multiple of inc the mode asks for (by comparison, not by threshold)"""
    q, rem = w.int_div(x, inc)
    up = {
        "floor": lambda: False,
        "ceil": lambda: rem > 0,
        "half_floor": lambda: 2 * rem > inc,
        "half_ceil": lambda: 2 * rem >= inc,
        "half_even": lambda: w.bor(2 * rem > inc, w.band(2 * rem == inc, q % 2 == 1)),
    }[mode]()
    return (q + w.ite(up, 1, 0)) * inc


def expected_dt(w, x, inc, mode):
    """same, counting increments from the midnight of the day"""
    d, tod = w.int_div(x, DAYNS)
    return d * DAYNS + expected(w, tod, inc, mode)


def time_ns(t):
    return ((t.hour * 60 + t.minute) * 60 + t.second) * 1_000_000_000 + t.nanosecond


def args(unit, inc, mode, form):
    return [
        ((unit, inc, mode), {}), ((unit,), dict(increment=inc, mode=mode)),
        ((), dict(mode=mode, unit=unit, increment=inc)),
    ][form]


@PROP.job(cross(unit=UNITS, mode=MODES))
def time_round(w, unit, mode):
    inc = w.choice("inc", INCS[unit])
    t, x = w.time_of("t")
    a, k = args(unit, inc, mode, 0)
    r = t.round(*a, **k)
    w.check("Time.round", time_ns(r) == expected(w, x, inc * NS[unit], mode) % DAYNS)
    w.obs("r", (r.hour, r.minute, r.second, r.nanosecond))


@PROP.job(cross(unit=UNITS, mode=MODES))
def tdelta_round(w, unit, mode):
    inc = w.choice("inc", INCS[unit] if unit != "hour" else [1, 2, 5, 7, 24, 36, 1000])
    d, x = w.tdelta("d")
    a, k = args(unit, inc, mode, 1)
    r = w.attempt(d.round, *a, **k)
    e = expected(w, x, inc * NS[unit], mode)
    MX = 9999 * 366 * 86400 * 10**9
    if w.band(e >= -MX, e <= MX):
        w.check("TimeDelta.round", r.ok)
        w.check("TimeDelta.round value", r.value.in_nanoseconds() == e)
    else:
        w.check("TimeDelta.round out of range raises", r.raised(*RANGE))


@PROP.job(cross(unit=UNITS, mode=MODES))
def instant_round(w, unit, mode):
    inc = w.choice("inc", INCS[unit])
    i, u, n = w.instant("i")
    a, k = args(unit, inc, mode, 2)
    r = w.attempt(i.round, *a, **k)
    e = expected_dt(w, u * 10**9 + n, inc * NS[unit], mode)
    if e < 3652060 * DAYNS:
        w.check("Instant.round", r.ok)
        w.check("Instant.round value", r.value.timestamp_nanos() == e - 719163 * DAYNS)
    else:
        w.check("Instant.round past the maximum raises", r.raised(*RANGE))


@PROP.job(cross(unit=UNITS + ["day"], mode=MODES))
def local_round(w, unit, mode):
    inc = w.choice("inc", INCS.get(unit, [1]))
    l, s, n = w.local_dt("l")
    a, k = args(unit, inc, mode, 0)
    r = w.attempt(l.round, *a, **k)
    e = expected_dt(w, s * 10**9 + n, inc * NS[unit], mode)
    if e < 3652060 * DAYNS:
        w.check("LocalDateTime.round", r.ok)
        w.check("LocalDateTime.round value", w.loc_s(r.value) * 10**9 + r.value.nanosecond == e)
    else:
        w.check("LocalDateTime.round past the maximum raises", r.raised(*RANGE))


@PROP.job(cross(unit=UNITS + ["day"], mode=MODES))
def offset_round(w, unit, mode):
    inc = w.choice("inc", INCS.get(unit, [1]))
    x, u, n, o = w.offset_dt("x")
    a, k = args(unit, inc, mode, 0)
    r = w.attempt(x.round, *a, ignore_dst=True, **k)
    e = expected_dt(w, (u + o) * 10**9 + n, inc * NS[unit], mode)
    if w.band(e < 3652060 * DAYNS, e - o * 10**9 < 3652060 * DAYNS, e - o * 10**9 >= DAYNS):
        w.check("OffsetDateTime.round", r.ok)
        w.check("OffsetDateTime.round value", w.loc_s(r.value) * 10**9 + r.value.nanosecond == e)
        w.check("OffsetDateTime.round keeps the offset", r.value.offset == x.offset)
    else:
        w.check("OffsetDateTime.round out of range raises", r.raised(*RANGE))


@PROP.job(cross(typ=["Time", "TimeDelta", "Instant", "LocalDateTime", "OffsetDateTime"],
                unit=UNITS + ["day"]))
def validity(w, typ, unit):
    inc = w.int("inc", -5, 2000)
    m = w.m
    x, kw = {
        "Time": lambda: (m.Time(12, 34, 56, nanosecond=7), {}),
        "TimeDelta": lambda: (m.TimeDelta(seconds=12345), {}),
        "Instant": lambda: (m.Instant.from_utc(2020, 2, 3, 4), {}),
        "LocalDateTime": lambda: (m.LocalDateTime(2020, 2, 3, 4), {}),
        "OffsetDateTime": lambda: (m.OffsetDateTime(2020, 2, 3, 4, offset=3), {"ignore_dst": True}),
    }[typ]()
    r = w.attempt(x.round, unit, inc, **kw)
    if unit == "day":
        ok = w.band(inc == 1, typ in ("LocalDateTime", "OffsetDateTime"))
    elif unit == "hour" and typ == "TimeDelta":
        # 1000 itself: the two documented implementations differ
        w.assume(inc != 1000)
        ok = w.band(inc >= 1, inc < 1000)
    else:
        w.assume(w.bor(inc < 1000, inc > 1000))
        ok = w.band(inc >= 1, inc <= 1000, w.bor(*[inc == v for v in INCS[unit]]))
    if ok:
        w.check("valid increment accepted", r.ok)
    else:
        w.check("invalid increment raises ValueError", r.raised(ValueError))


@PROP.job(cross(typ=["Time", "TimeDelta", "Instant", "LocalDateTime", "OffsetDateTime"]))
def bad_names(w, typ):
    m = w.m
    i = w.int("i", 0, 59)
    x, kw = {
        "Time": lambda: (m.Time(12, i, 56, nanosecond=7), {}),
        "TimeDelta": lambda: (m.TimeDelta(seconds=i), {}),
        "Instant": lambda: (m.Instant.from_utc(2020, 2, 3, 4, i), {}),
        "LocalDateTime": lambda: (m.LocalDateTime(2020, 2, 3, 4, i), {}),
        "OffsetDateTime": lambda: (m.OffsetDateTime(2020, 2, 3, 4, i, offset=3), {"ignore_dst": True}),
    }[typ]()
    w.must_raise("unknown unit", ValueError, x.round, "fortnight", **kw)
    w.must_raise("unknown mode", ValueError, x.round, "second", mode="half_odd", **kw)
    w.must_raise("unknown mode", ValueError, x.round, "second", 1, "up", **kw)
