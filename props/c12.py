"""Days in a zone: start, length, and rounding of zoned and system time."""
from sx.runner import Prop, cross
from props.c04 import INCS, UNITS, NS as UNIT_NS, MODES, expected

PROP = Prop(
    "C12",
    functions=["ZonedDateTime/SystemDateTime.start_of_day/day_length/round",
               "LocalDateTime._round_unchecked", "Time._round_unchecked",
               "_resolve_ambiguity_using_prev_offset",
               "_resolve_system_ambiguity_using_prev_offset"],
    bounds="every moment; zones and the system zone with any 2 (thorough: 3) transitions; every "
           "unit and mode; increments: smallest, largest and one in between per unit "
           "(thorough: all)",
    outside="zones outside the stated zone bounds; rounding to the day on days whose midnight "
            "is skipped by a gap that began earlier",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
NS = 10**9
DAY = 86400
BOTH = ["zoned", "system"]


def setup(w, kind, K):
    z = w.zone("Z/A", K) if kind == "zoned" else w.system_zone(K)
    x, u, n, off = w.exact(kind, "x", z, z)
    return z, x, u, n, off


def in_range(w, u):
    return w.band(u >= DAY, u < 3652060 * DAY)


@PROP.job(cross(kind=BOTH, K=[2]), thorough=cross(kind=BOTH, K=[3]))
def start_of_day(w, kind, K):
    z, x, u, n, off = setup(w, kind, K)
    day, tod = w.int_div(u + off, DAY)
    s = z.first_at_or_after(day * DAY)
    r = w.attempt(x.start_of_day)
    if not w.band(in_range(w, s), in_range(w, day * DAY)):
        w.check("out of range raises", r.raised(*RANGE))
        return
    if not r.ok and kind == "system" and w.near_edge(s, u):
        w.check("refused near the limits", r.raised(*RANGE))
        return
    w.check("start_of_day: accepted", r.ok)
    v = r.value
    w.check("start_of_day: the first moment of the day",
            v.timestamp_nanos() == (s - 719163 * DAY) * NS)
    o = z.off_utc(s)
    w.check("start_of_day: local and offset", w.band(w.loc_s(v) == s + o, w.off_s(v) == o))
    w.check("start_of_day: same day", w.int_div(w.loc_s(v), DAY)[0] == day)
    w.check("start_of_day: not after the value, unless the day began twice",
            w.bor(s <= u, z.is_repeated(day * DAY)))
    if kind == "zoned":
        w.check("start_of_day: zone", v.tz == x.tz)


@PROP.job(cross(kind=BOTH, K=[2]), thorough=cross(kind=BOTH, K=[3]))
def day_length(w, kind, K):
    z, x, u, n, off = setup(w, kind, K)
    day, tod = w.int_div(u + off, DAY)
    a, b = z.first_at_or_after(day * DAY), z.first_at_or_after(day * DAY + DAY)
    w.assume(w.bnot(w.near_edge(a, b, u, day * DAY, day * DAY + DAY)))
    w.check("day_length", x.day_length().in_nanoseconds() == (b - a) * NS)


@PROP.job(cross(kind=BOTH))
def day_edge(w, kind):
    """at the range limits: right or refused"""
    z, x, u, n, off = setup(w, kind, 1)
    day, tod = w.int_div(u + off, DAY)
    a, b = z.first_at_or_after(day * DAY), z.first_at_or_after(day * DAY + DAY)
    w.assume(w.near_edge(a, b, u, day * DAY, day * DAY + DAY))
    r = w.attempt(x.day_length)
    if r.ok:
        w.check("day_length", r.value.in_nanoseconds() == (b - a) * NS)
    else:
        w.check("day_length refused", r.raised(*RANGE))


def judge(w, r, z, s, n, prev):
    """s, n: the local time asked for; offset retained if possible"""
    if not w.band(s < 3652060 * DAY):
        w.check("round: out of range raises", r.raised(*RANGE))
        return
    u = z.resolve_keeping(s, prev)
    o = z.off_utc(u)
    if not w.band(in_range(w, u), in_range(w, u + o)):
        w.check("round: out of range raises", r.raised(*RANGE))
        return
    if z.name == "SYS" and not r.ok and w.near_edge(s, u):
        w.check("round: refused near the limits", r.raised(*RANGE))
        return
    w.check("round: accepted", r.ok)
    v = r.value
    w.check("round: moment", v.timestamp_nanos() == (u - 719163 * DAY) * NS + n)
    w.check("round: local and offset", w.band(w.loc_s(v) == u + o, v.nanosecond == n,
                                              w.off_s(v) == o))
    if z.name != "SYS":
        w.check("round: zone", v.tz == z.name)


def _inc(u):
    l = INCS[u]
    return sorted({l[0], l[len(l) // 2], l[-1]})


def cases(full):
    """unit, increment, mode, kind: every mode for each unit on one kind; the
    shared helpers are the same"""
    out = []
    for k in BOTH:
        for iu, u in enumerate(UNITS):
            for ii, inc in enumerate(INCS[u] if full else _inc(u)):
                for im, m in enumerate(MODES):
                    if full or (iu + ii + im) % 3 == (0 if k == "zoned" else 1):
                        out.append(dict(kind=k, unit=u, inc=inc, mode=m,
                                        K=2 if k == "zoned" else 1))
    return out


@PROP.job(cases(False), thorough=cases(True), fork=True)
def round_time(w, kind, unit, inc, mode, K):
    z, x, u, n, off = setup(w, kind, K)
    r = w.attempt(x.round, unit, increment=inc, mode=mode)
    day, tod = w.int_div(u + off, DAY)
    inc_ns = inc * UNIT_NS[unit]
    if inc_ns % NS == 0:
        # whole seconds: the fraction only matters as zero or not
        i = inc_ns // NS
        q, rem = w.int_div(tod, i)
        two = 2 * rem
        up = {
            "floor": lambda: False,
            "ceil": lambda: w.bor(rem > 0, n > 0),
            "half_floor": lambda: 2 * (rem * NS + n) > inc_ns,
            "half_ceil": lambda: 2 * (rem * NS + n) >= inc_ns,
            "half_even": lambda: w.bor(2 * (rem * NS + n) > inc_ns, w.band(
                2 * (rem * NS + n) == inc_ns, q % 2 == 1)),
        }[mode]()
        judge(w, r, z, day * DAY + (q + (1 if up else 0)) * i, 0, off)
    else:
        e = expected(w, n, inc_ns, mode) if NS % (2 * inc_ns) == 0 else None
        if e is None:
            e = expected(w, tod * NS + n, inc_ns, mode)
            sec, m = w.int_div(e, NS)
            judge(w, r, z, day * DAY + sec, m, off)
        else:
            c, m = w.int_div(e, NS)
            judge(w, r, z, day * DAY + tod + c, m, off)


@PROP.job(cross(kind=BOTH, mode=MODES, K=[2]), thorough=cross(kind=BOTH, mode=MODES, K=[3]), fork=True)
def round_day(w, kind, mode, K):
    z, x, u, n, off = setup(w, kind, K)
    day, tod = w.int_div(u + off, DAY)
    w.assume(w.bnot(w.bor(z.late_gap_over(day * DAY), z.late_gap_over(day * DAY + DAY))))
    a, b = z.first_at_or_after(day * DAY), z.first_at_or_after(day * DAY + DAY)
    w.assume(w.bnot(w.near_edge(a, b, u, day * DAY, day * DAY + DAY)))
    r = w.attempt(x.round, "day", mode=mode)
    length = (b - a) * NS
    t = tod * NS + n
    up = {
        "floor": lambda: False,
        "ceil": lambda: t > 0,
        "half_floor": lambda: 2 * t > length,
        "half_ceil": lambda: 2 * t >= length,
        "half_even": lambda: 2 * t > length,
    }[mode]()
    judge(w, r, z, (day + 1 if up else day) * DAY, 0, off)


@PROP.job(cross(kind=BOTH))
def invalid(w, kind):
    z, x, u, n, off = setup(w, kind, 1)
    w.assume(w.bnot(w.near_edge(u, u + off)))
    w.must_raise("unknown unit", ValueError, x.round, "fortnight")
    w.must_raise("unknown mode", ValueError, x.round, "second", mode="half_odd")
    w.must_raise("bad increment", ValueError, x.round, "minute", increment=7)
    w.must_raise("zero increment", ValueError, x.round, "minute", increment=0)
    w.must_raise("days increment", ValueError, x.round, "day", increment=2)


# values made with disambiguate="later", which leaves a trace inside them

@PROP.job(cross(kind=["zoned"]))
def start_of_day_made_later(w, kind):
    w.made_later = True
    start_of_day(w, kind, 1)


@PROP.job(cross(kind=["zoned"]))
def day_made_later(w, kind):
    w.made_later = True
    day_length(w, kind, 1)


LATER = {
    "day": lambda w: round_day(w, "zoned", "half_even", 1),
    "hour": lambda w: round_time(w, "zoned", "hour", 1, "ceil", 1),
}


@PROP.job(cross(unit=list(LATER)), fork=True)
def round_made_later(w, unit):
    w.made_later = True
    LATER[unit](w)
