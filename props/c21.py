"""Patching the clock: histories of ticks, shifts and readings."""
from sx.runner import Prop, cross

PROP = Prop(
    "C21",
    functions=["patch_current_time", "_TimePatch.shift", "_patch_time_frozen",
               "_patch_time_keep_ticking", "_unpatch_time", "*.now", "Date.today_in_system_tz"],
    bounds="every pin (moment, offset, zone with any 1 transition), every history of 3 (thorough: 4) "
           "steps of: the real clock advances by any amount under 10 years, shift by any exact or "
           "calendar amount, read; the clock also advancing between any two readings inside a step",
    outside="nested patches (see the known finding), threads",
    stubs=["time.time_ns: the harness's clock; datetime/zoneinfo: models of CPython 3.12"],
)
NS = 10**9
EPOCH = 719163 * 86400
KINDS = ["instant", "offset", "zoned", "system"]
LO, HI = 200 * 366 * 86400, (9999 - 200) * 365 * 86400
YEAR10 = 3650 * 86400 * NS


class Clock:
    """the real clock: nanoseconds since the epoch, moved by the harness"""

    def __init__(self, w, free=False):
        self.w, self.free, self.k, self.used = w, free, 0, 0
        self.t = w.int("clock", 0, 4 * 10**9 * NS)
        self.first = self.last = None
        w.clock(self.readings())

    def readings(self):
        while True:
            if self.free:
                self.tick()
            yield self.t

    def tick(self):
        d = self.w.int(f"tick{self.k}", 0, YEAR10)
        self.k += 1
        self.t = self.t + d
        return d


def pin_of(w, kind):
    z = w.zone("Z/A", 1) if kind == "zoned" else None
    s = w.system_zone(1) if kind == "system" else None
    x, u, n, o = w.exact(kind, "x", z, s)
    w.assume(w.band(u >= LO, u <= HI))
    return x, (u - EPOCH) * NS + n


def dated(w, kind, day):
    """a pin at any time of the given day"""
    a = (*day, w.int("h", 0, 23), w.int("mi", 0, 59), w.int("s", 0, 59))
    n = w.int("n", 0, NS - 1)
    if kind == "offset":
        od, o = w.offset("o")
        x = w.m.OffsetDateTime(*a, nanosecond=n, offset=od)
    elif kind == "zoned":
        w.zone("Z/A", 0)
        x = w.m.ZonedDateTime(*a, nanosecond=n, tz="Z/A")
    else:
        w.system_zone(0)
        x = w.m.SystemDateTime(*a, nanosecond=n)
    return x, x.timestamp_nanos()


def now_ns(w):
    return w.m.Instant.now().timestamp_nanos()


def opts(kind):
    return {"ignore_dst": True} if kind == "offset" else {}


@PROP.job(cross(kind=KINDS, tick=[False, True], n=[3]), thorough=cross(kind=KINDS, tick=[False, True], n=[4]),
          fork=True)
def history(w, kind, tick, n):
    """exact shifts and ticks in any order"""
    x, ns = pin_of(w, kind)
    c = Clock(w)
    with w.m.patch_current_time(x, keep_ticking=tick) as p:
        w.check("starts at the pin", now_ns(w) == ns)
        for i in range(n):
            what = w.choice(f"step{i}", ["tick", "shift", "read"])
            if what == "tick":
                d = c.tick()
                if tick:
                    ns = ns + d
            elif what == "shift":
                a = w.int(f"a{i}", -YEAR10, YEAR10)
                p.shift(nanoseconds=a, **opts(kind))
                ns = ns + a
            else:
                w.check("reading", now_ns(w) == ns)
        w.check("final reading", now_ns(w) == ns)
        w.check("reading does not move it", now_ns(w) == ns)
    w.check("afterwards the clock again", now_ns(w) == c.t)


@PROP.job(cross(kind=["instant", "zoned"], steps=["s", "ss", "sr", "rs"]))
def creeping(w, kind, steps):
    """the clock may advance between any two readings: never faster than the
    real clock, never backwards"""
    x, ns = pin_of(w, kind)
    c = Clock(w, free=True)
    start = c.t
    with w.m.patch_current_time(x, keep_ticking=True) as p:
        prev = now_ns(w)
        w.check("not before the pin", prev >= ns)
        for i, st in enumerate(steps):
            if st == "s":
                a = w.int(f"a{i}", -YEAR10, YEAR10)
                p.shift(nanoseconds=a)
                ns, prev = ns + a, prev + a
            else:
                r = now_ns(w)
                w.check("never backwards", r >= ns)
                prev = r
        end = now_ns(w)
        w.check("not before pin and shifts", end >= ns)
        w.check("not faster than the clock", end - ns <= c.t - start)
    r = now_ns(w)
    w.check("afterwards the clock again", r == c.t)


CAL = ["years", "months", "weeks", "days", "mixed"]


@PROP.job(cross(kind=["offset"], tick=[False, True], unit=CAL)
          + cross(kind=["zoned", "system"], tick=[True], unit=["months", "days"])
          + cross(kind=["zoned", "system"], tick=[False], unit=["weeks", "days"]),
          thorough=cross(kind=["zoned", "system"], tick=[False, True], unit=CAL), fork=True)
def calendar(w, kind, tick, unit):
    """calendar shifts are those of the pinned type"""
    day = None
    if tick:
        # the clock crosses midnight or not, at the ends of months
        day = w.choice("date", [(2023, 1, 31), (2024, 2, 28), (2023, 12, 30)][: 2 if kind == "offset" else 1])
        x, ns = dated(w, kind, day)
    else:
        x, ns = pin_of(w, kind)
    c = Clock(w)
    k = w.choice("k", [1, -13][: 2 if kind == "offset" else 1]) if tick or unit == "mixed" \
        else w.int("k", -100, 100)
    kw = {unit: k} if unit != "mixed" else {"months": k, "days": 3, "hours": -k}
    if kind != "offset" and not tick and w.bool("later"):
        kw["disambiguate"] = "later"
    with w.m.patch_current_time(x, keep_ticking=tick) as p:
        d = c.tick()
        w.assume(w.bor(not tick, d < 86400 * NS))
        p.shift(**kw, **opts(kind))
        cur = x
        if tick:
            cur = x.add(nanoseconds=d, **opts(kind))
        want = cur.add(**kw, **opts(kind))
        w.check("shifted as the pinned type shifts", now_ns(w) == want.timestamp_nanos())
        a = w.int("a", -YEAR10, YEAR10)
        p.shift(nanoseconds=a, **opts(kind))
        w.check("and again", now_ns(w) == want.timestamp_nanos() + a)


@PROP.job(cross(tick=[False, True], fails=[False, True]))
def everywhere(w, tick, fails):
    """every now() reads the patched clock; leaving restores it, also by an exception"""
    z, s = w.zone("Z/A", 1), w.system_zone(1)
    x, u, n, o = w.exact("offset", "x", None, None)
    w.assume(w.band(u >= LO, u <= HI))
    ns = (u - EPOCH) * NS + n
    c = Clock(w)
    m = w.m
    try:
        with m.patch_current_time(x, keep_ticking=tick):
            d = c.tick()
            if tick:
                ns = ns + d
            w.check("Instant", m.Instant.now().timestamp_nanos() == ns)
            w.check("OffsetDateTime", m.OffsetDateTime.now(3, ignore_dst=True).timestamp_nanos() == ns)
            w.check("ZonedDateTime", m.ZonedDateTime.now("Z/A").timestamp_nanos() == ns)
            y = m.SystemDateTime.now()
            w.check("SystemDateTime", y.timestamp_nanos() == ns)
            w.check("today", m.Date.today_in_system_tz() == y.date())
            if fails:
                raise KeyError("x")
    except KeyError:
        w.check("the exception comes through", fails)
    w.check("Instant again", m.Instant.now().timestamp_nanos() == c.t)
    w.check("OffsetDateTime again", m.OffsetDateTime.now(3, ignore_dst=True).timestamp_nanos() == c.t)
    w.check("ZonedDateTime again", m.ZonedDateTime.now("Z/A").timestamp_nanos() == c.t)
    w.check("SystemDateTime again", m.SystemDateTime.now().timestamp_nanos() == c.t)


@PROP.job(cross(tick=[False, True]))
def decorator(w, tick):
    x, ns = pin_of(w, "instant")
    c = Clock(w)

    @w.m.patch_current_time(x, keep_ticking=tick)
    def f(a, b=0):
        return now_ns(w), a, b

    r, a, b = f(1, b=2)
    w.check("patched inside", r == ns)
    w.check("arguments pass", a == 1 and b == 2)
    w.check("clock outside", now_ns(w) == c.t)
    w.check("a second call patches again", f(0)[0] == ns)


@PROP.job(cross(t1=[False, True], t2=[False, True]))
def sequence(w, t1, t2):
    """one patch after another"""
    x, n1 = pin_of(w, "instant")
    y = w.m.Instant.from_timestamp_nanos(w.int("y", 0, 10**19))
    c = Clock(w)
    with w.m.patch_current_time(x, keep_ticking=t1):
        c.tick()
    with w.m.patch_current_time(y, keep_ticking=t2):
        d = c.tick()
        w.check("the second pin", now_ns(w) == y.timestamp_nanos() + (d if t2 else 0))
    w.check("the clock", now_ns(w) == c.t)


@PROP.job(cross(t1=[False, True], t2=[False, True]))
def nested(w, t1, t2):
    """inside another patch; leaving the inner one returns to the outer one"""
    x, n1 = pin_of(w, "instant")
    y = w.m.Instant.from_timestamp_nanos(w.int("y", 0, 10**19))
    Clock(w)
    with w.m.patch_current_time(x, keep_ticking=t1):
        with w.m.patch_current_time(y, keep_ticking=t2):
            w.check("the inner pin", now_ns(w) == y.timestamp_nanos())
        w.check("the outer patch again", now_ns(w) == n1)
