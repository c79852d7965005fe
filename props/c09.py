"""Conversions between the exact types keep the moment; the parts agree."""
from sx.runner import Prop, cross

PROP = Prop(
    "C09",
    functions=["_KnowsInstantAndLocal.instant/local", "_KnowsInstant.to_fixed_offset/to_tz/"
               "to_system_tz", "Instant.instant-less conversions", "*.offset", "*.date/time",
               "ZonedDateTime.tz", "_load_offset"],
    bounds="every moment 0001..9999 to the nanosecond; every offset within ±24 h (seconds); zones "
           "and the system zone with any 2 (thorough: 3) transitions of at most 24 h",
    outside="zones outside the stated zone bounds",
    stubs=["datetime/zoneinfo: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
KINDS = ["instant", "offset", "zoned", "system"]
NS = 10**9


def fits(w, l):
    return w.band(l >= 86400, l < 3652060 * 86400)


def shown(w, what, r, kind, u, n, off, z):
    """r: attempt of a conversion; must show moment (u, n) at offset `off`"""
    l = u + off
    if not fits(w, l):
        w.check(what + ": local time out of range raises", r.raised(*RANGE))
        return
    w.check(what + ": succeeds", r.ok)
    v = r.value
    m = w.m
    cls = {"instant": m.Instant, "offset": m.OffsetDateTime, "zoned": m.ZonedDateTime,
           "system": m.SystemDateTime}[kind]
    w.check(what + ": type", type(v) is cls)
    w.check(what + ": same moment", v.timestamp_nanos() == (u - 719163 * 86400) * NS + n)
    if kind == "instant":
        return
    w.check(what + ": offset", w.off_s(v) == off)
    w.check(what + ": local is moment plus offset", w.band(w.loc_s(v) == l, v.nanosecond == n))
    lo = v.local()
    w.check(what + ": local()", w.band(w.loc_s(lo) == l, lo.nanosecond == n))
    w.check(what + ": date() and time()", w.band(v.date() == lo.date(), v.time() == lo.time()))
    if kind == "zoned":
        w.check(what + ": tz", v.tz == z.name)


def convert(w, x, kind, z):
    return {"offset": lambda: x.to_fixed_offset(), "zoned": lambda: x.to_tz(z.name),
            "system": lambda: x.to_system_tz(), "instant": lambda: x.instant()}[kind]


@PROP.job(cross(a=KINDS, b=KINDS, K=[2]), thorough=cross(a=KINDS, b=KINDS, K=[3]))
def convert_pair(w, a, b, K):
    z1 = w.zone("Z/A", K) if a == "zoned" else None
    z2 = w.zone("Z/B", K) if b == "zoned" else None
    s = w.system_zone(K) if "system" in (a, b) else None
    x, u, n, off = w.exact(a, "x", z1, s)
    if a == "instant" and b == "instant":
        w.check("n/a", True)
        return
    r = w.attempt(convert(w, x, b, z2))
    o = {"instant": lambda: 0, "offset": lambda: off, "zoned": lambda: z2.off_utc(u),
         "system": lambda: s.off_utc(u)}[b]()
    shown(w, "convert", r, b, u, n, o, z2)
    if r.ok:
        w.check("equal to the original", r.value == x)
        w.check("same hash", w.hash(r.value) == w.hash(x))


@PROP.job(cross(a=KINDS, form=["delta", "int"]))
def fixed(w, a, form):
    z = w.zone("Z/A", 1) if a == "zoned" else None
    s = w.system_zone(1) if a == "system" else None
    x, u, n, _ = w.exact(a, "x", z, s)
    if form == "int":
        h = w.int("h", -30, 30)
        r = w.attempt(x.to_fixed_offset, h)
        o = h * 3600
    else:
        o = w.int("o", -100000, 100000)
        r = w.attempt(x.to_fixed_offset, w.m.TimeDelta(seconds=o))
    if w.band(o > -86400, o < 86400):
        shown(w, "to_fixed_offset", r, "offset", u, n, o, None)
    else:
        w.check("offset of a day or more raises ValueError", r.raised(ValueError))


@PROP.job(cross(a=KINDS))
def fixed_subsecond(w, a):
    """an offset with a fraction of a second is refused"""
    z = w.zone("Z/A", 1) if a == "zoned" else None
    s = w.system_zone(1) if a == "system" else None
    x, u, n, _ = w.exact(a, "x", z, s)
    k = w.int("k", -86400, 86399)
    f = w.int("f", 1, NS - 1)
    w.must_raise("fractional offset", ValueError, x.to_fixed_offset,
                 w.m.TimeDelta(nanoseconds=k * NS + f))


@PROP.job(cross(a=KINDS, via=KINDS, b=KINDS))
def chain(w, a, via, b):
    """a -> via -> b gives the same as a -> b (zoned and system)"""
    z1 = w.zone("Z/A", 1) if a == "zoned" else None
    z2 = w.zone("Z/B", 1) if "zoned" in (via, b) else None
    s = w.system_zone(1) if "system" in (a, b, via) else None
    if a == via or via == b or b == "offset":
        w.check("n/a", True)
        return
    x, u, n, off = w.exact(a, "x", z1, s)
    r = w.attempt(convert(w, x, via, z2))
    if not r.ok:
        w.check("only range errors", r.raised(*RANGE))
        return
    q = r.value
    if b == "instant" and type(q) is w.m.Instant:
        w.check("n/a", True)
        return
    r2 = w.attempt(convert(w, q, b, z2))
    if a == b == "instant":
        w.check("back to the instant", r2.value == x)
        return
    r1 = w.attempt(convert(w, x, b, z2)) if not (a == "instant" and b == "instant") else r2
    w.check("same success", r1.ok == r2.ok)
    if r1.ok:
        w.check("same result", r1.value.exact_eq(r2.value))


@PROP.job(cross(kind=["offset", "zoned", "system"], K=[2]))
def local_determines(w, kind, K):
    """the local time, the offset and the moment determine each other"""
    z = w.zone("Z/A", K) if kind == "zoned" else None
    s = w.system_zone(K) if kind == "system" else None
    x, u, n, off = w.exact(kind, "x", z, s)
    l = x.local()
    i = x.instant()
    w.check("local - offset == instant", l.assume_utc() - x.offset == i)
    w.check("instant shows no offset", w.inst_s(i)[0] == u)
    y = l.assume_fixed_offset(x.offset)
    w.check("assume_fixed_offset of the parts", w.band(y == x, y.offset == x.offset))
    w.check("time on date", x.time().on(x.date()) == l)
    w.check("date at time", x.date().at(x.time()) == l)


@PROP.job(cross(form=["delta", "int"]))
def assume_utc_fixed(w, form):
    """LocalDateTime.assume_utc / assume_fixed_offset for every local time"""
    l, s, n = w.local_dt("l")
    i = l.assume_utc()
    w.check("assume_utc", w.band(w.inst_s(i)[0] == s, i.timestamp_nanos() % NS == n))
    if form == "int":
        h = w.int("h", -26, 26)
        o = h * 3600
        r = w.attempt(l.assume_fixed_offset, h)
    else:
        o = w.int("o", -90000, 90000)
        r = w.attempt(l.assume_fixed_offset, w.m.TimeDelta(seconds=o))
    if not w.band(o > -86400, o < 86400):
        w.check("bad offset raises ValueError", r.raised(ValueError))
        return
    if fits(w, s - o):
        w.check("assume_fixed_offset", r.ok)
        v = r.value
        w.check("moment", w.band(w.inst_s(v)[0] == s - o, w.loc_s(v) == s, v.nanosecond == n,
                                 w.off_s(v) == o))
    else:
        w.check("UTC out of range raises ValueError", r.raised(ValueError))


@PROP.job(cross(b=KINDS))
def made_later(w, b):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    convert_pair(w, "zoned", b, 1)


@PROP.job()
def made_later_local(w):
    w.made_later = True
    local_determines(w, "zoned", 1)
