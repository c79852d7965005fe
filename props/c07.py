"""Exact arithmetic on moments: adding durations, differences."""
from sx.runner import Prop, cross

PROP = Prop(
    "C07",
    functions=["Instant.add/subtract/__add__/__sub__/difference", "ZonedDateTime.__add__/__sub__/"
               "add/subtract (time units)", "SystemDateTime.__add__/__sub__/add/subtract (time "
               "units)", "OffsetDateTime.__sub__/add/subtract(ignore_dst)", "TimeDelta.__init__"],
    bounds="every moment 0001..9999 to the nanosecond; every TimeDelta (±9999 years); every offset "
           "within ±24 h; zones and system zone with any 2 (thorough: 3) transitions",
    outside="float arguments; zones outside the stated zone bounds",
    stubs=["datetime/zoneinfo: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
KINDS = ["instant", "offset", "zoned", "system"]
NS = 10**9
LO, HI = 86400 * NS, 3652060 * 86400 * NS


def zones(w, kinds, K):
    z = w.zone("Z/A", K) if "zoned" in kinds else None
    s = w.system_zone(K) if "system" in kinds else None
    return z, s


def utc_ns(w, x):
    """nanoseconds since ordinal 0"""
    i = x if isinstance(x, w.m.Instant) else x.instant()
    return i.timestamp_nanos() + 719163 * 86400 * NS


def judge(w, r, kind, t, z, s, off, what):
    """r: attempt; t: expected UTC nanoseconds"""
    sec, n = w.int_div(t, NS)
    ok = w.band(t >= LO, t < HI)
    if not ok:
        w.check(what + ": out of range raises", r.raised(*RANGE))
        return
    o = {"instant": lambda: 0, "offset": lambda: off, "zoned": lambda: z.off_utc(sec),
         "system": lambda: s.off_utc(sec)}[kind]()
    l = sec + o
    if not w.band(l >= 86400, l < 3652060 * 86400):
        # local time outside year 1..9999: refused, never wrapped
        w.check(what + ": local out of range raises", r.raised(*RANGE))
        return
    w.check(what + ": succeeds", r.ok)
    v = r.value
    w.check(what + ": exact moment", utc_ns(w, v) == t)
    if kind != "instant":
        w.check(what + ": local time shows the zone's offset",
                w.band(w.loc_s(v) == l, v.nanosecond == n, w.off_s(v) == o))
    if kind == "zoned":
        w.check(what + ": zone kept", v.tz == z.name)
    w.obs(what, (w.inst_s(v)[0], v.timestamp_nanos()))


@PROP.job(cross(kind=KINDS, form=["plus", "minus", "add", "subtract"], K=[2]),
          thorough=cross(kind=KINDS, form=["plus", "minus", "add", "subtract"], K=[3]))
def shift_delta(w, kind, form, K):
    z, s = zones(w, [kind], K)
    x, u, n, off = w.exact(kind, "x", z, s)
    d, tot = w.tdelta("d")
    kw = {"ignore_dst": True} if kind == "offset" else {}
    if kind == "offset" and form in ("plus", "minus"):
        w.check("offset has no operators", True)
        return
    if kind == "instant" and form in ("add", "subtract"):
        w.check("instant add() takes keywords", True)
        return
    f = {"plus": lambda: x + d, "minus": lambda: x - d, "add": lambda: x.add(d, **kw),
         "subtract": lambda: x.subtract(d, **kw)}[form]
    r = w.attempt(f)
    t = u * NS + n + (tot if form in ("plus", "add") else -tot)
    judge(w, r, kind, t, z, s, off, form)


UNITS = {"hours": 3600 * NS, "minutes": 60 * NS, "seconds": NS, "milliseconds": 10**6,
         "microseconds": 1000, "nanoseconds": 1}


@PROP.job(cross(kind=KINDS, form=["add", "subtract"], units=["hms", "frac", "hours", "nanoseconds"],
                K=[1]))
def shift_kwargs(w, kind, form, units, K):
    z, s = zones(w, [kind], K)
    x, u, n, off = w.exact(kind, "x", z, s)
    us = {"hms": ["hours", "minutes", "seconds"],
          "frac": ["milliseconds", "microseconds", "nanoseconds"]}.get(units, [units])
    kw, tot = {}, 0
    for k in us:
        if k in ("hours", "minutes", "seconds"):
            kw[k] = w.int(k, -10**7, 10**7)
        else:
            # every value of about ±1000 s, written in seconds and a rest
            per = NS // UNITS[k]
            kw[k] = w.int(k + ".s", -1000, 1000) * per + w.int(k, 0, per - 1)
        tot = tot + kw[k] * UNITS[k]
    if kind == "offset":
        kw["ignore_dst"] = True
    r = w.attempt(x.add if form == "add" else x.subtract, **kw)
    judge(w, r, kind, u * NS + n + (tot if form == "add" else -tot), z, s, off, form)


@PROP.job(cross(a=KINDS, b=KINDS, K=[1]), thorough=cross(a=KINDS, b=KINDS, K=[2]))
def difference(w, a, b, K):
    z, s = zones(w, [a, b], K)
    x, u, n, _ = w.exact(a, "x", z, s)
    y, v, m, _ = w.exact(b, "y", z, s)
    d = x - y
    w.check("difference is exact", d.in_nanoseconds() == (u - v) * NS + n - m)
    w.check("difference() is -", x.difference(y) == d)
    w.check("antisymmetric", y - x == -d)
    o = {"instant": 0, "zoned": z and z.off_utc(u), "system": s and s.off_utc(u)}.get(b)
    if o is not None and w.band(u + o >= 86400, u + o < 3652060 * 86400):
        w.check("y + (x - y) is x", y + d == x)
    o = {"instant": 0, "zoned": z and z.off_utc(v), "system": s and s.off_utc(v)}.get(a)
    if o is not None and w.band(v + o >= 86400, v + o < 3652060 * 86400):
        w.check("x - (x - y) is y", x - d == y)


@PROP.job(cross(kind=["instant", "zoned", "system"], K=[1]))
def composition(w, kind, K):
    """(x + a) + b == x + (a + b) wherever both are in range"""
    z, s = zones(w, [kind], K)
    x, u, n, _ = w.exact(kind, "x", z, s)
    a, ta = w.tdelta("a", -10**10, 10**10)
    b, tb = w.tdelta("b", -10**10, 10**10)
    r1 = w.attempt(lambda: (x + a) + b)
    r2 = w.attempt(lambda: x + (a + b))
    if w.band(r1.ok, r2.ok):
        w.check("associative", r1.value == r2.value)
        w.check("same offset", r1.value.exact_eq(r2.value))
        w.check("undo", (r1.value - b) - a == x)


@PROP.job(cross(form=["plus", "minus"], b=KINDS))
def made_later(w, form, b):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    if b == "zoned":
        shift_delta(w, "zoned", form, 1)
    else:
        difference(w, *(("zoned", b) if form == "minus" else (b, "zoned")), 1)
