"""UNIX timestamps."""
from sx.runner import Prop, cross
from props.c07 import KINDS, NS, zones, utc_ns

PROP = Prop(
    "C08",
    functions=["_KnowsInstant.timestamp/timestamp_millis/timestamp_nanos",
               "Instant/OffsetDateTime/ZonedDateTime/SystemDateTime.from_timestamp/"
               "from_timestamp_millis/from_timestamp_nanos"],
    bounds="every moment 0001..9999 to the nanosecond; integer timestamps ±10^12 s (and the same in "
           "ms/ns), i.e. far outside the range too; every offset; zones with any 2 (3) transitions; float "
           "timestamps n/2^k, n any integer below 2^53, k in 0, 9, 30, 60, 80 (1, 14, 22, 45, 100, 500 too)",
    outside="float timestamps with other exponents, nan and infinities; timestamps beyond ±10^12 s",
    stubs=["datetime/zoneinfo: models of CPython 3.12"],
)
EPOCH = 719163 * 86400
RANGE = (ValueError, OverflowError, OSError)


def ctor(w, kind, name, z, off):
    m = w.m
    cls = {"instant": m.Instant, "offset": m.OffsetDateTime, "zoned": m.ZonedDateTime,
           "system": m.SystemDateTime}[kind]
    kw = {"instant": {}, "system": {}, "zoned": {"tz": "Z/A"},
          "offset": {"offset": off, "ignore_dst": True}}[kind]
    return lambda i: getattr(cls, name)(i, **kw)


@PROP.job(cross(kind=KINDS, K=[2]), thorough=cross(kind=KINDS, K=[3]))
def read(w, kind, K):
    z, s = zones(w, [kind], K)
    x, u, n, off = w.exact(kind, "x", z, s)
    t = u - EPOCH
    w.check("timestamp: whole seconds", x.timestamp() == t)
    w.check("timestamp_millis", x.timestamp_millis() == t * 1000 + n // 10**6)
    w.check("whole numbers", all(w.is_int(v) for v in (
        x.timestamp(), x.timestamp_millis(), x.timestamp_nanos())))
    w.check("timestamp_nanos", x.timestamp_nanos() == t * NS + n)
    if kind != "offset":
        od = None
    else:
        od = x.offset
    w.check("from_timestamp_nanos inverts timestamp_nanos",
            ctor(w, kind, "from_timestamp_nanos", z, od)(x.timestamp_nanos()).exact_eq(x))
    ms = ctor(w, kind, "from_timestamp_millis", z, od)(x.timestamp_millis())
    w.check("millis round trip truncates to the millisecond",
            ms.timestamp_nanos() == t * NS + n - n % 10**6)


@PROP.job(cross(kind=KINDS, unit=["", "_millis", "_nanos"], K=[2]),
          thorough=cross(kind=KINDS, unit=["", "_millis", "_nanos"], K=[3]))
def create(w, kind, unit, K):
    z, s = zones(w, [kind], K)
    per = {"": 1, "_millis": 1000, "_nanos": NS}[unit]
    i = w.int("i", -10**12 * per, 10**12 * per)
    od = o = None
    if kind == "offset":
        od, o = w.offset("off")
    r = w.attempt(ctor(w, kind, "from_timestamp" + unit, z, od), i)
    ns = i * (NS // per)
    sec, n = w.int_div(ns, NS)
    u = sec + EPOCH
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("out of range raises", r.raised(*RANGE))
        return
    if kind == "zoned":
        o = z.off_utc(u)
    elif kind == "system":
        o = s.off_utc(u)
    elif kind == "instant":
        o = 0
    l = u + o
    if not w.band(l >= 86400, l < 3652060 * 86400):
        w.check("local out of range raises", r.raised(*RANGE))
        return
    w.check("in range succeeds", r.ok)
    w.check("moment", r.value.timestamp_nanos() == ns)
    if kind != "instant":
        w.check("local time", w.band(w.loc_s(r.value) == l, r.value.nanosecond == n,
                                     w.off_s(r.value) == o))
    w.obs("v", r.value.timestamp_nanos())


BITS = [0, 9, 30, 60, 80]


@PROP.job(cross(kind=KINDS, k=BITS, K=[2]),
          thorough=cross(kind=KINDS, k=BITS + [1, 14, 22, 45, 100, 500], K=[3]))
def create_float(w, kind, k, K):
    z, s = zones(w, [kind], K)
    den = 2 ** k
    lim = min(10**12 * den, 2**53)
    n = w.int("n", -lim, lim)
    i = n / den                       # exact: n is below 2**53
    od = o = None
    if kind == "offset":
        od, o = w.offset("off")
    r = w.attempt(ctor(w, kind, "from_timestamp", z, od), i)
    sec, _ = w.int_div(n, den)
    u = sec + EPOCH
    if kind == "zoned":
        o = z.off_utc(u)
    elif kind == "system":
        o = s.off_utc(u)
    elif kind == "instant":
        o = 0
    lo, hi = 2 * 86400, 3652059 * 86400          # a day clear of either end
    if not w.band(u >= lo, u < hi, u + o >= lo, u + o < hi):
        w.check("a value or a range error", w.bor(r.ok, r.raised(*RANGE)))
        if w.bor(u < 86400, u >= 3652060 * 86400):
            w.check("out of range raises", r.raised(*RANGE))
        return
    w.check("in range succeeds", r.ok)
    got = r.value.timestamp_nanos()
    w.check("whole nanoseconds", w.is_int(got))
    w.check("whole nanosecond", w.is_int(r.value.nanosecond) if kind != "instant" else True)
    if k <= 9:
        w.check("exact where the float is a whole number of nanoseconds", got * den == n * NS)
    else:
        err = abs(got * den - n * NS)
        w.check("within a nanosecond of the float", err * 10**6 <= den * (10**6 + 1))
    if kind != "instant":
        gs, gn = w.int_div(got, NS)
        w.check("local time", w.band(w.loc_s(r.value) == gs + EPOCH + w.off_s(r.value),
                                     r.value.nanosecond == gn))
    w.check("nanosecond in range", w.band(r.value.timestamp_nanos() % NS >= 0,
                                          r.value.exact_eq(ctor(w, kind, "from_timestamp_nanos", z, od)(got))))


@PROP.job(cross(unit=["_millis", "_nanos"], kind=KINDS))
def ints_only(w, unit, kind):
    i = w.int("i", 0, 3)
    z, s = zones(w, [kind], 1)
    f = ctor(w, kind, "from_timestamp" + unit, z, 1)
    w.must_raise("a float timestamp is refused", TypeError, f, 1.5)
    w.must_raise("a string timestamp is refused", TypeError, f, "1")


@PROP.job(cross(kind=KINDS, K=[2]))
def now(w, kind, K):
    z, s = zones(w, [kind], K)
    t = w.int("clock", -62135596800 * NS + 10 * 86400 * NS, 253402300800 * NS - 10 * 86400 * NS)
    w.clock([t])
    m = w.m
    if kind == "instant":
        x = m.Instant.now()
    elif kind == "offset":
        od, o = w.offset("off")
        x = m.OffsetDateTime.now(od, ignore_dst=True)
        w.check("offset", w.off_s(x) == o)
    elif kind == "zoned":
        x = m.ZonedDateTime.now("Z/A")
        w.check("zone", x.tz == "Z/A")
    else:
        x = m.SystemDateTime.now()
    w.check("now() is the clock's moment", x.timestamp_nanos() == t)
    if kind in ("zoned", "system"):
        zz = z or s
        w.check("now() has the zone's offset", w.off_s(x) == zz.off_utc(t // NS + EPOCH))
