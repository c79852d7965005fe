"""Local time to moment in a zone: gaps, folds and the disambiguate argument."""
from sx.runner import Prop, cross

PROP = Prop(
    "C10",
    functions=["LocalDateTime.assume_tz/assume_system_tz", "ZonedDateTime.__init__",
               "SystemDateTime.__init__", "_resolve_ambiguity", "_resolve_system_ambiguity",
               "SkippedTime/RepeatedTime", "is_ambiguous"],
    bounds="every local time 0001..9999; zones and the system zone with any 2 (thorough: 4) "
           "transitions at any moment, offsets under ±24 h, shifts of at most 24 h, 14 days apart; "
           "all four disambiguate values and the default",
    outside="zones outside the stated zone bounds",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)
NS = 10**9
HOW = ["compatible", "earlier", "later", "raise", "default"]


def make(w, kind, K):
    if kind == "zoned":
        return w.zone("Z/A", K)
    return w.system_zone(K)


def build(w, kind, form, l, z, how):
    kw = {} if how == "default" else {"disambiguate": how}
    m = w.m
    if form == "assume":
        if kind == "zoned":
            return lambda: l.assume_tz(z.name, **kw)
        return lambda: l.assume_system_tz(**kw)
    a = (l.year, l.month, l.day, l.hour, l.minute, l.second)
    if kind == "zoned":
        return lambda: m.ZonedDateTime(*a, nanosecond=l.nanosecond, tz=z.name, **kw)
    return lambda: m.SystemDateTime(*a, nanosecond=l.nanosecond, **kw)


@PROP.job(cross(kind=["zoned", "system"], form=["assume", "ctor"], how=HOW, K=[2]),
          thorough=cross(kind=["zoned", "system"], form=["assume", "ctor"], how=HOW, K=[3, 4]))
def resolve(w, kind, form, how, K):
    z = make(w, kind, K)
    l, s, n = w.local_dt("l")
    r = w.attempt(build(w, kind, form, l, z, how))
    gap, rep = z.is_gap(s), z.is_repeated(s)
    if how == "raise":
        if gap:
            w.check("skipped time raises SkippedTime", r.raised(w.m.SkippedTime))
            return
        if rep:
            w.check("repeated time raises RepeatedTime", r.raised(w.m.RepeatedTime))
            return
    u = z.resolve(s, "compatible" if how in ("default", "raise") else how)
    if not w.band(u >= 86400, u < 3652060 * 86400):
        w.check("moment out of range raises", r.raised(*RANGE))
        return
    edge = w.band(kind == "system", w.near_edge(s, u))
    if edge:
        if not r.ok:
            w.check("refused near the limits", r.raised(*RANGE))
            return
    w.check("accepted", r.ok)
    x = r.value
    o = z.off_utc(u)
    w.check("the moment chosen", w.band(w.inst_s(x)[0] == u,
                                        x.timestamp_nanos() == (u - 719163 * 86400) * NS + n))
    w.check("offset", w.off_s(x) == o)
    w.check("local time shown", w.band(w.loc_s(x) == u + o, x.nanosecond == n))
    w.check("local time kept unless skipped", w.bor(gap, w.loc_s(x) == s))
    w.check("never inside a gap", w.bnot(z.is_gap(w.loc_s(x))))
    if kind == "zoned" or w.bnot(edge):
        w.check("is_ambiguous", w.iff(x.is_ambiguous(), z.is_repeated(w.loc_s(x))))
    if kind == "zoned":
        w.check("zone", x.tz == z.name)
    w.obs("x", (w.loc_s(x), w.off_s(x)))


@PROP.job(cross(kind=["zoned", "system"], K=[2]), thorough=cross(kind=["zoned", "system"], K=[4]))
def ambiguous(w, kind, K):
    """is_ambiguous of a value made from a moment"""
    z = make(w, kind, K)
    x, u, n, off = w.exact(kind, "x", z, z)
    w.assume(w.bnot(w.near_edge(u, u + off)))
    w.check("is_ambiguous", w.iff(x.is_ambiguous(), z.is_repeated(u + off)))
    # the value is one of the readings of its own local time
    l = x.local()
    e, la = (l.assume_tz(z.name, disambiguate=h) if kind == "zoned"
             else l.assume_system_tz(disambiguate=h) for h in ("earlier", "later"))
    w.check("value is the earlier or later reading", w.bor(x.exact_eq(e), x.exact_eq(la)))
    w.check("earlier <= later", e <= la)
    w.check("equal exactly when unambiguous", w.iff(e == la, w.bnot(x.is_ambiguous())))


@PROP.job(cross(kind=["zoned", "system"], form=["assume", "ctor"]))
def bad_name(w, kind, form):
    z = make(w, kind, 1)
    l, s, n = w.local_dt("l", 100, 3652000)
    for how in ("foo", "", "Earlier"):
        w.must_raise("unknown disambiguate", (ValueError, TypeError),
                     build(w, kind, form, l, z, how))


@PROP.job(cross(f=["year", "month", "day", "hour", "minute", "second", "nanosecond"],
                kind=["zoned", "system", "offset"]))
def bad_fields(w, f, kind):
    """constructors refuse field values that do not exist"""
    hi = {"year": 12000, "nanosecond": 2 * NS}.get(f, 120)
    v = w.int("v", -200, hi)
    y = w.int("y", 5, 9990)
    kw = dict(year=y, month=2, day=3, hour=4, minute=5, second=6, nanosecond=7)
    kw[f] = v
    lo, up = {"year": (1, 9999), "month": (1, 12), "day": (1, w.dim(y, 2)), "hour": (0, 23),
              "minute": (0, 59), "second": (0, 59), "nanosecond": (0, NS - 1)}[f]
    if kind == "zoned":
        z = w.zone("Z/A", 1)
        r = w.attempt(w.m.ZonedDateTime, tz=z.name, **kw)
    elif kind == "system":
        z = w.system_zone(1)
        r = w.attempt(w.m.SystemDateTime, **kw)
    else:
        r = w.attempt(w.m.OffsetDateTime, offset=0, **kw)
    if w.band(v >= lo, v <= up):
        if f == "year":
            w.assume(w.band(v > 1, v < 9999))  # range limits: see resolve
        w.check("valid fields accepted", r.ok)
        w.check("nanosecond kept", r.value.nanosecond == kw["nanosecond"])
    else:
        w.check("invalid field raises ValueError", r.raised(ValueError))


@PROP.job()
def made_later(w):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    ambiguous(w, "zoned", 1)
