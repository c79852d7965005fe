"""Conversions from and to the standard library's datetime types."""
from sx.runner import Prop, cross
from sx.world import DAY, EPOCH, MAXTS, NS

PROP = Prop(
    "C22",
    functions=["*.from_py_datetime", "*.py_datetime", "Date.from_py_date/py_date",
               "Time.from_py_time/py_time", "TimeDelta.from_py_timedelta/py_timedelta", "LocalDateTime/OffsetDateTime.strptime",
               "_strip_subclasses", "_check_utc_bounds", "and what C10/C11 reach from a "
               "LocalDateTime or Time that came from a value with fold=1"],
    bounds="every date, time and datetime (every field, both folds), every timedelta; naive, "
           "datetime.timezone of every offset (to the microsecond), a tzinfo subclass with every "
           "offset or none, ZoneInfo with any 1 (thorough: 2) transitions, a ZoneInfo subclass; "
           "plain objects and subclass instances; strptime: texts in four numeric formats, every "
           "digit symbolic, seven ways of writing the offset",
    outside="tzinfo implementations whose utcoffset() is inconsistent; ZoneInfo without a key",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12"],
)
MX = 9999 * 366 * DAY * NS
US = 1_000_000


def py_dt(w, name, tz, sub=False, lo=1, hi=3652059):
    """(datetime, local seconds, microseconds, fold)"""
    o = w.int(name + ".o", lo, hi)
    h = w.int(name + ".h", 0, 23)
    mi = w.int(name + ".mi", 0, 59)
    s = w.int(name + ".s", 0, 59)
    us = w.int(name + ".us", 0, US - 1)
    f = w.int(name + ".fold", 0, 1)
    d = w.pydate.fromordinal(o)
    cls = w.pydatetime
    if sub:
        class Sub(w.pydatetime):
            pass
        cls = Sub
    p = cls(d.year, d.month, d.day, h, mi, s, us, tz, fold=f)
    return p, o * DAY + h * 3600 + mi * 60 + s, us, f


def some_tz(w, how, zone_k):
    """(tzinfo, f(local seconds, fold) -> offset in microseconds, zone)"""
    if how == "timezone":
        o = w.int("off", -DAY + 1, DAY - 1) * US
        return w.pytimezone(w.pytimedelta(microseconds=o)), (lambda l, f: o), None
    if how == "subsecond":
        o = w.int("off", -DAY, DAY - 1) * US + w.int("off.us", 1, US - 1)
        return w.pytimezone(w.pytimedelta(microseconds=o)), (lambda l, f: o), None
    if how == "utc":
        return w.pytimezone.utc, (lambda l, f: 0), None
    if how == "custom":
        o = w.int("off", -DAY + 1, DAY - 1)
        td = w.pytimedelta(seconds=o)
        tzinfo = w.pytimezone.__mro__[1]

        class Fixed(tzinfo):
            def utcoffset(self, dt):
                return td

        return Fixed(), (lambda l, f: o * US), None
    if how == "none":
        tzinfo = w.pytimezone.__mro__[1]

        class Unknown(tzinfo):
            def utcoffset(self, dt):
                return None

        return Unknown(), None, None
    z = w.zone("Z", zone_k)

    def off(l, f):
        u = w.ite(f == 0,
                  w.ite(z.is_gap(l), z.resolve(l, "later"), z.resolve(l, "earlier")),
                  w.ite(z.is_gap(l), z.resolve(l, "earlier"), z.resolve(l, "later")))
        return (l - u) * US

    cls = w.pyzoneinfo
    if how == "zone-sub":
        class Zi(w.pyzoneinfo):
            pass
        cls = Zi
    return cls("Z"), off, z


KINDS = {"instant": "Instant", "offset": "OffsetDateTime", "zoned": "ZonedDateTime",
         "system": "SystemDateTime", "local": "LocalDateTime"}


@PROP.job(cross(kind=list(KINDS), tz=["naive"], sub=[False, True], K=[1])
          + cross(kind=list(KINDS), tz=["utc", "timezone", "subsecond", "custom", "none"], sub=[False, True],
                  K=[1])
          + cross(kind=list(KINDS), tz=["zone"], sub=[False, True], K=[1])
          + cross(kind=["zoned", "offset"], tz=["zone-sub"], sub=[False], K=[1]),
          thorough=cross(kind=list(KINDS), tz=["zone"], sub=[False, True], K=[2]))
def from_datetime(w, kind, tz, sub, K):
    cls = getattr(w.m, KINDS[kind])
    if tz == "naive":
        p, l, us, f = py_dt(w, "p", None, sub)
        if kind != "local":
            w.must_raise("a naive datetime is refused", ValueError, cls.from_py_datetime, p)
            return
        r = cls.from_py_datetime(p)
        w.check("same local time", w.band(w.loc_s(r) == l, r.nanosecond == us * 1000))
        back = r.py_datetime()
        w.check("back", w.band(back == p, back.tzinfo is None, type(back) is w.pydatetime))
        return
    t, off, z = some_tz(w, tz, K)
    p, l, us, f = py_dt(w, "p", t, sub)
    if kind == "local" or tz == "none" or (kind == "zoned" and tz != "zone"):
        w.must_raise("unsuitable tzinfo is refused", ValueError, cls.from_py_datetime, p)
        return
    o = off(l, f)
    u = l * US + us - o
    can = w.band(u >= DAY * US, u < MAXTS * US)
    if kind == "zoned":
        lu, _ = w.int_div(u, US)
        l2 = lu + z.off_utc(lu)
        can = w.band(can, l2 >= DAY, l2 < MAXTS)
    r = w.attempt(cls.from_py_datetime, p)
    if kind in ("offset", "system"):
        if tz == "subsecond":
            w.check("an offset with fractional seconds is refused", r.raised(ValueError))
            return
    if not r.ok:
        w.check("refused only if out of range",
                w.band(r.raised(ValueError, OverflowError), w.bnot(can)))
        return
    w.check("accepted only if in range", can)
    x = r.value
    w.check("type", type(x) is cls)
    w.check("the same moment", x.timestamp_nanos() == (u - EPOCH * US) * 1000)
    w.obs("x", x.timestamp_nanos())
    if kind in ("offset", "system"):
        w.check("the same clock time and offset",
                w.band(w.loc_s(x) == l, w.off_s(x) * US == o))
    if kind == "zoned":
        w.check("the same zone", x.tz == "Z")
        w.check("offset of the zone", w.off_s(x) == z.off_utc(w.int_div(u, US)[0]))
    back = x.py_datetime()
    w.check("a plain datetime", type(back) is w.pydatetime)
    w.check("back: fraction", back.microsecond == w.int_div(u, US)[1])
    w.check("back: moment", cls.from_py_datetime(back).timestamp_nanos() == x.timestamp_nanos())


@PROP.job(cross(kind=list(KINDS), K=[1]), thorough=cross(kind=["zoned", "system"], K=[2]))
def to_datetime(w, kind, K):
    """py_datetime() shows the same clock time and moment, to the microsecond"""
    cls = getattr(w.m, KINDS[kind])
    if kind == "local":
        x, l, n = w.local_dt("x")
        p = x.py_datetime()
        w.check("naive", p.tzinfo is None)
        off = None
    else:
        z = w.zone("Z", K) if kind == "zoned" else None
        s = w.system_zone(K) if kind == "system" else None
        x, u, n, off = w.exact(kind, "x", z, s)
        p = x.py_datetime()
        l = u + off
        w.check("offset", p.utcoffset() == w.pytimedelta(seconds=off))
        utc = p.astimezone(w.pytimezone.utc)
        w.check("moment", w.band(
            utc.toordinal() * DAY + utc.hour * 3600 + utc.minute * 60 + utc.second == u,
            utc.microsecond == w.int_div(n, 1000)[0]))
        if kind == "zoned":
            w.check("ZoneInfo", w.band(type(p.tzinfo) is w.pyzoneinfo, p.tzinfo.key == "Z"))
        elif kind == "instant":
            w.check("UTC", p.tzinfo is w.pytimezone.utc)
        else:
            w.check("timezone", type(p.tzinfo) is w.pytimezone)
    w.check("a plain datetime", type(p) is w.pydatetime)
    w.check("clock time",
            p.toordinal() * DAY + p.hour * 3600 + p.minute * 60 + p.second == l)
    w.check("microsecond", p.microsecond == w.int_div(n, 1000)[0])
    back = cls.from_py_datetime(p)
    w.check("from_py_datetime is the inverse",
            w.band(w.loc_s(back) == l if kind != "instant" else True,
                   (back == x) if n % 1000 == 0 else (back != x)))
    if off is not None:
        w.check("inverse: moment", back.timestamp_nanos()
                == (u - EPOCH) * NS + n - w.int_div(n, 1000)[1])
        if kind != "instant":
            w.check("inverse: offset", w.off_s(back) == off)
    else:
        w.check("inverse: fraction", back.nanosecond == n - w.int_div(n, 1000)[1])


@PROP.job(cross(fold=[0, 1], via=["local", "time", "replace_time"],
                to=["tz", "system", "fixed", "local"], how=["compatible"], K=[1])
          + cross(fold=[1], via=["local", "time"], to=["tz", "system"],
                  how=["earlier", "later", "raise"], K=[1]),
          thorough=cross(fold=[1], via=["local", "time"], to=["tz", "system"],
                         how=["earlier", "later", "compatible"], K=[2]), fork=True)
def fold_forgotten(w, fold, via, to, how, K):
    """the fold of a naive datetime or a time has no influence on anything later"""
    if to == "tz":
        w.zone("Z", K)
    elif to == "system":
        w.system_zone(K)
    o = w.int("o", 1, 3652059)
    h, mi = w.int("h", 0, 23), w.int("mi", 0, 59)
    s, us = w.int("s", 0, 59), w.int("us", 0, US - 1)
    date = w.date_of(o)
    ref = date.at(w.m.Time(h, mi, s, nanosecond=us * 1000))
    if via == "local":
        d = w.pydate.fromordinal(o)
        x = w.m.LocalDateTime.from_py_datetime(
            w.pydatetime(d.year, d.month, d.day, h, mi, s, us, fold=fold))
    else:
        t = w.m.Time.from_py_time(w.pytime(h, mi, s, us, fold=fold))
        w.check("time equal", t == ref.time())
        w.check("time hash", w.hash(t) == w.hash(ref.time()))
        x = date.at(t) if via == "time" else date.at(w.m.Time()).replace_time(t)
    w.check("equal", x == ref)
    w.check("hash", w.hash(x) == w.hash(ref))
    if to == "local":
        w.check("order", w.bnot(w.bor(x < ref, x > ref)))
        w.check("difference", x.difference(ref, ignore_dst=True).in_nanoseconds() == 0)
        w.check("fixed", x.assume_utc().timestamp_nanos() == ref.assume_utc().timestamp_nanos())
        w.check("date and time", w.band(x.date() == ref.date(), x.time() == ref.time()))
        return
    f = {"tz": lambda v: v.assume_tz("Z", disambiguate=how),
         "system": lambda v: v.assume_system_tz(disambiguate=how),
         "fixed": lambda v: v.assume_fixed_offset(3)}[to]
    a, b = w.attempt(f, x), w.attempt(f, ref)
    w.check("same acceptance", a.ok == b.ok)
    if not a.ok:
        w.check("same refusal", a.exc is b.exc)
        return
    w.check("same moment", a.value.timestamp_nanos() == b.value.timestamp_nanos())
    w.check("same clock time", w.loc_s(a.value) == w.loc_s(b.value))
    w.check("same offset", w.off_s(a.value) == w.off_s(b.value))


@PROP.job(cross(how=["date", "sub", "datetime", "datetime-sub", "aware"]))
def dates(w, how):
    o = w.int("o", 1, 3652059)
    d = p = w.pydate.fromordinal(o)
    if how == "sub":
        class Sub(w.pydate):
            pass
        p = Sub(d.year, d.month, d.day)
    elif how != "date":
        cls = w.pydatetime
        if how == "datetime-sub":
            class Sub(w.pydatetime):
                pass
            cls = Sub
        p = cls(d.year, d.month, d.day, w.int("h", 0, 23), w.int("mi", 0, 59),
                tzinfo=w.pytimezone(w.pytimedelta(hours=9)) if how == "aware" else None)
    x = w.m.Date.from_py_date(p)
    w.check("same date", w.band(x.year == d.year, x.month == d.month, x.day == d.day))
    b = x.py_date()
    w.check("back", w.band(b == d, type(b) is w.pydate))
    w.check("equal", x == w.m.Date(d.year, d.month, d.day))


@PROP.job(cross(sub=[False, True], tz=["naive", "utc", "custom", "none"]))
def times(w, sub, tz):
    h, mi = w.int("h", 0, 23), w.int("mi", 0, 59)
    s, us, f = w.int("s", 0, 59), w.int("us", 0, US - 1), w.int("fold", 0, 1)
    cls = w.pytime
    if sub:
        class Sub(w.pytime):
            pass
        cls = Sub
    p = cls(h, mi, s, us, None if tz == "naive" else some_tz(w, tz, 1)[0], fold=f)
    if tz != "naive":
        w.must_raise("a time with tzinfo is refused", ValueError, w.m.Time.from_py_time, p)
        return
    x = w.m.Time.from_py_time(p)
    w.check("same time", w.band(x.hour == h, x.minute == mi, x.second == s,
                                x.nanosecond == us * 1000))
    b = x.py_time()
    w.check("back", w.band(b.hour == h, b.minute == mi, b.second == s, b.microsecond == us,
                           type(b) is w.pytime, b.tzinfo is None))


@PROP.job(cross(_=[0]))
def times_back(w, _):
    t, ns = w.time_of("t")
    p = t.py_time()
    w.check("plain", w.band(type(p) is w.pytime, p.tzinfo is None))
    w.check("microseconds, truncated",
            ((p.hour * 60 + p.minute) * 60 + p.second) * US + p.microsecond
            == w.int_div(ns, 1000)[0])
    back = w.m.Time.from_py_time(p)
    w.check("inverse", w.band(back.hour == t.hour, back.minute == t.minute,
                              back.second == t.second,
                              back.nanosecond == t.nanosecond - w.int_div(ns, 1000)[1]))


@PROP.job(cross(sub=[False, True]))
def timedeltas(w, sub):
    lim = 10**9 * DAY
    sec = w.int("s", -lim + DAY, lim - 1)
    us = w.int("us", 0, US - 1)
    cls = w.pytimedelta
    if sub:
        class Sub(w.pytimedelta):
            pass
        cls = Sub
    p = cls(seconds=sec, microseconds=us)
    total = (sec * US + us) * 1000
    r = w.attempt(w.m.TimeDelta.from_py_timedelta, p)
    can = w.band(total <= MX, total >= -MX)
    if not r.ok:
        w.check("refused only if out of range", w.band(r.raised(ValueError), w.bnot(can)))
        return
    w.check("accepted only if in range", can)
    w.check("same length", r.value.in_nanoseconds() == total)
    b = r.value.py_timedelta()
    w.check("back", w.band(b == w.pytimedelta(seconds=sec, microseconds=us),
                           type(b) is w.pytimedelta))


@PROP.job(cross(_=[0]))
def timedeltas_back(w, _):
    d, tot = w.tdelta("d")
    p = d.py_timedelta()
    us = w.int_div(tot, 1000)[0]
    w.check("microseconds, rounded down", (p.days * DAY + p.seconds) * US + p.microseconds == us)
    w.check("inverse", w.m.TimeDelta.from_py_timedelta(p).in_nanoseconds() == us * 1000)


@PROP.job(cross(kind=["offset", "system"],
                op=["same", "ambiguous", "local", "replace", "add", "round", "start_of_day"],
                K=[1]), fork=True)
def fold_forgotten_exact(w, kind, op, K):
    """so has the fold of a datetime with an offset"""
    z = w.zone("Z", K)
    s = w.system_zone(K)
    u, us = w.int("u", DAY * 4, MAXTS - DAY * 4), w.int("us", 0, US - 1)
    o = w.int("o", -DAY + 1, DAY - 1)
    day, tod = w.int_div(u + o, DAY)
    d = w.pydate.fromordinal(day)
    h, r = w.int_div(tod, 3600)
    mi, sec = w.int_div(r, 60)
    cls = getattr(w.m, KINDS[kind])
    tz = w.pytimezone(w.pytimedelta(seconds=o))
    x, ref = [cls.from_py_datetime(w.pydatetime(d.year, d.month, d.day, h, mi, sec, us, tz,
                                                fold=f)) for f in (1, 0)]
    ts = ((u - EPOCH) * US + us) * 1000
    if op == "same":
        w.check("moment", x.timestamp_nanos() == ts)
        w.check("equal", w.band(x == ref, x.exact_eq(ref), w.bnot(x < ref)))
        w.check("hash", w.hash(x) == w.hash(ref))
        w.check("difference", (x - ref).in_nanoseconds() == 0)
        w.check("instant", x.instant() == ref.instant())
        w.check("zoned", x.to_tz("Z").timestamp_nanos() == ts)
        w.check("back", w.band(x.py_datetime() == ref.py_datetime()))
        return
    if op == "ambiguous":
        if kind == "offset":
            w.check("n/a", True)
            return
        w.check("is_ambiguous", w.iff(x.is_ambiguous(), s.is_repeated(u + o)))
        return
    ign = {"ignore_dst": True} if kind == "offset" else {}
    m2 = w.int("m2", 0, 59) if op == "replace" else None
    k = w.int("k", -1, 1) if op == "add" else None
    f = {
        "local": lambda v: v.local().assume_tz("Z", disambiguate="compatible"),
        "replace": lambda v: v.replace(minute=m2, **ign),
        "add": lambda v: v.add(days=k, **ign),
        "round": lambda v: v.round("hour", mode="ceil", **ign),
        "start_of_day": lambda v: v.date().at(v.time()).assume_system_tz(
            disambiguate="compatible") if kind == "offset" else v.start_of_day(),
    }[op]
    a, b = w.attempt(f, x), w.attempt(f, ref)
    w.check("same acceptance", a.ok == b.ok)
    if not a.ok:
        w.check("same refusal", a.exc is b.exc)
        return
    w.check("same moment", a.value.timestamp_nanos() == b.value.timestamp_nanos())
    w.check("same clock time", w.loc_s(a.value) == w.loc_s(b.value))
    w.check("same offset", w.off_s(a.value) == w.off_s(b.value))


def stated(w, cs):
    v = 0
    for c in cs:
        v = v * 10 + (c - 48)
    return v


FMT = {"%Y-%m-%d %H:%M:%S": "####-##-## ##:##:##", "%Y-%m-%d %H:%M:%S.%f": None,
       "%d/%m/%Y": "##/##/####", "%H:%M %Y%m%d": "##:## ########"}
ZS = ["", "+##:##", "-####", "+##:##:##", "-##:##:##", "-##:##:##.######", "+##:##:##.##", "Z"]


@PROP.job(cross(kind=["offset"], fmt=["%Y-%m-%d %H:%M:%S"], z=ZS, nf=[0])
          + cross(kind=["local", "offset"], fmt=list(FMT), z=["", "-##:##"], nf=[2]),
          thorough=cross(kind=["offset"], fmt=list(FMT), z=ZS, nf=[2])
          + cross(kind=["local", "offset"], fmt=["%Y-%m-%d %H:%M:%S.%f"], z=["", "-##:##"],
                  nf=[1, 2, 3, 6]))
def strptime(w, kind, fmt, z, nf):
    """strptime() is from_py_datetime() of what the standard library reads"""
    like = (FMT[fmt] or "####-##-## ##:##:##." + "#" * nf)
    text = w.symstr("t", len(like + z), like=like + z)
    cs = w.chars(text)
    pos = {c: 0 for c in "YmdHMS"}
    val = {"Y": 1900, "m": 1, "d": 1, "H": 0, "M": 0, "S": 0}
    i = j = 0
    us = 0
    while i < len(fmt):
        if fmt[i] == "%":
            c = fmt[i + 1]
            n = {"Y": 4, "f": nf}.get(c, 2)
            v = stated(w, cs[j:j + n])
            if c == "f":
                us = v * 10 ** (6 - nf)
            else:
                val[c] = v
            j += n
            i += 2
        else:
            i += 1
            j += 1
    r = w.attempt((w.m.LocalDateTime if kind == "local" else w.m.OffsetDateTime).strptime,
                  text, fmt + ("%z" if z else ""))
    if (z == "") != (kind == "local"):
        w.check("an offset exactly where the type has one", r.raised(ValueError))
        return
    off, fr = 0, 0
    zok = True
    if len(z) > 1:
        zz = [c for c, k in zip(cs[len(like) + 1:], z[1:]) if k != ":"]
        h, mi = stated(w, zz[:2]), stated(w, zz[2:4])
        s = stated(w, zz[4:6])
        off = h * 3600 + mi * 60 + s
        zok = w.band(mi < 60, s < 60, off < DAY)
        if "." in z:
            fr = stated(w, zz[7:])
            zok = w.band(zok, fr == 0)
        if z[0] == "-":
            off = -off
    y, m, d = val["Y"], val["m"], val["d"]
    ok = w.band(y >= 1, m >= 1, m <= 12, d >= 1, val["H"] < 24, val["M"] < 60, val["S"] < 60, zok)
    if not ok or not w.band(d <= w.dim(y, m)):
        w.check("refused", r.raised(ValueError))
        return
    loc = w.ordinal(y, m, d) * DAY + val["H"] * 3600 + val["M"] * 60 + val["S"]
    u = loc - off
    if not w.band(u >= DAY, u < 3652060 * DAY):
        w.check("out of range raises", r.raised(ValueError, OverflowError))
        return
    w.check("accepted", r.ok)
    x = r.value
    w.check("local time", w.loc_s(x) == loc)
    w.check("fraction", x.nanosecond == us * 1000)
    if kind == "offset":
        if "." not in z:
            w.check("offset", w.off_s(x) == off)
        w.check("moment", x.timestamp_nanos() == (u - EPOCH) * NS + us * 1000)


@PROP.job()
def made_later(w):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    to_datetime(w, "zoned", 1)
