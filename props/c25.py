"""Values never change, and results do not depend on what was done before."""
import copy
from sx.runner import Prop, cross
from sx.world import DAY, EPOCH, MAXTS, NS

PROP = Prop(
    "C25",
    functions=["every public operation of every class, run twice in one process: on one value, "
               "then on another (or the same operation with other arguments)"],
    bounds="any two values of the type and any arguments within the stated ranges: calendar "
           "amounts to 1000 years/10000 days, exact amounts to 1000 days; values with an offset lie "
           "in a window of four days around a leap day, in the same zone with one transition in the "
           "window or in two zones with fixed offsets; conversions into zones: any date, two zones with one "
           "transition each; an operation, then the same operation on another value with other "
           "arguments, then the first again; the same operation of two classes, "
           "rounding to eight units and increments (thorough: every ordered pair of operations); "
           "two parsed texts, two converted datetimes; setting, deleting, adding attributes, copies",
    outside="changes made by reaching into private attributes; the process-wide clock patch "
            "(C21); time zone files that change on disk",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12; dict and functools.lru_cache "
           "with symbolic keys: sx/containers.py"],
)
# 2024-02-27 .. 2024-03-02 for values with an offset (any transition inside it)
WINDOW = (738943 * DAY, 738947 * DAY)
EXACT = ["instant", "offset", "zoned", "system"]


def value(w, kind, n, z=None, s=None):
    m = w.m
    if kind in EXACT:
        x, u, _, _ = w.exact(kind, n, z, s)
        if kind != "instant":
            w.assume(w.band(u >= WINDOW[0], u < WINDOW[1]))
        return x
    if kind == "date":
        return w.ord_date(n)[0]
    if kind == "time":
        return w.time_of(n)[0]
    if kind == "yearmonth":
        return m.YearMonth(w.int(n + ".y", 1, 9999), w.int(n + ".m", 1, 12))
    if kind == "monthday":
        return m.MonthDay(w.int(n + ".m", 1, 12), w.int(n + ".d", 1, 28))
    if kind == "local":
        return w.local_dt(n)[0]
    if kind == "timedelta":
        return w.tdelta(n)[0]
    if kind == "datedelta":
        g = w.choice("sign." + n, [1, -1])
        return m.DateDelta(months=g * w.int(n + ".mm", 0, 12000), days=g * w.int(n + ".dd", 0, 10**5))
    g = -1 if n == "b" else 1
    return m.DateTimeDelta(months=g * w.int(n + ".mm", 0, 12000), days=g * w.int(n + ".dd", 0, 10**5),
                           nanoseconds=g * w.int(n + ".nn", 0, 10**16))


def look(w, x):
    """everything a value is, as (type name, numbers...)"""
    m = w.m
    t = type(x).__name__
    if isinstance(x, m.Date):
        v = (x.year, x.month, x.day)
    elif isinstance(x, m.Time):
        v = (x.hour, x.minute, x.second, x.nanosecond)
    elif isinstance(x, m.YearMonth):
        v = (x.year, x.month)
    elif isinstance(x, m.MonthDay):
        v = (x.month, x.day)
    elif isinstance(x, m.LocalDateTime):
        v = (w.loc_s(x), x.nanosecond)
    elif isinstance(x, m.TimeDelta):
        v = (x.in_nanoseconds(),)
    elif isinstance(x, m.DateDelta):
        v = x.in_months_days()
    elif isinstance(x, m.DateTimeDelta):
        v = x.in_months_days_secs_nanos()
    elif isinstance(x, m.Instant):
        v = (x.timestamp_nanos(),)
    elif isinstance(x, m.ZonedDateTime):
        v = (x.timestamp_nanos(), w.loc_s(x), x.offset.in_nanoseconds(), x.tz)
    elif isinstance(x, (m.OffsetDateTime, m.SystemDateTime)):
        v = (x.timestamp_nanos(), w.loc_s(x), x.offset.in_nanoseconds())
    elif isinstance(x, (tuple, list)):
        v = tuple(y for e in x for y in look(w, e))
    elif isinstance(x, w.pydatetime):
        o = x.utcoffset()
        v = (x.toordinal(), x.hour, x.minute, x.second, x.microsecond, x.fold,
             None if o is None else o.days * DAY + o.seconds)
    elif isinstance(x, w.pydate):
        v = (x.toordinal(),)
    elif isinstance(x, w.pytime):
        v = (x.hour, x.minute, x.second, x.microsecond)
    elif isinstance(x, w.pytimedelta):
        v = (x.days, x.seconds, x.microseconds)
    elif hasattr(x, "name") and hasattr(x, "value"):
        t, v = "enum", (x.value,)
    else:
        t, v = "plain", (x,)
    return (t,) + tuple(v)


def same(w, a, b):
    if len(a) != len(b):
        return False
    r = True
    for x, y in zip(a, b):
        if (x is None) != (y is None):
            return False
        if x is not None:
            r = w.band(r, x == y)
    return r


def outcome(w, r):
    return ("value",) + look(w, r.value) if r.ok else ("error", r.exc.__name__)


def amount(w, n):
    return w.tdelta(n + ".amt", 0, 1000 * DAY)[0]


def other_args(w, x, n, z=None, s=None):
    """a value of the same class, for binary operations"""
    kind = {"Date": "date", "TimeDelta": "timedelta", "DateDelta": "datedelta", "Time": "time",
            "DateTimeDelta": "datetimedelta", "LocalDateTime": "local"}[type(x).__name__]
    return value(w, kind, n + ".other")


HALF = ["half_even", "ceil"]
UNITS = [("hour", 5), ("hour", 6), ("minute", 7), ("minute", 15), ("second", 30), ("nanosecond", 8),
         ("millisecond", 250), ("day", 1)]


def round_to(unit, incr, **kw):
    return lambda w, x, n: x.round(unit, increment=incr, **kw)


def order(w, x, n):
    y = other_args(w, x, n)
    return (x == y, x < y, x >= y)


def texts(w, x, n):
    """the text of a value with a few varying fields"""
    if hasattr(x, "day_of_week"):
        x = x.replace(year=2024, month=2)
    if type(x).__name__ in ("YearMonth", "MonthDay"):
        x = x.replace(month=12)
    if hasattr(x, "nanosecond"):
        x = x.replace(nanosecond=0, **({} if hasattr(x, "assume_utc") or hasattr(x, "on") else ND))
    return (w.str(x), w.repr(x))


def exact_texts(w, x, n):
    """texts of moments on one day"""
    u = w.inst_s(x) if type(x).__name__ == "Instant" else w.loc_s(x)
    w.assume(w.band(u >= WINDOW[0], u < WINDOW[0] + 86400))
    if type(x).__name__ == "Instant":
        w.assume(x.timestamp_nanos() % NS == 0)
        return (w.str(x), x.format_rfc2822(), x.format_rfc3339())
    w.assume(x.nanosecond == 0)
    return (w.str(x), x.format_rfc3339())


def small(w, n):
    """an amount whose text has few shapes"""
    return w.m.TimeDelta(hours=w.int(n + ".sh", 0, 9), seconds=w.int(n + ".ss", 0, 59))


ND = {"ignore_dst": True}
OPS = {
    "date": {
        "add": lambda w, x, n: x.add(months=w.int(n + ".m", -12000, 12000), days=w.int(n + ".d", -10**4, 10**4)),
        "subtract": lambda w, x, n: x.subtract(years=w.int(n + ".y", -1000, 1000), weeks=w.int(n + ".w", -999, 999)),
        "replace": lambda w, x, n: x.replace(day=w.int(n + ".d", 1, 31)),
        "replace_year": lambda w, x, n: x.replace(year=w.int(n + ".y", 1, 9999)),
        "days_since": lambda w, x, n: x.days_since(other_args(w, x, n)),
        "day_of_week": lambda w, x, n: x.day_of_week(),
        "year_month": lambda w, x, n: x.year_month(),
        "month_day": lambda w, x, n: x.month_day(),
        "at": lambda w, x, n: x.at(w.m.Time(w.int(n + ".h", 0, 23))),
        "py": lambda w, x, n: x.py_date(),
        "sub": lambda w, x, n: x - other_args(w, x, n),
        "order": order, "text": texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "time": {
        "replace": lambda w, x, n: x.replace(minute=w.int(n + ".mi", 0, 59)),
        "replace_nanos": lambda w, x, n: x.replace(nanosecond=w.int(n + ".nn", 0, NS - 1)),
        "round": lambda w, x, n: x.round("second", mode=w.choice(n + ".mode", HALF)),
        "on": lambda w, x, n: x.on(w.ord_date(n + ".on")[0]),
        "py": lambda w, x, n: x.py_time(),
        "order": order, "text": texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "yearmonth": {
        "on_day": lambda w, x, n: x.on_day(w.int(n + ".d", 1, 31)),
        "replace": lambda w, x, n: x.replace(year=w.int(n + ".ry", 1, 9999)),
        "text": texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "monthday": {
        "in_year": lambda w, x, n: x.in_year(w.int(n + ".y", 1, 9999)),
        "replace": lambda w, x, n: x.replace(day=w.int(n + ".rd", 1, 31)),
        "is_leap": lambda w, x, n: x.is_leap(),
        "text": texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "local": {
        "add": lambda w, x, n: x.add(days=w.int(n + ".d", -10**4, 10**4), hours=w.int(n + ".hh", -10**4, 10**4), **ND),
        "subtract": lambda w, x, n: x.subtract(amount(w, n), **ND),
        "replace": lambda w, x, n: x.replace(hour=w.int(n + ".rh", 0, 23)),
        "replace_date": lambda w, x, n: x.replace_date(w.ord_date(n + ".on")[0]),
        "replace_time": lambda w, x, n: x.replace_time(w.m.Time(w.int(n + ".rh", 0, 23))),
        "round": lambda w, x, n: x.round("minute"),
        "difference": lambda w, x, n: x.difference(other_args(w, x, n), **ND),
        "assume_utc": lambda w, x, n: x.assume_utc(),
        "assume_fixed_offset": lambda w, x, n: x.assume_fixed_offset(w.offset(n + ".off")[0]),
        "py": lambda w, x, n: x.py_datetime(),
        "order": order, "text": texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "timedelta": {
        "add": lambda w, x, n: x + amount(w, n),
        "neg": lambda w, x, n: -x,
        "mul": lambda w, x, n: x * w.choice(n + ".k", [2, -3]),
        "round": lambda w, x, n: x.round("second", increment=w.choice(n + ".k", [1, 5])),
        "parts": lambda w, x, n: x.in_hrs_mins_secs_nanos(),
        "py": lambda w, x, n: x.py_timedelta(),
        "abs": lambda w, x, n: abs(x),
        "sub": lambda w, x, n: x - other_args(w, x, n),
        "div": lambda w, x, n: x / w.choice(n + ".k", [2, -3]),
        "floordiv": lambda w, x, n: x // w.m.TimeDelta(seconds=w.choice(n + ".k", [7, -60])),
        "mod": lambda w, x, n: x % w.m.TimeDelta(seconds=w.choice(n + ".k", [7, -60])),
        "pos_bool": lambda w, x, n: (+x, bool(x)),
        "in_days": lambda w, x, n: (x.in_days_of_24h(), x.in_hours(), x.in_seconds()),
        "order": order, "pickle": lambda w, x, n: w.pickled(x),
        "text": lambda w, x, n: texts(w, small(w, n), n),
    },
    "datedelta": {
        "add": lambda w, x, n: x + other_args(w, x, n),
        "neg": lambda w, x, n: -x,
        "abs": lambda w, x, n: abs(x),
        "mul": lambda w, x, n: x * w.choice(n + ".k", [2, -3]),
        "parts": lambda w, x, n: x.in_years_months_days(),
        "sub": lambda w, x, n: x - other_args(w, x, n),
        "eq_bool": lambda w, x, n: (x == other_args(w, x, n), bool(x)),
        "pickle": lambda w, x, n: w.pickled(x),
        "text": lambda w, x, n: texts(w, w.m.DateDelta(
            months=w.int(n + ".sm", 0, 9), days=w.int(n + ".sd", 1, 9)), n),
    },
    "datetimedelta": {
        "add": lambda w, x, n: x + amount(w, n),
        "add_self": lambda w, x, n: x + other_args(w, x, n),
        "neg": lambda w, x, n: -x,
        "mul": lambda w, x, n: x * w.choice(n + ".k", [2, -3]),
        "date_part": lambda w, x, n: x.date_part(),
        "time_part": lambda w, x, n: x.time_part(),
        "abs": lambda w, x, n: abs(x),
        "sub": lambda w, x, n: x - amount(w, n),
        "parts": lambda w, x, n: x.in_months_days_secs_nanos(),
        "eq_bool": lambda w, x, n: (x == other_args(w, x, n), bool(x)),
        "pickle": lambda w, x, n: w.pickled(x),
    },
    "instant": {
        "add": lambda w, x, n: x + amount(w, n),
        "subtract": lambda w, x, n: x.subtract(hours=w.int(n + ".hh", -10**4, 10**4)),
        "to_fixed_offset": lambda w, x, n: x.to_fixed_offset(w.offset(n + ".off")[0]),
        "round": lambda w, x, n: x.round("hour", mode=w.choice(n + ".mode", HALF)),
        "timestamp": lambda w, x, n: (x.timestamp(), x.timestamp_millis()),
        "py": lambda w, x, n: x.py_datetime(),
        "sub": lambda w, x, n: x - w.instant(n + ".other")[0],
        "text": exact_texts,
        "pickle": lambda w, x, n: w.pickled(x),
    },
    "offset": {
        "add": lambda w, x, n: x.add(amount(w, n), **ND),
        "to_fixed_offset": lambda w, x, n: x.to_fixed_offset(w.offset(n + ".off2")[0]),
        "replace": lambda w, x, n: x.replace(hour=w.int(n + ".rh", 0, 23), **ND),
        "replace_offset": lambda w, x, n: x.replace(offset=w.offset(n + ".off2")[0], **ND),
        "round": lambda w, x, n: x.round("hour", **ND),
        "local": lambda w, x, n: x.local(),
        "instant": lambda w, x, n: x.instant(),
        "py": lambda w, x, n: x.py_datetime(),
        "sub": lambda w, x, n: x - w.instant(n + ".other")[0],
        "text": exact_texts,
        "pickle": lambda w, x, n: w.pickled(x),
    },
    "zoned": {
        "add_exact": lambda w, x, n: x + amount(w, n),
        "add_days": lambda w, x, n: x.add(days=1 if n == "a" else w.int("b.d", 0, 1)),
        "replace": lambda w, x, n: x.replace(hour=2 if n == "a" else w.int("b.rh", 0, 23),
                                             disambiguate="earlier" if n == "a" else "raise"),
        "replace_time": lambda w, x, n: x.replace_time(w.m.Time(w.int(n + ".rh", 0, 23))),
        "round": lambda w, x, n: x.round("day"),
        "start_of_day": lambda w, x, n: x.start_of_day(),
        "day_length": lambda w, x, n: x.day_length(),
        "is_ambiguous": lambda w, x, n: x.is_ambiguous(),
        "local": lambda w, x, n: x.local(),
        "instant": lambda w, x, n: x.instant(),
        "offset": lambda w, x, n: x.to_fixed_offset(),
        "py": lambda w, x, n: x.py_datetime(),
        "text": exact_texts, "pickle": lambda w, x, n: w.pickled(x),
    },
    "system": {
        "add_exact": lambda w, x, n: x + amount(w, n),
        "add_days": lambda w, x, n: x.add(days=1 if n == "a" else w.int("b.d", 0, 1)),
        "replace": lambda w, x, n: x.replace(hour=2 if n == "a" else w.int("b.rh", 0, 23),
                                             disambiguate="earlier" if n == "a" else "raise"),
        "round": lambda w, x, n: x.round("day"),
        "start_of_day": lambda w, x, n: x.start_of_day(),
        "day_length": lambda w, x, n: x.day_length(),
        "is_ambiguous": lambda w, x, n: x.is_ambiguous(),
        "local": lambda w, x, n: x.local(),
        "instant": lambda w, x, n: x.instant(),
        "text": exact_texts, "pickle": lambda w, x, n: w.pickled(x),
    },
}
for _k in ("time", "local", "timedelta", "instant", "offset"):
    for _u, _i in UNITS:
        OPS[_k][f"round_{_u}_{_i}"] = round_to(_u, _i, **(ND if _k == "offset" else {}))
# operations that take a zone: (kind, name)
def _dis(w, n):
    return "later" if n == "a" else "raise"


ZOPS = {
    ("local", "assume_tz"): lambda w, x, n, z: x.assume_tz(z.name, disambiguate=_dis(w, n)),
    ("instant", "to_tz"): lambda w, x, n, z: x.to_tz(z.name),
    ("offset", "to_tz"): lambda w, x, n, z: x.to_tz(z.name),
    ("local", "assume_system_tz"): lambda w, x, n, z: x.assume_system_tz(disambiguate=_dis(w, n)),
    ("instant", "to_system_tz"): lambda w, x, n, z: x.to_system_tz(),
}


def window_zone(w, n, K, make):
    """a zone with any K transitions in the window, offsets up to three hours"""
    z = make(K, n, lo=WINDOW[0] + DAY, hi=WINDOW[1] - DAY)
    for o in z.offs:
        w.assume(w.band(o >= -10800, o <= 10800))
    return z


def two(w, kind, za, zb, s, op_a, op_b, kind_b=None):
    """op_a on a, then op_b on b; op_b on b alone in a fresh library: the same"""
    w1, w2 = w.fresh(), w.fresh()
    a = value(w1, kind, "a", za, s)
    was = look(w1, a)
    ra = w1.attempt(op_a, w1, a, "a", za)
    first = outcome(w1, ra)
    w.check("the operation leaves its value as it was", same(w, was, look(w1, a)))
    kind_b = kind_b or kind
    b = value(w1, kind_b, "b", zb, s)
    was_b = look(w1, b)
    rb = w1.attempt(op_b, w1, b, "b", zb)
    second = outcome(w1, rb)
    b2 = value(w2, kind_b, "b", zb, s)
    w.check("the same value", same(w, was_b, look(w2, b2)))
    w.check("the result does not depend on an earlier operation",
            same(w, second, outcome(w2, w2.attempt(op_b, w2, b2, "b", zb))))
    w.check("the earlier result stays as it was", same(w, first, outcome(w1, ra)))
    w.check("values stay as they were",
            w.band(same(w, was, look(w1, a)), same(w, was_b, look(w1, b))))
    again = outcome(w1, w1.attempt(op_a, w1, a, "a", za))
    w.check("repeating an operation gives the same result", same(w, first, again))


def drop(f):
    return lambda w, x, n, z: f(w, x, n)


# only in the thorough tier: the solver needs a minute or more
HEAVY = {("date", "sub"), ("offset", "text"), ("zoned", "text"), ("system", "text")} | {
    ("offset", f"round_{u}_{i}") for u, i in UNITS if (u, i) not in (("hour", 5), ("second", 30))}
PLAIN = [dict(kind=k, first=o, then=o) for k in OPS for o in OPS[k]
         if k not in ("zoned", "system") and (k, o) not in HEAVY]
PAIRS = [dict(kind=k, first=o, then=p) for k in OPS for o in OPS[k] for p in OPS[k]
         if k not in ("zoned", "system")]


@PROP.job(PLAIN, thorough=PAIRS)
def plain(w, kind, first, then):
    two(w, kind, None, None, None, drop(OPS[kind][first]), drop(OPS[kind][then]))


FREE = [(k, o) for k in OPS if k not in ("zoned", "system") for o in OPS[k]]
SAME = [dict(a=a, b=b, first=o, then=p) for a, o in FREE for b, p in FREE if a != b and o == p != "text"
        and not {(a, o), (b, o)} & HEAVY]
ACROSS = [dict(a=a, b=b, first=o, then=p) for a, o in FREE for b, p in FREE if a != b]


@PROP.job(SAME, thorough=ACROSS)
def across(w, a, b, first, then):
    """an operation of one class, then one of another"""
    two(w, a, None, None, None, drop(OPS[a][first]), drop(OPS[b][then]), kind_b=b)


def zpairs(kind, Ks, all_pairs=False):
    return [dict(first=o, then=p, K=K) for o in OPS[kind] for p in OPS[kind]
            if all_pairs or o == p and (kind, o) not in HEAVY for K in Ks]


SLOW = ("add_days", "replace", "round")


@PROP.job(zpairs("zoned", [0, 1]), thorough=zpairs("zoned", [0, 1], True), fork=True)
def zoned(w, first, then, K):
    """K = 0: two zones with fixed offsets; otherwise one zone with K transitions"""
    if K:
        za = zb = window_zone(w, "Z", K, lambda k, n, **kw: w.zone(n, k, **kw))
    else:
        za, zb = w.zone("Z", 0), w.zone("Y", 0)
    two(w, "zoned", za, zb, None, drop(OPS["zoned"][first]), drop(OPS["zoned"][then]))


@PROP.job([p for p in zpairs("system", [0, 1]) if not (p["K"] and p["first"] in SLOW)],
          thorough=zpairs("system", [0, 1], True), fork=True)
def system(w, first, then, K):
    s = window_zone(w, "SYS", K, w.system_zone)
    two(w, "system", None, None, s, drop(OPS["system"][first]), drop(OPS["system"][then]))


@PROP.job([dict(kind=k, op=o) for k, o in ZOPS])
def into_zone(w, kind, op):
    if "system" in op:
        za = zb = w.system_zone(1)
    else:
        za, zb = w.zone("Z", 1), w.zone("Y", 1)
    two(w, kind, za, zb, None, ZOPS[kind, op], ZOPS[kind, op])


# -- making values from text and from the standard library ---------------------
TEXTS = {
    "date": ("Date", "parse_common_iso", "####-0#-##"),
    "time": ("Time", "parse_common_iso", "1#:##:##.###"),
    "instant": ("Instant", "parse_common_iso", "2024-02-##T2#:1#:00Z"),
    "offset": ("OffsetDateTime", "parse_common_iso", "2024-02-##T2#:00:00+0#:##"),
    "rfc2822": ("OffsetDateTime", "parse_rfc2822", "Sat, 1# Feb 2024 2#:00:00 +0#00"),
    "delta": ("TimeDelta", "parse_common_iso", "PT#H#M1#S"),
    "datedelta": ("DateDelta", "parse_common_iso", "P#Y#M1#D"),
}


@PROP.job(cross(text=list(TEXTS)))
def parsed(w, text):
    """the second of two texts means what it means alone"""
    cls, method, like = TEXTS[text]
    w1, w2 = w.fresh(), w.fresh()
    ta, tb = w.symstr("ta", len(like), like=like), w.symstr("tb", len(like), like=like)
    ra = w1.attempt(getattr(getattr(w1.m, cls), method), ta)
    first = outcome(w1, ra)
    rb = w1.attempt(getattr(getattr(w1.m, cls), method), tb)
    alone = w2.attempt(getattr(getattr(w2.m, cls), method), tb)
    w.check("the result does not depend on an earlier operation",
            same(w, outcome(w1, rb), outcome(w2, alone)))
    w.check("the earlier result stays as it was", same(w, first, outcome(w1, ra)))


@PROP.job(cross(kind=["offset", "zoned", "instant"]))
def converted(w, kind):
    """standard-library datetimes, of any offset or fold"""
    cls = {"offset": "OffsetDateTime", "zoned": "ZonedDateTime", "instant": "Instant"}[kind]
    z = window_zone(w, "Z", 1, lambda k, n, **kw: w.zone(n, k, **kw)) if kind == "zoned" else None
    w1, w2 = w.fresh(), w.fresh()

    def py(n):
        d = w.pydate.fromordinal(w.int(n + ".o", WINDOW[0] // DAY, WINDOW[1] // DAY))
        tz = w.pyzoneinfo("Z") if kind == "zoned" else w.pytimezone.utc if kind == "instant" else \
            w.pytimezone(w.pytimedelta(seconds=w.int(n + ".off", -DAY + 1, DAY - 1)))
        return w.pydatetime(d.year, d.month, d.day, w.int(n + ".h", 0, 23), w.int(n + ".mi", 0, 59),
                            0, w.int(n + ".us", 0, 999999), tz, fold=w.int(n + ".fold", 0, 1))

    pa, pb = py("a"), py("b")
    was = look(w1, pa)
    ra = w1.attempt(getattr(w1.m, cls).from_py_datetime, pa)
    first = outcome(w1, ra)
    rb = w1.attempt(getattr(w1.m, cls).from_py_datetime, pb)
    alone = w2.attempt(getattr(w2.m, cls).from_py_datetime, pb)
    w.check("the result does not depend on an earlier operation",
            same(w, outcome(w1, rb), outcome(w2, alone)))
    w.check("the earlier result stays as it was", same(w, first, outcome(w1, ra)))
    w.check("the argument stays as it was", same(w, was, look(w1, pa)))


FIELDS = {
    "date": ["year", "month", "day"], "time": ["hour", "minute", "second", "nanosecond"],
    "yearmonth": ["year", "month"], "monthday": ["month", "day"],
    "local": ["year", "month", "day", "hour", "minute", "second", "nanosecond"],
    "offset": ["year", "hour", "nanosecond", "offset"],
    "zoned": ["year", "hour", "nanosecond", "offset", "tz"],
    "system": ["year", "hour", "nanosecond", "offset"],
    "instant": ["hour", "year", "new"], "timedelta": ["hours", "new"], "datedelta": ["new"],
    "datetimedelta": ["new"],
}


@PROP.job(cross(kind=list(FIELDS)))
def read_only(w, kind):
    """attributes cannot be set or deleted, and none can be added; copies are equal"""
    z = w.zone("Z", 0) if kind == "zoned" else None
    s = w.system_zone(0) if kind == "system" else None
    x = value(w, kind, "a", z, s)
    was = look(w, x)
    for f in FIELDS[kind] + ["anything"]:
        w.must_raise(f"setting {f} is refused", AttributeError, setattr, x, f, 1)
        w.must_raise(f"deleting {f} is refused", AttributeError, delattr, x, f)
    w.check("values stay as they were", same(w, was, look(w, x)))
    for c in (copy.copy(x), copy.deepcopy(x)):
        w.check("a copy is the same value", w.band(c == x, same(w, was, look(w, c))))
