"""Kinds of values do not mix silently, and DST is never ignored silently."""
import operator
from sx.runner import Prop, cross
from sx.world import DAY, EPOCH, MAXTS, NS

PROP = Prop(
    "C23",
    functions=["__eq__/__ne__/__lt__/__le__/__gt__/__ge__/__add__/__radd__/__sub__/__rsub__/"
               "__mul__/__truediv__/__floordiv__/__mod__ of every class",
               "OffsetDateTime.add/subtract/replace*/round/now/from_timestamp*",
               "LocalDateTime.add/subtract/difference"],
    bounds="every ordered pair of the twelve types (and int, str, None, datetime.date), every "
           "operator, every value; zones and system zone with one transition; durations of up "
           "to 1000 days",
    outside="operands that are subclasses with their own operators",
    stubs=["datetime/zoneinfo/localtime: models of CPython 3.12"],
)
EXACT = ["instant", "offset", "zoned", "system"]
TYPES = ["date", "time", "yearmonth", "monthday", "local", "timedelta", "datedelta",
         "datetimedelta"] + EXACT
FOREIGN = ["int", "str", "none", "pydate"]
DELTAS = ["timedelta", "datedelta", "datetimedelta"]


def value(w, kind, name, zone=None, sysz=None):
    m = w.m
    if kind in EXACT:
        return w.exact(kind, name, zone, sysz)[0]
    if kind == "date":
        return w.ord_date(name)[0]
    if kind == "time":
        return w.time_of(name)[0]
    if kind == "yearmonth":
        return m.YearMonth(w.int(name + ".y", 1, 9999), w.int(name + ".m", 1, 12))
    if kind == "monthday":
        return m.MonthDay(w.int(name + ".m", 1, 12), w.int(name + ".d", 1, 28))
    if kind == "local":
        return w.local_dt(name)[0]
    if kind == "timedelta":
        return w.tdelta(name, -1000 * DAY, 1000 * DAY)[0]
    if kind == "datedelta":
        return m.DateDelta(days=w.int(name + ".dd", -1000, 1000))
    if kind == "datetimedelta":
        d = w.int(name + ".dd", 1, 1000)
        s = w.int(name + ".ss", 1, 10**8)
        return m.DateTimeDelta(days=d, seconds=s)
    if kind == "int":
        return w.int(name, -10**6, 10**6)
    if kind == "str":
        return "2020-01-01"
    if kind == "none":
        return None
    return w.pydate.fromordinal(w.int(name, 1, 3652059))


def pair(w, a, b):
    z = w.zone("Z", 1) if "zoned" in (a, b) else None
    s = w.system_zone(1) if "system" in (a, b) else None
    return value(w, a, "a", z, s), value(w, b, "b", z, s)


def related(a, b):
    return a == b or (a in EXACT and b in EXACT)


def ordered(a, b):
    return related(a, b) and a not in ("datedelta", "datetimedelta")


NAMES = {"date": "Date", "local": "LocalDateTime", "timedelta": "TimeDelta",
         "datedelta": "DateDelta", "datetimedelta": "DateTimeDelta", "instant": "Instant",
         "zoned": "ZonedDateTime", "system": "SystemDateTime"}


def sum_type(a, b, op):
    """type of a op b; 'implicit': refused as ignoring DST; None: no such operation"""
    if a in DELTAS and b in DELTAS:
        return a if a == b else "datetimedelta"
    if a == "date" and b == "datedelta":
        return "date"
    if a == "instant" and b == "timedelta":
        return "instant"
    if a in ("zoned", "system") and b in DELTAS:
        return a
    if a == "local" and b in DELTAS:
        return "local" if b == "datedelta" else "implicit"
    if op == "sub":
        if a == b == "date":
            return "datedelta"
        if a in EXACT and b in EXACT:
            return "timedelta"
        if a == b == "local":
            return "implicit"
        if a == "offset" and b in DELTAS:
            return "implicit"
    return None


ALL = cross(a=TYPES, b=TYPES) + cross(a=TYPES, b=FOREIGN) + cross(a=FOREIGN, b=TYPES)


@PROP.job(ALL)
def comparing(w, a, b):
    if related(a, b):
        x, y = pair(w, a, b)
        if not ordered(a, b):
            for op in (operator.lt, operator.le, operator.gt, operator.ge):
                w.must_raise(op.__name__ + " is refused", TypeError, op, x, y)
            return
        lt, gt, eq = x < y, x > y, x == y
        # exactly one of <, ==, > (== by moment)
        w.check("trichotomy", w.band(w.bor(lt, gt, eq), w.bnot(w.band(lt, gt)),
                                     w.bnot(w.band(lt, eq)), w.bnot(w.band(gt, eq))))
        w.check("<=", w.iff(x <= y, w.bnot(gt)))
        w.check(">=", w.iff(x >= y, w.bnot(lt)))
        return
    x, y = pair(w, a, b)
    w.check("never equal", w.bnot(x == y))
    w.check("always unequal", x != y)
    for op in (operator.lt, operator.le, operator.gt, operator.ge):
        w.must_raise(op.__name__ + " is refused", TypeError, op, x, y)


@PROP.job(ALL)
def adding(w, a, b):
    x, y = pair(w, a, b)
    for op in ("add", "sub"):
        want = sum_type(a, b, op)
        f = getattr(operator, op)
        if want is None:
            r = w.attempt(f, x, y)
            w.check(op + " is refused", w.band(
                r.raised(TypeError), w.bnot(r.raised(w.m.ImplicitlyIgnoringDST))
                if not r.ok else False))
        elif want == "implicit":
            r = w.attempt(f, x, y)
            w.check(op + " is refused as ignoring DST", r.raised(w.m.ImplicitlyIgnoringDST))
        else:
            r = w.attempt(f, x, y)
            if r.ok:
                w.check(op + ": type", type(r.value) is getattr(w.m, NAMES[want]))
            else:
                w.check(op + ": refused only for its value",
                        r.raised(ValueError, OverflowError))


@PROP.job(cross(a=TYPES, b=TYPES))
def multiplying(w, a, b):
    x, y = pair(w, a, b)
    w.must_raise("mul is refused", TypeError, operator.mul, x, y)
    for op in ("truediv", "floordiv", "mod"):
        if a == b == "timedelta":
            w.check("n/a", True)
            continue
        w.must_raise(op + " is refused", TypeError, getattr(operator, op), x, y)


OPS = ["date-units", "time-units", "timedelta", "datedelta", "datetimedelta", "nothing"]


def shift_args(w, how):
    m = w.m
    if how == "date-units":
        return (), dict(days=w.int("n", -1000, 1000), months=w.int("k", -5, 5))
    if how == "time-units":
        return (), dict(hours=w.int("n", -1000, 1000), nanoseconds=w.int("k", -NS, NS))
    if how == "nothing":
        return (), {}
    return (value(w, how, "d"),), {}


@PROP.job(cross(how=OPS, sign=["add", "subtract"]))
def offset_shift(w, how, sign):
    """moving a fixed-offset time needs ignore_dst=True, whatever the amount"""
    x, u, n, o = w.exact("offset", "x")
    args, kw = shift_args(w, how)
    f = getattr(x, sign)
    w.must_raise("refused", w.m.ImplicitlyIgnoringDST, f, *args, **kw)
    w.must_raise("refused when False", w.m.ImplicitlyIgnoringDST, f, *args, ignore_dst=False, **kw)
    r = w.attempt(f, *args, ignore_dst=True, **kw)
    w.check("allowed explicitly", r.ok or r.raised(ValueError, OverflowError))
    if r.ok:
        w.check("type", type(r.value) is w.m.OffsetDateTime)


@PROP.job(cross(how=["replace", "replace_date", "replace_time", "round", "now", "from_timestamp",
                     "from_timestamp_millis", "from_timestamp_nanos"]))
def offset_other(w, how):
    cls = w.m.OffsetDateTime
    if how.startswith("from") or how == "now":
        off, o = w.offset("off")
        if how == "now":
            t = w.int("clock", 0, 10**18)
            w.clock([t] * 3)
            f, args, kw = cls.now, (off,), {}
        else:
            f, args, kw = getattr(cls, how), (w.int("t", -10**9, 10**9),), dict(offset=off)
    else:
        x, u, n, o = w.exact("offset", "x")
        f, kw = getattr(x, how), {}
        args = {"replace": (), "round": ("hour",), "replace_date": (),
                "replace_time": ()}[how]
        if how == "replace":
            kw = dict(minute=w.int("mi", 0, 59))
        elif how == "replace_date":
            args = (value(w, "date", "d"),)
        elif how == "replace_time":
            args = (value(w, "time", "t"),)
    w.must_raise("refused", w.m.ImplicitlyIgnoringDST, f, *args, **kw)
    w.must_raise("refused when False", w.m.ImplicitlyIgnoringDST, f, *args, ignore_dst=False, **kw)
    r = w.attempt(f, *args, ignore_dst=True, **kw)
    w.check("allowed explicitly", r.ok or r.raised(ValueError, OverflowError))
    if r.ok:
        w.check("type", type(r.value) is cls)


@PROP.job(cross(how=OPS, sign=["add", "subtract"]))
def local_shift(w, how, sign):
    """moving a local time by clock time needs ignore_dst=True; by days does not"""
    x, l, n = w.local_dt("x", 20000, 3600000)
    args, kw = shift_args(w, how)
    f = getattr(x, sign)
    r = w.attempt(f, *args, **kw)
    moves = {"time-units": lambda: w.bnot(kw["hours"] * 3600 * NS + kw["nanoseconds"] == 0),
             "timedelta": lambda: args[0].in_nanoseconds() != 0,
             "datetimedelta": lambda: True}.get(how, lambda: False)()
    if r.ok:
        w.check("allowed only without clock time", w.bnot(moves))
        w.check("type", type(r.value) is w.m.LocalDateTime)
    else:
        w.check("refused as ignoring DST",
                w.band(r.raised(w.m.ImplicitlyIgnoringDST), moves))
    r = w.attempt(f, *args, ignore_dst=True, **kw)
    w.check("allowed explicitly", r.ok)


@PROP.job(cross(_=[0]))
def local_difference(w, _):
    x, y = value(w, "local", "x"), value(w, "local", "y")
    w.must_raise("-", w.m.ImplicitlyIgnoringDST, operator.sub, x, y)
    w.must_raise("difference", w.m.ImplicitlyIgnoringDST, x.difference, y)
    w.must_raise("difference, False", w.m.ImplicitlyIgnoringDST, x.difference, y,
                 ignore_dst=False)
    w.check("explicit", type(x.difference(y, ignore_dst=True)) is w.m.TimeDelta)


@PROP.job(cross(kind=TYPES))
def absent(w, kind):
    """operations that would need unknown information do not exist"""
    z = w.zone("Z", 1) if kind == "zoned" else None
    s = w.system_zone(1) if kind == "system" else None
    x = value(w, kind, "x", z, s)
    if kind == "instant":
        no = ["year", "month", "day", "hour", "minute", "second", "nanosecond", "date", "time",
              "local", "offset", "replace", "replace_date", "replace_time", "tz"]
        for kw in ("years", "months", "weeks", "days"):
            w.must_raise("no " + kw, TypeError, x.add, **{kw: w.int("n", -9, 9)})
            w.must_raise("no -" + kw, TypeError, x.subtract, **{kw: w.int("n", -9, 9)})
    elif kind == "local":
        no = ["instant", "timestamp", "timestamp_millis", "timestamp_nanos", "to_tz",
              "to_fixed_offset", "to_system_tz", "offset", "tz", "now", "from_timestamp"]
    elif kind in ("offset", "system"):
        no = ["tz"] + (["start_of_day", "day_length"] if kind == "offset" else [])
    elif kind == "zoned":
        no = ["year_month", "month_day", "assume_tz"]
    elif kind in ("date", "yearmonth", "monthday"):
        no = ["hour", "instant", "timestamp", "assume_tz"]
    else:
        no = ["instant", "timestamp", "assume_tz"]
    for name in no:
        w.check("no " + name, not hasattr(x, name))
    w.must_raise("no attribute", AttributeError, getattr, x, "py_date_time")
