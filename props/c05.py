"""Equality, ordering and hashing of the calendar, local and duration types."""
from sx.runner import Prop, cross

PROP = Prop(
    "C05",
    functions=[f"{t}.__eq__/__lt__/__le__/__gt__/__ge__/__hash__" for t in
               ("Date", "YearMonth", "MonthDay", "Time", "LocalDateTime", "TimeDelta")]
    + ["DateDelta.__eq__/__hash__", "DateTimeDelta.__eq__/__hash__"],
    bounds="every pair of values of each type",
    outside="nothing within the types' ranges",
    stubs=["datetime: model of CPython 3.12; hash(): structural stand-in, equal hashes mean "
           "equal hashed content"],
)


def cmp_all(w, a, b, lt, eq, what):
    w.check(what + " ==", w.iff(a == b, eq))
    w.check(what + " !=", w.iff(a != b, w.bnot(eq)))
    if lt is not None:
        w.check(what + " <", w.iff(a < b, lt))
        w.check(what + " <=", w.iff(a <= b, w.bor(lt, eq)))
        gt = w.band(w.bnot(lt), w.bnot(eq))
        w.check(what + " >", w.iff(a > b, gt))
        w.check(what + " >=", w.iff(a >= b, w.bor(gt, eq)))
    if eq:
        w.check(what + " equal values hash equal", w.hash(a) == w.hash(b))


@PROP.job()
def dates(w):
    a, b = w.ymd("a"), w.ymd("b")
    A, B = (a[0] * 12 + a[1]) * 32 + a[2], (b[0] * 12 + b[1]) * 32 + b[2]
    cmp_all(w, w.m.Date(*a), w.m.Date(*b), A < B, A == B, "Date")


@PROP.job()
def yearmonths(w):
    a = w.int("a.y", 1, 9999), w.int("a.m", 1, 12)
    b = w.int("b.y", 1, 9999), w.int("b.m", 1, 12)
    A, B = a[0] * 12 + a[1], b[0] * 12 + b[1]
    cmp_all(w, w.m.YearMonth(*a), w.m.YearMonth(*b), A < B, A == B, "YearMonth")


@PROP.job()
def monthdays(w):
    a, b = w.ymd("a", 2000, 2000), w.ymd("b", 2000, 2000)
    A, B = a[1] * 40 + a[2], b[1] * 40 + b[2]
    cmp_all(w, w.m.MonthDay(*a[1:]), w.m.MonthDay(*b[1:]), A < B, A == B, "MonthDay")


@PROP.job()
def times(w):
    a, A = w.time_of("a")
    b, B = w.time_of("b")
    cmp_all(w, a, b, A < B, A == B, "Time")


@PROP.job()
def locals_(w):
    a, A, An = w.local_dt("a")
    b, B, Bn = w.local_dt("b")
    A, B = A * 10**9 + An, B * 10**9 + Bn
    cmp_all(w, a, b, A < B, A == B, "LocalDateTime")


@PROP.job()
def timedeltas(w):
    a, A = w.tdelta("a")
    b, B = w.tdelta("b")
    cmp_all(w, a, b, A < B, A == B, "TimeDelta")
    w.check("bool", w.iff(bool(a), A != 0))


@PROP.job(cross(sa=[1, -1], sb=[1, -1]))
def datedeltas(w, sa, sb):
    am, ad = sa * w.int("am", 0, 119987), sa * w.int("ad", 0, 3659634)
    bm, bd = sb * w.int("bm", 0, 119987), sb * w.int("bd", 0, 3659634)
    a, b = w.m.DateDelta(months=am, days=ad), w.m.DateDelta(months=bm, days=bd)
    cmp_all(w, a, b, None, w.band(am == bm, ad == bd), "DateDelta")
    w.check("bool", w.iff(bool(a), w.bor(am != 0, ad != 0)))


@PROP.job(cross(sa=[1, -1], sb=[1, -1]))
def datetimedeltas(w, sa, sb):
    def mk(n, s):
        mo, dy = s * w.int(n + "m", 0, 119987), s * w.int(n + "d", 0, 3659634)
        ns = s * w.int(n + "n", 0, 10**18)
        return w.m.DateTimeDelta(months=mo, days=dy, nanoseconds=ns), mo, dy, ns

    a, b = mk("a", sa), mk("b", sb)
    cmp_all(w, a[0], b[0], None, w.band(a[1] == b[1], a[2] == b[2], a[3] == b[3]), "DateTimeDelta")
    w.check("bool", w.iff(bool(a[0]), w.bor(a[1] != 0, a[2] != 0, a[3] != 0)))


@PROP.job(cross(other=["int", "str", "none"]))
def foreign(w, other):
    o = {"int": 3, "str": "2020-01-01", "none": None}[other]
    i = w.int("i", 1, 12)
    m = w.m
    for x in (m.Date(2020, i, 1), m.YearMonth(2020, i), m.MonthDay(i, 1), m.Time(i),
              m.LocalDateTime(2020, i, 1), m.TimeDelta(hours=i)):
        w.check("never equal to a foreign object", w.band(w.bnot(x == o), x != o))
        for f in (lambda: x < o, lambda: x <= o, lambda: x > o, lambda: x >= o):
            w.must_raise("ordering against a foreign object raises TypeError", TypeError, f)
    for x in (m.DateDelta(months=i), m.DateTimeDelta(days=i)):
        w.check("never equal to a foreign object", w.band(w.bnot(x == o), x != o))
        w.must_raise("deltas with calendar units have no order", TypeError, lambda: x < x)
