"""Differences between dates."""
from sx.runner import Prop, cross

PROP = Prop(
    "C02",
    functions=["Date.__sub__ (Date)", "Date.days_until", "Date.days_since", "Date._add_months",
               "Date.__add__", "DateDelta.__init__", "DateDelta.in_months_days"],
    bounds="every pair of dates 0001-01-01..9999-12-31",
    outside="nothing within the Date type's range",
    stubs=["datetime.date/timedelta, calendar.monthrange: models of CPython 3.12"],
)


@PROP.job(cross(kind=["order", "rev"]))
def diff_roundtrip(w, kind):
    a = w.ymd("a")
    b = w.ymd("b")
    if kind == "order":
        w.assume(w.ordinal(*a) >= w.ordinal(*b))
    else:
        w.assume(w.ordinal(*a) < w.ordinal(*b))
    da, db = w.m.Date(*a), w.m.Date(*b)
    diff = da - db
    mo, dy = diff.in_months_days()
    w.obs("diff", (mo, dy))
    w.check("sign agrees with the order of the dates",
            w.band(mo >= 0, dy >= 0) if kind == "order" else w.band(mo <= 0, dy <= 0))
    w.check("adding the difference back gives the first date", db + diff == da)
    # the difference takes as many whole months as fit: one more overshoots
    t = b[0] * 12 + b[1] - 1 + mo
    y1, m1 = w.int_div(t, 12)
    s = w.ordinal(y1, m1 + 1, w.min(b[2], w.dim(y1, m1 + 1)))
    w.check("months part does not overshoot",
            s <= w.ordinal(*a) if kind == "order" else s >= w.ordinal(*a))
    t2 = t + (1 if kind == "order" else -1)
    y2, m2 = w.int_div(t2, 12)
    if w.band(y2 >= 1, y2 <= 9999):
        s2 = w.ordinal(y2, m2 + 1, w.min(b[2], w.dim(y2, m2 + 1)))
        w.check("months part is maximal",
                s2 > w.ordinal(*a) if kind == "order" else s2 < w.ordinal(*a))


@PROP.job()
def day_counts(w):
    a = w.ymd("a")
    b = w.ymd("b")
    da, db = w.m.Date(*a), w.m.Date(*b)
    n = w.ordinal(*a) - w.ordinal(*b)
    w.check("days_since", da.days_since(db) == n)
    w.check("days_until", da.days_until(db) == -n)
    w.check("adding days_until gives the other date", da.add(days=da.days_until(db)) == db)
    w.check("subtracting days_since gives the other date",
            da.subtract(days=da.days_since(db)) == db)
    w.obs("n", da.days_since(db))


@PROP.job()
def same(w):
    a = w.ymd("a")
    d = w.m.Date(*a)
    mo, dy = (d - w.m.Date(*a)).in_months_days()
    w.check("difference with itself is empty", w.band(mo == 0, dy == 0))
