"""Calendar arithmetic on Date."""
from sx.runner import Prop, cross

PROP = Prop(
    "C01",
    functions=["Date.__init__", "Date.add", "Date.subtract", "Date._shift", "Date._shift_kwargs",
               "Date._add_months", "Date.__add__", "Date.__sub__ (DateDelta)",
               "DateDelta.__init__"],
    bounds="every date 0001-01-01..9999-12-31; years ±10,100, months ±121,000, weeks ±530,000, "
           "days ±3,700,000 (each range exceeds the whole calendar)",
    outside="larger shift amounts; float arguments",
    stubs=["datetime.date/timedelta, calendar.monthrange: models of CPython 3.12"],
)
RANGE = (ValueError, OverflowError)


def expected(w, y, m, d, months, days):
    t = y * 12 + m - 1 + months
    ny, nm = w.int_div(t, 12)
    nm = nm + 1
    ok1 = w.band(ny >= 1, ny <= 9999)
    return ny, nm, ok1


def judge(w, r, y, m, d, months, days, what):
    ny, nm, ok1 = expected(w, y, m, d, months, days)
    if not ok1:
        w.check(what + ": month shift out of range raises", r.raised(*RANGE))
        return
    nd = w.min(d, w.dim(ny, nm))
    o = w.ordinal(ny, nm, nd) + days
    if not w.band(o >= 1, o <= 3652059):
        w.check(what + ": day shift out of range raises", r.raised(*RANGE))
        return
    w.check(what + ": succeeds in range", r.ok)
    w.check(what + ": months first (day truncated), then days", w.ord_of(r.value) == o)
    w.obs("result", w.str(r.value))


@PROP.job(cross(sign=[1, -1], part=["months", "days", "all"]))
def shift_kwargs(w, sign, part):
    y, m, d = w.ymd("d")
    date = w.m.Date(y, m, d)
    kw = {}
    if part != "days":
        kw["years"] = w.int("years", -10100, 10100)
        kw["months"] = w.int("months", -121000, 121000)
    if part != "months":
        kw["weeks"] = w.int("weeks", -530000, 530000)
        kw["days"] = w.int("days", -3700000, 3700000)
    r = w.attempt(date.add if sign > 0 else date.subtract, **kw)
    judge(w, r, y, m, d, sign * (kw.get("years", 0) * 12 + kw.get("months", 0)),
          sign * (kw.get("weeks", 0) * 7 + kw.get("days", 0)), "add" if sign > 0 else "subtract")
    w.check("operand unchanged", w.band(date.year == y, date.month == m, date.day == d))


@PROP.job(cross(op=["add", "sub", "plus", "minus"], neg=[0, 1]))
def shift_delta(w, op, neg):
    y, m, d = w.ymd("d")
    date = w.m.Date(y, m, d)
    mo = w.int("months", 0, 119987)
    dy = w.int("days", 0, 3659634)
    if neg:
        mo, dy = -mo, -dy
    delta = w.m.DateDelta(months=mo, days=dy)
    f = {"add": lambda: date.add(delta), "sub": lambda: date.subtract(delta),
         "plus": lambda: date + delta, "minus": lambda: date - delta}[op]
    r = w.attempt(f)
    s = 1 if op in ("add", "plus") else -1
    judge(w, r, y, m, d, s * mo, s * dy, op)
