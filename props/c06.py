"""Exact-time values: equality, order and hash follow the moment in time."""
from sx.runner import Prop, cross

PROP = Prop(
    "C06",
    functions=["_KnowsInstant.__eq__/__lt__/__le__/__gt__/__ge__", "Instant/OffsetDateTime/"
               "ZonedDateTime/SystemDateTime.__hash__", "_KnowsInstant.exact_eq",
               "_KnowsInstant.to_tz/to_fixed_offset/to_system_tz"],
    bounds="every pair of moments 0001-01-01..9999-12-31 to the nanosecond, every offset within "
           "±24 h, zones with any 2 (thorough: 3) transitions, system zone likewise",
    outside="zones with more transitions or a recurring rule; zones whose shift exceeds 24 h or "
            "whose transitions lie closer than 14 days",
    stubs=["datetime/zoneinfo: models of CPython 3.12; hash(): structural stand-in"],
)
KINDS = ["instant", "offset", "zoned", "system"]


def two(w, a, b, K, same_zone=True):
    za = zb = zs = None
    if "zoned" in (a, b):
        za = zb = w.zone("Z/A", K)
        if not same_zone:
            zb = w.zone("Z/B", K)
    if "system" in (a, b):
        zs = w.system_zone(K)
    return w.exact(a, "a", za, zs), w.exact(b, "b", zb, zs)


ZZ = dict(a=["zoned"], b=["zoned"], same=[False])


@PROP.job(cross(a=KINDS, b=KINDS, same=[True], K=[1]) + cross(**ZZ, K=[1]),
          thorough=cross(a=KINDS, b=KINDS, same=[True], K=[1, 2]) + cross(**ZZ, K=[1, 2]))
def compare(w, a, b, same, K):
    (x, u, n, _), (y, v, m, _) = two(w, a, b, K, same_zone=same)
    lt = w.bor(u < v, w.band(u == v, n < m))
    eq = w.band(u == v, n == m)
    gt = w.band(w.bnot(lt), w.bnot(eq))
    w.check("==", w.iff(x == y, eq))
    w.check("!=", w.iff(x != y, w.bnot(eq)))
    w.check("<", w.iff(x < y, lt))
    w.check(">", w.iff(x > y, gt))
    w.check("<=", w.iff(x <= y, w.bnot(gt)))
    w.check(">=", w.iff(x >= y, w.bnot(lt)))
    if eq:
        w.check("equal values hash equal", w.hash(x) == w.hash(y))


@PROP.job(cross(a=KINDS, K=[2]), thorough=cross(a=KINDS, K=[3]))
def exact_eq(w, a, K):
    (x, u, n, o), (y, v, m, p) = two(w, a, a, K)
    w.check("exact_eq means same local value and offset",
            w.iff(x.exact_eq(y), w.band(u == v, n == m, o == p)))
    w.check("exact_eq is reflexive", x.exact_eq(x))


@PROP.job()
def exact_eq_zones(w):
    """the zone itself is part of the value"""
    (x, u, n, o), (y, v, m, p) = two(w, "zoned", "zoned", 1, same_zone=False)
    w.assume(w.band(u == v, n == m))
    w.check("different zones are not exactly equal", w.bnot(x.exact_eq(y)))
    w.check("but compare equal", x == y)


@PROP.job(cross(a=KINDS, b=KINDS))
def exact_eq_types(w, a, b):
    if a == b:
        w.check("same type", True)
        return
    (x, *_), (y, *_) = two(w, a, b, 1)
    w.must_raise("exact_eq of different types raises TypeError", TypeError, x.exact_eq, y)


@PROP.job(cross(a=KINDS))
def fold_pairs(w, a):
    """the two occurrences of a repeated local time are different moments"""
    if a not in ("zoned", "system"):
        w.check("n/a", True)
        return
    z = w.zone("Z/A", 1) if a == "zoned" else w.system_zone(1)
    t, o0, o1 = z.trans[0], z.offs[0], z.offs[1]
    w.assume(o1 < o0)
    l = w.int("l", 86400, 3652060 * 86400)
    w.assume(w.band(l >= t + o1, l < t + o0))
    conv = (lambda i: i.to_tz("Z/A")) if a == "zoned" else (lambda i: i.to_system_tz())
    x, y = conv(w.instant_at(l - o0)), conv(w.instant_at(l - o1))
    w.check("same local time", x.local() == y.local())
    w.check("different moments", w.band(x != y, w.bnot(x == y), x < y, w.bnot(x.exact_eq(y)),
                                        x <= y, y > x, y >= x, w.bnot(y <= x)))


@PROP.job([dict(a="zoned", b=b) for b in KINDS])
def made_later(w, a, b):
    """values made with disambiguate="later", which leaves a trace inside them"""
    w.made_later = True
    compare(w, a, b, True, 1)


@PROP.job()
def made_later_same(w):
    """... and the same value made from the moment"""
    z = w.zone("Z/A", 1)
    x, u, n, off = w.exact("zoned", "x", z, None)
    w.made_later = True
    y, v, m, p = w.exact("zoned", "y", z, None)
    w.check("exact_eq means same local value and offset",
            w.iff(x.exact_eq(y), w.band(u == v, n == m)))
    w.check("and the other way round", w.iff(y.exact_eq(x), w.band(u == v, n == m)))
    w.check("==", w.iff(x == y, w.band(u == v, n == m)))
    if w.band(u == v, n == m):
        w.check("equal values hash equal", w.hash(x) == w.hash(y))
