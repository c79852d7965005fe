"""The harness API, in two versions: symbolic (SymWorld) and concrete replay on
the real library (RealWorld).  A harness is one function run on both."""
from __future__ import annotations
import copy
import importlib.machinery
import os
import shutil
import struct
import sys
import tempfile
import time as _time
from . import core
from .core import SymInt, SymBool, Abort, Violation, Unsupported, Inconclusive
from .core import band, bor, bnot, implies, ite, beq, smin, smax
from .strs import LazyStr

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = REPO + "/pysrc/whenever/_pywhenever.py"
INIT = REPO + "/pysrc/whenever/__init__.py"
DAY = 86400
EPOCH = 719163 * DAY
MAXTS = 3652060 * DAY  # first second after year 9999 (ordinal based)
MAXORD = 3652059
NS = 1_000_000_000


class CheckFailed(Exception):
    def __init__(self, label, detail=""):
        super().__init__(label, detail)
        self.label, self.detail = label, detail


class AssumeFailed(Exception):
    pass


class Outcome:
    """result of w.attempt: .ok, .value, .exc (exception class), .error"""

    def __init__(self, ok, value, exc, error):
        self.ok, self.value, self.exc, self.error = ok, value, exc, error

    def raised(self, *excs):
        return not self.ok and issubclass(self.exc, excs)


def _forking():
    return core.C is not None and core.C.fork_zones


class Zone:
    """Specification-level time zone: transition instants (seconds, ordinal
    based) and offsets.  Independent of the zoneinfo model."""

    def __init__(self, name, trans, offs):
        self.name, self.trans, self.offs = name, trans, offs

    def off_utc(self, u):
        """offset in force at UTC second u"""
        if _forking():
            for i in range(len(self.trans) - 1, -1, -1):
                if u >= self.trans[i]:
                    return self.offs[i + 1]
            return self.offs[0]
        r = self.offs[0]
        for i, t in enumerate(self.trans):
            r = ite(u >= t, self.offs[i + 1], r)
        return r

    def _segments(self):
        n = len(self.trans)
        for i, o in enumerate(self.offs):
            lo = self.trans[i - 1] if i else None
            hi = self.trans[i] if i < n else None
            yield o, lo, hi

    def late_gap_over(self, l):
        """a forward transition skips local second l and began before it"""
        return bor(*[band(t + self.offs[i] < l, l < t + self.offs[i + 1])
                     for i, t in enumerate(self.trans)])

    def first_at_or_after(self, l):
        """the first moment at which the wall clock shows l, or, if l is
        skipped, the transition that skips it"""
        occ = self.occurrences(l)
        if _forking():
            for v, u in occ:
                if v:
                    return u
            for i, t in enumerate(self.trans):
                if band(t + self.offs[i] <= l, l < t + self.offs[i + 1]):
                    return t
        r = None
        for v, u in reversed(occ):
            r = u if r is None else ite(v, u, r)
        for i, t in enumerate(self.trans):
            r = ite(band(t + self.offs[i] <= l, l < t + self.offs[i + 1]), t, r)
        return r

    def occurrences(self, l):
        """[(valid?, utc second)] for local second l"""
        out = []
        for o, lo, hi in self._segments():
            u = l - o
            c = []
            if lo is not None:
                c.append(u >= lo)
            if hi is not None:
                c.append(u < hi)
            out.append((band(*c), u))
        return out

    def count(self, l):
        n = 0
        for v, u in self.occurrences(l):
            n = n + ite(v, 1, 0)
        return n

    def is_gap(self, l):
        return band(*[bnot(v) for v, _ in self.occurrences(l)])

    def is_repeated(self, l):
        occ = self.occurrences(l)
        return bor(*[
            band(a[0], b[0]) for i, a in enumerate(occ) for b in occ[i + 1:]
        ])

    def resolve(self, l, how):
        """instant chosen for local second l (how: earlier/later/compatible)"""
        occ = self.occurrences(l)
        if _forking():
            hits = [u for v, u in occ if v]
            if hits:
                return hits[-1] if how == "later" else hits[0]
            for i, t in enumerate(self.trans):
                a, b = self.offs[i], self.offs[i + 1]
                if band(l - a >= t, l - b < t):
                    return l - b if how == "earlier" else l - a
            raise Unsupported("local time neither shown nor skipped")
        first = last = None
        # segments are in time order: the first valid one is the earlier
        for v, u in reversed(occ):
            first = u if first is None else ite(v, u, first)
        for v, u in occ:
            last = u if last is None else ite(v, u, last)
        # gap: after transition t with offsets a -> b (b > a), l - a >= t > l - b
        g_early, g_late = first, last
        for i, t in enumerate(self.trans):
            a, b = self.offs[i], self.offs[i + 1]
            here = band(l - a >= t, l - b < t)
            g_early = ite(here, l - b, g_early)
            g_late = ite(here, l - a, g_late)
        gap = self.is_gap(l)
        early = ite(gap, g_early, first)
        late = ite(gap, g_late, last)
        if how == "earlier":
            return early
        if how == "later":
            return late
        if how == "compatible":
            return ite(gap, late, early)
        raise ValueError(how)

    def resolve_keeping(self, l, prev):
        """the moment for local second l that has offset `prev` if possible"""
        e, la = self.resolve(l, "earlier"), self.resolve(l, "later")
        if _forking():
            for x in (e, la):
                if self.off_utc(x) == prev:
                    return x
            return self.resolve(l, "compatible")
        return ite(self.off_utc(e) == prev, e,
                   ite(self.off_utc(la) == prev, la, self.resolve(l, "compatible")))


def zone_of_inputs(i, name):
    """the Zone a harness built, from its inputs (for known findings)"""
    K = sum(1 for k in i if k.startswith(name + ".t"))
    return Zone(name, [i[f"{name}.t{k}"] for k in range(K)],
                [i[f"{name}.o{k}"] for k in range(K + 1)])


class World:
    """shared helpers"""

    band = staticmethod(band)
    bor = staticmethod(bor)
    bnot = staticmethod(bnot)
    implies = staticmethod(implies)
    iff = staticmethod(beq)
    ite = staticmethod(ite)
    min = staticmethod(smin)
    max = staticmethod(smax)

    def attempt(self, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except Exception as e:  # engine control flow is BaseException
            return Outcome(False, None, type(e), e)
        return Outcome(True, v, None, None)

    def must_raise(self, label, excs, fn, *a, **k):
        r = self.attempt(fn, *a, **k)
        excs = excs if isinstance(excs, tuple) else (excs,)
        self.check(
            label, (not r.ok) and issubclass(r.exc, excs),
        )

    def choice(self, name, options):
        """fork over a concrete list of options"""
        i = self.int(name, 0, len(options) - 1)
        if isinstance(i, SymInt):
            i = i.concretise()
        return options[i]

    def near_edge(self, *ts):
        """some second (ordinal based) is within 3 days of the range limits.
        There the C library calls behind the system zone look beyond the
        limits, so an operation may be refused; it may never give a wrong
        result."""
        return bor(*[bor(t < 4 * DAY, t >= MAXTS - 3 * DAY) for t in ts])

    # composite inputs --------------------------------------------------
    def ord_date(self, name, lo=1, hi=MAXORD):
        """whenever.Date from an arbitrary ordinal (through from_py_date)"""
        o = self.int(name, lo, hi)
        return self.date_of(o), o

    def date_of(self, o):
        return self.m.Date.from_py_date(self.pydate.fromordinal(o))

    def ymd(self, name, ylo=1, yhi=9999):
        """arbitrary valid (y, m, d)"""
        y = self.int(name + ".y", ylo, yhi)
        m = self.int(name + ".m", 1, 12)
        d = self.int(name + ".d", 1, 31)
        self.assume(d <= self.dim(y, m))
        return y, m, d

    def dim(self, y, m):
        """days in month, by the Gregorian rule"""
        leap = self.leap(y)
        return ite(bor(m == 4, m == 6, m == 9, m == 11), 30,
                   ite(m == 2, ite(leap, 29, 28), 31))

    def ordinal(self, y, m, d):
        """proleptic Gregorian ordinal of a valid date (year 1..9999)"""
        from . import model_dt as M

        if isinstance(y, int) and isinstance(m, int) and isinstance(d, int):
            return 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + sum(
                [31, 29 if self.leap(y) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30][: m - 1]
            ) + d
        return M.ymd2ord(y, m, d)

    def ord_of(self, d):
        """ordinal of a whenever.Date"""
        return d.py_date().toordinal()

    def leap(self, y):
        from . import model_dt as M

        if isinstance(y, SymInt):
            return M.is_leap(y)
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)

    def time_of(self, name):
        """whenever.Time from arbitrary fields; also ns since midnight"""
        h = self.int(name + ".h", 0, 23)
        mi = self.int(name + ".mi", 0, 59)
        s = self.int(name + ".s", 0, 59)
        n = self.int(name + ".ns", 0, NS - 1)
        t = self.m.Time(h, mi, s, nanosecond=n)
        return t, (h * 3600 + mi * 60 + s) * NS + n

    def local_dt(self, name, lo=1, hi=MAXORD):
        """arbitrary LocalDateTime; returns (value, local seconds, nanos)"""
        d, o = self.ord_date(name + ".o", lo, hi)
        t, ns = self.time_of(name)
        sod = self.int_div(ns, NS)
        return d.at(t), o * DAY + sod[0], sod[1]

    def int_div(self, a, b):
        return divmod(a, b)

    def instant(self, name, lo=DAY, hi=MAXTS - 1):
        """arbitrary Instant; returns (value, seconds (ordinal based), nanos)"""
        u = self.int(name + ".u", lo, hi)
        n = self.int(name + ".ns", 0, NS - 1)
        return self.instant_at(u, n), u, n

    def instant_at(self, u, n=0):
        return self.m.Instant.from_timestamp_nanos((u - EPOCH) * NS + n)

    def tdelta(self, name, lo=None, hi=None):
        MX = 9999 * 366 * DAY
        s = self.int(name + ".s", -MX if lo is None else lo, MX if hi is None else hi)
        n = self.int(name + ".n", 0, NS - 1)
        tot = s * NS + n
        if hi is None or hi >= MX:
            self.assume(tot <= MX * NS)
        return self.m.TimeDelta(nanoseconds=tot), tot

    def offset(self, name, lo=-DAY + 1, hi=DAY - 1):
        o = self.int(name, lo, hi)
        return self.m.TimeDelta(seconds=o), o

    def offset_dt(self, name):
        """arbitrary OffsetDateTime: returns (value, utc seconds, nanos, offset)"""
        i, u, n = self.instant(name)
        od, o = self.offset(name + ".off")
        l = u + o
        self.assume(l >= DAY)
        self.assume(l < MAXTS)
        return i.to_fixed_offset(od), u, n, o

    made_later = False

    def exact(self, kind, name, zone=None, sysz=None):
        """arbitrary exact value: (value, utc seconds, nanos, offset seconds)"""
        if kind == "offset":
            return self.offset_dt(name)
        i, u, n = self.instant(name)
        if kind == "instant":
            return i, u, n, 0
        z = zone if kind == "zoned" else sysz
        off = z.off_utc(u)
        l = u + off
        self.assume(l >= DAY)
        self.assume(l < MAXTS)
        x = i.to_tz(z.name) if kind == "zoned" else i.to_system_tz()
        if self.made_later:
            # the same value, made from its local time with disambiguate="later"
            # (which leaves a trace in the underlying datetime)
            l = x.local()
            r = self.attempt(l.assume_tz, z.name, disambiguate="later") if kind == "zoned" \
                else self.attempt(l.assume_system_tz, disambiguate="later")
            self.assume(r.ok)
            x = r.value
            self.assume(x.timestamp_nanos() == (u - EPOCH) * NS + n)
        return x, u, n, off

    def loc_s(self, x):
        """local seconds (ordinal based) of a value with date()/time()"""
        d = x.date()
        o = d.py_date().toordinal()
        return o * DAY + x.hour * 3600 + x.minute * 60 + x.second

    def inst_s(self, x):
        """UTC seconds (ordinal based) of an exact value, and nanos"""
        if not isinstance(x, self.m.Instant):
            x = x.instant()
        p = x.py_datetime()
        o = p.toordinal()
        ns = x.timestamp_nanos()
        return o * DAY + p.hour * 3600 + p.minute * 60 + p.second, ns

    def off_s(self, x):
        ns = x.offset.in_nanoseconds()
        return ns // NS

    def zone_vars(self, name, K, spacing=14 * DAY, lo=None, hi=None):
        lo = DAY * 3 if lo is None else lo
        hi = MAXTS - 3 * DAY if hi is None else hi
        trans, offs = [], []
        for i in range(K):
            trans.append(self.int(f"{name}.t{i}", lo, hi))
        for i in range(K + 1):
            offs.append(self.int(f"{name}.o{i}", -DAY + 1, DAY - 1))
        for i in range(K - 1):
            self.assume(trans[i + 1] - trans[i] >= spacing)
        for i in range(K):
            sh = offs[i + 1] - offs[i]
            self.assume(band(sh <= DAY, sh >= -DAY))
        return trans, offs


# ---------------------------------------------------------------------------


class SymWorld(World):
    sym = True

    def __init__(self, ctx, known=()):
        from . import loader, model_dt as M

        self.ctx = ctx
        self.known = known
        self.hits = []
        self.m = load_sym()
        loader.ENTERED.clear()
        self.pydate, self.pytime, self.pydatetime = M.date, M.time, M.datetime
        self.pytimedelta, self.pytimezone, self.pyzoneinfo = M.timedelta, M.timezone, M.ZoneInfo
        self._loader = loader
        self.nchecks = 0

    def int(self, name, lo, hi):
        v = self.ctx.inputs.get(name)
        if v is None:
            v = self.ctx.var(name, lo, hi)
            if lo == hi:
                v = lo
            self.ctx.inputs[name] = v
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def assume(self, c):
        self.ctx.assume(c)

    def check(self, label, cond):
        if cond is NotImplemented:
            cond = False
        self.nchecks += 1
        self.ctx.labels.add(label)
        for k in self.known:
            if k.label_matches(label):
                wh = k.where(self.ctx.inputs, self.params)
                if wh is None or wh is False:
                    continue
                m = self.ctx.prove(bor(cond, bnot(wh)))
                if m is not None:
                    self.hits.append((k, self.ctx.model_inputs(m), label))
                cond = bor(cond, wh)
        m = self.ctx.prove(cond)
        if m is not None:
            raise Violation(label, self.ctx.model_inputs(m))

    def obs(self, label, v):
        for x in v if isinstance(v, (tuple, list)) else (v,):
            if isinstance(x, LazyStr):
                x.c  # put the text together now: it may add to the path
        self.ctx.obs.append((label, v))

    def str(self, x):
        return self._loader.s_str(x)

    def repr(self, x):
        return type(x).__repr__(x)

    def is_int(self, v):
        """is this value an integer (not a float)?"""
        return isinstance(v, (int, SymInt)) and not isinstance(v, (bool, SymBool))

    def fresh(self):
        """this world with a newly loaded copy of the library (same inputs)"""
        w = copy.copy(self)
        w.m = load_sym()
        return w

    def hash(self, x):
        return type(x).__hash__(x)

    def pickled(self, x):
        r = x.__reduce__()
        fn, args = r[0], r[1]
        return fn(*args)

    def pack(self, fmt, *vals):
        from . import loader

        return loader.s_pack(fmt, *vals)

    def chars(self, s):
        """code points of a string"""
        from . import strs

        return [strs.code(c) for c in strs.chars(s)]

    def symstr(self, name, n, ranges=((0, 255),), like=None):
        """arbitrary string of n characters.  `like`: template, '?' = free,
        'd' = digit; other characters fixed"""
        from . import strs

        out = []
        for i in range(n):
            if like is not None and like[i] not in "?#":
                out.append(like[i])
                continue
            rr = ((48, 57),) if like is not None and like[i] == "#" else ranges
            lo, hi = min(a for a, _ in rr), max(b for _, b in rr)
            v = self.int(f"{name}[{i}]", lo, hi)
            if len(rr) > 1:
                self.assume(bor(*[band(v >= a, v <= b) for a, b in rr]))
            out.append(v)
        return strs.mk(out)

    def zone(self, name, K, **kw):
        from . import model_dt as M

        trans, offs = self.zone_vars(name, K, **kw)
        self.ctx.objs.setdefault("zones", {})[name] = M.ZoneData(trans, offs, name)
        return Zone(name, trans, offs)

    def system_zone(self, K, name="SYS", **kw):
        from . import model_dt as M

        trans, offs = self.zone_vars(name, K, **kw)
        self.ctx.objs["system"] = M.ZoneData(trans, offs, name)
        return Zone(name, trans, offs)

    def clock(self, values):
        it = iter(values)
        last = [None]

        def f():
            try:
                last[0] = next(it)
            except StopIteration:
                raise Unsupported("more clock readings than the harness provides")
            return last[0]

        self.ctx.objs["clock"] = f

    def is_none(self, x):
        return x is None

    def done(self):
        pass


_SYM = {}


def load_sym(reload=True):
    from . import loader

    extra = {}
    py = loader.load_source(SRC, "whenever._pywhenever", "whenever", extra)
    extra["whenever._pywhenever"] = py

    class NoExt(dict):
        def __contains__(self, k):
            return k.endswith("._whenever") or dict.__contains__(self, k)

        def __getitem__(self, k):
            if k.endswith("._whenever"):
                raise ModuleNotFoundError("No module named " + k, name="whenever._whenever")
            return dict.__getitem__(self, k)

    init = loader.load_source(INIT, "whenever", "whenever", NoExt(extra))
    init.sx_py = py
    return init


# ---------------------------------------------------------------------------


def write_tzif(path, trans, offs):
    """TZif v2 file: K transitions (unix seconds), K+1 types, footer"""
    types = b"".join(struct.pack(">lBB", o, 0, 0) for o in offs)
    abbr = b"XXX\0"

    def block(size):
        f = ">%d%s" % (len(trans), "q" if size == 8 else "l")
        tr = trans if size == 8 else []
        body = struct.pack(">%dq" % len(tr), *tr) if size == 8 else b""
        body += bytes(range(1, len(tr) + 1)) + types + abbr
        hdr = b"TZif2" + b"\0" * 15 + struct.pack(
            ">6l", 0, 0, 0, len(tr), len(offs), len(abbr)
        )
        return hdr + body

    o = -offs[-1]
    sgn = "-" if o < 0 else ""
    a = abs(o)
    foot = "<XXX>%s%02d:%02d:%02d" % (sgn, a // 3600, a // 60 % 60, a % 60)
    with open(path, "wb") as fh:
        fh.write(block(4) + block(8) + b"\n" + foot.encode() + b"\n")


_REAL = {}


def real_module():
    m = _REAL.get("m")
    if m is None:
        sys.dont_write_bytecode = True
        p = REPO + "/pysrc"
        if p not in sys.path:
            sys.path.insert(0, p)
        for k in [k for k in sys.modules if k == "whenever" or k.startswith("whenever.")]:
            del sys.modules[k]
        import whenever

        assert whenever.__file__.startswith(REPO), whenever.__file__
        m = _REAL["m"] = whenever
    return m


_CODE = {}


def fresh_module():
    real_module()

    def ours():
        return [k for k in sys.modules if k == "whenever" or k.startswith("whenever.")]

    saved = {k: sys.modules.pop(k) for k in ours()}
    cls = importlib.machinery.SourceFileLoader
    get = cls.get_code

    def get_code(self, name):
        c = _CODE.get(name)
        if c is None:
            c = _CODE[name] = get(self, name)
        return c

    cls.get_code = get_code
    try:
        import whenever

        return whenever
    finally:
        cls.get_code = get
        for k in ours():
            del sys.modules[k]
        sys.modules.update(saved)


class RealWorld(World):
    sym = False

    def __init__(self, inputs, params=None):
        import datetime as D
        import zoneinfo as Z

        self.inputs = inputs
        self.params = params or {}
        self.m = real_module()
        self.pydate, self.pytime, self.pydatetime = D.date, D.time, D.datetime
        self.pytimedelta, self.pytimezone, self.pyzoneinfo = D.timedelta, D.timezone, Z.ZoneInfo
        self.observed = []
        self._dir = None
        self._clock = None
        self._old_tz = None
        self.used = {}
        if "anysys.o0" in inputs:  # the code looked at a system zone nobody declared
            self.system_zone(0, name="anysys")

    def int(self, name, lo, hi):
        v = self.inputs.get(name, lo)
        self.used[name] = v
        if not lo <= v <= hi:
            raise AssumeFailed(name)
        return v

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def assume(self, c):
        if not c:
            raise AssumeFailed()

    def check(self, label, cond):
        if cond is NotImplemented or not cond:
            raise CheckFailed(label)

    def obs(self, label, v):
        self.observed.append((label, v))

    def str(self, x):
        return str(x)

    def repr(self, x):
        return repr(x)

    def is_int(self, v):
        return type(v) is int

    def fresh(self):
        """this world with a newly imported copy of the library (same inputs;
        make zones before)"""
        w = copy.copy(self)
        w.m = fresh_module()
        return w

    def hash(self, x):
        return hash(x)

    def pickled(self, x):
        import pickle

        return pickle.loads(pickle.dumps(x))

    def pack(self, fmt, *vals):
        return struct.pack(fmt, *vals)

    def chars(self, s):
        return [ord(c) for c in s]

    def symstr(self, name, n, ranges=((0, 255),), like=None):
        out = []
        for i in range(n):
            if like is not None and like[i] not in "?#":
                out.append(like[i])
                continue
            rr = ((48, 57),) if like is not None and like[i] == "#" else ranges
            lo, hi = min(a for a, _ in rr), max(b for _, b in rr)
            v = self.int(f"{name}[{i}]", lo, hi)
            if not any(a <= v <= b for a, b in rr):
                raise AssumeFailed()
            out.append(chr(v))
        return "".join(out)

    def _tmp(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="vzone")
            import zoneinfo

            zoneinfo.reset_tzpath(to=[self._dir])
            zoneinfo.ZoneInfo.clear_cache()
        return self._dir

    def zone(self, name, K, **kw):
        trans, offs = self.zone_vars(name, K, **kw)
        p = os.path.join(self._tmp(), name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        write_tzif(p, [t - EPOCH for t in trans], offs)
        return Zone(name, trans, offs)

    def system_zone(self, K, name="SYS", **kw):
        trans, offs = self.zone_vars(name, K, **kw)
        p = os.path.join(self._tmp(), name)
        write_tzif(p, [t - EPOCH for t in trans], offs)
        if self._old_tz is None:
            self._old_tz = (os.environ.get("TZ"),)
        os.environ["TZ"] = ":" + p
        _time.tzset()
        return Zone(name, trans, offs)

    def clock(self, values):
        it = iter(values)
        py = self.m._pywhenever
        real = _time.time_ns
        self._clock = (py, real)

        def fake():
            return next(it)

        _time.time_ns = fake
        for k, v in list(vars(py).items()):
            if v is real:
                setattr(py, k, fake)
        self._fake = fake

    def close(self):
        if self._clock:
            py, real = self._clock
            _time.time_ns = real
            for k, v in list(vars(py).items()):
                if v is self._fake:
                    setattr(py, k, real)
            try:
                py._unpatch_time()
            except Exception:
                pass
        if self._old_tz is not None:
            if self._old_tz[0] is None:
                os.environ.pop("TZ", None)
            else:
                os.environ["TZ"] = self._old_tz[0]
            _time.tzset()
        if self._dir is not None:
            import zoneinfo

            zoneinfo.reset_tzpath()
            zoneinfo.ZoneInfo.clear_cache()
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    def is_none(self, x):
        return x is None


def run_real(fn, inputs, params):
    """Run a harness concretely.  -> (status, label/detail, observed)
    status: 'ok', 'assume', 'fail', 'error'"""
    w = RealWorld(inputs, params)
    try:
        fn(w, **params)
        return "ok", "", w.observed
    except AssumeFailed as e:
        return "assume", str(e), w.observed
    except CheckFailed as e:
        return "fail", e.label, w.observed
    except Exception as e:
        import traceback

        tb = traceback.extract_tb(e.__traceback__)
        return "fail", f"unexpected {type(e).__name__}: {e} @ {tb[-1].filename}:{tb[-1].lineno}", w.observed
    finally:
        w.close()
