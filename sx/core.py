"""Symbolic core: path-forking execution context, integers, booleans.

Python integers are modelled as mathematical integers.  A symbolic integer is
kept in linear normal form over "atoms" (solver terms with a known interval),
so that  divmod(86400*o + s, 86400)  simplifies to (o, s) without the solver.
"""
from __future__ import annotations
import math
import time as _t
from fractions import Fraction
import z3

z3.set_param("smt.random_seed", 0)


class Unsupported(BaseException):
    """The code under analysis used something the encoding does not cover."""


class Abort(BaseException):
    """This path is finished (infeasible, or assumption false)."""


class Inconclusive(BaseException):
    """Solver answered unknown, or a budget ran out."""


class Violation(BaseException):
    def __init__(self, label, model_inputs, detail=""):
        self.label, self.inputs, self.detail = label, model_inputs, detail


class Stats:
    def __init__(self):
        self.queries = self.branch_queries = self.assert_queries = 0
        self.solver_s = 0.0
        self.paths = self.branches = self.aborted = 0
        self.fallbacks = 0
        self.unknown_branches = 0


class Atom:
    __slots__ = ("id", "expr", "lo", "hi")

    def __init__(self, id, expr, lo, hi):
        self.id, self.expr, self.lo, self.hi = id, expr, lo, hi


_ZINT = {}


def zint(v):
    r = _ZINT.get(v)
    if r is None:
        r = z3.IntVal(v)
        if len(_ZINT) < 20000:
            _ZINT[v] = r
    return r


class Ctx:
    """One job's exploration state."""

    def __init__(self, branch_timeout_ms=4000, assert_timeout_ms=20000, seed=0):
        self.stats = Stats()
        self.branch_timeout = branch_timeout_ms
        self.assert_timeout = assert_timeout_ms
        self.seed = seed
        self.solver = z3.Solver()
        self.solver.set("random_seed", seed & 0xFFFF)
        self.deadline = None
        self.fork_zones = False
        self.begin([])

    # -- per-path state ------------------------------------------------
    def begin(self, prefix):
        self.prefix = prefix
        self.trace = []          # decisions taken
        self.alts = []           # new prefixes found on this path
        self.atoms = {}
        self.n = 0
        self.cache = {}
        self.subst = {}          # atom id -> SymInt it equals
        self.rem = {}            # atom id of a remainder -> dividend - k*quotient
        self.eqs = []            # linear forms known to be 0 (same_linear)
        self.pivots = {}
        self.keep = []           # keep z3 asts alive while ids are used as keys
        self.inputs = {}         # name -> SymInt
        self.path = []           # list of z3 constraints
        self.model = None        # a model of the current path (or None)
        self.objs = {}           # scratch registry for models (zones, clock...)
        self.labels = set()
        self.obs = []
        self.last_neg = None
        self.solver.reset()
        self.solver.set("timeout", self.branch_timeout)

    def fresh_name(self, base):
        self.n += 1
        return f"{base}!{self.n}"

    def new_atom(self, expr, lo, hi):
        self.n += 1
        a = Atom(self.n, expr, lo, hi)
        self.atoms[a.id] = a
        return a

    def atom_for(self, expr, lo, hi):
        """Atom for a z3 term (shared between syntactically equal terms)."""
        k = ("atom", expr.get_id())
        a = self.cache.get(k)
        if a is None:
            a = self.new_atom(expr, lo, hi)
            self.cache[k] = a
            self.keep.append(expr)
        else:
            if lo is not None and (a.lo is None or lo > a.lo):
                a.lo = lo
            if hi is not None and (a.hi is None or hi < a.hi):
                a.hi = hi
        return a

    def add(self, expr):
        """Add a z3 constraint to the path."""
        self.path.append(expr)
        self.solver.add(expr)
        if self.model is not None:
            if not z3.is_true(self.model.eval(expr, model_completion=True)):
                self.model = None

    def var(self, name, lo, hi):
        expr = z3.Int(name)
        a = self.new_atom(expr, lo, hi)
        if lo is not None:
            self.add(expr >= zint(lo))
        if hi is not None:
            self.add(expr <= zint(hi))
        return SymInt({a.id: 1}, 0)

    def fresh(self, base, lo, hi):
        return self.var(self.fresh_name(base), lo, hi)

    # -- solver --------------------------------------------------------
    def _check(self, *extra, timeout=None):
        t0 = _t.monotonic()
        if self.deadline is not None and t0 > self.deadline:
            raise Inconclusive("time budget of this job ran out")
        self.stats.queries += 1
        if timeout is not None:
            self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        if timeout is not None:
            self.solver.set("timeout", self.branch_timeout)
        self.stats.solver_s += _t.monotonic() - t0
        return r

    def _ensure_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.sat:
                self.model = self.solver.model()
            elif r == z3.unsat:
                raise Abort("infeasible path")
        return self.model

    def branch(self, b: "SymBool") -> bool:
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self._assume_bool(b, v)
            return v
        self.stats.branches += 1
        e = b.expr()
        m = self._ensure_model()
        can_t = can_f = None
        if m is not None:
            ev = m.eval(e, model_completion=True)
            if z3.is_true(ev):
                can_t = True
            elif z3.is_false(ev):
                can_f = True
        self.stats.branch_queries += 1
        mt = mf = m
        if can_t is None:
            r = self._check(e)
            can_t = r != z3.unsat
            if r == z3.unknown:
                self.stats.unknown_branches += 1
            mt = self.solver.model() if r == z3.sat else None
        if can_f is None:
            r = self._check(z3.Not(e))
            can_f = r != z3.unsat
            if r == z3.unknown:
                self.stats.unknown_branches += 1
            mf = self.solver.model() if r == z3.sat else None
        if can_t and can_f:
            self.alts.append(self.trace + [False])
            v = True
        elif can_t:
            v = True
        elif can_f:
            v = False
        else:
            raise Abort("infeasible path")
        self.model = mt if v else mf
        self.trace.append(v)
        self._assume_bool(b, v)
        return v

    def implied(self, b):
        """whether the path condition implies b; the answer is part of the
        trace, so that re-execution takes the same way"""
        if not isinstance(b, SymBool):
            return bool(b)
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            if not (isinstance(v, tuple) and v[0] == "i"):
                raise Unsupported("trace mismatch")
            self.trace.append(v)
            return v[1]
        e = z3.Not(b.expr())
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            r = False
        else:
            r = self._check(e) == z3.unsat
        self.trace.append(("i", r))
        return r

    def _assume_bool(self, b, v):
        b.tighten(v)
        self.add(b.expr() if v else z3.Not(b.expr()))

    def assume(self, b):
        if isinstance(b, SymBool):
            b.tighten(True)
            self.add(b.expr())
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise Abort("assumption false")
                if r == z3.sat:
                    self.model = self.solver.model()
        elif not b:
            raise Abort("assumption false")

    def prove(self, b):
        """None if b holds on this path; a z3 model refuting it otherwise."""
        if not isinstance(b, SymBool):
            if b:
                return None
            self._ensure_model()
            return self.model_or_inconclusive()
        self.stats.assert_queries += 1
        neg = self.last_neg = z3.Not(b.expr())
        if self.model is not None and z3.is_true(
            self.model.eval(neg, model_completion=True)
        ):
            return self.model
        r = self._check(neg, timeout=self.assert_timeout)
        if r == z3.unsat:
            return None
        if r == z3.sat:
            return self.solver.model()
        return self._fallback(neg)

    def model_or_inconclusive(self):
        if self.model is None:
            r = self._check(timeout=self.assert_timeout)
            if r == z3.unsat:
                raise Abort("infeasible path")
            if r == z3.unknown:
                raise Inconclusive("no model for failing path")
            self.model = self.solver.model()
        return self.model

    def _fallback(self, neg):
        """Other solver configurations for a query the first one gave up on."""
        self.stats.fallbacks += 1
        for conf in (
            lambda: z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver(),
            lambda: z3.SolverFor("QF_LIA"),
            lambda: z3.SimpleSolver(),
        ):
            if self.deadline is not None and _t.monotonic() > self.deadline:
                raise Inconclusive("time budget of this job ran out")
            s = conf()
            s.set("timeout", self.assert_timeout * 2)
            t0 = _t.monotonic()
            self.stats.queries += 1
            try:
                s.add(*self.path)
                s.add(neg)
                r = s.check()
            except z3.Z3Exception:
                continue
            finally:
                self.stats.solver_s += _t.monotonic() - t0
            if r == z3.unsat:
                return None
            if r == z3.sat:
                return s.model()
        raise Inconclusive("solver answered unknown for an assertion")

    def model_inputs(self, model):
        out = {}
        for k, v in self.inputs.items():
            out[k] = eval_int(v, model)
        return out


C: Ctx | None = None


def set_ctx(c):
    global C
    C = c


def ctx() -> Ctx:
    return C


def eval_int(v, model):
    if isinstance(v, SymInt):
        r = model.eval(v.expr(), model_completion=True)
        return r.as_long()
    if isinstance(v, SymBool):
        return z3.is_true(model.eval(v.expr(), model_completion=True))
    return v


# ---------------------------------------------------------------------------


class SymBool:
    """A symbolic truth value; truth-testing it forks the path."""

    __slots__ = ("_e", "cmp")

    def __init__(self, e, cmp=None):
        self._e = e
        self.cmp = cmp  # (op, SymInt)   meaning   SymInt op 0

    def expr(self):
        return self._e

    def tighten(self, v):
        if self.cmp is None:
            return
        op, s = self.cmp
        if len(s.t) != 1:
            return
        (aid, k), = s.t.items()
        a = C.atoms.get(aid)
        if a is None:
            return
        c = s.c
        # k*a + c op 0
        if op == "==":
            if v and (-c) % k == 0:
                val = (-c) // k
                _tl(a, val), _th(a, val)
            elif not v and (-c) % k == 0:
                val = (-c) // k
                if a.lo == val:
                    a.lo = val + 1
                if a.hi == val:
                    a.hi = val - 1
        elif op == "<=":
            if v:  # k*a <= -c
                if k > 0:
                    _th(a, (-c) // k)
                else:
                    _tl(a, _ceil(-c, k))
            else:  # k*a + c >= 1  ->  k*a >= 1-c
                if k > 0:
                    _tl(a, _ceil(1 - c, k))
                else:
                    _th(a, (1 - c) // k)

    def __bool__(self):
        e = self._e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return C.branch(self)

    # logic
    def __invert__(self):
        return bnot(self)

    def __and__(self, o):
        return band(self, o) if isinstance(o, (bool, SymBool)) else self._i() & o

    __rand__ = __and__

    def __or__(self, o):
        return bor(self, o) if isinstance(o, (bool, SymBool)) else self._i() | o

    __ror__ = __or__

    def __xor__(self, o):
        return bnot(beq(self, o))

    __rxor__ = __xor__

    def __hash__(self):
        return hash(bool(self))

    # as an integer
    def _i(self):
        return ite(self, 1, 0)

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return beq(self, o)
        return self._i() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        if isinstance(o, (int, SymInt, SymBool)):
            if isinstance(o, SymBool):
                return band(self, o)._i() if isinstance(band(self, o), SymBool) else int(band(self, o))
            return ite(self, o, 0)
        from .strs import SymStr

        if isinstance(o, (str, SymStr)):
            return o if bool(self) else ""
        if isinstance(o, tuple):
            return o if bool(self) else ()
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return -self._i()

    def __pos__(self):
        return self._i()

    def __abs__(self):
        return self._i()

    def __floordiv__(self, o):
        return self._i() // o

    def __mod__(self, o):
        return self._i() % o

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __format__(self, spec):
        raise Unsupported("format of a symbolic bool")

    def __str__(self):
        return f"<SymBool {self._e}>"

    __repr__ = __str__


def _ceil(n, k):
    """ceil(n / k) for nonzero integer k"""
    return -((-n) // k)


def _tl(a, v):
    if a.lo is None or v > a.lo:
        a.lo = v


def _th(a, v):
    if a.hi is None or v < a.hi:
        a.hi = v


def bnot(b):
    if isinstance(b, SymBool):
        return SymBool(z3.Not(b._e), _negcmp(b.cmp))
    return not b


def _negcmp(c):
    if c is None:
        return None
    op, s = c
    if op == "<=":  # not (s<=0)  ->  1 - s <= 0
        return ("<=", 1 - s)
    if op == "==":
        return ("!=", s)
    if op == "!=":
        return ("==", s)
    return None


def _bz(b):
    return b._e if isinstance(b, SymBool) else z3.BoolVal(bool(b))


def _tobool(b):
    if isinstance(b, (SymBool, bool)):
        return b
    if isinstance(b, SymInt):
        return b != 0
    return bool(b)


def band(*bs):
    out = []
    for b in bs:
        b = _tobool(b)
        if isinstance(b, SymBool):
            out.append(b)
        elif not b:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return SymBool(z3.And([b._e for b in out]))


def bor(*bs):
    out = []
    for b in bs:
        b = _tobool(b)
        if isinstance(b, SymBool):
            out.append(b)
        elif b:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return SymBool(z3.Or([b._e for b in out]))


def implies(a, b):
    return bor(bnot(_tobool(a)), b)


def beq(a, b):
    a, b = _tobool(a), _tobool(b)
    if not isinstance(a, SymBool):
        return b if a else bnot(b)
    if not isinstance(b, SymBool):
        return a if b else bnot(a)
    return SymBool(a._e == b._e)


def ite(c, a, b):
    """if-then-else without forking, for ints/bools (and anything if c concrete)"""
    c = _tobool(c)
    if not isinstance(c, SymBool):
        return a if c else b
    if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
        return bor(band(c, a), band(bnot(c), b))
    if isinstance(a, SymBool):
        a = a._i()
    if isinstance(b, SymBool):
        b = b._i()
    a = int(a) if isinstance(a, bool) else a
    b = int(b) if isinstance(b, bool) else b
    if isinstance(a, (int, SymInt)) and isinstance(b, (int, SymInt)):
        d = a - b
        if isinstance(d, SymInt):
            d = d.norm()
        if isinstance(d, int) and d == 0:
            return a
        la, ha = bounds(a)
        lb, hb = bounds(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        e = z3.If(c._e, zexpr(a), zexpr(b))
        at = C.atom_for(e, lo, hi)
        return SymInt({at.id: 1}, 0)
    return a if bool(c) else b


def zexpr(v):
    if isinstance(v, SymInt):
        return v.expr()
    if isinstance(v, SymBool):
        return v._i().expr()
    return zint(int(v))


def bounds(v):
    if isinstance(v, SymInt):
        return v.bounds()
    return int(v), int(v)


class SymInt:
    """Integer in linear normal form:  sum(k * atom) + c"""

    __slots__ = ("t", "c", "_z")

    def __init__(self, t, c):
        self.t, self.c = t, c
        self._z = None

    def expr(self):
        if self._z is None:
            parts = []
            for aid, k in sorted(self.t.items()):
                x = C.atoms[aid].expr
                parts.append(x if k == 1 else zint(k) * x)
            if self.c or not parts:
                parts.append(zint(self.c))
            self._z = parts[0] if len(parts) == 1 else z3.Sum(parts)
        return self._z

    def norm(self):
        """the same value with eliminated atoms replaced (may be an int)"""
        sub = C.subst
        if not sub:
            return self
        x = self
        while True:
            for aid in x.t:
                r = sub.get(aid)
                if r is not None:
                    break
            else:
                return x
            k = x.t[aid]
            rest = {a: v for a, v in x.t.items() if a != aid}
            x = SymInt(rest, x.c) + r * k
            if isinstance(x, int):
                return x

    def bounds(self):
        lo = hi = self.c
        at = C.atoms
        for aid, k in self.t.items():
            a = at[aid]
            if k > 0:
                l, h = a.lo, a.hi
            else:
                l, h = a.hi, a.lo
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi

    # -- arithmetic ----------------------------------------------------
    def __add__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, int):
            return SymInt(self.t, self.c + int(o)) if o else self
        if isinstance(o, SymInt):
            t = dict(self.t)
            for k, v in o.t.items():
                n = t.get(k, 0) + v
                if n:
                    t[k] = n
                else:
                    del t[k]
            c = self.c + o.c
            return SymInt(t, c) if t else c
        return NotImplemented

    __radd__ = __add__

    def __neg__(self):
        return SymInt({k: -v for k, v in self.t.items()}, -self.c)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, (int, SymInt)):
            return self + (-o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, (int, SymInt)):
            return -self + o
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, SymBool):
            return ite(o, self, 0)
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                return 0
            return SymInt({k: v * o for k, v in self.t.items()}, self.c * o)
        if isinstance(o, SymInt):
            a, b = self.norm(), o.norm()
            if a is not self or b is not o:
                return a * b
            for a, b in ((self, o), (o, self)):
                l, h = a.bounds()
                if l is not None and h is not None and h - l <= 2:
                    return b * a.concretise()
            k = ("mul",) + tuple(sorted((self.key(), o.key())))
            r = C.cache.get(k)
            if r is None:
                ls, hs = self.bounds()
                lo_, ho = o.bounds()
                lo = hi = None
                if None not in (ls, hs, lo_, ho):
                    c = [ls * lo_, ls * ho, hs * lo_, hs * ho]
                    lo, hi = min(c), max(c)
                at = C.atom_for(self.expr() * o.expr(), lo, hi)
                r = C.cache[k] = SymInt({at.id: 1}, 0)
            return r
        if isinstance(o, float):
            from .floats import to_float

            return to_float(self) * o
        return NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def key(self):
        return (tuple(sorted(self.t.items())), self.c)

    def __divmod__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, int):
            o = int(o)
            if o == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            if o < 0:
                q, r = divmod(-self, -o)
                return q, -r
            return _divmod_const(self, o)
        if isinstance(o, SymInt):
            return _divmod_sym(self, o)
        if isinstance(o, float) or isinstance(o, SymFloatBase):
            raise Unsupported("divmod of symbolic int and float")
        return NotImplemented

    def __rdivmod__(self, o):
        if isinstance(o, (int, SymBool)):
            return _divmod_sym(o if isinstance(o, int) else o._i(), self)
        return NotImplemented

    def __floordiv__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = self.__divmod__(o)
        return r if r is NotImplemented else r[1]

    def __rfloordiv__(self, o):
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[0]

    def __rmod__(self, o):
        if isinstance(o, str):
            raise Unsupported("%-format")
        r = self.__rdivmod__(o)
        return r if r is NotImplemented else r[1]

    def __truediv__(self, o):
        from .floats import int_truediv

        return int_truediv(self, o)

    def __rtruediv__(self, o):
        from .floats import int_truediv

        return int_truediv(o, self)

    def __pow__(self, o):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported("symbolic power")

    def __rpow__(self, o):
        n = self.__index__()
        return o**n

    def __lshift__(self, o):
        return self * (1 << o.__index__())

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        return self // (1 << o.__index__())

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __and__(self, o):
        if isinstance(o, int) and o >= 0:
            if o & (o + 1) == 0:
                return self % (o + 1)
            # general constant mask: combine bits
            r, bit = 0, 0
            while o >> bit:
                if (o >> bit) & 1:
                    r = r + ((self // (1 << bit)) % 2) * (1 << bit)
                bit += 1
            return r
        raise Unsupported("symbolic &")

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o >= 0:
            return self + o - (self & o)
        raise Unsupported("symbolic |")

    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, int) and o >= 0:
            return self + o - 2 * (self & o)
        raise Unsupported("symbolic ^")

    __rxor__ = __xor__

    def __invert__(self):
        return -self - 1

    def __abs__(self):
        lo, hi = self.bounds()
        if lo is not None and lo >= 0:
            return self
        if hi is not None and hi <= 0:
            return -self
        r = ite(self < 0, -self, self)
        if isinstance(r, SymInt) and len(r.t) == 1:
            (aid, k), = r.t.items()
            if k == 1 and r.c == 0:
                _tl(C.atoms[aid], 0)
                if lo is not None and hi is not None:
                    _th(C.atoms[aid], max(-lo, hi))
        return r

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __round__(self, n=None):
        return self

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    denominator = 1

    # -- comparison ----------------------------------------------------
    def _cmp0(self, op):
        """SymBool for  self op 0"""
        lo, hi = self.bounds()
        if op == "<=":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
            n = self.norm()
            if n is not self:
                if isinstance(n, int):
                    return n <= 0
                r = n._cmp0(op)
                if not isinstance(r, SymBool):
                    return r
                if len(self.t) > 1:
                    return r
            return SymBool(self.expr() <= 0, ("<=", self))
        if op == "==":
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
            if lo == hi == 0:
                return True
            if len(self.t) == 1:
                (_, k), = self.t.items()
                if self.c % k:
                    return False
            n = self.norm()
            if n is not self:
                if isinstance(n, int):
                    return n == 0
                r = n._cmp0(op)
                if not isinstance(r, SymBool):
                    return r
                if len(self.t) > 1:
                    return r
            return SymBool(self.expr() == 0, ("==", self))
        raise AssertionError

    def __eq__(self, o):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, (int, SymInt)):
            d = self - o
            if isinstance(d, int):
                return d == 0
            r = d._cmp0("==")
            if isinstance(r, SymBool) and len(d.t) > 1 and same_linear(d, 0):
                return True
            return r
        if isinstance(o, float):
            if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                return False
            return self == int(o)
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    def _rel(self, o, f):
        if isinstance(o, SymBool):
            o = o._i()
        if isinstance(o, float):
            from .floats import cmp_int_float

            return cmp_int_float(self, o, f)
        if isinstance(o, (int, SymInt)):
            d = f(self, o)
            return d <= 0 if isinstance(d, int) else d._cmp0("<=")
        return NotImplemented

    def __le__(self, o):
        return self._rel(o, lambda a, b: a - b)

    def __lt__(self, o):
        return self._rel(o, lambda a, b: a - b + 1)

    def __ge__(self, o):
        return self._rel(o, lambda a, b: b - a)

    def __gt__(self, o):
        return self._rel(o, lambda a, b: b - a + 1)

    def __bool__(self):
        return bool(bnot(self == 0))

    # -- concretisation (forks over every feasible value) ---------------
    def concretise(self, limit=400):
        lo, hi = self.bounds()
        for _ in range(limit):
            lo, hi = self.bounds()
            if lo is not None and lo == hi:
                return lo
            i = len(C.trace)
            if i < len(C.prefix):
                # the value chosen first time is remembered in the trace
                v = C.prefix[i]
                if not (isinstance(v, tuple) and v[0] == "v"):
                    raise Unsupported("trace mismatch")
                C.trace.append(v)
            else:
                m = C.model_or_inconclusive()
                v = ("v", eval_int(self, m))
                C.trace.append(v)
            if bool(self == v[1]):
                return v[1]
        raise Unsupported("value with too many cases used as index/hash")

    def __index__(self):
        return self.concretise()

    __int__ = __index__

    def __hash__(self):
        return hash(self.concretise())

    def __float__(self):
        raise Unsupported("float() of a symbolic int")

    def __format__(self, spec):
        raise Unsupported("native formatting of a symbolic int")

    def __str__(self):
        return f"<SymInt {self.expr()}>"

    __repr__ = __str__

    def bit_length(self):
        n = 0
        while not bool(abs(self) < (1 << n)):
            n += 1
            if n > 200:
                raise Unsupported("bit_length")
        return n

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from . import strs

        if not isinstance(length, int):
            raise Unsupported("to_bytes of a symbolic length")
        lo, hi = (-(1 << 8 * length - 1), 1 << 8 * length - 1) if signed else (0, 1 << 8 * length)
        if not bool(band(self >= lo, self < hi)):
            raise OverflowError("int too big to convert")
        bs = [(self // (1 << (8 * i))) % 256 for i in range(length)]
        return strs.SymBytes.of(bs if byteorder == "little" else bs[::-1])


class SymFloatBase:
    pass


def _reduce(row, piv):
    """row: {atom id or -1 for the constant: coefficient}"""
    while True:
        p = max((a for a in row if a in piv), default=None)
        if p is None:
            return row
        k = row[p]
        for a, v in piv[p].items():
            w = row.get(a, 0) - k * v
            if w:
                row[a] = w
            else:
                row.pop(a, None)


def same_linear(a, b):
    """do the division equations of this path make a and b equal?
    (a sufficient, purely linear test; no solver call)"""
    d = a - b
    if not isinstance(d, SymInt):
        return d == 0
    if C.eqs:
        for e in C.eqs:
            if not isinstance(e, SymInt):
                continue
            row = {a: Fraction(v) for a, v in e.t.items()}
            if e.c:
                row[-1] = Fraction(e.c)
            row = _reduce(row, C.pivots)
            p = max(row, default=-1)
            if p >= 0:
                k = row[p]
                C.pivots[p] = {a: v / k for a, v in row.items()}
        C.eqs.clear()
    row = {a: Fraction(v) for a, v in d.t.items()}
    if d.c:
        row[-1] = Fraction(d.c)
    return not _reduce(row, C.pivots)


def _note_rem(rv, rem):
    if isinstance(rv, SymInt) and isinstance(rem, SymInt) and len(rv.t) == 1 and not rv.c:
        (aid, v), = rv.t.items()
        if v == 1 and aid not in rem.t:
            C.rem[aid] = rem


def rejoin(x):
    """x with quotients and remainders put together again where they cancel
    (days*86400 + seconds of a divmod is the dividend)"""
    if not isinstance(x, SymInt) or not C.rem:
        return x
    again = True
    while again and isinstance(x, SymInt):
        again = False
        for aid in sorted(x.t, reverse=True):
            rem = C.rem.get(aid)
            if rem is None:
                continue
            y = SymInt({a: v for a, v in x.t.items() if a != aid}, x.c) + rem * x.t[aid]
            if isinstance(y, int) or len(y.t) < len(x.t):
                x, again = y, True
                break
    return x


def _divmod_const(x: SymInt, k: int, known=(None, None)):
    if k == 1:
        return x, 0
    n = x.norm()
    if n is not x:
        if isinstance(n, int):
            return divmod(n, k)
        raw, x = x, n
    else:
        raw = x
    # split into the part divisible by k and the rest
    qt, rt = {}, {}
    for aid, v in x.t.items():
        qv, rv = divmod(v, k)
        if rv == 0:
            qt[aid] = qv
        else:
            rt[aid] = v
    qc, rc = divmod(x.c, k)
    q0 = SymInt(qt, qc) if qt else qc
    if not rt:
        return q0, rc
    rest = SymInt(rt, rc)
    lo, hi = rest.bounds()
    if raw is not x:
        # the bounds known before elimination may be tighter
        rlo, rhi = (raw - q0 * k).bounds() if isinstance(raw - q0 * k, SymInt) else (raw - q0 * k,) * 2
        if rlo is not None and (lo is None or rlo > lo):
            lo = rlo
        if rhi is not None and (hi is None or rhi < hi):
            hi = rhi
    if not qt and not qc:  # known: bounds of x
        if known[0] is not None and (lo is None or known[0] > lo):
            lo = known[0]
        if known[1] is not None and (hi is None or known[1] < hi):
            hi = known[1]
    if lo is not None and hi is not None:
        ql, qh = lo // k, hi // k
        if ql == qh:
            return q0 + ql, rest - ql * k
    else:
        ql = None if lo is None else lo // k
        qh = None if hi is None else hi // k
    g = math.gcd(k, *rt.values())
    if g > 1:
        # rest = g*part + c with 0 <= c < g: divide the part
        part = SymInt({a: v // g for a, v in rt.items()}, rc // g)
        c = rc % g
        q, r = _divmod_const(part, k // g, (
            None if lo is None else -((c - lo) // g), None if hi is None else (hi - c) // g))
        return q0 + q, r * g + c
    ck = ("dm", rest.key(), k)
    r = C.cache.get(ck)
    if r is None:
        if ql is not None and qh is not None and qh - ql == 1:
            # a single carry/borrow: encode as if-then-else
            ge = rest >= qh * k
            q1 = ite(ge, qh, ql)
            rem = rest - q1 * k
            rv = C.fresh("r", 0, k - 1)
            C.add(rv.expr() == rem.expr())
            C.eqs.append(rem - rv)
            r = (q1, rv)
            _note_rem(rv, rem)
        else:
            q1 = C.fresh("q", ql, qh)
            rv = C.fresh("r", 0, k - 1)
            C.add(rest.expr() == zint(k) * q1.expr() + rv.expr())
            C.eqs.append(rest - q1 * k - rv)
            r = (q1, rv)
            _note_rem(rv, rest - q1 * k)
            # eliminate one atom of `rest`
            for aid in sorted(rest.t, reverse=True):
                kk = rest.t[aid]
                if kk in (1, -1):
                    other = SymInt({a: v for a, v in rest.t.items() if a != aid}, rest.c)
                    C.subst[aid] = (q1 * k + rv - other) * kk
                    break
        C.cache[ck] = r
    return q0 + r[0], r[1]


def _divmod_sym(x, y):
    """floor divmod with a symbolic divisor (forks on its sign)"""
    if isinstance(y, int):
        return divmod(x, y)
    if bool(y == 0):
        raise ZeroDivisionError("integer division or modulo by zero")
    pos = bool(y > 0)
    ylo, yhi = y.bounds()
    if ylo is not None and ylo == yhi:
        return divmod(x, ylo)
    xk = x.key() if isinstance(x, SymInt) else x
    ck = ("dms", xk, y.key())
    r = C.cache.get(ck)
    if r is None:
        if pos and C.implied(band(x >= -y, x < y * 3)):
            for q in (0, 1, -1, 2):
                if q == 2 or bool(band(x >= y * q, x < y * (q + 1))):
                    r = C.cache[ck] = (q, x - y * q)
                    return r
        xl, xh = bounds(x)
        m = None if xl is None or xh is None else max(abs(xl), abs(xh)) + 1
        q = C.fresh("q", None if m is None else -m, m)
        if pos:
            rem = C.fresh("r", 0, None if yhi is None else yhi - 1)
            C.add(rem.expr() < y.expr())
        else:
            rem = C.fresh("r", None if ylo is None else ylo + 1, 0)
            C.add(rem.expr() > y.expr())
        C.add(zexpr(x) == (q * y + rem).expr() if isinstance(q * y + rem, SymInt) else zexpr(x) == zint(q * y + rem))
        r = C.cache[ck] = (q, rem)
    return r


def smin(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(x < r, x, r)
    return r


def smax(*a):
    r = a[0]
    for x in a[1:]:
        r = ite(x > r, x, r)
    return r


def is_sym(x):
    return isinstance(x, (SymInt, SymBool, SymFloatBase))
