"""Symbolic scalars, path exploration and solver queries.

The engine executes the *real* Python sources of /repo (see loader.py) on numpy
object arrays whose elements are the symbolic scalars defined here.  Every
branch on a symbolic value goes through World.decide, which asks the solver
which sides are feasible and explores all of them.  Every property becomes a
query  facts /\\ path-condition /\\ not(property)  for the solver.
"""
from __future__ import annotations

import functools
import math
import sys
import time
from fractions import Fraction

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)

import numpy as np  # noqa: E402
import z3  # noqa: E402


class EngineError(Exception):
    """The engine cannot model what the code does (=> inconclusive)."""


class PathAbort(BaseException):
    """Current path is infeasible / assumed away."""


_CUR = None  # current World


def cur():
    return _CUR


# --------------------------------------------------------------------------
# scalars
# --------------------------------------------------------------------------

_ARITH_TYPES = (int, float, Fraction, np.integer, np.floating)


def _frac(x):
    if isinstance(x, Fraction):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Fraction(int(x))
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise NonFinite(x)
        return _of_float(x)
    raise TypeError(type(x))


@functools.lru_cache(maxsize=4096)
def _of_float(x):
    """The number a float literal or a float quotient stands for: the simplest
    rational that rounds to it, if it is simple; else its exact value."""
    f = Fraction(x).limit_denominator(10**6)
    return f if float(f) == x else Fraction(x)


@functools.lru_cache(maxsize=4096)
def _root_of_float(x):
    """p/q if x is a float within 2 ulp of sqrt(p/q), q <= 1000, else None."""
    f = Fraction(x)
    if f.denominator <= 10**6 or _of_float(x) != f or not 1e-3 < abs(x) < 1e6:
        return None
    q = Fraction(x * x).limit_denominator(1000)
    r = math.sqrt(q)
    return q if abs(abs(x) - r) <= 2 * math.ulp(r) else None


class _Scalar:
    """What NumPy scalars offer besides arithmetic."""

    __slots__ = ()
    shape = ()
    ndim = 0
    size = 1

    def item(self, *a):
        return self

    def _arr(self):
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    def copy(self):
        return self

    def astype(self, dtype, **kw):
        if np.dtype(dtype).kind in "iu" and isinstance(self, R):
            raise EngineError("truncation of a symbolic real")
        return self

    def reshape(self, *shape, **kw):
        return self._arr().reshape(*shape)

    def flatten(self, *a, **kw):
        return self._arr().reshape(1)

    ravel = flatten

    def sum(self, *a, **kw):
        return self

    prod = mean = max = min = squeeze = transpose = sum

    @property
    def T(self):
        return self

    def any(self, *a, **kw):
        return self if isinstance(self, B) else self != 0

    all = any


class NonFinite(ArithmeticError):
    """A symbolic value met nan/inf."""


def _val(fr):
    return z3.RealVal(str(fr))


class R(_Scalar):
    """Exact real number: either a rational constant (c) or a z3 term (e)."""

    __slots__ = ("c", "_e")
    __array_priority__ = 1000.0

    def __init__(self, c=None, e=None):
        self.c = c
        self._e = e

    @property
    def e(self):
        if self._e is None:
            self._e = _val(self.c)
        return self._e

    @staticmethod
    def const(x):
        return R(c=_frac(x))

    @staticmethod
    def _co(o):
        if isinstance(o, R):
            return o
        if isinstance(o, I):
            if o.c is not None:
                return R(c=Fraction(o.c))
            return R(e=z3.ToReal(o.e))
        if isinstance(o, _ARITH_TYPES) or isinstance(o, (bool, np.bool_)):
            if isinstance(o, (float, np.floating)) and _CUR is not None:
                q = _root_of_float(float(o))
                if q is not None:
                    r = _CUR.sqrt(R(c=q))
                    return r if o > 0 else -r
            return R(c=_frac(o))
        if isinstance(o, B):
            return R(c=Fraction(int(bool(o))))
        return None

    # -- arithmetic
    def __add__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: a + b)
        o = R._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None:
            if o.c is not None:
                return R(c=self.c + o.c)
            if self.c == 0:
                return o
        elif o.c is not None and o.c == 0:
            return self
        return R(e=self.e + o.e)

    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: a * b)
        o = R._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None:
            if o.c is not None:
                return R(c=self.c * o.c)
            if self.c == 0:
                return self
            if self.c == 1:
                return o
        elif o.c is not None:
            if o.c == 0:
                return o
            if o.c == 1:
                return self
        return R(e=self.e * o.e)

    __rmul__ = __mul__

    def __neg__(self):
        if self.c is not None:
            return R(c=-self.c)
        return R(e=-self.e)

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: a - b)
        o = R._co(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: b - a)
        o = R._co(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __truediv__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: a / b)
        o = R._co(o)
        if o is None:
            return NotImplemented
        return _CUR.divide(self, o)

    def __rtruediv__(self, o):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: b / a)
        o = R._co(o)
        if o is None:
            return NotImplemented
        return _CUR.divide(o, self)

    def __pow__(self, n):
        if isinstance(n, R) and n.c is not None:
            n = n.c
        if isinstance(n, (float, np.floating, Fraction)) and n == 0.5:
            return self.sqrt()
        if isinstance(n, (float, np.floating, Fraction)) and n == int(n):
            n = int(n)
        if isinstance(n, (int, np.integer)):
            n = int(n)
            if n < 0:
                return R(c=Fraction(1)) / (self ** (-n))
            out = R(c=Fraction(1))
            for _ in range(n):
                out = out * self
            return out
        raise EngineError(f"pow {n!r}")

    def sqrt(self):
        return _CUR.sqrt(self)

    def square(self):
        return self * self

    def conjugate(self):
        return self

    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(c=Fraction(0))

    def __abs__(self):
        if self.c is not None:
            return R(c=abs(self.c))
        return _CUR.absval(self)

    fabs = __abs__
    absolute = __abs__

    # -- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray):
            return _bcast(self, o, lambda a, b: a._cmp(b, op))
        if isinstance(o, (float, np.floating)) and float(o) in (
            float("inf"),
            float("-inf"),
        ):
            big = float(o) > 0
            return {"<": big, "<=": big, ">": not big, ">=": not big,
                    "==": False, "!=": True}[op]
        o = R._co(o)
        if o is None:
            return NotImplemented
        if self.c is not None and o.c is not None:
            a, b = self.c, o.c
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                    "==": a == b, "!=": a != b}[op]
        a, b = self.e, o.e
        return B({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                  ">=": lambda: a >= b, "==": lambda: a == b,
                  "!=": lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.c is not None:
            return hash(self.c)
        return hash(self.e)

    def __bool__(self):
        r = self._cmp(0, "!=")
        return bool(r)

    def __float__(self):
        if self.c is not None:
            return float(self.c)
        raise EngineError("float() of a symbolic real")

    def __int__(self):
        if self.c is not None:
            return int(self.c)
        raise EngineError("int() of a symbolic real")

    def is_integer(self):
        return self.c is not None and self.c.denominator == 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"R({self.c if self.c is not None else self.e})"


def _bcast(s, arr, f):
    out = np.empty(arr.shape, dtype=object)
    flat = out.reshape(-1)
    for i, x in enumerate(arr.reshape(-1)):
        flat[i] = f(s, R._co(x) if not isinstance(x, R) else x)
    return out


class I(_Scalar):
    """Unbounded (mathematical) integer."""

    __slots__ = ("c", "_e")
    __array_priority__ = 1000.0

    def __init__(self, c=None, e=None):
        self.c = c
        self._e = e

    @property
    def e(self):
        if self._e is None:
            self._e = z3.IntVal(self.c)
        return self._e

    @staticmethod
    def _co(o):
        if isinstance(o, I):
            return o
        if isinstance(o, (bool, np.bool_)):
            return I(c=int(o))
        if isinstance(o, (int, np.integer)):
            return I(c=int(o))
        if isinstance(o, B):
            return I(c=int(bool(o)))
        if isinstance(o, (float, np.floating)) and float(o).is_integer():
            return I(c=int(o))
        return None

    @staticmethod
    def mk(e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return I(c=e.as_long())
        return I(e=e)

    def _bin(self, o, fc, fe):
        if isinstance(o, R):
            return NotImplemented
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        if self.c is not None and o2.c is not None:
            return I(c=fc(self.c, o2.c))
        return I.mk(fe(self.e, o2.e))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda a, b: b - a)

    def __mul__(self, o):
        if isinstance(o, (tuple, list, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return I(c=-self.c) if self.c is not None else I.mk(-self.e)

    @staticmethod
    def _floordiv(a, b):
        # python floor semantics; z3 div is Euclidean
        if b.c is not None and b.c > 0:
            return I.mk(a.e / b.e)
        if b.c is not None and b.c < 0:
            return I.mk((-a.e) / (-b.e))
        if bool(B(b.e == 0)):
            raise ZeroDivisionError("integer division or modulo by zero")
        if bool(B(b.e > 0)):
            return I.mk(a.e / b.e)
        return I.mk((-a.e) / (-b.e))

    def __floordiv__(self, o):
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        if self.c is not None and o2.c is not None:
            return I(c=self.c // o2.c)
        return I._floordiv(self, o2)

    def __rfloordiv__(self, o):
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        return o2.__floordiv__(self)

    def __mod__(self, o):
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        return self - (self // o2) * o2

    def __rmod__(self, o):
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        return o2 % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __truediv__(self, o):
        a = R._co(self)
        b = R._co(o)
        if b is None:
            return NotImplemented
        return a / b

    def __rtruediv__(self, o):
        return R._co(o) / R._co(self)

    def __pow__(self, n):
        out = I(c=1)
        for _ in range(int(n)):
            out = out * self
        return out

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _cmp(self, o, op):
        if isinstance(o, R):
            return R._co(self)._cmp(o, op)
        if isinstance(o, (float, np.floating)) and not float(o).is_integer():
            return R._co(self)._cmp(o, op)
        o2 = I._co(o)
        if o2 is None:
            return NotImplemented
        if self.c is not None and o2.c is not None:
            a, b = self.c, o2.c
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b,
                    "==": a == b, "!=": a != b}[op]
        a, b = self.e, o2.e
        return B({"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b,
                  ">=": lambda: a >= b, "==": lambda: a == b,
                  "!=": lambda: a != b}[op]())

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        return hash(self.__index__())

    def __bool__(self):
        return bool(self._cmp(0, "!="))

    def __index__(self):
        if self.c is not None:
            return self.c
        return _CUR.concretise(self)

    __int__ = __index__
    __trunc__ = __index__

    def __ceil__(self):
        return self

    __floor__ = __ceil__
    __round__ = __ceil__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return f"I({self.c if self.c is not None else self.e})"


class B(_Scalar):
    """Symbolic truth value; bool() forks the path."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return _CUR.decide(self.e)

    def __invert__(self):
        return B(z3.Not(self.e))

    @staticmethod
    def lift(o):
        if isinstance(o, B):
            return o.e
        return z3.BoolVal(bool(o))

    def __and__(self, o):
        return B(z3.And(self.e, B.lift(o)))

    __rand__ = __and__

    def __or__(self, o):
        return B(z3.Or(self.e, B.lift(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return B(z3.Xor(self.e, B.lift(o)))

    __rxor__ = __xor__

    def logical_not(self):
        return B(z3.Not(self.e))

    def __add__(self, o):
        return int(bool(self)) + (int(bool(o)) if isinstance(o, B) else o)

    __radd__ = __add__

    def __mul__(self, o):
        return o * int(bool(self))

    __rmul__ = __mul__

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __lt__(self, o):
        return int(bool(self)) < o

    def __le__(self, o):
        return int(bool(self)) <= o

    def __gt__(self, o):
        return int(bool(self)) > o

    def __ge__(self, o):
        return int(bool(self)) >= o

    def __eq__(self, o):
        return int(bool(self)) == o

    def __ne__(self, o):
        return int(bool(self)) != o

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return f"B({self.e})"


def as_expr(x):
    """z3 Real term of an array element."""
    r = R._co(x)
    if r is None:
        raise EngineError(f"not a number: {type(x)}")
    return r.e


# --------------------------------------------------------------------------
# solver front end
# --------------------------------------------------------------------------

def _vars_of(e, cache={}):
    """ids of the uninterpreted constants in e (iterative, memoised)."""
    key = e.get_id()
    hit = cache.get(key)
    if hit is not None:
        return hit[1]
    out = set()
    seen = set()
    stack = [e]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(i)
        else:
            stack.extend(t.children())
    if len(cache) > 20000:
        cache.clear()
    cache[key] = (e, frozenset(out))
    return cache[key][1]


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.feas = 0
        self.paths = 0
        self.branches = 0
        self.goals = 0

    def merge(self, d):
        for k, v in d.items():
            setattr(self, k, getattr(self, k) + v)

    def asdict(self):
        return dict(self.__dict__)


STATS = Stats()


def _is_nra(exprs):
    for e in exprs:
        if z3.is_bool(e):
            pass
    return True


def _mk_solver(kind, timeout_ms):
    if kind == "nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif kind == "nra":
        s = z3.SolverFor("QF_NRA")
    elif kind == "lra":
        s = z3.SolverFor("QF_LRA")
    elif kind == "simple":
        s = z3.SimpleSolver()
    else:
        s = z3.Solver()
    s.set("timeout", int(timeout_ms))
    return s


def solve(assertions, timeout_ms=20000, kinds=None, want_model=True):
    """Returns (verdict, model).  verdict in sat/unsat/unknown."""
    if kinds is None:
        kinds = ("nlsat", "default", "nra")
    t0 = time.time()
    STATS.queries += 1
    verdict, model = "unknown", None
    for k in kinds:
        try:
            s = _mk_solver(k, timeout_ms)
            s.add(*assertions)
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            verdict = "unsat"
            break
        if r == z3.sat:
            verdict = "sat"
            if want_model:
                try:
                    model = s.model()
                except z3.Z3Exception:
                    model = None
            break
    STATS.solver_s += time.time() - t0
    setattr(STATS, verdict, getattr(STATS, verdict) + 1)
    return verdict, model


def _linear(e, cache={}):
    """All arithmetic in e is linear (product only by numerals)."""
    i = e.get_id()
    hit = cache.get(i)
    if hit is not None:
        return hit[1]
    r = True
    if z3.is_mul(e) and z3.is_real(e):
        r = sum(0 if z3.is_rational_value(c) else 1 for c in e.children()) <= 1
    elif z3.is_app(e) and e.decl().kind() in (z3.Z3_OP_DIV, z3.Z3_OP_POWER):
        r = False
    if r:
        r = all(_linear(c) for c in e.children())
    if len(cache) > 50000:
        cache.clear()
    cache[i] = (e, r)
    return r


def _opaque(e, memo):
    """e with its nonlinear products replaced by unknowns (an abstraction)."""
    i = e.get_id()
    hit = memo.get(i)
    if hit is not None:
        return hit[1]
    if not e.num_args():
        r = e
    elif not _linear(e) and z3.is_real(e) and (z3.is_mul(e) or e.decl().kind() in (
            z3.Z3_OP_DIV, z3.Z3_OP_POWER)) and (
            not z3.is_mul(e) or sum(0 if z3.is_rational_value(c) else 1 for c in e.children()) > 1):
        r = z3.Real(f"opaque!{i}")
    else:
        r = e.decl()(*[_opaque(c, memo) for c in e.children()])
    memo[i] = (e, r)
    return r


def _implied_zeros(facts):
    """Equalities p = q implied by the linear part of non-strict inequalities."""
    lin = [f for f in facts if _linear(f)]
    out = []
    cand = []
    for f in lin:
        g, neg = (f.arg(0), True) if z3.is_not(f) else (f, False)
        k = g.decl().kind() if z3.is_app(g) else None
        strict = k in ((z3.Z3_OP_LE, z3.Z3_OP_GE) if neg else (z3.Z3_OP_LT, z3.Z3_OP_GT))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and not strict \
                and z3.is_real(g.arg(0)):
            cand.append((g.arg(0), g.arg(1)))
    if not cand:
        return out
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 3000)
    s.add(*lin)
    for a, b in cand:
        s.push()
        s.add(a != b)
        if s.check() == z3.unsat:
            out.append(a == b)
        s.pop()
    return out


def cone(goal, facts):
    """Facts transitively sharing constants with goal."""
    need = set(_vars_of(goal))
    rest = list(facts)
    used = []
    changed = True
    while changed and rest:
        changed = False
        nxt = []
        for f in rest:
            v = _vars_of(f)
            if v & need or not v:
                used.append(f)
                if not v <= need:
                    need |= v
                    changed = True
            else:
                nxt.append(f)
        rest = nxt
    return used


def num_value(m, e):
    """Fraction value of e in model m (algebraic numbers approximated)."""
    v = m.eval(e, model_completion=True)
    if z3.is_algebraic_value(v):
        v = v.approx(30)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    v = z3.simplify(v)
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise EngineError(f"no value for {e}: {v}")


class Violation(Exception):
    def __init__(self, label, values=None, detail=""):
        super().__init__(label)
        self.label = label
        self.values = values or {}
        self.detail = detail


class Inconclusive(Exception):
    pass


class World:
    """One symbolic path of one scenario."""

    symbolic = True

    def __init__(self, params, prefix=(), opts=None):
        self.params = params
        self.opts = opts or {}
        self.facts = []          # contracts of stubs, assumptions
        self.path = []           # branch conditions
        self.prefix = list(prefix)
        self.trace = []
        self.alternatives = []
        self.inputs = {}         # name -> z3 const  (named inputs)
        self.input_order = []
        self.notes = []
        self.assumed = []
        self.fresh_n = 0
        self.memo = {}
        self.undef_ok = False
        self.goal_log = []
        self._sqrt = {}
        self._nonneg = []
        self._div = {}
        self._inc = None
        self.env_run = 0
        self.executors = []
        self._pos = set()
        self.timeout = int(self.opts.get("timeout_ms", 20000))
        self.int_only = bool(self.opts.get("int_only", False))

    # ---- values
    def fresh(self, base="t"):
        self.fresh_n += 1
        return R(e=z3.Real(f"{base}!{self.fresh_n}"))

    def real(self, name):
        v = z3.Real(name)
        self.inputs[name] = v
        return R(e=v)

    def positive(self, name):
        """A positive real; roots and quotients of its monomials are simplified."""
        v = self.real(name)
        self.assume(v > 0)
        self._pos.add(v.e.get_id())
        return v

    def from_poly(self, p):
        t = z3.RealVal(0)
        terms = []
        for m, c in p.items():
            t = _val(Fraction(c))
            for i in m:
                t = self.nf().names[i] * t
            terms.append(t)
        if not terms:
            return R(c=Fraction(0))
        if len(p) == 1 and () in p:
            return R(c=Fraction(p[()]))
        return R(e=z3.Sum(terms) if len(terms) > 1 else terms[0])

    def array(self, name, shape):
        shape = tuple(int(s) for s in shape)
        out = np.empty(shape, dtype=object)
        for idx in np.ndindex(*shape):
            out[idx] = self.real(name + "[" + ",".join(map(str, idx)) + "]")
        return out

    def const_array(self, name, shape, lo=-3, hi=3):
        """Concrete pseudo-random small integers (no zeros), exact."""
        rng = np.random.RandomState(
            (hash_name(name) + int(self.params.get("seed", 0))) % (2**31)
        )
        vals = rng.randint(1, hi + 1, size=shape) * rng.choice([-1, 1], size=shape)
        out = np.empty(tuple(shape), dtype=object)
        of = out.reshape(-1)
        for i, v in enumerate(vals.reshape(-1)):
            of[i] = R(c=Fraction(int(v)))
        return out

    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.facts.append(v >= lo)
        if hi is not None:
            self.facts.append(v <= hi)
        self._inc = None
        return I(e=v)

    def pick(self, name, lo, hi):
        """Integer in [lo,hi], made concrete by forking over the solver's values."""
        return self.int(name, lo, hi).__index__()

    def assume(self, cond):
        if isinstance(cond, (bool, np.bool_)):
            if not cond:
                raise PathAbort()
            return
        e = cond.e if isinstance(cond, B) else cond
        self.facts.append(e)
        if self._inc is not None:
            self._inc.add(e)
            if self._check_inc() == z3.unsat:
                raise PathAbort()

    def axiom(self, e):
        """Fact from a stub's contract."""
        if isinstance(e, B):
            e = e.e
        if isinstance(e, (bool, np.bool_)):
            if not e:
                raise PathAbort()
            return
        self.facts.append(e)
        if self._inc is not None:
            self._inc.add(e)

    def _check_inc(self):
        t0 = time.time()
        STATS.feas += 1
        r = self._inc.check()
        STATS.solver_s += time.time() - t0
        return r

    def feasible(self, extra):
        """sat/unknown -> True."""
        if self.int_only:
            if self._inc is None:
                self._inc = z3.Solver()
                self._inc.set("timeout", self.timeout)
                self._inc.add(*self.facts)
                self._inc.add(*self.path)
            self._inc.push()
            self._inc.add(extra)
            r = self._check_inc()
            self._inc.pop()
            return r != z3.unsat
        t0 = time.time()
        STATS.feas += 1
        r = z3.unknown
        if self.opts.get("bv"):
            s = _mk_solver("default", self.timeout)
            s.add(*self.facts, *self.path, extra)
            r = s.check()
            STATS.solver_s += time.time() - t0
            return r != z3.unsat
        rel = cone(extra, self.facts + self.path)
        lin = [f for f in rel if _linear(f)]
        if len(lin) and _linear(extra):
            s = z3.SolverFor("QF_LRA")
            s.set("timeout", 5000)
            s.add(*lin)
            s.add(extra)
            r = s.check()
            if r == z3.unsat or (r == z3.sat and len(lin) == len(rel)):
                STATS.solver_s += time.time() - t0
                return r != z3.unsat
            r = z3.unknown
        if self.opts.get("feas") == "linear":
            STATS.solver_s += time.time() - t0
            return True
        for k in ("nlsat", "default"):
            try:
                s = _mk_solver(k, min(self.timeout, 5000))
                s.add(*rel)
                s.add(extra)
                r = s.check()
            except z3.Z3Exception:
                r = z3.unknown
            if r != z3.unknown:
                break
        STATS.solver_s += time.time() - t0
        return r != z3.unsat

    def _push_path(self, e):
        self.path.append(e)
        if self._inc is not None:
            self._inc.add(e)

    def decide(self, e):
        s = z3.simplify(e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        STATS.branches += 1
        k = len(self.trace)
        if k < len(self.prefix):
            choice = self.prefix[k]
            self.trace.append(choice)
            self._push_path(s if choice else z3.Not(s))
            return choice
        t = self.feasible(s)
        f = self.feasible(z3.Not(s))
        if not t and not f:
            raise PathAbort()
        if t and f:
            self.alternatives.append(self.trace[:] + [False])
            choice = True
        else:
            choice = t
        self.trace.append(choice)
        self._push_path(s if choice else z3.Not(s))
        return choice

    def choose(self, n):
        """Nondeterministic choice 0..n-1 (environment), all explored."""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = 0
            for j in range(n - 1, 0, -1):
                self.alternatives.append(self.trace[:] + [j])
        self.trace.append(c)
        return c

    def concretise(self, iv):
        """Enumerate all feasible values of a symbolic integer by forking."""
        k = len(self.trace)
        if k < len(self.prefix):
            c = self.prefix[k]
            self.trace.append(c)
            self._push_path(iv.e == c)
            return c
        vals = []
        s = z3.Solver()
        s.set("timeout", self.timeout)
        s.add(*self.facts)
        s.add(*self.path)
        t0 = time.time()
        while True:
            STATS.feas += 1
            r = s.check()
            if r == z3.unknown:
                raise Inconclusive("concretise: unknown")
            if r == z3.unsat:
                break
            v = s.model().eval(iv.e, model_completion=True).as_long()
            vals.append(v)
            s.add(iv.e != v)
            if len(vals) > self.opts.get("max_values", 64):
                raise Inconclusive("concretise: too many values")
        STATS.solver_s += time.time() - t0
        if not vals:
            raise PathAbort()
        vals.sort()
        for v in vals[1:][::-1]:
            self.alternatives.append(self.trace[:] + [v])
        self.trace.append(vals[0])
        self._push_path(iv.e == vals[0])
        return vals[0]

    # ---- partial operations
    def divide(self, a, b):
        if b.c is not None:
            if b.c == 0:
                return self.div_by_zero(a)
            if a.c is not None:
                return R(c=a.c / b.c)
            return a * R(c=1 / b.c)
        key = (a.e.get_id(), b.e.get_id())
        if key in self._div:
            return self._div[key][0]
        if self._pos:
            q = self._monomial_quotient(a, b)
            if q is not None:
                self._div[key] = (q, a, b)
                return q
        if self.opts.get("div", "assume") == "fork":
            if self.decide(b.e == 0):
                return self.div_by_zero(a)
        else:
            self.axiom(b.e != 0)
            self.note_assume("divisors that depend on symbolic data are nonzero")
        q = self.fresh("quot")
        self.axiom(q.e * b.e == a.e)
        self._div[key] = (q, a, b)
        return q

    def _monomial_quotient(self, a, b):
        """Exact a/b for b = c * (product of variables known to be positive)."""
        pb = self.npoly(b.e)
        if pb is None or len(pb) != 1:
            return None
        (mb, cb), = pb.items()
        if any(i not in self._pos for i in mb):
            return None
        nf = self.nf()
        inv = {}
        for i in mb:
            if i not in nf.inv:
                v = self.fresh("inv")
                self.axiom(v.e * nf.names[i] == 1)
                self.axiom(v.e > 0)
                j = v.e.get_id()
                nf.names[j] = v.e
                nf.inv[i], nf.inv[j] = j, i
                self._pos.add(j)
            j = nf.inv[i]
            inv = nf.mul(inv, {(j,): 1}) if inv else {(j,): 1}
        pa = self.npoly(a.e)
        if pa is None:
            return None
        try:
            out = nf.mul(pa, {m: Fraction(c) / Fraction(cb) for m, c in inv.items()})
        except Exception:
            return None
        return self.from_poly(out)

    def div_by_zero(self, a):
        raise NonFinite("division by zero")

    def sqrt(self, x):
        if x.c is not None:
            from math import isqrt
            n, d = x.c.numerator, x.c.denominator
            if n >= 0 and isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
                return R(c=Fraction(isqrt(n), isqrt(d)))
        key = x.e.get_id()
        if key in self._sqrt:
            return self._sqrt[key][0]
        q = self.npoly(x.e)
        ck = None
        if q is not None and len(q) < 4000:
            ck = tuple(sorted(q.items()))
            if ck in self._sqrt:
                self._sqrt[key] = self._sqrt[ck]
                return self._sqrt[key][0]
            if x.c is None and (len(ck) == 1 and not ck[0][0] or not ck):
                v = Fraction(ck[0][1]) if ck else Fraction(0)
                return self.sqrt(R(c=v))
            if self._pos and len(ck) == 1:
                m, c = ck[0]
                c = Fraction(c)
                if (m and c > 0 and all(i in self._pos for i in m)
                        and all(m.count(i) % 2 == 0 for i in m)):
                    h = self.from_poly({m[::2]: 1})      # m is sorted
                    v = h * self.sqrt(R(c=c))
                    self._sqrt[key] = self._sqrt[ck] = (v, x)
                    return v
        s = self.fresh("sqrt")
        self.axiom(s.e * s.e == x.e)
        self.axiom(s.e >= 0)
        if q is not None and len(q) <= self.opts.get("root_terms", 10**9):
            self.nf().rewrite[s.e.get_id()] = q
        self._sqrt[key] = (s, x)
        if ck is not None:
            self._sqrt[ck] = (s, x)
        return s

    def nf(self):
        """Polynomial normaliser (knows the squares of the roots introduced)."""
        from . import poly
        if not hasattr(self, "_nfc"):
            self._nfc = poly.Conv()
        return self._nfc

    def npoly(self, e):
        from . import poly
        try:
            return self.nf().poly(e)
        except poly.TooBig:
            return None

    def squares(self, X):
        """Note that the sum of the squares of these numbers is not negative."""
        t = R(c=Fraction(0))
        for x in np.asarray(X, dtype=object).reshape(-1):
            x = R._co(x)
            t = t + x * x
        if t.c is None:
            self._nonneg.append(t)

    def _known_nonneg(self, x):
        q = self.npoly(x.e)
        if q is None:
            return False
        for t in self._nonneg:
            p = self.npoly(t.e)
            if p == q:
                return True
        for t in self._nonneg:
            n = len(self.goal_log)
            neg = x.e != t.e
            rel = cone(neg, self.facts + self.path)
            if rel and self._xl(neg, rel) is None:
                return True
        return False

    def absval(self, x):
        if self.opts.get("abs_nonneg_hint", False):
            if not self.feasible(x.e < 0):
                return x
        key = ("abs", x.e.get_id())
        if key in self.memo:
            return self.memo[key][0]
        if self._nonneg and self._known_nonneg(x):
            self.memo[key] = (x, x)
            return x
        a = self.fresh("abs")
        self.axiom(a.e >= 0)
        self.axiom(a.e * a.e == x.e * x.e)
        self.axiom(z3.Or(a.e == x.e, a.e == -x.e))
        self.memo[key] = (a, x)
        return a

    def note_assume(self, s):
        if s not in self.assumed:
            self.assumed.append(s)

    # ---- properties
    def _cex(self, neg, label, detail, bounded=True):
        """neg: z3 formula saying the property is false.  None if unsat."""
        STATS.goals += 1
        rel = cone(neg, self.facts + self.path)
        kinds = self.opts.get("kinds")
        if not rel:
            hit = self._point_cex(neg)
            if hit is not None:
                return hit
        if rel and _linear(neg):
            lin = [f for f in rel if _linear(f)]
            if lin:
                v, _ = solve(lin + [neg], 3000, ("lra",), want_model=False)
                if v == "unsat":
                    return None
        if rel and self.path and len(rel) < 2000 and not _linear(neg):
            # does it follow with products as unknowns?
            memo = {}
            v, _ = solve([_opaque(z3.simplify(f), memo) for f in rel + [neg]], 2000, ("lra",), want_model=False)
            if v == "unsat":
                return None
        if len(rel) > 12:
            # does it follow from the few facts about the same numbers?
            V = set(_vars_of(neg))
            if len(V) <= 3:
                vs = [(f, _vars_of(f)) for f in rel]
                V1 = V.union(*[v for _, v in vs if len(v) <= 3 and V & v])
                loc = [f for f, v in vs if v <= V1]
                if loc and len(loc) < len(rel):
                    v, _ = solve(loc + [neg], 1000, ("nlsat",), want_model=False)
                    if v == "unsat":
                        return None
        if rel and self._pos and self.opts.get("xl", True):
            left = self._xl(neg, rel)
            if left is None:
                return None
            neg = left
        if rel and not z3.is_or(neg) or rel and neg.num_args() <= 400:
            # does it hold without the contracts?
            v, _ = solve([neg], min(self.timeout, 4000), ("nlsat",), want_model=False)
            if v == "unsat":
                return None
        if rel and self.opts.get("xl", True):
            left = self._xl(neg, rel) if not self._pos else neg
            if left is None:
                return None
            neg = left
            hit = self._instance_cex(neg, rel)
            if hit is not None:
                return hit
        v, m = solve(rel + [neg], self.timeout, kinds)
        if v == "unsat":
            return None
        if v == "unknown":
            raise Inconclusive(f"solver unknown on {label}")
        # full model incl. facts outside the cone
        return self._model_values(rel + [neg], m)

    def _xl(self, neg, rel):
        """Linearised queries (poly.py).  None: refuted; else what is left."""
        from . import poly
        parts = [neg.arg(i) for i in range(neg.num_args())] if z3.is_or(neg) else [neg]
        eqs, rest = [], []
        for p in parts:
            if z3.is_not(p) and z3.is_eq(p.arg(0)) and z3.is_real(p.arg(0).arg(0)):
                eqs.append((p, p.arg(0)))
            elif z3.is_distinct(p) and p.num_args() == 2 and z3.is_real(p.arg(0)):
                eqs.append((p, p.arg(0) == p.arg(1)))
            else:
                rest.append(p)
        if not eqs:
            return neg
        t0 = time.time()
        try:
            if not hasattr(self, "_conv"):
                self._conv = poly.Conv()
            cv = self._conv
            gs = [cv.eq_poly(e) for _, e in eqs]
            if any(g is None for g in gs):
                return neg
            ok = [not g for g in gs]
            for i, (_, e) in enumerate(eqs):
                if not ok[i]:          # identical up to the squares of roots
                    a, b = self.npoly(e.arg(0)), self.npoly(e.arg(1))
                    ok[i] = a is not None and a == b
            allf = []
            for f in rel + (_implied_zeros(rel) if self.path else []):
                allf += f.children() if z3.is_and(f) else [f]
            allf = [f for f in allf if z3.is_eq(f) and z3.is_real(f.arg(0))]
            gv = set(_vars_of(neg))
            layers = [[f for f in allf if _vars_of(f) <= gv], allf]
            if len(layers[0]) == len(allf):
                layers.pop(0)
            if self._pos and not all(ok):
                # normal forms: reciprocals cancelled, squares of roots expanded
                nf = self.nf()
                fs = [q for q in (nf.eq_poly(f) for f in allf) if q and len(q) <= 400]
                todo = [i for i, o in enumerate(ok) if not o]
                ng = [nf.eq_poly(eqs[i][1]) for i in todo]
                res = poly.xl_prove(ng, fs, nf, budget=self.opts.get("xl_budget", 8.0),
                                    extra_deg=self.opts.get("xl_deg", 1),
                                    max_rows=self.opts.get("xl_rows", 6000) // 2)
                for i, r in zip(todo, res):
                    ok[i] = r
            for k, layer in enumerate(layers):
                if all(ok):
                    break
                fs = [q for q in (cv.eq_poly(f) for f in layer) if q is not None]
                todo = [i for i, o in enumerate(ok) if not o]
                last = k == len(layers) - 1
                res = poly.xl_prove([gs[i] for i in todo], fs, cv,
                                    budget=self.opts.get("xl_budget", 8.0) * (1 if last else .3),
                                    extra_deg=self.opts.get("xl_deg", 1),
                                    max_rows=self.opts.get("xl_rows", 6000) // (1 if last else 4))
                for i, r in zip(todo, res):
                    ok[i] = r
        except poly.TooBig:
            return neg
        finally:
            STATS.solver_s += time.time() - t0
        n = sum(ok)
        STATS.queries += n
        STATS.unsat += n
        rest += [p for (p, _), o in zip(eqs, ok) if not o]
        if not rest:
            return None
        return z3.Or(*rest) if len(rest) > 1 else rest[0]

    def _instance_cex(self, neg, rel):
        """Fix the inputs to small integers and ask for the rest: a model is a
        genuine counterexample (only used to find one faster)."""
        names = [(n, v) for n, v in self.inputs.items() if z3.is_real(v)]
        need = set()
        for f in rel + [neg]:
            need |= _vars_of(f)
        names = [(n, v) for n, v in names if v.get_id() in need]
        if not names:
            return None
        rng = np.random.RandomState(len(self.goal_log) + 3)
        for _ in range(1):
            vals = [int(x) for x in rng.randint(-3, 4, size=len(names))]
            sub = [(v, z3.RealVal(x)) for (_, v), x in zip(names, vals)]
            fs = [z3.simplify(z3.substitute(f, *sub)) for f in rel + [neg]]
            v, m = solve(fs, self.opts.get("inst_timeout", 2500), ("nlsat",), want_model=False)
            if v == "sat":
                return {n: str(x) for (n, _), x in zip(names, vals)}
        return None

    def _point_cex(self, neg):
        """A ground instance the solver evaluates to true is a counterexample
        (only used to find one faster; unsat always comes from solve())."""
        rng = np.random.RandomState(len(self.goal_log) + 7)
        consts, seen, stack = [], set(), [neg]
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_const(t):
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    consts.append(t)
            else:
                stack.extend(t.children())
        if not consts or not all(z3.is_real(c) for c in consts):
            return None
        for _ in range(2):
            vals = [int(v) for v in rng.randint(1, 8, size=len(consts)) *
                    rng.choice([-1, 1], size=len(consts))]
            g = z3.simplify(z3.substitute(
                neg, *[(c, z3.RealVal(v)) for c, v in zip(consts, vals)]))
            if z3.is_true(g):
                STATS.queries += 1
                STATS.sat += 1
                names = {c.decl().name(): str(v) for c, v in zip(consts, vals)}
                return {n: names[n] for n in self.inputs if n in names}
        return None

    def _model_values(self, asserts, m):
        others = [f for f in self.facts + self.path]
        vals = {}
        full = None
        # prefer a tame counterexample
        reals = [v for n, v in self.inputs.items() if z3.is_real(v)]
        bound = [z3.And(v >= -4, v <= 4) for v in reals[:400]]
        for extra in (bound, []):
            try:
                r, mm = solve(asserts + others + extra, min(self.timeout, 5000), ("nlsat", "default"))
            except Exception:
                r, mm = "unknown", None
            if r == "sat" and mm is not None:
                full = mm
                break
        mm = full or m
        if mm is None:
            return {}
        for n, v in self.inputs.items():
            try:
                # only values the model really constrains
                if mm[v] is None:
                    continue
                vals[n] = str(num_value(mm, v))
            except Exception:
                pass
        return vals

    def eq(self, label, a, b, detail=""):
        a = np.asarray(a, dtype=object)
        b = np.asarray(b, dtype=object)
        if a.shape != b.shape:
            self.check_alive(label)
            raise Violation(label + ":shape", self.any_values(),
                            f"shape {a.shape} != {b.shape}")
        per_entry = self.opts.get("per_entry", False)
        dis = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if x is y and isinstance(x, R):
                continue
            rx, ry = R._co(x), R._co(y)
            if rx is None or ry is None:
                raise EngineError(f"{label}: non numeric {type(x)} {type(y)}")
            if rx.c is not None and ry.c is not None:
                if rx.c != ry.c:
                    self.check_alive(label)
                    raise Violation(label, self.any_values(), f"{rx.c} != {ry.c}")
                continue
            if rx.e.eq(ry.e):
                continue
            dis.append(rx.e != ry.e)
        self.goal_log.append(label)
        if not dis:
            STATS.goals += 1
            STATS.queries += 1
            STATS.unsat += 1
            return
        groups = [[d] for d in dis] if per_entry else [dis]
        for g in groups:
            vals = self._cex(z3.Or(*g) if len(g) > 1 else g[0], label, detail)
            if vals is not None:
                raise Violation(label, vals, detail)

    def true(self, label, cond, detail=""):
        self.goal_log.append(label)
        if isinstance(cond, B):
            vals = self._cex(z3.Not(cond.e), label, detail)
            if vals is not None:
                raise Violation(label, vals, detail)
            return
        if z3.is_expr(cond):
            return self.true(label, B(cond), detail)
        STATS.goals += 1
        if not cond:
            self.check_alive(label)
            raise Violation(label, self.any_values(), detail)

    def le(self, label, a, b, detail=""):
        self.true(label, R._co(a) <= R._co(b), detail)

    def check_alive(self, label):
        """A definite failure only counts on a feasible path."""
        if not self.path:
            return
        if self.opts.get("bv"):
            v, _ = solve(self.facts + self.path, self.timeout, ("default",), want_model=False)
        elif self.int_only:
            v = "sat" if self.feasible(z3.BoolVal(True)) else "unsat"
        else:
            v, _ = solve(self.facts + self.path, self.timeout, ("nlsat", "default"), want_model=False)
        if v == "unsat":
            raise PathAbort()
        if v == "unknown" and self.opts.get("feas") == "linear":
            raise Inconclusive(f"failure of {label} on a path not known to be feasible")

    def any_values(self):
        """Some model of the current path (for replay)."""
        try:
            if self.opts.get("bv"):
                defs = [r == s * z3.BitVecVal(c, 64) for r, s, c in self.mixes]
                v, m = solve(self.facts + self.path + defs, 60000, ("default",))
                return self._model_bv(m) if v == "sat" and m is not None else {}
            v, m = solve(self.facts + self.path, 5000, ("nlsat", "default"))
        except Exception:
            return {}
        if v != "sat" or m is None:
            return {}
        out = {}
        for n, c in self.inputs.items():
            try:
                if m[c] is None:
                    continue
                out[n] = str(num_value(m, c))
            except Exception:
                pass
        return out

    def raises(self, label, excs, fn):
        self.goal_log.append(label)
        STATS.goals += 1
        try:
            fn()
        except excs:
            return
        self.check_alive(label)
        raise Violation(label, self.any_values(), f"no {excs} raised")

    def reach(self, label):
        """Reachability witness: the path up to here must be satisfiable."""
        v, _ = solve(self.facts + self.path, self.timeout, want_model=False)
        if v == "unsat":
            raise PathAbort()
        self.memo["reached"] = v


def hash_name(s):
    h = 2166136261
    for ch in s.encode():
        h = ((h ^ ch) * 16777619) & 0xFFFFFFFF
    return h


def set_world(w):
    global _CUR
    _CUR = w
