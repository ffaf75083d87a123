"""Symbolic interpreter for the Cython extension (bit-precise).

Walks Cython's own parse tree of the current .pyx file.  C integers are
two's-complement bit vectors with C's promotions and conversions, doubles are
IEEE binary64 terms, memoryviews are bounds-checked cell arrays that share
memory like the real ones.  Everything that is concrete is computed
concretely, so the interpreter can be compared with the compiled extension.
"""
from __future__ import annotations

import math
import os
import struct
import time

import numpy as np
import z3

from . import core, loader
from .core import B, EngineError, Inconclusive, PathAbort, STATS, Violation

REL = "tt_sketch/drm/fast_lazy_gaussian.pyx"
F64 = z3.Float64()
RNE = z3.RNE()
RTZ = z3.RTZ()


# ------------------------------------------------------------------- types

class CT:
    def __init__(self, kind, bits=0, signed=True, elem=None, ndim=0):
        self.kind, self.bits, self.signed, self.elem, self.ndim = kind, bits, signed, elem, ndim

    def __repr__(self):
        if self.kind == "int":
            return ("i" if self.signed else "u") + str(self.bits)
        if self.kind == "mv":
            return f"{self.elem}[{self.ndim}]"
        return self.kind

    def __eq__(self, o):
        return isinstance(o, CT) and repr(self) == repr(o)

    def __hash__(self):
        return hash(repr(self))


def INT(bits, signed):
    return CT("int", bits, signed)


I16, I32, I64, U64, U32 = INT(16, True), INT(32, True), INT(64, True), INT(64, False), INT(32, False)
DBL = CT("double")
OBJ = CT("object")
VOID = CT("void")
NAMED = {"int8": INT(8, True), "int16": I16, "int32": I32, "int64": I64, "uint8": INT(8, False),
         "uint16": INT(16, False), "uint32": U32, "uint64": U64, "float64": DBL, "double": DBL,
         "intp": I64, "uintp": U64}


class V:
    """A C value: integer (v: int or BitVec) or double (v: float or FP)."""
    __slots__ = ("t", "v", "bits")
    __array_priority__ = 2000.0

    def __init__(self, t, v, bits=None):
        self.t, self.v, self.bits = t, v, bits

    @property
    def sym(self):
        return z3.is_expr(self.v)

    def __repr__(self):
        return f"<{self.t} {self.v}>"

    def __index__(self):
        if self.t.kind != "int":
            raise TypeError("not an integer")
        if self.sym:
            return world_pick(self)
        return self.v

    __int__ = __index__

    def __float__(self):
        if self.sym:
            raise EngineError("float() of a symbolic C value")
        return float(self.v)

    def __add__(self, o):
        return binop("+", self, o)

    def __radd__(self, o):
        return binop("+", o, self)

    def __sub__(self, o):
        return binop("-", self, o)

    def __rsub__(self, o):
        return binop("-", o, self)

    def __mul__(self, o):
        return binop("*", self, o)

    __rmul__ = __mul__

    def __mod__(self, o):
        return binop("%", self, o)


class Arr:
    """numpy array / typed memoryview over shared cells."""

    def __init__(self, a, t, mv=False):
        self.a, self.t, self.mv = a, t, mv

    @property
    def shape(self):
        return self.a.shape

    @property
    def ndim(self):
        return self.a.ndim

    @property
    def size(self):
        return self.a.size

    @property
    def dtype(self):
        return self.t

    @property
    def T(self):
        return Arr(self.a.T, self.t, self.mv)

    def __len__(self):
        return len(self.a)

    def get(self, idx):
        return read_cell(self.a[idx], self.t)

    def set(self, idx, v):
        self.a[idx] = store_cell(v, self.t)

    # numpy methods
    def astype(self, t, copy=True, **k):
        t = dtype_of(t)
        out = np.empty(self.a.shape, dtype=object)
        for i in np.ndindex(*self.a.shape):
            out[i] = store_cell(convert(self.get(i), t, "numpy"), t)
        return Arr(out, t)

    def copy(self, *a, **k):
        return Arr(self.a.copy(), self.t)

    def reshape(self, *s):
        if len(s) == 1 and isinstance(s[0], (tuple, list)):
            s = tuple(s[0])
        return Arr(self.a.reshape(tuple(int(x) for x in s)), self.t)

    def ravel(self, *a):
        return Arr(self.a.reshape(-1), self.t)

    flatten = copy

    def view(self, t):
        return Arr(self.a, dtype_of(t))

    def fill(self, v):
        for i in np.ndindex(*self.a.shape):
            self.set(i, convert(v, self.t, "numpy"))

    def tolist(self):
        return [self.get(i) for i in np.ndindex(*self.a.shape)]

    def __array__(self, *a, **k):
        raise EngineError("symbolic extension array used by numpy")

    # numpy indexing
    def __getitem__(self, idx):
        idx = _plain(idx)
        r = self.a[idx]
        if isinstance(r, np.ndarray):
            return Arr(r, self.t, self.mv)
        return read_cell(r, self.t)

    def __setitem__(self, idx, val):
        idx = _plain(idx)
        sub = self.a[idx]
        if isinstance(sub, np.ndarray):
            vals = val.a if isinstance(val, Arr) else None
            tgt = self.a[idx]
            if vals is None:
                c = store_cell(convert(val, self.t, "numpy"), self.t)
                for i in np.ndindex(*tgt.shape):
                    tgt[i] = c
            else:
                vals = np.broadcast_to(vals, tgt.shape).copy()
                for i in np.ndindex(*tgt.shape):
                    tgt[i] = store_cell(convert(read_cell(vals[i], val.t), self.t, "numpy"), self.t)
        else:
            self.a[idx] = store_cell(convert(val, self.t, "numpy"), self.t)

    def _bin(self, op, o):
        oa = o if isinstance(o, Arr) else None
        if oa is not None:
            x, y = np.broadcast_arrays(self.a, oa.a)
        else:
            x, y = self.a, None
        out = np.empty(x.shape, dtype=object)
        t = None
        for i in np.ndindex(*x.shape):
            r = binop(op, read_cell(x[i], self.t),
                      read_cell(y[i], oa.t) if oa is not None else numpy_scalar(o, self.t), wrap=True)
            t = r.t
            out[i] = store_cell(r, t)
        return Arr(out, t or self.t)

    def __add__(self, o):
        return self._bin("+", o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin("-", o)

    def __mul__(self, o):
        return self._bin("*", o)

    __rmul__ = __mul__

    def __mod__(self, o):
        return self._bin("%", o)

    def __xor__(self, o):
        return self._bin("^", o)

    def __or__(self, o):
        return self._bin("|", o)

    def __and__(self, o):
        return self._bin("&", o)

    def __rshift__(self, o):
        return self._bin(">>", o)

    def __lshift__(self, o):
        return self._bin("<<", o)


def numpy_scalar(o, t):
    if isinstance(o, V):
        return o
    if isinstance(o, (int, np.integer)) and t.kind == "int":
        return convert(int(o), t, "numpy")
    return o


def _plain(idx):
    if isinstance(idx, tuple):
        return tuple(_plain(x) for x in idx)
    if isinstance(idx, slice):
        f = lambda x: None if x is None else int(x)
        return slice(f(idx.start), f(idx.stop), f(idx.step))
    if isinstance(idx, V):
        return int(idx)
    if isinstance(idx, Arr):
        return np.array([int(idx.get(i)) for i in np.ndindex(*idx.shape)]).reshape(idx.shape)
    return idx


def dtype_of(d):
    if isinstance(d, CT):
        return d
    if d is float:
        return DBL
    if d is int:
        return I64
    try:
        n = np.dtype(d).name
    except TypeError:
        raise EngineError(f"dtype {d!r}")
    if n in NAMED:
        return NAMED[n]
    raise EngineError(f"dtype {d!r}")


# ------------------------------------------------------------------- cells

def is_fp(x):
    return isinstance(x, float) or z3.is_fp(x)


def wrapint(x, t):
    x &= (1 << t.bits) - 1
    if t.signed and x >> (t.bits - 1):
        x -= 1 << t.bits
    return x


def read_cell(c, t):
    if t.kind == "double":
        if is_fp(c):
            return V(DBL, c)
        if isinstance(c, int):
            return V(DBL, struct.unpack("<d", struct.pack("<Q", c & (2**64 - 1)))[0], bits=c & (2**64 - 1))
        return V(DBL, z3.fpBVToFP(c, F64), bits=c)
    if is_fp(c):
        if isinstance(c, float):
            return V(t, wrapint(struct.unpack("<Q", struct.pack("<d", c))[0], t))
        return V(t, z3.fpToIEEEBV(c))
    if isinstance(c, int):
        return V(t, wrapint(c, t))
    if c.size() != t.bits:
        raise EngineError(f"cell of {c.size()} bits read as {t}")
    return V(t, c)


def store_cell(v, t):
    v = convert(v, t, "store")
    if t.kind == "double" and v.bits is not None:
        return v.bits
    return v.v


# ------------------------------------------------------------- conversions

def bv(v, bits=None):
    """z3 bit vector of a C integer value at its own width."""
    if v.sym:
        return v.v
    return z3.BitVecVal(v.v, v.t.bits)


def convert(v, t, how="c"):
    """C conversion of a value to type t."""
    if t.kind in ("object", "void"):
        return v
    if isinstance(v, (bool, np.bool_)):
        v = int(v)
    if isinstance(v, B):
        e = z3.If(v.e, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        v = V(I32, e)
    if isinstance(v, (np.integer,)):
        v = int(v)
    if isinstance(v, (np.floating,)):
        v = float(v)
    if isinstance(v, int):
        if t.kind == "int":
            lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
            if not lo <= v <= hi:
                if how in ("c", "store", "cast"):
                    return V(t, wrapint(v, t))
                if how == "numpy" or how == "py":
                    raise OverflowError(f"{v} out of range for {t}")
            return V(t, v)
        return V(DBL, float(v))
    if isinstance(v, float):
        if t.kind == "double":
            return V(DBL, v)
        raise EngineError("float to int without a cast" if how != "cast" else "cast")
    if isinstance(v, Arr) and t.kind != "mv" and v.a.size == 1:
        return convert(v.get((0,) * v.a.ndim), t, how)
    if not isinstance(v, V):
        raise EngineError(f"cannot convert {type(v)} to {t}")
    if v.t == t:
        return v
    if t.kind == "double":
        if v.t.kind != "int":
            raise EngineError(f"{v.t} to double")
        if not v.sym:
            return V(DBL, float(v.v))
        return V(DBL, (z3.fpSignedToFP if v.t.signed else z3.fpUnsignedToFP)(RNE, v.v, F64))
    if t.kind == "bint":
        return V(I32, 1 if truth(v) else 0)
    if t.kind == "int":
        if v.t.kind == "double":
            if not v.sym:
                if math.isnan(v.v) or math.isinf(v.v) or not -2**63 <= v.v < 2**64:
                    return V(t, -2**31 if t.bits == 32 else 0)
                return V(t, wrapint(int(v.v), t))
            wide = z3.fpToSBV(RTZ, v.v, z3.BitVecSort(64))
            return V(t, z3.Extract(t.bits - 1, 0, wide) if t.bits < 64 else wide)
        if not v.sym:
            return V(t, wrapint(v.v, t))
        a, b = v.t.bits, t.bits
        if b == a:
            return V(t, v.v)
        if b < a:
            return V(t, z3.Extract(b - 1, 0, v.v))
        return V(t, z3.SignExt(b - a, v.v) if v.t.signed else z3.ZeroExt(b - a, v.v))
    raise EngineError(f"convert {v.t} -> {t}")


def lit(x):
    """Python literal in a C expression."""
    if isinstance(x, V):
        return x
    if isinstance(x, B):
        return convert(x, I32)
    if isinstance(x, (bool, np.bool_)):
        return V(I32, int(x))
    if isinstance(x, (int, np.integer)):
        x = int(x)
        for t in (I32, I64, U64):
            lo, hi = (-(1 << (t.bits - 1)), (1 << (t.bits - 1)) - 1) if t.signed else (0, (1 << t.bits) - 1)
            if lo <= x <= hi:
                return V(t, x)
        raise EngineError("integer literal too large")
    if isinstance(x, (float, np.floating)):
        return V(DBL, float(x))
    raise EngineError(f"operand {type(x)}")


def usual(a, b):
    if a.t.kind == "double" or b.t.kind == "double":
        return convert(a, DBL), convert(b, DBL), DBL

    def promote(v):
        return convert(v, I32) if v.t.bits < 32 else v
    a, b = promote(a), promote(b)
    if a.t.bits == b.t.bits:
        t = INT(a.t.bits, a.t.signed and b.t.signed)
    else:
        w = a.t if a.t.bits > b.t.bits else b.t
        n = b.t if w is a.t else a.t
        t = INT(w.bits, w.signed) if w.signed or not n.signed else INT(w.bits, False)
    return convert(a, t), convert(b, t), t


def fpv(v):
    return v.v if v.sym else z3.FPVal(v.v, F64)


def binop(op, a, b, wrap=False):
    if isinstance(a, Arr) or isinstance(b, Arr):
        if isinstance(a, Arr):
            return a._bin(op, b)
        if op in "+*&|^":
            return b._bin(op, a)
        raise EngineError("array operand")
    if not isinstance(a, V) and not isinstance(b, V):
        f = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
             "//": lambda: a // b, "%": lambda: a % b, "**": lambda: a ** b, ">>": lambda: a >> b,
             "<<": lambda: a << b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]
        return f()
    a, b = lit(a), lit(b)
    if op in ("<<", ">>"):
        return shift(op, a, b)
    x, y, t = usual(a, b)
    if op == "**":
        if not y.sym and not x.sym:
            return V(DBL, float(x.v) ** float(y.v))
        if not y.sym and y.t.kind == "int" and 0 <= y.v <= 4:
            r = V(t, 1)
            for _ in range(y.v):
                r = binop("*", r, x)
            return r
        raise EngineError("symbolic power")
    if op == "/":
        x, y, t = convert(x, DBL), convert(y, DBL), DBL
    if t.kind == "double":
        if not x.sym and not y.sym:
            if op == "/":
                if y.v == 0:
                    raise ZeroDivisionError("float division")
                return V(DBL, x.v / y.v)
            if op in ("//", "%"):
                return V(DBL, x.v // y.v if op == "//" else x.v % y.v)
            return V(DBL, {"+": x.v + y.v, "-": x.v - y.v, "*": x.v * y.v}[op])
        if not x.sym and not y.sym:
            raise EngineError("unreachable")
        f = {"+": z3.fpAdd, "-": z3.fpSub, "*": z3.fpMul, "/": z3.fpDiv}.get(op)
        if f is None:
            raise EngineError(f"symbolic double {op}")
        return V(DBL, f(RNE, fpv(x), fpv(y)))
    if not x.sym and not y.sym:
        if op in ("//", "%"):
            if y.v == 0:
                raise ZeroDivisionError("integer division or modulo by zero")
            r = x.v // y.v if op == "//" else x.v % y.v
        else:
            r = {"+": lambda: x.v + y.v, "-": lambda: x.v - y.v, "*": lambda: x.v * y.v,
                 "&": lambda: x.v & y.v, "|": lambda: x.v | y.v, "^": lambda: x.v ^ y.v}[op]()
        w = wrapint(r, t)
        if w != r and t.signed and not wrap:
            raise Violation("signed integer overflow", core.cur().any_values(),
                            f"{x.v} {op} {y.v} overflows {t}")
        return V(t, w)
    p, q = bv(x), bv(y)
    if op == "+":
        r = p + q
        if t.signed and not wrap:
            overflow(z3.And(z3.BVAddNoOverflow(p, q, True), z3.BVAddNoUnderflow(p, q)), t, op)
    elif op == "-":
        r = p - q
        if t.signed and not wrap:
            overflow(z3.And(z3.BVSubNoOverflow(p, q), z3.BVSubNoUnderflow(p, q, True)), t, op)
    elif op == "*":
        if t.signed and not wrap:
            overflow(z3.And(z3.BVMulNoOverflow(p, q, True), z3.BVMulNoUnderflow(p, q)), t, op)
        r = mulbv(x, y, p, q, t)
    elif op == "&":
        r = p & q
    elif op == "|":
        r = p | q
    elif op == "^":
        r = p ^ q
    elif op == "%":
        r = (p % q) if t.signed else z3.URem(p, q)
    elif op == "//":
        if t.signed:
            raise EngineError("symbolic signed floor division")
        r = z3.UDiv(p, q)
    else:
        raise EngineError(f"operator {op}")
    return V(t, r if op == "^" else z3.simplify(r))


def mulbv(x, y, p, q, t):
    """Products with a large odd literal are mixing steps: named, with the
    exact definition kept aside (used when the abstraction is too coarse)."""
    w = core.cur()
    for c, s in ((x, q), (y, p)):
        if not c.sym and c.v > 2**62 and c.v % 2 and t.bits == 64 and not w.opts.get("exact_mul"):
            key = ("mix", c.v, s.get_id())
            hit = w.memo.get(key)
            if hit is None:
                w.fresh_n += 1
                r = z3.BitVec(f"mix!{w.fresh_n}", 64)
                hit = w.memo[key] = (r, s, c.v)
                w.mixes.append((r, s, c.v))
            return hit[0]
    return p * q


def shift(op, a, b):
    if a.t.bits < 32:
        a = convert(a, I32)
    if not a.sym and not b.sym:
        if not 0 <= b.v < a.t.bits:
            raise Violation("shift amount out of range", {}, f"{a.t} {op} {b.v}")
        if op == ">>":
            return V(a.t, wrapint(a.v >> b.v, a.t))
        return V(a.t, wrapint(a.v << b.v, a.t))
    if b.sym:
        raise EngineError("symbolic shift amount")
    if not 0 <= b.v < a.t.bits:
        raise Violation("shift amount out of range", core.cur().any_values(), f"{a.t} {op} {b.v}")
    n = z3.BitVecVal(b.v, a.t.bits)
    p = bv(a)
    r = p << n if op == "<<" else ((p >> n) if a.t.signed else z3.LShR(p, n))
    return V(a.t, r)


def overflow(ok, t, op):
    core.cur().pyx_check("no signed integer overflow", ok, f"{t} {op}")


def compare(op, a, b):
    if not isinstance(a, V) and not isinstance(b, V):
        return {"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, "<=": lambda: a <= b,
                ">": lambda: a > b, ">=": lambda: a >= b, "is": lambda: a is b,
                "is_not": lambda: a is not b, "in": lambda: a in b,
                "not_in": lambda: a not in b}[op]()
    if op in ("is", "is_not"):
        return op == "is_not"
    x, y, t = usual(lit(a), lit(b))
    if not x.sym and not y.sym:
        return compare(op, x.v, y.v)
    if t.kind == "double":
        p, q = fpv(x), fpv(y)
        e = {"==": z3.fpEQ, "!=": z3.fpNEQ, "<": z3.fpLT, "<=": z3.fpLEQ, ">": z3.fpGT, ">=": z3.fpGEQ}[op](p, q)
    else:
        p, q = bv(x), bv(y)
        if t.signed:
            e = {"==": lambda: p == q, "!=": lambda: p != q, "<": lambda: p < q, "<=": lambda: p <= q,
                 ">": lambda: p > q, ">=": lambda: p >= q}[op]()
        else:
            e = {"==": lambda: p == q, "!=": lambda: p != q, "<": lambda: z3.ULT(p, q),
                 "<=": lambda: z3.ULE(p, q), ">": lambda: z3.UGT(p, q), ">=": lambda: z3.UGE(p, q)}[op]()
    return B(z3.simplify(e))


def truth(c):
    """Python truth value (forks on symbolic conditions)."""
    if isinstance(c, B):
        e = z3.simplify(c.e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return core.cur().decide(e)
    if isinstance(c, V):
        return truth(compare("!=", c, 0))
    return bool(c)


def ite(c, a, b):
    """Value of (a if c else b) for a symbolic condition."""
    if a is b:
        return a
    if isinstance(a, Arr) or isinstance(b, Arr) or a is None or b is None:
        raise EngineError("merge of non-scalars")
    if not isinstance(a, V) and not isinstance(b, V) and a == b and type(a) is type(b):
        return a
    a, b = lit(a), lit(b)
    if a.t != b.t:
        a, b, _ = usual(a, b)
    if not a.sym and not b.sym and a.v == b.v and a.bits == b.bits:
        return a
    if a.t.kind == "double":
        return V(DBL, z3.If(c, fpv(a), fpv(b)))
    return V(a.t, z3.If(c, bv(a), bv(b)))


def world_pick(v):
    """Concrete value of a symbolic C integer (forks over feasible values)."""
    w = core.cur()
    return w.pyx_concretise(v)


# -------------------------------------------------------------- C library

class Ref:
    def __init__(self, frame, name):
        self.frame, self.name = frame, name

    def set(self, v):
        self.frame.assign(self.name, v)


def c_frexp(x, ref):
    x = convert(lit(x), DBL)
    if not x.sym:
        m, e = math.frexp(x.v)
        ref.set(V(I32, e))
        return V(DBL, m)
    w = core.cur()
    bits = x.bits
    if bits is None:
        bits = z3.fpToIEEEBV(x.v)
    ex = z3.Extract(62, 52, bits)
    normal = z3.And(ex != 0, ex != 0x7FF)
    mb = z3.Concat(z3.Extract(63, 63, bits), z3.BitVecVal(1022, 11), z3.Extract(51, 0, bits))
    w.fresh_n += 1
    # zero, infinities and NaN are returned as they are; subnormals: unknown
    sub = z3.BitVec(f"subm!{w.fresh_n}", 64)
    sube = z3.BitVec(f"sube!{w.fresh_n}", 32)
    special = z3.Or(ex == 0x7FF, z3.Extract(62, 0, bits) == 0)
    res = z3.simplify(z3.If(normal, mb, z3.If(special, bits, sub)))
    e = z3.simplify(z3.If(normal, z3.ZeroExt(21, ex) - 1022, z3.If(special, z3.BitVecVal(0, 32), sube)))
    ref.set(V(I32, e))
    return V(DBL, z3.fpBVToFP(res, F64), bits=res)


_NDTRI = z3.Function("ndtri", F64, F64)


def c_ndtri(x):
    x = convert(lit(x), DBL)
    if not x.sym:
        from scipy.special import ndtri
        return V(DBL, float(ndtri(x.v)))
    w = core.cur()
    r = _NDTRI(x.v)
    fin = z3.And(z3.Not(z3.fpIsNaN(r)), z3.Not(z3.fpIsInf(r)))
    inside = z3.And(z3.fpGT(x.v, z3.FPVal(0.0, F64)), z3.fpLT(x.v, z3.FPVal(1.0, F64)))
    w.axiom(z3.Implies(inside, fin))
    w.axiom(z3.Implies(z3.Not(inside), z3.Not(fin)))
    w.note_assume("contract of scipy ndtri: finite exactly on the open interval (0, 1)")
    return V(DBL, r)


def c_unary_fp(f, sym):
    def g(x):
        x = convert(lit(x), DBL)
        if not x.sym:
            return V(DBL, float(f(x.v)))
        return V(DBL, sym(x.v))
    return g


def c_ldexp(x, e):
    x, e = convert(lit(x), DBL), lit(e)
    if not x.sym and not e.sym:
        return V(DBL, math.ldexp(x.v, e.v))
    raise EngineError("symbolic ldexp")


LIBM = {
    "frexp": c_frexp, "ndtri": c_ndtri, "ldexp": c_ldexp,
    "floor": c_unary_fp(math.floor, lambda v: z3.fpRoundToIntegral(z3.RTN(), v)),
    "ceil": c_unary_fp(math.ceil, lambda v: z3.fpRoundToIntegral(z3.RTP(), v)),
    "trunc": c_unary_fp(math.trunc, lambda v: z3.fpRoundToIntegral(z3.RTZ(), v)),
    "fabs": c_unary_fp(abs, z3.fpAbs),
}


class ModStub:
    """cimported module: attributes resolve to C functions by their last name."""

    def __init__(self, name):
        self.name = name

    def __getattr__(self, n):
        if n in LIBM:
            return LIBM[n]
        if self.name.split(".")[0] == "cython":
            return ModStub("cython." + n)
        return ModStub(self.name + "." + n)

    def __call__(self, *a, **k):
        if self.name in ("numpy.import_array",):
            return None
        raise EngineError(f"call of {self.name}")


class PNumpy:
    """The numpy functions used by the extension, on Arr."""
    uint64, int64, int32, uint32, int16, uint16, int8, uint8, float64, double, intp = (
        U64, I64, I32, U32, I16, INT(16, False), INT(8, True), INT(8, False), DBL, DBL, I64)
    int_ = I64

    @staticmethod
    def import_array():
        return None

    @staticmethod
    def _arr(x, t=None):
        if isinstance(x, Arr):
            return x
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            t0 = dtype_of(x.dtype) if x.dtype != object else (t or I64)
            for i in np.ndindex(*x.shape):
                e = x[i]
                out[i] = e if z3.is_expr(e) else (float(e) if t0.kind == "double" else
                                                  (e.v if isinstance(e, V) else int(e)))
            return Arr(out, t0)
        if isinstance(x, (list, tuple)):
            flat = [y for y in x]
            if flat and isinstance(flat[0], (list, tuple, Arr)):
                rows = [PNumpy._arr(y, t) for y in flat]
                return Arr(np.stack([r.a for r in rows]), rows[0].t)
            tt = t or (DBL if any(isinstance(y, float) for y in flat) else I64)
            out = np.empty((len(flat),), dtype=object)
            for i, y in enumerate(flat):
                out[i] = store_cell(convert(y, tt, "numpy"), tt)
            return Arr(out, tt)
        raise EngineError(f"np.array of {type(x)}")

    @staticmethod
    def array(x, dtype=None, copy=True, **k):
        t = dtype_of(dtype) if dtype is not None else None
        a = PNumpy._arr(x, t)
        a = a.astype(t) if t is not None and a.t != t else Arr(a.a.copy(), a.t)
        return a

    @staticmethod
    def asarray(x, dtype=None, **k):
        t = dtype_of(dtype) if dtype is not None else None
        a = PNumpy._arr(x, t)
        return a.astype(t) if t is not None and a.t != t else Arr(a.a, a.t)

    ascontiguousarray = asarray

    @staticmethod
    def copy(x, **k):
        a = PNumpy._arr(x)
        return Arr(a.a.copy(), a.t)

    @staticmethod
    def _shape(s):
        if isinstance(s, (tuple, list)):
            return tuple(int(x) for x in s)
        return (int(s),)

    @staticmethod
    def full(shape, v, dtype=float, **k):
        t = dtype_of(dtype)
        out = np.empty(PNumpy._shape(shape), dtype=object)
        c = store_cell(convert(v, t, "numpy"), t)
        for i in np.ndindex(*out.shape):
            out[i] = c
        return Arr(out, t)

    @staticmethod
    def zeros(shape, dtype=float, **k):
        return PNumpy.full(shape, 0, dtype)

    @staticmethod
    def ones(shape, dtype=float, **k):
        return PNumpy.full(shape, 1, dtype)

    @staticmethod
    def empty(shape, dtype=float, **k):
        t = dtype_of(dtype)
        w = core.cur()
        out = np.empty(PNumpy._shape(shape), dtype=object)
        for i in np.ndindex(*out.shape):
            w.fresh_n += 1
            out[i] = z3.BitVec(f"garbage!{w.fresh_n}", t.bits if t.kind == "int" else 64)
        return Arr(out, t)

    @staticmethod
    def zeros_like(a, dtype=None, **k):
        return PNumpy.zeros(a.shape, dtype if dtype is not None else a.t)

    @staticmethod
    def empty_like(a, dtype=None, **k):
        return PNumpy.empty(a.shape, dtype if dtype is not None else a.t)

    @staticmethod
    def arange(*a, dtype=None, **k):
        a = [int(x) for x in a]
        t = dtype_of(dtype) if dtype is not None else I64
        r = list(range(*a))
        out = np.empty((len(r),), dtype=object)
        for i, x in enumerate(r):
            out[i] = convert(x, t, "numpy").v
        return Arr(out, t)

    @staticmethod
    def reshape(a, *s, **k):
        return PNumpy._arr(a).reshape(*s)

    @staticmethod
    def ravel(a, **k):
        return PNumpy._arr(a).ravel()

    @staticmethod
    def frombuffer(a, dtype=float, **k):
        a = PNumpy._arr(a)
        return Arr(a.a.reshape(-1), dtype_of(dtype))

    @staticmethod
    def mod(x, m, dtype=None, **k):
        t = dtype_of(dtype) if dtype is not None else None
        if isinstance(x, Arr):
            if t is not None:
                x = x.astype(t)
            return x._bin("%", m)
        if not isinstance(x, V) and not isinstance(m, V):
            r = x % m
            return convert(int(r), t, "numpy") if t is not None else r
        x = convert(x, t or x.t, "numpy")
        m = convert(m, x.t, "numpy")
        if not x.sym:
            return V(x.t, wrapint(x.v % m.v, x.t))
        if not m.sym and m.v & (m.v - 1) == 0 and not x.t.signed:
            return V(x.t, z3.simplify(x.v & (m.v - 1)))
        return binop("%", x, m)

    remainder = mod

    @staticmethod
    def prod(a, dtype=None, **k):
        r = 1
        for x in (a.tolist() if isinstance(a, Arr) else a):
            r = binop("*", r, x, wrap=True)
        return r

    @staticmethod
    def concatenate(xs, axis=0, **k):
        xs = [PNumpy._arr(x) for x in xs]
        return Arr(np.concatenate([x.a for x in xs], axis=axis), xs[0].t)

    @staticmethod
    def stack(xs, axis=0, **k):
        xs = [PNumpy._arr(x) for x in xs]
        return Arr(np.stack([x.a for x in xs], axis=axis), xs[0].t)

    @staticmethod
    def transpose(a, *k):
        return PNumpy._arr(a).T

    def __getattr__(self, n):
        raise EngineError(f"np.{n} in the extension")


# ------------------------------------------------------------ interpreter

class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Func:
    def __init__(self, mod, name, node, args, ret, body, boundscheck, wraparound, cdivision, ccode):
        self.mod, self.name, self.node, self.args, self.ret, self.body = mod, name, node, args, ret, body
        self.boundscheck, self.wraparound, self.cdivision, self.ccode = boundscheck, wraparound, cdivision, ccode

    def __call__(self, *a, **k):
        fr = Frame(self)
        names = [n for n, _, _ in self.args]
        if len(a) > len(names):
            raise TypeError(f"{self.name}() takes {len(names)} arguments")
        vals = dict(zip(names, a))
        for n, v in k.items():
            if n not in names or n in vals:
                raise TypeError(f"{self.name}() got an unexpected keyword argument {n!r}")
            vals[n] = v
        for n, t, dflt in self.args:
            if n not in vals:
                if dflt is None:
                    raise TypeError(f"{self.name}() missing argument {n!r}")
                vals[n] = fr.ev(dflt)
            fr.types[n] = t
            fr.assign(n, vals[n])
        core.cur().pyx_functions.add(f"{REL}:{self.name}")
        try:
            fr.run(self.body)
        except _Return as r:
            if self.ret.kind == "mv":
                return fr.coerce(r.v, self.ret)
            if self.ret.kind in ("int", "double"):
                return convert(r.v, self.ret)
            return r.v
        return None


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.mod = fn.mod
        self.types = {}
        self.vars = {}

    # ---- names
    def coerce(self, v, t):
        if t.kind == "mv":
            if isinstance(v, np.ndarray):
                v = PNumpy._arr(v)
            if not isinstance(v, Arr):
                raise TypeError("memoryview: a bytes-like object is required")
            if v.a.ndim != t.ndim:
                raise ValueError(f"Buffer has wrong number of dimensions (expected {t.ndim}, got {v.a.ndim})")
            if v.t != t.elem:
                raise ValueError(f"Buffer dtype mismatch, expected {t.elem} but got {v.t}")
            return Arr(v.a, v.t, True)
        if t.kind == "object":
            return v
        return convert(v, t, "py" if isinstance(v, (int, np.integer)) and not isinstance(v, bool) else "c")

    def assign(self, name, v):
        t = self.types.get(name)
        if t is not None:
            v = self.coerce(v, t)
        elif self.fn.ccode and isinstance(v, (int, float)) and not isinstance(v, bool):
            pass
        self.vars[name] = v

    def lookup(self, name):
        if name in self.vars:
            return self.vars[name]
        if name in self.types:
            core.cur().fresh_n += 1
            t = self.types[name]
            if t.kind == "int":       # uninitialised C variable
                return V(t, z3.BitVec(f"uninit!{core.cur().fresh_n}", t.bits))
            raise UnboundLocalError(name)
        g = self.mod.globals
        if name in g:
            return g[name]
        b = {"range": range, "len": self.b_len, "int": self.b_int, "float": self.b_float, "abs": abs,
             "min": self.b_min, "max": self.b_max, "tuple": tuple, "list": list, "enumerate": enumerate,
             "zip": zip, "sum": sum, "bool": truth, "print": lambda *a: None, "ValueError": ValueError,
             "TypeError": TypeError, "IndexError": IndexError, "OverflowError": OverflowError,
             "isinstance": isinstance, "reversed": reversed, "prange": range, "str": str}
        if name in b:
            return b[name]
        if name in LIBM:
            return LIBM[name]
        raise NameError(f"name {name!r} is not defined")

    @staticmethod
    def b_len(x):
        return len(x)

    @staticmethod
    def b_int(x=0):
        if isinstance(x, V):
            return x if x.sym else int(x.v)
        return int(x)

    @staticmethod
    def b_float(x=0.0):
        return convert(x, DBL)

    @staticmethod
    def _mm(op, xs):
        if len(xs) == 1:
            xs = list(xs[0])
        r = xs[0]
        for x in xs[1:]:
            c = compare(op, x, r)
            if isinstance(c, B) and not (z3.is_true(c.e) or z3.is_false(c.e)):
                r = ite(c.e, x, r)
            elif truth(c):
                r = x
        return r

    def b_min(self, *xs):
        return self._mm("<", xs)

    def b_max(self, *xs):
        return self._mm(">", xs)

    # ---- statements
    def run(self, n):
        m = getattr(self, "s_" + type(n).__name__, None)
        if m is None:
            raise EngineError(f"statement {type(n).__name__}")
        return m(n)

    def s_StatListNode(self, n):
        for s in n.stats:
            self.run(s)

    def s_PassStatNode(self, n):
        pass

    def s_GILStatNode(self, n):
        self.run(n.body)

    def s_CVarDefNode(self, n):
        t = self.mod.base_type(n.base_type)
        for d in n.declarators:
            self.types[d.name] = t
            if d.default is not None:
                self.assign(d.name, self.ev(d.default))

    def s_ExprStatNode(self, n):
        self.ev(n.expr)

    def s_SingleAssignmentNode(self, n):
        self.store(n.lhs, self.ev(n.rhs))

    def s_CascadedAssignmentNode(self, n):
        v = self.ev(n.rhs)
        for l in n.lhs_list:
            self.store(l, v)

    def s_ParallelAssignmentNode(self, n):
        vals = [self.ev(s.rhs) for s in n.stats]
        for s, v in zip(n.stats, vals):
            self.store(s.lhs, v)

    def s_InPlaceAssignmentNode(self, n):
        cur = self.ev(n.lhs)
        if isinstance(cur, Arr):
            res = binop(n.operator, cur, self.ev(n.rhs))
            cur[...] = res
            return
        self.store(n.lhs, self.arith(n.operator, cur, self.ev(n.rhs)))

    def store(self, l, v):
        k = type(l).__name__
        if k == "NameNode":
            return self.assign(l.name, v)
        if k == "TupleNode" or k == "ListNode":
            vs = list(v)
            if len(vs) != len(l.args):
                raise ValueError("unpack")
            for a, x in zip(l.args, vs):
                self.store(a, x)
            return
        if k == "IndexNode":
            base = self.ev(l.base)
            idx = self.index(l.index)
            return self.setitem(base, idx, v)
        if k == "SliceIndexNode":
            base = self.ev(l.base)
            base[slice(self.evn(l.start), self.evn(l.stop))] = v
            return
        raise EngineError(f"assignment to {k}")

    def s_IfStatNode(self, n):
        for k, c in enumerate(n.if_clauses):
            cond = self.ev(c.condition)
            if isinstance(cond, V) and cond.sym:
                cond = compare("!=", cond, 0)
            if isinstance(cond, B):
                e = z3.simplify(cond.e)
                if not (z3.is_true(e) or z3.is_false(e)) and len(n.if_clauses) == 1 \
                        and mergeable(c.body) and (n.else_clause is None or mergeable(n.else_clause)):
                    return self.merge(e, c.body, n.else_clause)
            if truth(cond):
                return self.run(c.body)
        if n.else_clause is not None:
            self.run(n.else_clause)

    def merge(self, e, a, b):
        w = core.cur()
        before = dict(self.vars)
        with w.pyx_guard(e):
            self.run(a)
        va = dict(self.vars)
        self.vars = dict(before)
        if b is not None:
            with w.pyx_guard(z3.Not(e)):
                self.run(b)
        vb = self.vars
        out = {}
        for k in set(va) | set(vb):
            if k in va and k in vb:
                out[k] = ite(e, va[k], vb[k])
            else:
                out[k] = va[k] if k in va else vb[k]
        self.vars = out

    def s_ForInStatNode(self, n):
        it = n.iterator.sequence
        seq = self.ev(it)
        if isinstance(seq, Arr):
            seq = [seq[i] for i in range(len(seq))]
        broke = False
        for x in seq:
            self.store(n.target, x)
            try:
                self.run(n.body)
            except _Break:
                broke = True
                break
            except _Continue:
                continue
        if not broke and n.else_clause is not None:
            self.run(n.else_clause)

    def s_ForFromStatNode(self, n):
        lo, hi = int(self.ev(n.bound1)), int(self.ev(n.bound2))
        step = int(self.ev(n.step)) if n.step is not None else 1
        up = n.relation1 in ("<", "<=")
        x = lo + (1 if n.relation1 == "<" else -1 if n.relation1 == ">" else 0)
        while (x < hi if n.relation2 == "<" else x <= hi if n.relation2 == "<=" else
               x > hi if n.relation2 == ">" else x >= hi):
            self.store(n.target, x)
            try:
                self.run(n.body)
            except _Break:
                break
            except _Continue:
                pass
            x += step if up else -step

    def s_WhileStatNode(self, n):
        k = 0
        while truth(self.ev(n.condition)):
            k += 1
            if k > 10000:
                raise Inconclusive("loop bound")
            try:
                self.run(n.body)
            except _Break:
                return
            except _Continue:
                continue
        if n.else_clause is not None:
            self.run(n.else_clause)

    def s_BreakStatNode(self, n):
        raise _Break()

    def s_ContinueStatNode(self, n):
        raise _Continue()

    def s_ReturnStatNode(self, n):
        raise _Return(self.ev(n.value) if n.value is not None else None)

    def s_RaiseStatNode(self, n):
        e = self.ev(n.exc_type)
        if isinstance(e, type):
            e = e()
        if n.exc_value is not None:
            e = type(e)(self.ev(n.exc_value))
        raise e

    def s_AssertStatNode(self, n):
        c = getattr(n, "condition", None) or getattr(n, "cond", None)
        if not truth(self.ev(c)):
            raise AssertionError()

    def s_CTypeDefNode(self, n):
        self.mod.typedef(n)

    # ---- expressions
    def ev(self, n):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise EngineError(f"expression {type(n).__name__}")
        return m(n)

    def evn(self, n):
        return None if n is None else self.ev(n)

    def e_NameNode(self, n):
        return self.lookup(n.name)

    def e_IntNode(self, n):
        return int(str(n.value).rstrip("uUlL"), 0)

    def e_FloatNode(self, n):
        return float(n.value)

    def e_BoolNode(self, n):
        return bool(n.value)

    def e_NoneNode(self, n):
        return None

    def e_UnicodeNode(self, n):
        return str(n.value)

    e_StringNode = e_IdentifierStringNode = e_UnicodeNode

    def e_JoinedStrNode(self, n):
        return "<text>"

    def e_TupleNode(self, n):
        return tuple(self.ev(a) for a in n.args)

    def e_ListNode(self, n):
        return [self.ev(a) for a in n.args]

    def e_SliceNode(self, n):
        return slice(self.evn(n.start), self.evn(n.stop), self.evn(n.step))

    def e_AttributeNode(self, n):
        return getattr(self.ev(n.obj), n.attribute)

    def e_AmpersandNode(self, n):
        k = type(n.operand).__name__
        if k == "NameNode":
            return Ref(self, n.operand.name)
        raise EngineError("address of an expression")

    def arith(self, op, a, b):
        return binop(op, a, b)

    def _bin(self, n):
        return self.arith(n.operator, self.ev(n.operand1), self.ev(n.operand2))

    e_AddNode = e_SubNode = e_MulNode = e_DivNode = e_ModNode = e_PowNode = e_IntBinopNode = e_BitwiseOrNode = _bin

    def e_UnaryMinusNode(self, n):
        v = self.ev(n.operand)
        if isinstance(v, V):
            if v.t.kind == "double":
                return V(DBL, z3.fpNeg(v.v)) if v.sym else V(DBL, -v.v)
            return binop("-", 0, v)
        return -v

    def e_UnaryPlusNode(self, n):
        return self.ev(n.operand)

    def e_TildeNode(self, n):
        v = self.ev(n.operand)
        if isinstance(v, V):
            if v.t.bits < 32:
                v = convert(v, I32)
            return V(v.t, z3.simplify(~v.v)) if v.sym else V(v.t, wrapint(~v.v, v.t))
        return ~v

    def e_NotNode(self, n):
        v = self.ev(n.operand)
        if isinstance(v, V) and v.sym:
            v = compare("!=", v, 0)
        if isinstance(v, B):
            return B(z3.simplify(z3.Not(v.e)))
        return not truth(v)

    def e_BoolBinopNode(self, n):
        a = self.ev(n.operand1)
        if isinstance(a, V) and a.sym:
            a = compare("!=", a, 0)
        if isinstance(a, B) and not (z3.is_true(a.e) or z3.is_false(a.e)):
            if pure(n.operand2):
                b = self.ev(n.operand2)
                if isinstance(b, V):
                    b = compare("!=", b, 0)
                be = b.e if isinstance(b, B) else z3.BoolVal(bool(b))
                return B(z3.simplify(z3.And(a.e, be) if n.operator == "and" else z3.Or(a.e, be)))
        t = truth(a)
        if n.operator == "and":
            return self.ev(n.operand2) if t else a
        return a if t else self.ev(n.operand2)

    def e_PrimaryCmpNode(self, n):
        a = self.ev(n.operand1)
        b = self.ev(n.operand2)
        r = compare(n.operator, a, b)
        c = n.cascade
        while c is not None:
            d = self.ev(c.operand2)
            s = compare(c.operator, b, d)
            if isinstance(r, B) or isinstance(s, B):
                re_ = r.e if isinstance(r, B) else z3.BoolVal(bool(r))
                se = s.e if isinstance(s, B) else z3.BoolVal(bool(s))
                r = B(z3.simplify(z3.And(re_, se)))
            else:
                r = r and s
            b = d
            c = c.cascade
        return r

    def e_CondExprNode(self, n):
        c = self.ev(n.test if hasattr(n, "test") else n.condition)
        if isinstance(c, V) and c.sym:
            c = compare("!=", c, 0)
        if isinstance(c, B) and not (z3.is_true(c.e) or z3.is_false(c.e)) and pure(n.true_val) and pure(n.false_val):
            return ite(c.e, self.ev(n.true_val), self.ev(n.false_val))
        return self.ev(n.true_val) if truth(c) else self.ev(n.false_val)

    def e_TypecastNode(self, n):
        t = self.mod.base_type(n.base_type)
        v = self.ev(n.operand)
        if t.kind == "mv":
            return self.coerce(v, t)
        if t.kind == "object":
            return v
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            v = lit(v)
        return convert(v, t, "cast")

    def index(self, n):
        k = type(n).__name__
        if k == "TupleNode":
            return tuple(self.index(a) for a in n.args)
        return self.ev(n)

    def e_IndexNode(self, n):
        return self.getitem(self.ev(n.base), self.index(n.index))

    def e_SliceIndexNode(self, n):
        return self.ev(n.base)[_plain(slice(self.evn(n.start), self.evn(n.stop)))]

    def e_SimpleCallNode(self, n):
        f = self.ev(n.function)
        args = [self.ev(a) for a in n.args]
        return self.call(f, args, {})

    def e_GeneralCallNode(self, n):
        f = self.ev(n.function)
        args = list(self.ev(n.positional_args)) if n.positional_args is not None else []
        kw = {}
        if n.keyword_args is not None:
            for it in n.keyword_args.key_value_pairs:
                kw[str(it.key.value)] = self.ev(it.value)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if f is range:
            for k in ("nogil", "schedule", "num_threads", "chunksize"):
                kw.pop(k, None)
            return range(*[int(a) for a in args])
        if isinstance(f, ModStub):
            return f(*args, **kw)
        return f(*args, **kw)

    # ---- memory
    def _locate(self, arr, idx):
        """Resolve the index of a memoryview access -> list of (cond, tuple)."""
        if not isinstance(idx, tuple):
            idx = (idx,)
        w = core.cur()
        opts = [(None, ())]
        for ax, i in enumerate(idx):
            n = arr.a.shape[ax]
            if isinstance(i, V) and i.sym:
                e = bv(i)
                ee = (z3.SignExt if i.t.signed else z3.ZeroExt)(72 - e.size(), e)
                if self.fn.wraparound and i.t.signed:
                    ee = z3.If(ee < 0, ee + n, ee)
                ok = z3.And(ee >= 0, ee < n)
                if self.fn.boundscheck:
                    if truth(B(z3.Not(ok))):
                        raise IndexError("Out of bounds on buffer access")
                else:
                    w.pyx_check("memory access is in bounds", ok, f"axis {ax} of length {n} in {self.fn.name}")
                nxt = []
                for c, t in opts:
                    for k in range(n):
                        ck = z3.simplify(ee == k)
                        if z3.is_false(ck):
                            continue
                        nxt.append((ck if c is None else z3.And(c, ck), t + (k,)))
                opts = nxt
            else:
                i = int(i)
                j = i + n if i < 0 and self.fn.wraparound else i
                if not 0 <= j < n:
                    if self.fn.boundscheck:
                        raise IndexError("Out of bounds on buffer access")
                    w.check_alive("memory access is in bounds")
                    raise Violation("memory access is in bounds", w.any_values(),
                                    f"index {i} on an axis of length {n} in {self.fn.name}")
                opts = [(c, t + (j,)) for c, t in opts]
        return opts

    def getitem(self, base, idx):
        if isinstance(base, Arr):
            flat = idx if isinstance(idx, tuple) else (idx,)
            scalar = len(flat) == base.a.ndim and all(
                isinstance(i, (int, np.integer, V)) for i in flat)
            if scalar and (base.mv or any(isinstance(i, V) and i.sym for i in flat)):
                opts = self._locate(base, flat)
                if len(opts) == 1:
                    return read_cell(base.a[opts[0][1]], base.t)
                if not opts:
                    raise PathAbort()
                r = read_cell(base.a[opts[-1][1]], base.t)
                for c, t in opts[-2::-1]:
                    r = ite(c, read_cell(base.a[t], base.t), r)
                return r
            if base.mv and len(flat) < base.a.ndim and all(isinstance(i, (int, V)) for i in flat):
                opts = self._locate(base, flat)
                if len(opts) != 1:
                    raise EngineError("symbolic sub-view")
                return Arr(base.a[opts[0][1]], base.t, True)
            return base[idx]
        if isinstance(idx, V):
            idx = int(idx)
        return base[idx]

    def setitem(self, base, idx, v):
        if isinstance(base, Arr):
            flat = idx if isinstance(idx, tuple) else (idx,)
            scalar = len(flat) == base.a.ndim and all(
                isinstance(i, (int, np.integer, V)) for i in flat)
            if scalar and (base.mv or any(isinstance(i, V) and i.sym for i in flat)):
                opts = self._locate(base, flat)
                val = store_cell(convert(v, base.t), base.t)
                if len(opts) == 1:
                    base.a[opts[0][1]] = val
                    return
                nv = read_cell(val, base.t)
                for c, t in opts:
                    base.a[t] = store_cell(ite(c, nv, read_cell(base.a[t], base.t)), base.t)
                return
            base[idx] = v
            return
        base[idx if not isinstance(idx, V) else int(idx)] = v


def pure(n):
    """No calls inside (safe to evaluate on both sides)."""
    if type(n).__name__ in ("SimpleCallNode", "GeneralCallNode", "IndexNode"):
        return False
    for a in n.child_attrs or []:
        c = getattr(n, a, None)
        for x in (c if isinstance(c, list) else [c]):
            if x is not None and hasattr(x, "child_attrs") and not pure(x):
                return False
    return True


def mergeable(n):
    k = type(n).__name__
    if k == "StatListNode":
        return all(mergeable(s) for s in n.stats)
    if k == "PassStatNode":
        return True
    if k in ("SingleAssignmentNode", "InPlaceAssignmentNode"):
        return type(n.lhs).__name__ == "NameNode" and pure(n.rhs)
    return False


class Module:
    """One interpreted instance of the extension."""

    def __init__(self, path=None):
        from Cython.Compiler.TreeFragment import parse_from_strings
        path = path or os.path.join(loader.REPO, REL)
        key = (path, os.stat(path).st_mtime_ns)
        tree = _TREES.get(key)
        if tree is None:
            with open(path) as f:
                src = f.read()
            import io
            from Cython.Compiler import Errors
            Errors.init_thread()
            tree = _TREES[key] = parse_from_strings("fast_lazy_gaussian", src)
        self.typedefs = {"uint64_t": U64, "int64_t": I64, "uint32_t": U32, "int32_t": I32, "uint16_t": INT(16, False),
                         "int16_t": I16, "uint8_t": INT(8, False), "int8_t": INT(8, True), "float64_t": DBL,
                         "intp_t": I64, "Py_ssize_t": I64, "ssize_t": I64, "size_t": U64, "bint": CT("bint")}
        self.globals = {"np": PNumpy(), "cython": ModStub("cython"), "scipy": ModStub("scipy")}
        self.directives = dict(tree.directive_comments or {})
        fr = Frame(Func(self, "<module>", None, [], OBJ, None, True, True, False, False))
        fr.vars = self.globals
        self.frame = fr
        self.toplevel(tree.body)

    def __getattr__(self, n):
        g = self.__dict__.get("globals", {})
        if n in g:
            return g[n]
        raise AttributeError(n)

    def toplevel(self, n):
        k = type(n).__name__
        if k == "StatListNode":
            for s in n.stats:
                self.toplevel(s)
        elif k == "CTypeDefNode":
            self.typedef(n)
        elif k in ("CFuncDefNode", "DefNode"):
            f = self.func(n)
            self.globals[f.name] = f
        elif k in ("FromCImportStatNode",):
            for it in n.imported_names:
                name = it[1]
                as_ = it[2] if len(it) > 2 and it[2] else name
                if name in LIBM:
                    self.globals[as_] = LIBM[name]
                elif name in self.typedefs:
                    self.typedefs[as_] = self.typedefs[name]
                elif name == "prange":
                    self.globals[as_] = range
                else:
                    self.globals[as_] = ModStub(f"{n.module_name}.{name}")
        elif k == "CImportStatNode":
            name = n.as_name or n.module_name.split(".")[0]
            if name != "np" and name not in self.globals:
                self.globals[name] = ModStub(name)
        elif k in ("FromImportStatNode",):
            raise EngineError("from-import in the extension")
        elif k == "SingleAssignmentNode" and type(n.rhs).__name__ == "ImportNode":
            mod = str(n.rhs.module_name.value)
            if mod == "numpy":
                self.globals[n.lhs.name] = PNumpy()
            elif n.lhs.name not in self.globals:
                self.globals[n.lhs.name] = ModStub(mod)
        elif k in ("CVarDefNode", "SingleAssignmentNode", "ExprStatNode", "InPlaceAssignmentNode", "PassStatNode"):
            self.frame.run(n)
        elif k == "CEnumDefNode":
            for i, it in enumerate(n.items):
                self.globals[it.name] = self.frame.ev(it.value) if it.value is not None else i
        else:
            raise EngineError(f"top-level {k}")

    def typedef(self, n):
        self.typedefs[n.declarator.name] = self.base_type(n.base_type)

    def base_type(self, n):
        k = type(n).__name__
        if k == "MemoryViewSliceTypeNode":
            return CT("mv", elem=self.base_type(n.base_type_node), ndim=len(n.axes))
        if k == "CConstTypeNode" or k == "CConstOrVolatileTypeNode":
            return self.base_type(n.base_type)
        if k == "CComplexBaseTypeNode":
            return self.base_type(n.base_type)
        if k != "CSimpleBaseTypeNode":
            raise EngineError(f"type {k}")
        name = n.name
        if name is None:
            return OBJ
        if n.is_basic_c_type:
            if name == "int":
                bits = {-1: 16, 0: 32, 1: 64, 2: 64}[n.longness]
                return INT(bits, bool(n.signed))
            if name == "short":
                return INT(16, bool(n.signed))
            if name == "long":
                return INT(64, bool(n.signed))
            if name == "char":
                return INT(8, bool(n.signed))
            if name in ("Py_ssize_t", "ssize_t"):
                return I64
            if name == "size_t":
                return U64
            if name == "double":
                return DBL
            if name == "bint":
                return CT("bint")
            if name == "void":
                return VOID
            raise EngineError(f"C type {name}")
        if name in self.typedefs:
            return self.typedefs[name]
        if name in ("object", "list", "tuple", "dict", "str", "bool"):
            return OBJ
        raise EngineError(f"type {name}")

    def func(self, n):
        opt = {"boundscheck": self.directives.get("boundscheck", True),
               "wraparound": self.directives.get("wraparound", True),
               "cdivision": self.directives.get("cdivision", False)}
        for d in n.decorators or []:
            dec = d.decorator
            if type(dec).__name__ == "SimpleCallNode":
                nm = dec.function.attribute if hasattr(dec.function, "attribute") else dec.function.name
                if nm in opt and dec.args:
                    opt[nm] = bool(dec.args[0].value)
        if opt["cdivision"]:
            raise EngineError("cdivision")
        if type(n).__name__ == "DefNode":
            args = []
            for a in n.args:
                t = self.base_type(a.base_type)
                args.append((a.declarator.name or a.base_type.name, t if a.declarator.name else OBJ, a.default))
            if n.star_arg is not None or n.starstar_arg is not None:
                raise EngineError("star arguments")
            return Func(self, n.name, n, args, OBJ, n.body, opt["boundscheck"], opt["wraparound"], False, False)
        decl = n.declarator
        ret = self.base_type(n.base_type)
        args = []
        for a in decl.args:
            d = a.declarator
            if not d.name:     # untyped argument: the name was parsed as a type
                args.append((a.base_type.name, OBJ, a.default))
            else:
                args.append((d.name, self.base_type(a.base_type), a.default))
        return Func(self, decl.base.name, n, args, ret, n.body, opt["boundscheck"], opt["wraparound"], False, True)


_TREES = {}


# ------------------------------------------------------------ world methods

class Guard:
    def __init__(self, w, e):
        self.w, self.e = w, e

    def __enter__(self):
        self.w.guards.append(self.e)

    def __exit__(self, *a):
        self.w.guards.pop()


class PyxWorld:
    """Mixin for the symbolic world: bit-vector inputs and goals."""

    def pyx_init(self):
        self.mixes = []
        self.guards = []
        self.ranges = {}
        self.differs = []
        self.pyx_functions = set()

    def pyx_guard(self, e):
        return Guard(self, e)

    def pyx_load(self):
        return Module()

    def u64(self, name, hi=None):
        v = z3.BitVec(name, 64)
        self.inputs[name] = v
        self.ranges[name] = (0, 2**64 - 1 if hi is None else hi)
        if hi is not None:
            self.facts.append(z3.ULE(v, z3.BitVecVal(hi, 64)))
        return V(U64, v)

    def i64(self, name, lo, hi):
        v = z3.BitVec(name, 64)
        self.inputs[name] = v
        self.ranges[name] = (lo, hi)
        self.facts.append(z3.And(v >= lo, v <= hi))
        return V(I64, v)

    def pyx_differ(self, a, b):
        """Assume two multi-indices are different."""
        self.differs.append(([str(x.v) for x in a], [str(x.v) for x in b]))
        self.facts.append(z3.Or(*[z3.simplify(bv(lit(x)) != bv(lit(y))) if lit(x).t == lit(y).t else
                                  bv(convert(lit(x), I64)) != bv(convert(lit(y), I64))
                                  for x, y in zip(a, b)]))

    def pyx_bits(self, cells):
        """1-d uint64 array."""
        a = np.empty((len(cells),), dtype=object)
        for k, x in enumerate(cells):
            a[k] = convert(x, U64).v
        return Arr(a, U64)

    def pyx_indices(self, cols, dtype="int64"):
        """cols: list (per index) of lists of V / int -> index array."""
        d, n = len(cols[0]) if cols else 0, len(cols)
        a = np.empty((d, n), dtype=object)
        for k, c in enumerate(cols):
            for m, x in enumerate(c):
                a[m, k] = x.v if isinstance(x, V) else int(x)
        return Arr(a, dtype_of(dtype))

    def pyx_injective(self):
        """x -> x*c is injective for odd c: facts for the abstracted products."""
        out = []
        for i, (r, s, c) in enumerate(self.mixes):
            for r2, s2, c2 in self.mixes[:i]:
                if c == c2:
                    out.append((r == r2) == (s == s2))
        return out

    def _origins(self, term):
        """Arguments of the innermost mixing products that a term depends on."""
        byname = {r.decl().name(): (r, s) for r, s, c in self.mixes}
        found, seen = {}, set()

        def leaves(e):
            st, names = [e], set()
            local = set()
            while st:
                x = st.pop()
                if x.get_id() in local:
                    continue
                local.add(x.get_id())
                if z3.is_const(x) and x.decl().name() in byname:
                    names.add(x.decl().name())
                st.extend(x.children())
            return names

        def go(e):
            inner = False
            for n in leaves(e):
                inner = True
                if n in seen:
                    continue
                seen.add(n)
                s = byname[n][1]
                if not go(s):
                    found[n] = s
            return inner
        go(term)
        return list(found.values())

    def pyx_independent(self, label, out, pairs):
        """The listed entries are mixed from different values.

        The mixing (xor-shift and odd multiplication, shown to be injective by
        its own goal) turns different arguments into different hashes."""
        self.goal_log.append(label)
        org = {}
        for p, q in pairs:
            for k in (p, q):
                if k not in org:
                    a = out.get(k)
                    if not a.sym:
                        raise Inconclusive("entry is not symbolic")
                    o = self._origins(a.v)
                    if len(o) != 1:
                        raise Inconclusive(f"entry depends on {len(o)} mixed values")
                    org[k] = o[0]
        rest = []
        for p, q in pairs:
            r = self._never_equal(org[p], org[q])
            if r is None:
                rest.append(org[p] == org[q])
            elif r is not True:
                raise Violation(label, r, f"entries {p} and {q} are mixed from equal values")
        if rest:
            STATS.goals += 1
            r = self._search(z3.Or(*rest))
            if r is not None:
                raise Violation(label, r, "entries are mixed from equal values")

    def _linear(self, e, acc, k, mod):
        """acc += k * e as a linear form modulo 2^64."""
        if z3.is_bv_value(e):
            acc[None] = (acc.get(None, 0) + k * e.as_long()) % mod
            return
        n = e.decl().kind()
        if n == z3.Z3_OP_BADD:
            for c in e.children():
                self._linear(c, acc, k, mod)
            return
        if n == z3.Z3_OP_BSUB:
            self._linear(e.arg(0), acc, k, mod)
            for c in e.children()[1:]:
                self._linear(c, acc, -k, mod)
            return
        if n == z3.Z3_OP_BNEG:
            return self._linear(e.arg(0), acc, -k, mod)
        if n == z3.Z3_OP_BMUL:
            const, rest = 1, []
            for c in e.children():
                if z3.is_bv_value(c):
                    const *= c.as_long()
                else:
                    rest.append(c)
            if len(rest) == 1:
                return self._linear(rest[0], acc, k * const, mod)
            if not rest:
                acc[None] = (acc.get(None, 0) + k * const) % mod
                return
        acc[e] = (acc.get(e, 0) + k) % mod

    @staticmethod
    def _peel(e):
        """x ^ (x >> n), an injective function of x, -> (x, n)."""
        if z3.is_app_of(e, z3.Z3_OP_BXOR) and e.num_args() == 2:
            for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                for n in range(1, 64):
                    z = z3.simplify(z3.LShR(x, n))
                    if z.eq(y) or z3.LShR(x, n).eq(y):
                        return x, n
        return e, 0

    def _never_equal(self, a, b):
        """Decide a != b (mod 2^64) over linear forms of inputs.

        True, a model, or None if the terms are not linear in the inputs."""
        mod = 2**64
        (a, na), (b, nb) = self._peel(a), self._peel(b)
        if na != nb:
            return None
        acc = {}
        self._linear(a, acc, 1, mod)
        self._linear(b, acc, -1, mod)
        c0 = acc.pop(None, 0)
        terms = []
        lo = hi = 0
        names = {}
        cons = []

        def var(n):
            if n not in names:
                names[n] = z3.Int(n)
                l, h = self.ranges[n]
                cons.append(z3.And(names[n] >= l, names[n] <= h))
            return names[n]
        for e, c in acc.items():
            if c == 0:
                continue
            if not z3.is_const(e) or e.decl().name() not in self.ranges:
                return None
            n = e.decl().name()
            c = c - mod if c >= mod // 2 else c
            l, h = self.ranges[n]
            terms.append(c * var(n))
            lo += min(c * l, c * h)
            hi += max(c * l, c * h)
        if c0 >= mod // 2:
            c0 -= mod
        lo, hi = lo + c0, hi + c0
        for x, y in self.differs:
            if any(n not in self.ranges for n in x + y):
                return None
            cons.append(z3.Or(*[var(n) != var(m) for n, m in zip(x, y)]))
        ks = range(-(-lo // mod), hi // mod + 1)
        if len(ks) > 64:
            return None
        lhs = z3.Sum(*terms, z3.IntVal(c0)) if terms else z3.IntVal(c0)
        for k in ks:
            t0 = time.time()
            s = z3.Solver()
            s.set("timeout", self.opts.get("abs_timeout", 60000))
            s.add(*cons, lhs == k * mod)
            r = s.check()
            STATS.queries += 1
            STATS.goals += 1
            STATS.solver_s += time.time() - t0
            if r == z3.unknown:
                STATS.unknown += 1
                return None
            if r == z3.sat:
                STATS.sat += 1
                m = s.model()
                vals = {}
                for n in self.inputs:
                    vals[n] = str(m.eval(names[n], model_completion=True).as_long()) if n in names \
                        else str(self.ranges.get(n, (0, 0))[0])
                return vals
            STATS.unsat += 1
        if not ks:
            STATS.goals += 1
        return True

    def _search(self, e):
        v, m = self._pyx_solve(self.facts + self.path + [e], self.opts.get("abs_timeout", 60000))
        if v == "unknown":
            raise Inconclusive("solver unknown")
        return None if v == "unsat" else self._model_bv(m)

    def pyx_distinct_arrays(self, label, a, b):
        """Two integer arrays cannot be equal (products by odd constants injective)."""
        self.goal_log.append(label)
        STATS.goals += 1
        eqs = [bv(a.get(i)) == bv(b.get(i)) for i in np.ndindex(*a.shape)]
        v, m = self._pyx_solve(self.facts + self.path + self.pyx_injective() + eqs,
                               self.opts.get("abs_timeout", 60000))
        if v == "unknown":
            raise Inconclusive("solver unknown")
        if v == "unsat":
            return
        defs = [r == s * z3.BitVecVal(c, 64) for r, s, c in self.mixes]
        v, m = self._pyx_solve(self.facts + self.path + defs + eqs, self.opts.get("exact_timeout", 60000))
        if v == "unknown":
            m = self._staged_collision()
            if m is None:
                raise Inconclusive("solver unknown")
            raise Violation(label, m, "equal values")
        if v == "sat":
            raise Violation(label, self._model_bv(m), "equal values")

    def _staged_collision(self):
        """Different arguments that agree at some stage of the mixing: the products
        up to there are inverted (odd constants), so no product has to be solved for."""
        def inner(e):
            st, seen, out = [e], set(), set()
            while st:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_const(x):
                    out.add(x.decl().name())
                st.extend(x.children())
            return out
        for i, (r, s, c) in enumerate(self.mixes):
            for r2, s2, c2 in self.mixes[:i]:
                if c != c2:
                    continue
                v, m = self._pyx_solve(self.facts + self.path + self.pyx_injective() + [s == s2], 60000)
                if v != "sat":
                    continue
                names = inner(s) | inner(s2)
                fix = [s_ == m.eval(r_, model_completion=True) * z3.BitVecVal(pow(c_, -1, 2**64), 64)
                       for r_, s_, c_ in self.mixes if r_.decl().name() in names]
                rest = [s_ == r_ * z3.BitVecVal(pow(c_, -1, 2**64), 64) for r_, s_, c_ in self.mixes
                        if r_.decl().name() not in names and r_.decl().name() not in
                        (r.decl().name(), r2.decl().name())]
                v, m = self._pyx_solve(self.facts + self.path + fix + rest, 60000)
                if v == "sat":
                    return self._model_bv(m)
        return None

    def pyx_row_weight(self, label, out, nnz):
        """Every row has exactly nnz entries, each +1 or -1."""
        bad = []
        n, r = out.shape
        for i in range(n):
            cnt = z3.BitVecVal(0, 16)
            for j in range(r):
                x = bv(convert(out.get((i, j)), I16))
                bad.append(z3.Not(z3.Or(x == 0, x == 1, x == -1)))
                cnt = cnt + z3.If(x == 0, z3.BitVecVal(0, 16), z3.BitVecVal(1, 16))
            bad.append(cnt != nnz)
        self.pyx_check(label, z3.Not(z3.Or(*bad)), f"{nnz} nonzeros in {r} columns")

    def pyx_cross(self, name, out, *args):
        pass

    def pyx_refused(self, label, fn, ok=(ValueError,)):
        self.goal_log.append(label)
        try:
            fn()
        except ok:
            return
        except Violation as v:
            v.label = label
            raise
        self.check_alive(label)
        raise Violation(label, self.any_values(), "not refused")

    def _pyx_solve(self, asserts, timeout, model=True):
        return core.solve(asserts, timeout, ("default",), want_model=model)

    def pyx_sat(self, e, exact_timeout=None):
        """Counterexample search for e: None if unsat, else model values."""
        base = self.facts + self.path + self.guards + [e]
        # mixing products are first left abstract but functional
        v, m = self._pyx_solve(base, self.opts.get("abs_timeout", 60000))
        if v == "unsat":
            return None
        if v == "unknown":
            raise Inconclusive("solver unknown")
        if self.mixes:
            r = self._invert(e)
            if r is not None:
                return r, True
            defs = [r == s * z3.BitVecVal(c, 64) for r, s, c in self.mixes]
            v, m2 = self._pyx_solve(base + defs, exact_timeout or self.opts.get("exact_timeout", 60000))
            if v == "unsat":
                return None
            if v == "unknown":
                return self._model_bv(m), False
            m = m2
        return self._model_bv(m), True

    def _invert(self, e):
        """Reconstruct inputs for a violation that depends on one hash value:
        products by odd constants are undone one after the other."""
        deadline = time.time() + self.opts.get("invert_s", 20)
        base = self.facts + self.path + self.guards
        byname = {r.decl().name(): (r, s, c) for r, s, c in self.mixes}

        def leaves(x):
            st, seen, names = [x], set(), set()
            while st:
                y = st.pop()
                if y.get_id() in seen:
                    continue
                seen.add(y.get_id())
                if z3.is_const(y) and y.decl().name() in byname:
                    names.add(y.decl().name())
                st.extend(y.children())
            return names
        parts = list(e.children()) if z3.is_or(e) else [e]
        for part in parts:
            tops = leaves(part)
            inner = set()
            for n in tops:
                inner |= leaves(byname[n][1])
            for top in sorted(tops - inner) or sorted(tops):
                block = []
                for _ in range(6):
                    if time.time() > deadline:
                        return None
                    cons = base + [part] + block
                    v, m = self._pyx_solve(cons, 10000)
                    if v != "sat":
                        break
                    n, first = top, None
                    while v == "sat":
                        r, s, c = byname[n]
                        val = m.eval(r, model_completion=True).as_long()
                        first = val if first is None else first
                        cons = cons + [r == val, s == (val * pow(c, -1, 2**64)) % 2**64]
                        v, m = self._pyx_solve(cons, 10000)
                        nxt = leaves(s)
                        if v != "sat" or not nxt:
                            break
                        n = sorted(nxt)[0]
                    if v == "sat":
                        return self._model_bv(m)
                    block.append(byname[top][0] != first)
        return None

    def _model_bv(self, m):
        out = {}
        for n, v in self.inputs.items():
            x = m.eval(v, model_completion=True)
            out[n] = str(x.as_signed_long() if n.startswith("i") else x.as_long())
        return out

    def pyx_check(self, label, ok, detail=""):
        e = z3.simplify(z3.Not(ok))
        self.goal_log.append(label)
        STATS.goals += 1
        if z3.is_false(e):
            STATS.queries += 1
            STATS.unsat += 1
            return
        r = self.pyx_sat(e)
        if r is not None:
            raise Violation(label, r[0], detail + ("" if r[1] else " (inputs not reconstructed)"))

    def pyx_concretise(self, v):
        w = self
        k = len(w.trace)
        e = bv(v)
        if k < len(w.prefix):
            c = w.prefix[k]
            w.trace.append(c)
            w._push_path(e == c)
            return c
        vals = []
        s = z3.Solver()
        s.set("timeout", 30000)
        s.add(*w.facts, *w.path)
        while True:
            STATS.feas += 1
            r = s.check()
            if r == z3.unknown:
                raise Inconclusive("concretise")
            if r == z3.unsat:
                break
            x = s.model().eval(e, model_completion=True)
            x = x.as_signed_long() if v.t.signed else x.as_long()
            vals.append(x)
            s.add(e != x)
            if len(vals) > 64:
                raise Inconclusive("concretise: too many values")
        if not vals:
            raise PathAbort()
        vals.sort()
        for x in vals[1:][::-1]:
            w.alternatives.append(w.trace[:] + [x])
        w.trace.append(vals[0])
        w._push_path(e == vals[0])
        return vals[0]

    def pyx_eq(self, label, a, b):
        """Bit-identical results."""
        self.goal_log.append(label)
        if a.shape != b.shape:
            raise Violation(label + ":shape", self.any_values(), f"{a.shape} {b.shape}")
        dis = []
        for i in np.ndindex(*a.shape):
            x, y = a.get(i), b.get(i)
            if x.t != y.t:
                raise Violation(label + ":dtype", self.any_values(), f"{x.t} {y.t}")
            if not x.sym and not y.sym:
                if x.v != y.v and not (x.v != x.v and y.v != y.v):
                    raise Violation(label, self.any_values(), f"{x.v} {y.v}")
                continue
            p, q = (fpv(x), fpv(y)) if x.t.kind == "double" else (bv(x), bv(y))
            e = z3.simplify(p != q)
            if not z3.is_false(e):
                dis.append(e)
        STATS.goals += 1
        if not dis:
            STATS.queries += 1
            STATS.unsat += 1
            return
        r = self.pyx_sat(z3.Or(*dis))
        if r is not None:
            raise Violation(label, r[0], "values differ")

    def pyx_isfinite(self, label, a):
        bad = []
        for i in np.ndindex(*a.shape):
            x = a.get(i)
            if not x.sym:
                if not math.isfinite(x.v):
                    raise Violation(label, self.any_values(), str(x.v))
                continue
            bad.append(z3.Or(z3.fpIsNaN(x.v), z3.fpIsInf(x.v)))
        if bad:
            self.pyx_check(label, z3.Not(z3.Or(*bad)))
        else:
            self.goal_log.append(label)
