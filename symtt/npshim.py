"""Stand-ins for numpy / scipy / concurrent.futures used while the real sources
run symbolically.

Array *structure* (shapes, strides, indexing, einsum, matmul, reshape, ...) is
numpy's own, on object arrays of symbolic scalars.  What is replaced:

* array constructors (so that new arrays hold exact symbolic scalars),
* matrix factorisations, solvers and norms -> their documented contracts,
* random number generators -> variables keyed by (generator seed, position),
* thread pools -> tasks executed in a nondeterministic order,
* the compiled hashing extension -> variables keyed by
  (seed, flattened index, column).
"""
from __future__ import annotations

import itertools
import types
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import EngineError, I, R, B, NonFinite


# ------------------------------------------------------------------ helpers

def is_sym(x):
    return isinstance(x, (R, I, B))


def has_obj(a):
    return isinstance(a, np.ndarray) and a.dtype == object


def lift(a):
    """object array with every element an R."""
    a = np.asarray(a)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        of, af = out.reshape(-1), a.reshape(-1)
        for i in range(af.size):
            r = R._co(af[i])
            if r is None:
                raise EngineError(f"not a number: {type(af[i])}")
            of[i] = r
        return out
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), a.reshape(-1)
    for i in range(af.size):
        of[i] = R.const(af[i])
    return out


def konst(shape, v):
    if isinstance(shape, (int, np.integer, I)):
        shape = (int(shape),)
    shape = tuple(int(s) for s in shape)
    out = np.empty(shape, dtype=object)
    out.fill(R(c=Fraction(v)))
    return out


def _floatish(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fcO"
    except TypeError:
        return getattr(dtype, "__name__", "") == "float"


_BITS = {"float32": 24, "float16": 11}


def _bits(dtype):
    """Significant bits of a floating type narrower than double, else None."""
    try:
        return _BITS.get(np.dtype(dtype).name)
    except TypeError:
        return None


def narrow(x, bits):
    """x after rounding to a shorter floating type: x (1 + d), |d| <= 2^-bits."""
    if isinstance(x, np.ndarray):
        if x.dtype != object:
            return narrow(lift(x), bits)
        out = np.empty(x.shape, dtype=object)
        of = out.reshape(-1)
        for i, v in enumerate(x.reshape(-1)):
            of[i] = narrow(v, bits)
        return out
    x = R._co(x)
    if x.c is not None:
        f = float(x.c)
        return R.const(float(np.float32(f) if bits == 24 else np.float16(f)))
    w = core.cur()
    w.narrowed = True
    note(f"rounding to {bits} significant bits")
    d = w.fresh("round")
    b = Fraction(1, 2**bits)
    w.axiom(d <= R(c=b))
    w.axiom(d >= R(c=-b))
    return x * (d + 1)


class Short(np.ndarray):
    """An array of a shorter floating type: what is stored in it is rounded."""

    bits = 24

    def __array_finalize__(self, obj):
        self.bits = getattr(obj, "bits", 24)

    def __setitem__(self, key, value):
        if isinstance(value, np.ndarray):
            value = narrow(np.asarray(value), self.bits)
        elif isinstance(value, (R, I, int, float, np.number)):
            value = narrow(value, self.bits)
        super().__setitem__(key, value)


def short(a, dtype):
    b = _bits(dtype) if dtype is not None else None
    if b is None:
        return a
    a = a.view(Short)
    a.bits = b
    return a


def cast(x, dtype, copy=True):
    """x.astype(dtype) for x with symbolic entries."""
    dt = np.dtype(dtype)
    if dt.kind in "fcO":
        b = _bits(dt)
        if b is not None:
            return short(narrow(np.asarray(x), b), dt)
        return np.asarray(x).copy() if copy else x
    if dt.kind == "b":
        out = np.empty(x.shape, dtype=bool)
        for i in np.ndindex(*x.shape):
            out[i] = bool(x[i] != 0)
        return out
    return x.astype(dtype)


def astype(x, *a, **k):
    """Method calls x.astype(...) of the package come here."""
    if isinstance(x, np.ndarray) and x.dtype == object:
        dt = a[0] if a else k["dtype"]
        return cast(x, dt, k.get("copy", True))
    return x.astype(*a, **k)


def call_type(f, *a, **k):
    """Calls like np.float64(x) of the package come here."""
    if len(a) == 1 and not k and isinstance(f, type) and issubclass(f, np.floating):
        x = a[0]
        if is_sym(x):
            b = _bits(f)
            return R._co(x) if b is None else narrow(x, b)
        if has_obj(np.asarray(x)):
            y = cast(np.asarray(x), f)
            return y if y.ndim else y.item()
    return f(*a, **k)


def _key(a):
    a = np.asarray(a, dtype=object)
    ks = []
    for x in a.reshape(-1):
        x = R._co(x)
        ks.append(x.c if x.c is not None else ("e", x.e.get_id()))
    return (a.shape, tuple(ks))


def _canon(arrays):
    """Key by polynomial normal form (None if too large)."""
    from . import poly
    w = core.cur()
    nf = w.nf()
    out = []
    n = 0
    try:
        for a in arrays:
            ks = []
            for x in lift(a).reshape(-1):
                if x.c is not None:
                    ks.append(((), x.c))
                    continue
                q = nf.poly(x.e)
                if q is None:
                    return None
                n += len(q)
                if n > 4000:
                    return None
                ks.append(tuple(sorted(q.items())))
            out.append((a.shape, tuple(ks)))
    except poly.TooBig:
        return None
    return tuple(out)


def _memo(tag, arrays, extra, make):
    w = core.cur()
    key = (tag, tuple(_key(a) for a in arrays), extra)
    hit = w.memo.get(key)
    if hit is None:
        ck = _canon(arrays)
        if ck is not None:
            ck = ("canon", tag, ck, extra)
            hit = w.memo.get(ck)
            if hit is None:
                hit = w.memo[ck] = (make(), arrays)
            w.memo[key] = hit
    if hit is None:
        hit = (make(), arrays)
        w.memo[key] = hit
    return tuple(x.copy() if isinstance(x, np.ndarray) else x for x in hit[0])


def fresh_array(shape, base):
    w = core.cur()
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    for i in range(of.size):
        of[i] = w.fresh(base)
    return out


def ax_eq(A, Bm):
    w = core.cur()
    A = lift(A)
    Bm = lift(Bm)
    assert A.shape == Bm.shape, (A.shape, Bm.shape)
    for x, y in zip(A.reshape(-1), Bm.reshape(-1)):
        if x.c is not None and y.c is not None:
            if x.c != y.c:
                raise core.PathAbort()
            continue
        w.axiom(x.e == y.e)


def note(s):
    core.cur().note_assume(s)


def eye(n):
    out = konst((n, n), 0)
    for i in range(n):
        out[i, i] = R(c=Fraction(1))
    return out


def _mat2(a, who):
    a = lift(a)
    if a.ndim != 2:
        raise np.linalg.LinAlgError(
            f"{a.ndim}-dimensional array given. Array must be two-dimensional"
            if who == "np" else "expected 2-D array")
    return a


# ------------------------------------------------------- matrix contracts

def c_qr(a, full):
    m, n = a.shape
    k = m if full else min(m, n)

    def make():
        note("QR contract: Q has orthonormal columns, R upper triangular, QR = A")
        Q = fresh_array((m, k), "Q")
        Rm = konst((k, n), 0)
        for i in range(k):
            for j in range(n):
                if j >= i:
                    Rm[i, j] = core.cur().fresh("R")
        ax_eq(Q @ Rm if k else konst((m, n), 0), a)
        ax_eq(Q.T @ Q, eye(k))
        if k == m:
            ax_eq(Q @ Q.T, eye(m))
        if core.cur().opts.get("redundant"):
            ax_eq(Q.T @ a, Rm)        # consequence, spares the solver a step
        return Q, Rm

    return _memo("qr", [a], full, make)


def c_svd(a, full):
    m, n = a.shape
    k = min(m, n)

    def make():
        note("SVD contract: U, V orthonormal, S >= 0 and decreasing, U S Vt = A")
        w = core.cur()
        U = fresh_array((m, k), "U")
        Vt = fresh_array((k, n), "V")
        S = fresh_array((k,), "S")
        for i in range(k):
            w.axiom(S[i].e >= 0)
            if i:
                w.axiom(S[i - 1].e >= S[i].e)
        ax_eq((U * S) @ Vt, a)
        ax_eq(U.T @ U, eye(k))
        ax_eq(Vt @ Vt.T, eye(k))
        if k == m:
            ax_eq(U @ U.T, eye(m))
        if k == n:
            ax_eq(Vt.T @ Vt, eye(n))
        # consequences, spare the solver a step
        if w.opts.get("redundant"):
            ax_eq(U.T @ a, S.reshape(-1, 1) * Vt)
            ax_eq(a @ Vt.T, U * S)
        if w.opts.get("svd_sums"):
            fro = konst((1,), 0)
            fro[0] = np.sum(a * a)
            s2 = konst((1,), 0)
            s2[0] = np.sum(S * S)
            ax_eq(fro, s2)
            if w.opts["svd_sums"] > 2:
                g = a.T @ a if n <= m else a @ a.T
                fro[0] = np.sum(g * g)
                s2[0] = np.sum((S * S) * (S * S))
                ax_eq(fro, s2)
        return U, S, Vt

    U, S, Vt = _memo("svd", [a], None, make)
    core.cur().last_svd = (U, S, Vt)
    if not full or m == n:
        return U, S, Vt

    def more():
        q = max(m, n) - k
        if m > n:
            E = np.concatenate([U, fresh_array((m, q), "U")], axis=1)
        else:
            E = np.concatenate([Vt, fresh_array((q, n), "V")], axis=0).T
        ax_eq(E.T @ E, eye(k + q))
        ax_eq(E @ E.T, eye(k + q))
        return (E if m > n else E.T,)

    E = _memo("svdfull", [a], None, more)[0]
    return (E, S, Vt) if m > n else (U, S, E)


def truncating(cond, m, n):
    """Does a cut-off for small singular values apply (environment choice)?

    A cut-off at rounding level is not observable in exact arithmetic; a larger
    one drops singular values of some ill-conditioned inputs."""
    if cond is None or min(m, n) < 2 or not isinstance(cond, (int, float, np.number)):
        return False
    cond = float(cond)
    if not cond > 1e-10:
        return False
    w = core.cur()
    if not w.choose(2):
        return False
    w.graded = max(getattr(w, "graded", 0), 2 + int(np.ceil(max(0.0, -np.log10(cond)))))
    note(f"cut-off {cond:g} for singular values in effect")
    return True


def c_pinv(a, cond=None):
    """Moore-Penrose inverse (or, with opts['fullrank'], generic full rank)."""
    m, n = a.shape
    w = core.cur()
    if not truncating(cond, m, n):
        cond = None
    else:       # nothing is known of a truncated inverse
        return _memo("pinv_cut", [a], None, lambda: (fresh_array((n, m), "cut"),))[0]
    # pinv(A.T) = pinv(A).T
    if ("pinv", (_key(a),), None) not in w.memo:
        ck = _canon([a])
        if ck is None or ("canon", "pinv", ck, None) not in w.memo:
            hit = w.memo.get(("pinv", (_key(a.T),), None))
            if hit is None:
                ck = _canon([a.T])
                hit = w.memo.get(("canon", "pinv", ck, None)) if ck is not None else None
            if hit is not None:
                return hit[0][0].T.copy()

    def make():
        P = fresh_array((n, m), "P")
        mode = w.opts.get("pinv", "penrose")
        if mode == "any":       # over-approximation: nothing is known of the result
            return (P,)
        if mode == "fullrank":
            note("matrices passed to least-squares solvers / pinv have full rank")
            if m >= n:
                ax_eq(P @ a, eye(n))
            if n >= m:
                ax_eq(a @ P, eye(m))
            AP, PA = a @ P, P @ a
            if m > n:
                ax_eq(AP, AP.T)
            if n > m:
                ax_eq(PA, PA.T)
        else:
            note("least squares / pinv contract: the four Penrose equations")
            AP, PA = a @ P, P @ a
            ax_eq(AP @ a, a)
            ax_eq(PA @ P, P)
            ax_eq(AP, AP.T)
            ax_eq(PA, PA.T)
        return (P,)

    return _memo("pinv", [a], None, make)[0]


def c_inv(a):
    n = a.shape[0]
    if a.shape != (n, n):
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")

    def make():
        note("linear solves are applied to invertible matrices")
        P = fresh_array((n, n), "inv")
        ax_eq(a @ P, eye(n))
        ax_eq(P @ a, eye(n))
        return (P,)

    return _memo("inv", [a], None, make)[0]


def c_norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if ord not in (None, "fro") and not (ord == 2 and (x.ndim == 1 or isinstance(axis, int))):
        if ord == 1 and x.ndim == 1:
            return np.sum(np.abs(x))
        raise EngineError(f"norm ord={ord}")
    sq = x * x
    if axis is None:
        s = np.sum(sq) if sq.size else R(c=Fraction(0))
        return R._co(s).sqrt()
    s = np.sum(sq, axis=axis, keepdims=keepdims)
    return sqrt(s)


def sqrt(x, *a, **k):
    if a or k:
        raise EngineError("sqrt with out/where")
    if isinstance(x, (R, I)):
        return R._co(x).sqrt()
    if isinstance(x, (int, float, np.integer, np.floating)):
        return R.const(x).sqrt() if x >= 0 else np.sqrt(x)
    x = np.asarray(x)
    if x.ndim == 0:
        return sqrt(x.item())
    y = lift(x)
    out = np.empty(y.shape, dtype=object)
    of = out.reshape(-1)
    for i, v in enumerate(y.reshape(-1)):
        of[i] = v.sqrt()
    return out


# ---------------------------------------------------------------- random

class Streams:
    """Random numbers are variables keyed by (generator identity, position)."""

    def __init__(self):
        self.env = 0
        self.global_state = ("os-entropy", 0)
        self.global_pos = 0
        self.global_concrete = None

    def fresh_entropy(self):
        self.env += 1
        w = core.cur()
        return int(core.hash_name(f"entropy{self.env}.{w.env_run}"))


def streams():
    w = core.cur()
    if not hasattr(w, "_streams"):
        w._streams = Streams()
    return w._streams


def rng_entry(key, pos, kind="normal"):
    w = core.cur()
    name = f"rng{kind[0]}({key})[{pos}]"
    mode = w.opts.get("rng", "sym")
    if mode == "sym":
        hit = w.memo.get(("rng", name))
        if hit is None:
            hit = R(e=z3.Real(name))
            w.memo[("rng", name)] = hit
        return hit
    h = core.hash_name(name + str(w.params.get("seed", 0)))
    v = (h >> 3) % 6 - 3
    return R(c=Fraction(int(v + 1 if v >= 0 else v)))


def _draw(key, pos0, size, kind="normal"):
    shape = () if size is None else (
        (int(size),) if isinstance(size, (int, np.integer, I)) else tuple(int(s) for s in size))
    out = np.empty(shape, dtype=object)
    of = out.reshape(-1)
    for i in range(of.size):
        of[i] = rng_entry(key, pos0 + i, kind)
    return (out[()] if shape == () else out), of.size


class SGenerator:
    def __init__(self, seed=None, legacy=False):
        if isinstance(seed, np.random.SeedSequence):
            self.key = f"ss:{seed.entropy}:{seed.spawn_key}"
            self._c = np.random.default_rng(seed)
        elif isinstance(seed, SGenerator):
            self.__dict__ = seed.__dict__
            return
        else:
            if seed is None:
                seed = streams().fresh_entropy()
            self.key = f"{'rs' if legacy else 'ss'}:{int(seed)}" + ("" if legacy else ":()")
            self._c = (np.random.RandomState(int(seed) % 2**32) if legacy
                       else np.random.default_rng(int(seed)))
        self.pos = 0

    def _take(self, size, loc=0.0, scale=1.0):
        out, n = _draw(self.key, self.pos, size)
        self.pos += n
        if scale != 1.0:
            out = out * scale
        if loc != 0.0:
            out = out + loc
        return out

    def standard_normal(self, size=None, dtype=None, out=None):
        if out is not None:
            vals, n = _draw(self.key, self.pos, out.shape)
            self.pos += n
            if out.ndim:
                out[...] = vals
            return out
        return self._take(size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._take(size, loc, scale)

    def randn(self, *shape):
        return self._take(shape if shape else None)

    def choice(self, a, size=None, replace=True, p=None, **k):
        w = core.cur()
        if w.opts.get("choice") != "sym" or p is not None or k or not isinstance(a, (int, np.integer)):
            return self.__getattr__("choice")(a, size, replace, p, **k)
        n, shape = int(a), (() if size is None else tuple(np.atleast_1d(size)))
        m = int(np.prod(shape, dtype=int))
        if not replace and m > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        note("choice contract: integers in range, distinct without replacement")
        key = ("choice", self.key, self.pos, n, m, bool(replace))
        if key not in w.memo:
            w.memo[key] = [w.int(f"choice({self.key})[{self.pos + i}]", 0, n - 1) for i in range(m)]
            if not replace and m > 1:
                w.axiom(z3.Distinct(*[x.e for x in w.memo[key]]))
        self.pos += m
        self.key += "+choice"
        out = np.empty(m, dtype=object)
        out[:] = w.memo[key]
        return out.reshape(shape) if shape else out[0]

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        self.pos += 1
        self.key += "+" + name
        return getattr(self._c, name)


def _seed_of(seed):
    if isinstance(seed, (I,)):
        return int(seed)
    return seed


class SRandom(types.ModuleType):
    SeedSequence = np.random.SeedSequence
    Generator = SGenerator
    RandomState = staticmethod(lambda seed=None: SGenerator(seed, legacy=True))

    def __init__(self):
        super().__init__("numpy.random")

    @staticmethod
    def default_rng(seed=None):
        return seed if isinstance(seed, SGenerator) else SGenerator(seed)

    @staticmethod
    def _st():
        st = streams()
        if st.global_concrete is None:
            st.global_concrete = SGenerator(st.fresh_entropy(), legacy=True)
        return st.global_concrete

    @staticmethod
    def seed(seed=None):
        st = streams()
        if seed is None:
            st.global_concrete = SGenerator(st.fresh_entropy(), legacy=True)
        else:
            np.random.RandomState(seed)  # argument validation of the real one
            st.global_concrete = SGenerator(int(seed), legacy=True)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._st().normal(loc, scale, size)

    def standard_normal(self, size=None):
        return self._st().standard_normal(size)

    def randn(self, *shape):
        return self._st().randn(*shape)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        if name in ("uniform", "random", "rand", "randint", "choice", "permutation",
                    "shuffle", "random_sample", "bytes"):
            return lambda *a, **k: getattr(self._st(), name)(*a, **k)
        return getattr(np.random, name)


# --------------------------------------------------------------- numpy shim

def npeye(n):
    out = konst((n, n), 0)
    for i in range(n):
        out[i, i] = R.const(1)
    return out


class SLinalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__("numpy.linalg")

    def qr(self, a, mode="reduced"):
        a = _mat2(a, "np")
        if mode in ("reduced", "full", "f"):
            return c_qr(a, False)
        if mode == "complete":
            return c_qr(a, True)
        if mode == "r":
            return c_qr(a, False)[1]
        raise EngineError(f"qr mode {mode}")

    def svd(self, a, full_matrices=True, compute_uv=True, hermitian=False):
        a = _mat2(a, "np")
        if 0 in a.shape:
            raise EngineError("svd of empty matrix")
        U, S, Vt = c_svd(a, bool(full_matrices))
        return (U, S, Vt) if compute_uv else S

    def svdvals(self, a):
        return self.svd(a, compute_uv=False)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        return c_norm(x, ord, axis, keepdims)

    def pinv(self, a, rcond=None, hermitian=False, *, rtol=None):
        return c_pinv(_mat2(a, "np"), rcond if rtol is None else rtol)

    def inv(self, a):
        return c_inv(_mat2(a, "np"))

    def solve(self, a, b):
        return c_inv(_mat2(a, "np")) @ lift(b)

    def lstsq(self, a, b, rcond=None):
        a = _mat2(a, "np")
        b = lift(b)
        m, n = a.shape
        w = core.cur()
        if truncating(rcond, m, n):
            b2 = b.reshape(m, -1)
            X = _memo("pinv_cut", [a], None, lambda: (fresh_array((n, m), "cut"),))[0] @ b2
        elif w.opts.get("np_lstsq", "normal") == "normal" and m >= n:
            note("np.linalg.lstsq: full column rank, normal equations")
            b2 = b.reshape(m, -1)

            def make():
                X = fresh_array((n, b2.shape[1]), "ls")
                ax_eq(a.T @ (a @ X), a.T @ b2)
                return (X,)

            X = _memo("nplstsq", [a, b2], None, make)[0]
        else:
            b2 = b.reshape(m, -1)
            X = c_pinv(a) @ b2
        res = b2 - a @ X
        r2 = np.sum(res * res, axis=0) if m > n else konst((0,), 0)
        X = X.reshape((n,) + b.shape[1:])
        return X, r2, n, konst((min(m, n),), 1)

    def matrix_power(self, a, n):
        if not has_obj(np.asarray(a)) or n < 0:
            return np.linalg.matrix_power(a, n) if n >= 0 else self.matrix_power(self.inv(a), -n)
        out = npeye(len(a))
        for _ in range(n):
            out = out @ a
        return out

    def multi_dot(self, arrays):
        out = arrays[0]
        for x in arrays[1:]:
            out = out @ x
        return out

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def bad(*a, **k):
            raise EngineError(f"numpy.linalg.{name} is not modelled")
        return bad


def _close(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    a, b = R._co(a), R._co(b)
    core.cur().narrowed = True
    d = a - b
    if b.c is not None:
        t = R.const(atol) + R.const(rtol) * abs(b)
    else:
        t = R.const(atol) + R.const(rtol) * R(e=z3.If(b.e >= 0, b.e, -b.e))
    if d.c is not None and t.c is not None:
        return bool(abs(d.c) <= t.c)
    lo, hi = d >= -t, d <= t
    es = [x.e if isinstance(x, core.B) else z3.BoolVal(bool(x)) for x in (lo, hi)]
    return core.B(z3.And(*es))


class SMath(types.ModuleType):
    """math, with the functions of one real that are exact on symbols."""

    def __init__(self):
        super().__init__("math")

    def __getattr__(self, name):
        import math
        f = getattr(math, name)
        if name == "sqrt":
            return lambda x: sqrt(x) if _symbolic(x) else f(x)
        if name == "fabs":
            return lambda x: abs(R._co(x)) if _symbolic(x) else f(x)
        if name in ("isnan", "isinf"):
            return lambda x: False if _symbolic(x) else f(x)
        if name == "isfinite":
            return lambda x: True if _symbolic(x) else f(x)
        if name == "hypot":
            return lambda *a: sqrt(sum(x * x for x in a)) if any(map(_symbolic, a)) else f(*a)
        if name == "fsum":
            def fsum(it):
                it = list(it)
                return sum(it) if any(map(_symbolic, it)) else f(it)
            return fsum
        if name == "prod":
            def prod(it, start=1):
                for x in it:
                    start = start * x
                return start
            return prod
        if name == "isclose":
            def isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
                if _symbolic(a) or _symbolic(b):
                    return bool(_close(a, b, rel_tol, abs_tol))
                return f(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
            return isclose
        return f


def _symbolic(x):
    return is_sym(x) or (isinstance(x, np.ndarray) and x.dtype == object)


class SNumpy(types.ModuleType):
    """numpy, with the overrides listed in the module docstring."""

    def __init__(self):
        super().__init__("numpy")
        self.__dict__["random"] = SRandom()
        self.__dict__["linalg"] = SLinalg()
        self.__dict__["__path__"] = []

    def __getattr__(self, name):
        v = getattr(np, name)
        return v

    # constructors
    def zeros(self, shape, dtype=None, order="C", **k):
        return short(konst(shape, 0), dtype) if _floatish(dtype) else np.zeros(shape, dtype)

    def ones(self, shape, dtype=None, order="C", **k):
        return short(konst(shape, 1), dtype) if _floatish(dtype) else np.ones(shape, dtype)

    def empty(self, shape, dtype=None, order="C", **k):
        if not _floatish(dtype):
            return np.empty(shape, dtype)
        if isinstance(shape, (int, np.integer, I)):
            shape = (int(shape),)
        return fresh_array(tuple(int(s) for s in shape), "uninit")

    def full(self, shape, fill_value, dtype=None, order="C", **k):
        if _floatish(dtype) and (dtype is not None or not isinstance(fill_value, (bool, int, np.integer))):
            out = konst(shape, 0)
            out[...] = fill_value if is_sym(fill_value) or isinstance(fill_value, np.ndarray) else R.const(fill_value)
            return out
        return np.full(shape, fill_value, dtype)

    def _like(self, a, dtype):
        a = np.asarray(a)
        return (a.dtype.kind in "fcO") if dtype is None else _floatish(dtype)

    def zeros_like(self, a, dtype=None, order="K", subok=True, shape=None):
        sh = np.shape(a) if shape is None else shape
        return short(konst(sh, 0), dtype) if self._like(a, dtype) else np.zeros_like(a, dtype=dtype, shape=shape)

    def ones_like(self, a, dtype=None, order="K", subok=True, shape=None):
        sh = np.shape(a) if shape is None else shape
        return konst(sh, 1) if self._like(a, dtype) else np.ones_like(a, dtype=dtype, shape=shape)

    def empty_like(self, a, dtype=None, order="K", subok=True, shape=None):
        sh = np.shape(a) if shape is None else shape
        return fresh_array(sh, "uninit") if self._like(a, dtype) else np.empty_like(a, dtype=dtype, shape=shape)

    def full_like(self, a, fill_value, dtype=None, order="K", subok=True, shape=None):
        sh = np.shape(a) if shape is None else shape
        if self._like(a, dtype):
            return self.full(sh, fill_value, dtype=float)
        return np.full_like(a, fill_value, dtype=dtype, shape=shape)

    def eye(self, N, M=None, k=0, dtype=None, **kw):
        M = N if M is None else M
        out = konst((N, M), 0)
        for i in range(N):
            if 0 <= i + k < M:
                out[i, i + k] = R(c=Fraction(1))
        return out

    def identity(self, n, dtype=None, **k):
        return self.eye(n)

    def diag(self, v, k=0):
        v = np.asarray(v)
        if v.ndim == 1 and v.dtype.kind in "fcO":
            n = len(v) + abs(k)
            out = konst((n, n), 0)
            for i in range(len(v)):
                out[i + max(0, -k), i + max(0, k)] = v[i]
            return out
        return np.diag(v, k)

    def array(self, obj, dtype=None, **k):
        return self._arr(np.array, obj, dtype, k)

    def asarray(self, obj, dtype=None, **k):
        return self._arr(np.asarray, obj, dtype, k)

    def ascontiguousarray(self, obj, dtype=None, **k):
        return self._arr(np.ascontiguousarray, obj, dtype, k)

    def asfortranarray(self, obj, dtype=None, **k):
        return self._arr(np.asfortranarray, obj, dtype, k)

    @staticmethod
    def _arr(fn, obj, dtype, k):
        if dtype is not None and _floatish(dtype):
            a = np.array(obj, dtype=object) if not isinstance(obj, np.ndarray) else obj
            if _bits(dtype) is not None:
                return short(narrow(a, _bits(dtype)), dtype)
            if a.dtype == object:
                return fn(a, dtype=object, **k)
            return fn(lift(a), dtype=object, **k)
        if isinstance(obj, (R, I)):
            out = np.empty((), dtype=object)
            out[()] = obj
            return out
        return fn(obj, dtype=dtype, **k) if dtype is not None else fn(obj, **k)

    # maths
    def sqrt(self, x, *a, **k):
        return sqrt(x, *a, **k)

    def isnan(self, x, *a, **k):
        if is_sym(x):
            return False
        if has_obj(np.asarray(x)):
            return np.zeros(np.shape(x), dtype=bool)
        return np.isnan(x, *a, **k)

    def isinf(self, x, *a, **k):
        return self.isnan(x) if (is_sym(x) or has_obj(np.asarray(x))) else np.isinf(x)

    def isfinite(self, x, *a, **k):
        if is_sym(x):
            return True
        if has_obj(np.asarray(x)):
            return np.ones(np.shape(x), dtype=bool)
        return np.isfinite(x, *a, **k)

    def isclose(self, a, b, *args, **k):
        if is_sym(a) or is_sym(b) or has_obj(np.asarray(a)) or has_obj(np.asarray(b)):
            a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
            out = np.empty(a.shape, dtype=object)
            for i in np.ndindex(*a.shape):
                out[i] = _close(a[i], b[i], *args, **k)
            return out if out.ndim else out.item()
        return np.isclose(a, b, *args, **k)

    def allclose(self, a, b, *args, **k):
        if is_sym(a) or is_sym(b) or has_obj(np.asarray(a)) or has_obj(np.asarray(b)):
            c = [x.e if isinstance(x, core.B) else z3.BoolVal(bool(x))
                 for x in np.asarray(self.isclose(a, b, *args, **k), dtype=object).reshape(-1)]
            return bool(core.B(z3.And(*c))) if c else True
        return np.allclose(a, b, *args, **k)

    def hypot(self, a, b):
        if is_sym(a) or is_sym(b) or has_obj(np.asarray(a)) or has_obj(np.asarray(b)):
            return sqrt(a * a + b * b)
        return np.hypot(a, b)

    def fromiter(self, it, dtype=None, count=-1, **k):
        xs = list(it)
        xs = xs[:count] if count >= 0 else xs
        if any(is_sym(x) for x in xs):
            return self._arr(np.array, xs, dtype, {})
        return np.fromiter(xs, dtype, **k)

    def bincount(self, x, weights=None, minlength=0):
        if weights is None or not has_obj(np.asarray(weights)):
            return np.bincount(x, weights, minlength)
        n = max(int(minlength), (int(np.max(x)) + 1) if len(x) else 0)
        out = konst((n,), 0)
        for i, w in zip(x, weights):
            out[i] = out[i] + w
        return out

    def dot(self, a, b, out=None):
        if has_obj(np.asarray(a)) and np.ndim(a) == 1 and np.ndim(b) == 1 and len(a) == 0:
            return R(c=Fraction(0))
        return np.dot(a, b) if out is None else np.dot(a, b, out)

    def nan_to_num(self, x, *a, **k):
        if is_sym(x) or has_obj(np.asarray(x)):
            return x
        return np.nan_to_num(x, *a, **k)

    def unravel_index(self, indices, shape, order="C"):
        a = np.asarray(indices)
        if not has_obj(a):
            return np.unravel_index(indices, shape, order)
        if order != "C":
            raise EngineError("unravel_index order")
        out = []
        n = int(np.prod(shape, dtype=int))
        if a.size and not all(bool((x >= 0) & (x < n)) for x in a.reshape(-1)):
            raise ValueError("index is out of bounds for array")
        for k in range(len(shape)):
            rest = int(np.prod(shape[k + 1:], dtype=int))
            out.append(a // rest % int(shape[k]))
        return tuple(out)

    def linspace(self, start, stop, num=50, endpoint=True, **k):
        if not (is_sym(start) or is_sym(stop)):
            return np.linspace(start, stop, num, endpoint, **k)
        if k:
            raise EngineError("linspace options")
        n = int(num)
        q = n - 1 if endpoint else n
        start, stop = R._co(start), R._co(stop)
        out = konst((n,), 0)
        for i in range(n):
            out[i] = stop if endpoint and i == q and i else start + (stop - start) * R(c=Fraction(i, max(q, 1)))
        return out

    def ceil(self, x, *a, **k):
        if isinstance(x, R) and x.c is not None:
            import math
            return np.float64(math.ceil(x.c))
        if is_sym(x):
            raise EngineError("ceil of a symbolic value")
        return np.ceil(x, *a, **k)


class SScipyLinalg(types.ModuleType):
    LinAlgError = np.linalg.LinAlgError

    def __init__(self):
        super().__init__("scipy.linalg")

    def qr(self, a, overwrite_a=False, lwork=None, mode="full", pivoting=False, check_finite=True):
        a = _mat2(a, "sp")
        if pivoting:
            raise EngineError("pivoted QR is not modelled")
        if mode == "full":
            return c_qr(a, True)
        if mode == "economic":
            return c_qr(a, False)
        if mode == "r":
            return (c_qr(a, True)[1],)
        raise EngineError(f"scipy qr mode {mode}")

    def svd(self, a, full_matrices=True, compute_uv=True, **k):
        U, S, Vt = c_svd(_mat2(a, "sp"), bool(full_matrices))
        return (U, S, Vt) if compute_uv else S

    def svdvals(self, a, **k):
        return self.svd(a, compute_uv=False)

    def lstsq(self, a, b, cond=None, overwrite_a=False, overwrite_b=False,
              check_finite=True, lapack_driver=None):
        a = _mat2(a, "sp")
        b = lift(b)
        if a.shape[0] != b.shape[0]:
            raise ValueError(
                "Shape mismatch: a and b should have the same number of rows")
        x = c_pinv(a, cond) @ b
        return x, konst((0,), 0), min(a.shape), konst((min(a.shape),), 1)

    def pinv(self, a, *, atol=None, rtol=None, return_rank=False, check_finite=True):
        if return_rank:
            raise EngineError("scipy pinv return_rank")
        return c_pinv(_mat2(a, "sp"), rtol if rtol is not None else atol)

    def inv(self, a, **k):
        return c_inv(_mat2(a, "sp"))

    def solve(self, a, b, **k):
        if k.get("assume_a", "gen") not in ("gen",) or k.get("transposed"):
            raise EngineError("scipy solve options")
        return c_inv(_mat2(a, "sp")) @ lift(b)

    def solve_triangular(self, a, b, trans=0, lower=False, unit_diagonal=False, **k):
        a = _mat2(a, "sp")
        n = a.shape[0]
        t = konst((n, n), 0)
        for i in range(n):
            for j in range(n):
                if (i == j) or (j < i if lower else j > i):
                    t[i, j] = a[i, j]
            if unit_diagonal:
                t[i, i] = R(c=Fraction(1))
        if trans in (1, "T", 2, "C"):
            t = t.T
        return c_inv(t) @ lift(b)

    def norm(self, a, ord=None, axis=None, keepdims=False, **k):
        return c_norm(a, ord, axis, keepdims)

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)

        def bad(*a, **k):
            raise EngineError(f"scipy.linalg.{name} is not modelled")
        return bad


class SScipy(types.ModuleType):
    def __init__(self, linalg):
        super().__init__("scipy")
        self.__path__ = []
        self.linalg = linalg

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        import scipy
        return getattr(scipy, name)


# ---------------------------------------------------------------- threads

class SFuture:
    def __init__(self, ex, fn, a, k):
        self._ex, self._fn, self._a, self._k = ex, fn, a, k
        self._done = False
        self._res = None
        self._exc = None

    def _run(self):
        if self._done:
            return
        self._done = True
        try:
            self._res = self._fn(*self._a, **self._k)
        except Exception as e:  # noqa: BLE001 - delivered by result()
            self._exc = e

    def result(self, timeout=None):
        self._ex._drain()
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self, timeout=None):
        self._ex._drain()
        return self._exc

    def done(self):
        return self._done

    def add_done_callback(self, f):
        self._ex._drain()
        f(self)


class SExecutor:
    """Runs the submitted tasks in a nondeterministic order."""

    def __init__(self, max_workers=None, *a, **k):
        self._pending = []

    def submit(self, fn, *a, **k):
        f = SFuture(self, fn, a, k)
        self._pending.append(f)
        core.cur().executors.append(self)
        return f

    def map(self, fn, *its, **k):
        fs = [self.submit(fn, *a) for a in zip(*its)]
        self._drain()
        return [f.result() for f in fs]

    def _drain(self):
        p, self._pending = self._pending, []
        if not p:
            return
        w = core.cur()
        how = w.opts.get("schedule", "fifo")
        if how == "all" and len(p) > 1 and len(p) <= 4:
            perms = list(itertools.permutations(range(len(p))))
            order = perms[w.choose(len(perms))]
        elif how in ("all", "swap") and len(p) > 1:
            # natural order, reversed order, and every task delayed to the end
            opts = [list(range(len(p))), list(range(len(p)))[::-1]]
            opts += [[j for j in range(len(p)) if j != i] + [i] for i in range(len(p) - 1)]
            order = opts[w.choose(len(opts))]
        else:
            order = range(len(p))
        for i in order:
            p[i]._run()

    def shutdown(self, wait=True, **k):
        self._drain()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self._drain()


class SFutures(types.ModuleType):
    def __init__(self):
        import concurrent.futures as cf
        super().__init__("concurrent.futures")
        self.ThreadPoolExecutor = SExecutor
        self.Future = SFuture
        for n in ("FIRST_COMPLETED", "FIRST_EXCEPTION", "ALL_COMPLETED"):
            setattr(self, n, getattr(cf, n))

    @staticmethod
    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        for f in fs:
            f._ex._drain()
        return set(fs), set()

    @staticmethod
    def as_completed(fs, timeout=None):
        fs = list(fs)
        for f in fs:
            f._ex._drain()
        return iter(fs)


class SMultiprocessing(types.ModuleType):
    def __init__(self):
        super().__init__("multiprocessing")

    @staticmethod
    def cpu_count():
        return int(core.cur().opts.get("cpu_count", 8))


class SOs(types.ModuleType):
    """os, on a machine with the chosen number of processors."""

    def __init__(self):
        super().__init__("os")

    def __getattr__(self, name):
        import os
        return getattr(os, name)

    @staticmethod
    def cpu_count():
        return int(core.cur().opts.get("cpu_count", 8))

    process_cpu_count = cpu_count

    @staticmethod
    def sched_getaffinity(pid=0):
        return set(range(int(core.cur().opts.get("cpu_count", 8))))

    @staticmethod
    def getpid():
        return 4000 + core.cur().env_run


# ------------------------------------------------ compiled hashing extension

class SHash(types.ModuleType):
    """tt_sketch.drm.fast_lazy_gaussian: entry = variable named by
    (seed + flattened index, column).  That the real extension has this form is
    what properties C13-C15 decide on its own source."""

    def __init__(self):
        super().__init__("tt_sketch.drm.fast_lazy_gaussian")

    @staticmethod
    def _flat(indices, shape):
        idx = np.asarray(indices).astype(object)
        out = []
        for col in range(idx.shape[1]):
            f, p = 0, 1
            for r in range(idx.shape[0]):
                f += int(idx[r, col]) * p
                p *= int(shape[r])
            out.append(f)
        return out

    @classmethod
    def inds_to_normal(cls, indices, shape, rank_min, rank_max, seed):
        seed = int(seed) % 2**63
        flat = cls._flat(indices, shape)
        out = np.empty((len(flat), int(rank_max) - int(rank_min)), dtype=object)
        for i, f in enumerate(flat):
            for j in range(int(rank_min), int(rank_max)):
                out[i, j - int(rank_min)] = rng_entry(f"hash:{(seed + f) % 2**64}", j, "gauss")
        return out

    @classmethod
    def inds_to_sparse_sign(cls, indices, shape, rank, rank_min, rank_max, non_zero_per_row, seed):
        seed = int(seed) % 2**63
        flat = cls._flat(indices, shape)
        rank = int(rank)
        nz = int(non_zero_per_row)
        if nz > rank:
            raise ValueError("more nonzeros than columns")
        cols = list(range(rank))[int(rank_min):int(rank_max)]
        out = np.empty((len(flat), len(cols)), dtype=object)
        for i, f in enumerate(flat):
            for jj, j in enumerate(cols):
                out[i, jj] = rng_entry(f"sign:{(seed + f) % 2**64}:{rank}:{nz}", j, "sign")
        return out
