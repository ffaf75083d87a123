"""Linearised ("XL") queries for goals that follow from polynomial contracts.

A goal g = 0 under equational facts f_i = 0 (QR / SVD / pinv contracts) is
handed to the solver in linear real arithmetic: every monomial becomes a real
variable, and products  m * f_i = 0  of the facts with suitable monomials are
added as (implied) linear equations.  If the solver refutes  "equations and
g != 0"  the original nonlinear query is unsatisfiable as well, because every
equation is a consequence of the facts.  The products worth adding are found
with a modular elimination, which only selects equations; the verdict is the
solver's.
"""
from __future__ import annotations

import time
from fractions import Fraction

import z3

P = (1 << 61) - 1


class TooBig(Exception):
    pass


class Conv:
    def __init__(self, limit=60000):
        self.cache = {}
        self.keep = []
        self.limit = limit
        self.names = {}
        self.inv = {}          # variable id <-> id of its reciprocal
        self.rewrite = {}      # variable id -> polynomial of its square (roots)

    def mul(self, a, b):
        if len(a) * len(b) > 400000:
            raise TooBig()
        out = {}
        inv = self.inv
        for m, x in a.items():
            for n, y in b.items():
                k = tuple(sorted(m + n)) if m and n else (m or n)
                if inv and m and n:
                    k = self._cancel(k)
                v = out.get(k, 0) + x * y
                if v:
                    out[k] = v
                else:
                    out.pop(k, None)
        if len(out) > self.limit:
            raise TooBig()
        if self.rewrite:
            out = self._reduce(out)
        return out

    def _cancel(self, m):
        for i in m:
            j = self.inv.get(i)
            if j is not None and j in m:
                m = list(m)
                m.remove(i)
                m.remove(j)
                return self._cancel(tuple(m))
        return m

    def _reduce(self, p):
        rw = self.rewrite
        while True:
            hit = None
            for m in p:
                for i in range(len(m) - 1):
                    if m[i] == m[i + 1] and m[i] in rw:
                        hit = (m, i)
                        break
                if hit:
                    break
            if not hit:
                return p
            m, i = hit
            c = p[m]
            p = dict(p)
            del p[m]
            rest = m[:i] + m[i + 2:]
            p = self.add(p, self.mul({rest: c}, rw[m[i]]))

    @staticmethod
    def add(a, b, c=1):
        out = dict(a)
        for m, x in b.items():
            v = out.get(m, 0) + c * x
            if v:
                out[m] = v
            else:
                out.pop(m, None)
        return out

    def poly(self, e):
        """z3 Real term -> {monomial: Fraction}; None if not polynomial."""
        todo = [e]
        cache = self.cache
        while todo:
            t = todo[-1]
            i = t.get_id()
            if i in cache:
                todo.pop()
                continue
            if z3.is_rational_value(t):
                f, den = t.numerator_as_long(), t.denominator_as_long()
                if den != 1:
                    f = Fraction(f, den)
                cache[i] = {(): f} if f else {}
                self.keep.append(t)
                todo.pop()
                continue
            ch = t.children()
            if not ch:
                if t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    return None
                self.names[i] = t
                cache[i] = {(i,): 1}
                self.keep.append(t)
                todo.pop()
                continue
            miss = [c for c in ch if c.get_id() not in cache]
            if miss:
                todo.extend(miss)
                continue
            ps = [cache[c.get_id()] for c in ch]
            k = t.decl().kind()
            if any(p is None for p in ps):
                r = None
            elif k == z3.Z3_OP_ADD:
                r = dict(ps[0])
                for p in ps[1:]:
                    for m, x in p.items():
                        v = r.get(m, 0) + x
                        if v:
                            r[m] = v
                        else:
                            r.pop(m, None)
            elif k == z3.Z3_OP_SUB:
                r = ps[0]
                for p in ps[1:]:
                    r = self.add(r, p, -1)
            elif k == z3.Z3_OP_UMINUS:
                r = {m: -x for m, x in ps[0].items()}
            elif k == z3.Z3_OP_MUL:
                r = ps[0]
                for p in ps[1:]:
                    r = self.mul(r, p)
            else:
                r = None
            cache[i] = r
            self.keep.append(t)
            todo.pop()
        return cache[e.get_id()]

    def eq_poly(self, f):
        """z3 equality -> polynomial of lhs - rhs (or None)."""
        if not (z3.is_eq(f) and z3.is_real(f.arg(0))):
            return None
        a, b = self.poly(f.arg(0)), self.poly(f.arg(1))
        if a is None or b is None:
            return None
        return self.add(a, b, -1)


def _modp(p):
    return {m: x % P if type(x) is int else
            (x.numerator % P) * pow(x.denominator % P, P - 2, P) % P for m, x in p.items()}


def _divide(m, t):
    """m / t as sorted tuple or None."""
    out = []
    j = 0
    n = len(t)
    for v in m:
        if j < n and t[j] == v:
            j += 1
        elif j < n and t[j] < v:
            return None
        else:
            out.append(v)
    return tuple(out) if j == n else None


class Echelon:
    def __init__(self):
        self.rows = {}        # pivot -> (row dict, combo dict)

    def reduce(self, row, combo):
        rows = self.rows
        pend = [m for m in row if m in rows]
        while pend:
            m = pend.pop()
            c = row.get(m)
            if not c or m not in rows:
                continue
            r, cb = rows[m]
            for k, x in r.items():
                v = (row.get(k, 0) - c * x) % P
                if v:
                    if k not in row and k in rows and k != m:
                        pend.append(k)
                    row[k] = v
                else:
                    row.pop(k, None)
            for k, x in cb.items():
                v = (combo.get(k, 0) - c * x) % P
                if v:
                    combo[k] = v
                else:
                    combo.pop(k, None)
        return row, combo

    def insert(self, row, combo, order):
        row, combo = self.reduce(row, combo)
        if not row:
            return None
        piv = max(row, key=order)
        inv = pow(row[piv], P - 2, P)
        row = {k: x * inv % P for k, x in row.items()}
        combo = {k: x * inv % P for k, x in combo.items()}
        # keep rows fully reduced w.r.t. the new pivot lazily (reduce() chases)
        self.rows[piv] = (row, combo)
        return piv


def xl_prove(goals, facts, conv, budget=8.0, max_rows=6000, extra_deg=2, rounds=5):
    """goals: list of polynomials; facts: list of polynomials (all = 0).

    Returns list of booleans (True: selected equations refute goal != 0, as
    confirmed by z3's linear arithmetic).
    """
    t_end = time.time() + budget
    facts = [f for f in facts if f]
    fm = [_modp(f) for f in facts]
    index = {}                # first variable of term -> [(fact, term)]
    for i, f in enumerate(fm):
        for t in f:
            if t:
                index.setdefault(t[0], []).append((i, t))
    fdeg = [max(len(t) for t in f) for f in fm]
    ech = Echelon()
    seen = set()
    prods = []

    def order(m):
        return (len(m), m)

    res = []
    for g in goals:
        gm = _modp(g)
        maxdeg = max((len(m) for m in gm), default=0) + extra_deg
        frontier = set(gm)
        done_m = set()
        ok = False
        for rnd in range(rounds + 1):
            row, combo = ech.reduce(dict(gm), {})
            if not row:
                ok = True
                break
            if rnd == rounds or time.time() > t_end or len(prods) > max_rows:
                break
            frontier |= set(row)
            new = set()
            for m in sorted(frontier - done_m, key=order):
                done_m.add(m)
                for v in set(m):
                    for i, t in index.get(v, ()):
                        q = _divide(m, t)
                        if q is None or len(q) + fdeg[i] > maxdeg:
                            continue
                        if (i, q) in seen:
                            for k in fm[i]:
                                new.add(tuple(sorted(k + q)))
                            continue
                        seen.add((i, q))
                        pr = {tuple(sorted(k + q)): x for k, x in fm[i].items()}
                        prods.append((i, q))
                        new |= set(pr)
                        ech.insert(pr, {len(prods) - 1: 1}, order)
                        if len(prods) > max_rows or time.time() > t_end:
                            break
            frontier = new
        if not ok:
            res.append(False)
            continue
        res.append(_lra(g, [(facts[prods[k][0]], prods[k][1]) for k in combo], conv))
    return res


def _lra(goal, eqs, conv):
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", 20000)
    var = {}

    def term(p, q=()):
        parts = []
        for m, x in p.items():
            k = tuple(sorted(m + q)) if q else m
            c = z3.RealVal(str(x))
            if k == ():
                parts.append(c)
            else:
                v = var.get(k)
                if v is None:
                    v = var[k] = z3.Real("m%d" % len(var))
                parts.append(c * v)
        return z3.Sum(parts) if parts else z3.RealVal(0)

    for f, q in eqs:
        s.add(term(f, q) == 0)
    s.add(term(goal) != 0)
    return s.check() == z3.unsat
