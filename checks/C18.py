"""C18: TT-GMRES returns the iterate it reports and stops when it should."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C17 import mpo_cores, ref_apply, ref_mpo

PROPERTY = "C18"
BOUNDS = {
    "quick": "krylov/*: one-mode systems of 2..5 unknowns and 1..4 iterations, every unreduced upper Hessenberg (or "
             "symmetric tridiagonal, with symmetric=True) matrix of coefficients in a fixed dense orthonormal rational "
             "basis, every right-hand side in that family, every tolerance, zero/fixed/arbitrary x0, operators of 1-3 "
             "summands, with and without a preconditioner; steps/*: every 2x2 system, right-hand side and x0, one "
             "iteration; solved/*: every x0 that solves the system; ranks/*: 2x2 tensor trains, one iteration, rank "
             "bounds 1 and 2 with an own final bound; mismatch/*: eight shape mismatches; methods exact and pairwise",
    "thorough": "as quick, up to 6 unknowns and 5 iterations and every combination of the options"}
ASSUMPTIONS = [
    "the system is regular and GMRES does not break down within maxiter iterations (a breakdown divides by zero)",
    "maxiter >= 1 and a rounding method other than None",
    "iterates are compared for one-mode tensor trains, where rounding is exact; the effect of rounding is C06-C10's"]
LIMIT = {"quick": 120, "thorough": 500}


def setup(W, shape, nops, r_op=1, name="A", const=False, sym=False):
    G = W.load("tt_sketch.tt_gmres")
    cs = [mpo_cores(W, f"{name}{k}", shape, shape, r_op, const) for k in range(nops)]
    if sym:
        cs = [[C + np.transpose(C, (0, 2, 1, 3)) for C in c] for c in cs]
    A = G.TTLinearMapSum([G.MPO([x.copy() for x in c]) for c in cs])
    M = ref_mpo(cs[0])
    for c in cs[1:]:
        M = M + ref_mpo(c)
    return G, A, M


def dense(t):
    return t.to_numpy()


def dotp(X, Y):
    return np.sum(X * Y)


def regular(W, M, R0):
    """R0 and A R0 are linearly independent (no breakdown in the first step)."""
    u, v = R0.reshape(-1), ref_apply(M, R0).reshape(-1)
    ok = None
    for i in range(len(u)):
        for j in range(i):
            c = u[i] * v[j] - u[j] * v[i]
            c = (c * c > W.num("1e-3") if not W.symbolic else c * c > 0)
            ok = c if ok is None else ok | c
    W.assume(ok)


def tt_of(W, X):
    """A tensor train holding X."""
    T = W.load("tt_sketch.tensor")
    if X.ndim == 1:
        return T.TensorTrain([X.reshape(1, -1, 1)])
    if X.ndim > 2:
        cores, r = [], 1
        for n in X.shape[:-1]:
            cores.append(W.eye(r * n).reshape(r, n, r * n))
            r *= n
        return T.TensorTrain(cores + [X.reshape(r, X.shape[-1], 1)])
    n, m = X.shape
    if n == 1:
        return T.TensorTrain([W.eye(1).reshape(1, 1, 1), X.reshape(1, m, 1)])
    return T.TensorTrain([X.reshape(1, n, m), W.eye(m).reshape(m, m, 1)])


def sq_sum(W, label, X, Y):
    """Entrywise X = Y  =>  |X|^2 = |Y|^2."""
    x, y = list(X.reshape(-1)), list(Y.reshape(-1))
    n = len(x)
    W.entails(label, x + y, lambda *t: list(zip(t[:n], t[n:])),
              lambda *t: (sum(a * a for a in t[:n]), sum(a * a for a in t[n:])))


def go_steps(W):
    """k iterations: minimal residual in the Krylov space, reported residuals."""
    p = W.p
    shape, maxiter = p["shape"], p["k"]
    G, A, M = setup(W, shape, p["nops"], const=p.get("const", False), sym=p.get("sym", False))
    # the initial residual is a variable, b is chosen to have it
    R0 = lib.arr(W, "R", shape, p.get("const", False))
    kw, X0 = {}, W.zeros(shape)
    if p["x0"]:
        X0 = lib.arr(W, "x0", shape, p.get("const", False))
        kw["x0"] = tt_of(W, X0)
    B = ref_apply(M, X0) + R0
    b = tt_of(W, B)
    if p["x0"] == "b":
        # the initial guess is the right-hand side itself, the very same object
        B = X0 = R0
        R0 = B - ref_apply(M, B)
        b = kw["x0"] = tt_of(W, B)
    W.assume(lib.sumsq(R0) > 0)
    W.assume(lib.sumsq(B) > 0)
    tol = W.num(0)
    if p["tol"]:
        tol = W.real("tol") ** 2
    x, h = G.tt_sum_gmres(A, b, max_rank=2, tolerance=tol, maxiter=maxiter, rounding_method=p["method"],
                          symmetric=p.get("sym", False), save_basis=True, **kw)
    X = dense(x)
    R1 = B - ref_apply(M, X)
    rn = list(h["residual_norm"])
    k = len(rn) - 1
    W.true("history: at most maxiter iterations", 1 <= k <= maxiter)
    for j in range(1, k):
        W.true(f"goes on after iteration {j} only if the tolerance is not met", rn[j] >= tol)
    if k < maxiter:
        W.true("stops early only if the tolerance is met", rn[k] < tol)
    bn = b.norm()
    y, H = list(h["y"]), h["H_matrix"]
    W.true("one coefficient and one vector per iteration", len(h["nu_list"]) == k == len(y))
    v = [dense(t) for t in h["nu_list"]]
    Av = [ref_apply(M, t) for t in v]
    W.eq("history: initial residual", rn[0] * rn[0] * lib.sumsq(B), lib.sumsq(R0))
    beta = rn[0] * bn
    for j in range(k):
        W.lemma(f"basis vector {j} is normalised", dotp(v[j], v[j]), W.num(1))
        for i in range(j):
            W.lemma(f"basis vectors {i}, {j} are orthogonal", dotp(v[i], v[j]), W.num(0))
        if j == 0:
            W.lemma("first basis vector is the residual", beta * v[0], R0)
        for i in range(j + 1):
            W.lemma(f"H[{i},{j}]", H[i, j], dotp(v[i], Av[j]))
        if j < k - 1:
            W.lemma(f"Arnoldi {j}", Av[j], sum(H[l, j] * v[l] for l in range(j + 2)))
            for i in range(j + 1):
                W.lemma(f"A v{i} . A v{j}", dotp(Av[i], Av[j]), sum(H[l, i] * H[l, j] for l in range(i + 2)))
        else:
            for i in range(j):
                W.lemma(f"A v{i} . A v{j}", dotp(Av[i], Av[j]), sum(H[l, i] * H[l, j] for l in range(i + 2)))
            W.lemma(f"H[{k},{j}]", H[k, j] * H[k, j], dotp(Av[j], Av[j]) - sum(H[l, j] * H[l, j] for l in range(j + 1)))
    W.lemma("iterate stays in the search space", X, X0 + sum(v[j] * y[j] for j in range(k)))
    Rr = beta * v[0] - sum(y[j] * Av[j] for j in range(k))
    W.lemma("residual of the iterate", R1, Rr)
    # everything else follows from these scalars
    hs = [H[i, j] for j in range(k) for i in range(j + 2)]
    q = [dotp(Av[i], Av[j]) for j in range(k) for i in range(j + 1)]
    c = [dotp(v[0], Av[j]) for j in range(k)]
    r2 = rn[k] * rn[k] * bn * bn
    terms = hs + q + c + y + [beta, dotp(v[0], v[0]), r2]

    def split(t):
        t = list(t)
        Hd = {(i, j): t.pop(0) for j in range(k) for i in range(j + 2)}
        qd = {(i, j): t.pop(0) for j in range(k) for i in range(j + 1)}
        return Hd, qd, [t.pop(0) for _ in range(k)], [t.pop(0) for _ in range(k)], *t

    def col(Hd, i, j):
        return Hd.get((i, j), 0)

    def resid(Hd, yy, be):
        return [(be if i == 0 else 0) - sum(col(Hd, i, j) * yy[j] for j in range(k)) for i in range(k + 1)]

    def gram(*t):
        Hd, qd, cc, yy, be, vv, rr = split(t)
        f = [(qd[i, j], sum(col(Hd, l, i) * col(Hd, l, j) for l in range(k + 1))) for i, j in qd]
        return f + [(cc[j], Hd[0, j]) for j in range(k)]

    def normal(*t):
        Hd, qd, cc, yy, be, vv, rr = split(t)
        res = resid(Hd, yy, be)
        return [(sum(col(Hd, i, j) * res[i] for i in range(k + 1)), 0) for j in range(k)]

    W.attempt(lambda: None)
    for j in range(k):
        W.lemma(f"least squares {j}", normal(*terms)[j][0], W.num(0))

    def qq(qd, i, j):
        return qd[min(i, j), max(i, j)]
    for j in range(k):
        def goal(*t, j=j):
            Hd, qd, cc, yy, be, vv, rr = split(t)
            return (be * cc[j] - sum(yy[i] * qq(qd, i, j) for i in range(k)), 0)
        W.entails(f"minimal residual {j}", terms, lambda *t: gram(*t) + normal(*t), goal)
        W.eq(f"residual is orthogonal to A v{j} (minimal)", dotp(Rr, Av[j]), W.num(0))
    Hd = split(terms)[0]
    W.lemma("reported residual", r2, sum(t * t for t in resid(Hd, y, beta)))
    sq_sum(W, "norm of the residual", R1, Rr)

    def expand(*t):
        Hd, qd, cc, yy, be, vv, rr = split(t)
        return (rr, be * be * vv - 2 * be * sum(yy[j] * cc[j] for j in range(k)) +
                sum(yy[i] * yy[j] * qq(qd, i, j) for i in range(k) for j in range(k)))

    def reported(*t):
        Hd, qd, cc, yy, be, vv, rr = split(t)
        return [(rr, sum(u * u for u in resid(Hd, yy, be))), (vv, 1)]
    W.entails("history: final residual (reduced)", terms, lambda *t: gram(*t) + reported(*t), expand)
    W.eq("history: final residual", r2, lib.sumsq(Rr))

    def shrink(*t):
        Hd, qd, cc, yy, be, vv, rr = split(t)
        return (rr, be * be - sum(sum(col(Hd, i, j) * yy[j] for j in range(k)) ** 2 for i in range(k + 1)))
    W.entails("final residual by Pythagoras", terms, lambda *t: normal(*t) + reported(*t), shrink)
    W.entails("residual does not exceed the initial one", terms, lambda *t: [shrink(*t)],
              lambda *t: t[-1] <= t[-3] * t[-3])


def reflector(n):
    """A rational orthogonal matrix without zero entries."""
    from fractions import Fraction as F
    u = [F(1 + (i * i + i) % 5) for i in range(n)]
    s = sum(t * t for t in u)
    return [[(1 if i == j else 0) - 2 * u[i] * u[j] / s for j in range(n)] for i in range(n)]


def matrix(W, rows):
    out = W.zeros((len(rows), len(rows[0])))
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            out[i, j] = W.num(str(x))
    return out


def hessenberg(W, n, sym=False, wide=None):
    H = W.zeros((n, n))
    for j in range(n):
        for i in range(j + 1):
            if not sym or i == j:
                H[i, j] = W.real(f"h{i}{j}")
        if j + 1 < n:
            H[j + 1, j] = W.positive(f"s{j}")
            if sym:
                H[j, j + 1] = H[j + 1, j]
    return H


def as_map(W, G, M, parts=1):
    """TTLinearMapSum of `parts` one-mode MPOs with matrix M (out, in)."""
    n = len(M)
    cores = []
    rest = M
    for k in range(parts - 1):
        P = lib.arr(W, f"part{k}", (n, n), True)
        cores.append(P)
        rest = rest - P
    cores.append(rest)
    return G.TTLinearMapSum([G.MPO([np.transpose(c).reshape(1, n, n, 1).copy()]) for c in cores])


def go_hess(W):
    """Any system whose Krylov basis is the (dense, rational) orthonormal Q:
    A = Q H Q^T with H any unreduced upper Hessenberg matrix, R0 = beta Q e0."""
    p = W.p
    n, maxiter, sym = p["n"], p["k"], p.get("sym", False)
    G = W.load("tt_sketch.tt_gmres")
    Q = matrix(W, reflector(n))
    H = hessenberg(W, n, sym)
    beta = W.positive("beta")
    PA = Q @ H @ Q.T
    r = Q[:, 0] * beta
    X0 = W.zeros((n,))
    kw = {}
    if p.get("x0"):
        X0 = lib.arr(W, "x0", (n,), p["x0"] == "const")
        kw["x0"] = tt_of(W, X0)
    M = PA
    if p.get("precond"):
        # preconditioned operator P^-1 A = Q H Q^T
        P, Pi = unimodular(W, n)
        M = P @ PA
        kw["precond"] = stub_precond(W, G, Pi)
        r = P @ r
    b = M @ X0 + r
    A = as_map(W, G, M, p.get("parts", 1))
    B = tt_of(W, b)
    W.assume(lib.sumsq(b) > 0)
    tol = W.real("tol") if p.get("tol") else W.num(0)
    x, h = G.tt_sum_gmres(A, B, max_rank=p.get("max_rank", 2), tolerance=tol, maxiter=maxiter,
                          rounding_method=p["method"], symmetric=sym, save_basis=True, **kw)
    X = dense(x)
    rn = list(h["residual_norm"])
    bn = B.norm()
    k = len(rn) - 1
    W.true("at least one and at most maxiter iterations", 1 <= k <= maxiter)
    for j in range(1, k):
        W.true(f"goes on after iteration {j} only if the tolerance is not met", rn[j] >= tol)
    if k < maxiter:
        W.true("stops early only if the tolerance is met", rn[k] < tol)
    y = list(h["y"])
    W.true("one coefficient and one basis vector per iteration", len(h["nu_list"]) == k == len(y))
    W.true("one rank per residual", len(h["rank"]) == k + 1)
    W.eq("reported initial residual", rn[0] * bn, beta)
    # the iterate lies in x0 + Krylov space: X - X0 = Q c with c_k.. = 0
    c = Q.T @ (X - X0)
    for i in range(n):
        W.lemma(f"iterate is x0 + the combination of the basis ({i})", c[i], y[i] if i < k else W.num(0))
    e = [(beta if i == 0 else 0) - sum(H[i, j] * y[j] for j in range(k)) for i in range(k + 1)]
    for j in range(k):
        W.lemma(f"minimal residual: orthogonal to A K ({j})", sum(H[i, j] * e[i] for i in range(min(j + 2, k + 1))), W.num(0))
    R1 = PA @ (X0 - X) + Q[:, 0] * beta
    W.eq("reported residual", rn[k] * bn, W.sqrt_(sum(t * t for t in e)))
    W.eq("residual of the iterate", Q.T @ R1, np.array(e + [W.num(0)] * (n - k - 1)))


def unimodular(W, n):
    """A matrix with determinant 1 and its inverse."""
    L, Li = W.zeros((n, n)), W.zeros((n, n))
    for i in range(n):
        L[i, i] = Li[i, i] = W.num(1)
        if i:
            L[i, i - 1] = W.num(2)
    for i in range(n):
        for j in range(i):
            Li[i, j] = W.num((-2) ** (i - j))
    return L, Li


def stub_precond(W, G, Pi):
    n = len(Pi)
    C = np.transpose(Pi).reshape(1, n, n, 1).copy()
    mpo = G.MPO([C])

    class Precond(G.TTPrecond):
        def __init__(self):
            self.in_shape = self.out_shape = (n,)

        def backward_call(self, other):
            return mpo(other)

        __call__ = backward_call
    return Precond()


def go_solved(W):
    """A x0 = b already: x0 is returned, with residual 0 and no iteration."""
    p = W.p
    shape = p["shape"]
    G, A, M = setup(W, shape, p["nops"], const=True)
    X0 = lib.arr(W, "x0", shape)
    b = tt_of(W, ref_apply(M, X0))
    x, h = G.tt_sum_gmres(A, b, max_rank=p.get("rank", 4), x0=tt_of(W, X0), rounding_method=p["method"], maxiter=3)
    if not W.symbolic and len(h["residual_norm"]) > 1:
        return        # rounding errors make the residual nonzero
    W.eq("initial value returned", dense(x), X0)
    rn = list(h["residual_norm"])
    W.true("one residual", len(rn) == 1)
    W.eq("reported residual", rn[0], W.num(0))


def go_errors(W):
    p = W.p
    G = W.load("tt_sketch.tt_gmres")
    T = W.load("tt_sketch.tensor")
    n, out, bs, xs = p["n"], p["out"], p["b"], p["xs"]

    def maps():
        return G.TTLinearMapSum([G.MPO(mpo_cores(W, "A", n, out, 1, True))])

    def call():
        kw = {"x0": T.TensorTrain(lib.tt_cores(W, "x0", xs, (1,) * (len(xs) - 1)))} if xs else {}
        b = T.TensorTrain(lib.tt_cores(W, "b", bs, (1,) * (len(bs) - 1)))
        return G.tt_sum_gmres(maps(), b, max_rank=2, maxiter=1, **kw)
    W.raises("rejects shapes that do not match", ValueError, call)


def go_ranks(W):
    """Shape, rank bounds and number of iterations of the result."""
    p = W.p
    shape = p["shape"]
    G, A, M = setup(W, shape, p["nops"], const=True)
    T = W.load("tt_sketch.tensor")
    b = T.TensorTrain(lib.tt_cores(W, "b", shape, p["rb"]))
    kw = dict(p["kw"])
    if p.get("x0"):
        kw["x0"] = T.TensorTrain(lib.tt_cores(W, "x0", shape, p["rb"]))
    x, h = G.tt_sum_gmres(A, b, maxiter=1, tolerance=W.num(0), **kw)
    mr = p["max"]
    W.true("shape", tuple(x.shape) == tuple(shape))
    W.true("cores fit together", [c.shape for c in x.cores] == [
        (a, n, c) for a, n, c in zip((1,) + tuple(x.rank), shape, tuple(x.rank) + (1,))])
    W.true("rank bound", all(r <= m for r, m in zip(x.rank, mr)))
    W.true("one residual per iteration", len(h["residual_norm"]) in (1, 2))


def scenarios(tier):
    kr = {"feas": "linear", "root_terms": 12}

    def krylov(n, k, method, **kw):
        tag = "/".join(f"{a}={b}" for a, b in kw.items())
        return Scenario(f"krylov/{n}/{k}/{method}/{tag}", go_hess, kr, n=n, k=k, method=method, tol=True, **kw)
    big = tier == "thorough"
    for n, k in ((2, 1), (3, 2), (4, 3), (5, 4)) + (((6, 5), (5, 2), (6, 3)) if big else ()):
        for m in ("exact", "pairwise"):
            yield krylov(n, k, m)
            if n == 4 or big:
                yield krylov(n, k, m, x0="const")
                yield krylov(n, k, m, x0="const", parts=3)
                yield krylov(n, k, m, sym=True)
    for n, k in ((2, 1), (3, 2), (3, 1)) + (((4, 3), (4, 2)) if big else ()):
        yield krylov(n, k, "pairwise", x0="sym", parts=2)
        yield krylov(n, k, "exact", x0="sym")
    for n, k in ((4, 3), (5, 4)) + (((6, 5),) if big else ()):
        yield krylov(n, k, "pairwise", x0="const", sym=True)
    for n, k in ((2, 1), (3, 2), (4, 3)) + (((5, 4),) if big else ()):
        for m in ("exact", "pairwise"):
            yield krylov(n, k, m, precond=True)
            yield krylov(n, k, m, x0="const", precond=True, parts=2)
    for x0 in (False, True):
        for m in ("exact", "pairwise"):
            for nops in (1, 2):
                yield Scenario(f"steps/(2,)/1/{x0}/{m}/{nops}", go_steps, {"feas": "linear"}, shape=(2,),
                               nops=nops, x0=x0, method=m, k=1, tol=False)
    for m in ("exact", "pairwise"):
        yield Scenario(f"steps/(2,)/x0 is b/{m}", go_steps, {"feas": "linear"}, shape=(2,), nops=1, x0="b", const=True,
                       method=m, k=1, tol=False)
    for sh in ((2,), (3,)) + (((1, 2), (2, 1)) if big else ()):
        for m in ("exact", "pairwise"):
            for nops in (1, 2):
                yield Scenario(f"solved/{sh}/{m}/{nops}", go_solved, shape=sh, method=m, nops=nops)
    for n, out, b, xs in (((2, 2), (2, 3), (2, 2), None), ((2, 2), (2, 3), (2, 3), None),
                          ((2, 3), (2, 2), (2, 2), (2, 3)), ((2, 2), (2, 2), (2, 3), None),
                          ((2, 2), (2, 2), (2, 2), (2, 3)), ((2, 2), (2, 2), (2, 2), (3, 2)),
                          ((2, 2), (2, 2), (2, 2, 2), None), ((2, 2), (2, 2), (4,), None)):
        yield Scenario(f"mismatch/{n}/{out}/{b}/{xs}", go_errors, n=n, out=out, b=b, xs=xs)
    for m in ("exact", "pairwise"):
        for kw, mx in (({"max_rank": 1}, (1,)), ({"max_rank": 2}, (2,)),
                       ({"max_rank": 2, "final_round_rank": 1}, (1,)),
                       ({"max_rank": 1, "final_round_rank": 2}, (2,)),
                       ({"max_rank": 2, "rounding_method_final": "exact", "final_round_rank": 1}, (1,))):
            for x0 in ((False, True) if big or m == "exact" else (bool(mx[0] > 1),)):
                yield Scenario(f"ranks/{m}/{kw}/{x0}", go_ranks, {"feas": "linear"}, shape=(2, 2), nops=2, rb=(1,), x0=x0,
                               kw=dict(kw, rounding_method=m), max=mx)
