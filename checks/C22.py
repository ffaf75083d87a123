"""C22: matricisations, products with pseudo-inverses, projectors and utility tensors."""
import itertools

import numpy as np

from symtt.core import Inconclusive
from symtt.engine import Scenario
from . import lib

PROPERTY = "C22"
BOUNDS = {
    "quick": "arrays of order 1-4 with modes of size 1-4 (all entries symbolic), every mode and every ordered set of modes, "
             "matrices up to 3x3 for products with pseudo-inverses and projectors; Hilbert tensors up to 4^3 / 2^5, "
             "square-root tensors with symbolic interval ends up to order 4, power-decay tensors up to 3x3x2",
    "thorough": "as quick, order up to 5 and larger matrices"}
ASSUMPTIONS = ["exact real arithmetic; SVD and pseudo-inverse satisfy their defining equations",
               "square-root and power-decay tensors: the un-normalised tensor is not zero"]
LIMIT = {"quick": 120, "thorough": 500}


def lin(idx, shape):
    k = 0
    for i, n in zip(idx, shape):
        k = k * n + i
    return k


def go_mat(W):
    """Every entry sits where the definition puts it, and can be brought back."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    U = W.load("tt_sketch.utils")
    A = W.array("A", shape)
    A0 = A.copy()

    def ref(modes, both):
        rest = [i for i in range(d) if i not in modes]
        ls, rs = [shape[i] for i in modes], [shape[i] for i in rest]
        out = W.zeros(tuple(ls) + (int(np.prod(rs, dtype=int)),))
        for ix in itertools.product(*[range(n) for n in shape]):
            out[tuple(ix[i] for i in modes) + (lin([ix[i] for i in rest], rs),)] = A0[ix]
        return out.reshape((-1 if ls or rs else 1, out.shape[-1])) if both else out

    for mode in range(d):
        M = U.matricize(A, mode)
        W.eq(f"matricize {mode}", M, ref((mode,), False))
        W.eq(f"matricize {mode}, matrix", U.matricize(A, mode, mat_shape=True), ref((mode,), True))
        W.eq(f"dematricize {mode}", U.dematricize(M, mode, shape), A0)
        W.eq(f"dematricize {mode}, list shape", U.dematricize(M, mode, list(shape)), A0)
        B = W.array(f"B{mode}", M.shape)
        W.eq(f"matricize dematricize {mode}", U.matricize(U.dematricize(B.copy(), mode, shape), mode), B)
        W.eq(f"reverse right modes {mode}", U.reverse_right_modes(A, mode),
             np.transpose(A0, tuple(range(mode + 1)) + tuple(range(mode + 1, d))[::-1]))
    for k in range(0, d + 1):
        for modes in itertools.permutations(range(d), k):
            W.eq(f"matricize {modes}", U.matricize(A, modes), ref(modes, False))
            if k:
                W.eq(f"matricize {modes}, matrix", U.matricize(A, list(modes), mat_shape=True), ref(modes, True))
    for k in range(1, d + 1):
        W.eq(f"matricize range({k})", U.matricize(A, range(k), mat_shape=True), ref(tuple(range(k)), True))
    W.eq("argument unchanged", A, A0)


def go_pinv(W):
    p = W.p
    U = W.load("tt_sketch.utils")
    k, (m, n) = p["k"], p["shape"]
    B = W.array("B", (m, n))
    A = W.array("A", (k, n))
    C = W.array("C", (m, k))
    A0, B0, C0 = A.copy(), B.copy(), C.copy()
    P = W.pinv(B)
    W.eq("right_mul_pinv", U.right_mul_pinv(A, B), A0 @ P)
    W.eq("left_mul_pinv", U.left_mul_pinv(B, C), P @ C0)
    W.eq("arguments unchanged", np.concatenate([A.reshape(-1), B.reshape(-1), C.reshape(-1)]),
         np.concatenate([A0.reshape(-1), B0.reshape(-1), C0.reshape(-1)]))


def go_proj(W):
    p = W.p
    U = W.load("tt_sketch.utils")
    n, r = p["shape"]
    X = W.array("X", (n, r))
    X0 = X.copy()
    if p["oblique"]:
        Y = W.array("Y", (n, p.get("s", r)))
        P = U.projector(X, Y)
    else:
        Y = X
        P = U.projector(X)
    W.true("square", P.shape == (n, n))
    W.eq("idempotent", P @ P, P)
    if Y.shape == X.shape:
        W.eq("keeps the range", P @ X0, X0)
        W.eq("annihilates the complement", Y.T @ P, Y.T)
    if not p["oblique"]:
        W.eq("symmetric", P, P.T)
    # columns of P are in the range of X, rows in the range of Y
    v = W.array("v", (n,))
    W.given("v is orthogonal to X", X0.T @ v, W.zeros((r,)))
    W.eq("range of P", v @ P, W.zeros((n,)))
    u = W.array("u", (n,))
    W.given("u is orthogonal to Y", Y.T @ u, W.zeros((Y.shape[1],)))
    W.eq("kernel of P", P @ u, W.zeros((n,)))
    W.eq("argument unchanged", X, X0)


def go_hilbert(W):
    p = W.p
    d, n = p["d"], p["n"]
    H = W.load("tt_sketch.utils").hilbert_tensor(d, n)
    W.true("shape", tuple(H.shape) == (n,) * d)
    R = W.zeros((n,) * d)
    for ix in itertools.product(range(n), repeat=d):
        R[ix] = W.num(1) / W.num(1 + sum(ix))
    if W.symbolic:      # numpy divides machine numbers here
        W.true("entries", bool(np.all(np.abs(np.asarray(H, float) - np.asarray(R, float)) < 1e-12)))
    else:
        W.eq("entries", H, R)


def go_sqrt(W):
    p = W.p
    shape = p["shape"]
    f = W.load("tt_sketch.utils").sqrt_tensor
    if p.get("ab") is None:     # the defaults
        X = f(shape)
        W.true("shape", tuple(X.shape) == tuple(shape))
        W.eq("defaults", X, f(shape, a=-0.2, b=2))
        return
    if p["ab"] == "sym":
        a, b = W.real("a"), W.real("b")
        X = f(shape, a=a, b=b)
    else:
        a, b = (W.num(v) for v in p["ab"])
        X = f(shape, a, b)
    W.true("shape", tuple(X.shape) == tuple(shape))
    vals = []
    for ix in itertools.product(*[range(n) for n in shape]):
        s = W.num(0)
        for i, n in zip(ix, shape):
            s = s + a + ((b - a) * W.num(i) / W.num(n - 1) if n > 1 else W.num(0))
        vals.append(abs(s))
    tot = sum(vals[1:], vals[0])
    W.eq("unit norm", np.sum(X * X), W.num(1))
    for k, ix in enumerate(itertools.product(*[range(n) for n in shape])):
        W.true("entries are not negative", X[ix] >= 0)
        W.eq(f"entry {k}", X[ix] * X[ix] * tot, vals[k])


def unfold(A, mode):
    return np.moveaxis(A, mode, 0).reshape(A.shape[mode], -1)


def go_power(W):
    p = W.p
    shape, pw = p["shape"], p["pow"]
    f = W.load("tt_sketch.utils").power_decay_tensor
    kw = {} if pw is None else {"pow": pw}
    A = f(shape, seed=p["seed"], **kw)
    pw = 2.0 if pw is None else pw
    W.true("shape", tuple(A.shape) == tuple(shape))
    W.eq("same seed, same tensor", f(shape, seed=p["seed"], **kw), A)
    M = unfold(A, len(shape) - 1)
    k = min(M.shape)
    if not W.symbolic:
        sv = np.linalg.svd(np.asarray(M, float), compute_uv=False)
        W.true("largest singular value is one", abs(sv[0] - 1) < 1e-9)
        W.true("singular values decay", all(v <= float(j) ** -pw + 1e-9 for j, v in enumerate(sv, 1)))
        return
    # the last unfolding is U diag(t) V with U, V orthonormal, t_1 = 1, t_j <= j^-pow
    U, S, V = W.last_svd
    if U.shape[0] != M.shape[0]:
        raise Inconclusive("the last decomposition is not one of the last unfolding")
    forms = [[1 / float(j) ** pw for j in range(1, k + 1)], [float(j) ** -pw for j in range(1, k + 1)],
             [(1 / float(j)) ** pw for j in range(1, k + 1)]]
    forms = [f for i, f in enumerate(forms) if f not in forms[:i]]

    def factors(f):
        t = W.zeros((k,))
        for j in range(k):
            t[j] = S[j] / S[0] * W.num(f[j])
        W.eq("the last unfolding has the prescribed singular values", M, (U * t) @ V)
        return t
    for f in forms[1:]:
        if W.attempt(lambda: factors(f)):
            weights = f
            break
    else:
        weights = forms[0]
    t = factors(weights)
    W.eq("largest singular value is one", t[0], W.num(1))
    for j in range(k):
        q, b = S[j] / S[0], W.num(float(j + 1) ** -pw + 1e-12)
        W.entails("quotient", [q, S[j], S[0]], lambda q, s, s0: [(q * s0, s), W.num(0) <= s, s <= s0, W.num(0) < s0],
                  lambda q, s, s0: q <= 1)
        W.entails("quotient", [q, S[j], S[0]], lambda q, s, s0: [(q * s0, s), W.num(0) <= s, W.num(0) < s0],
                  lambda q, s, s0: q >= 0)
        f = weights[j]
        W.entails("singular values decay", [t[j], q], lambda t, q: [(t, q * W.num(f)), q <= 1], lambda t, q: t <= b)
        W.entails("singular values are not negative", [t[j], q], lambda t, q: [(t, q * W.num(f)), q >= 0], lambda t, q: t >= 0)


def scenarios(tier):
    th = tier == "thorough"
    out = []

    def add(name, fn, opts=None, **p):
        out.append(Scenario(name, fn, opts=opts or {}, **p))

    shapes = [(1,), (3,), (2, 3), (3, 1), (4, 2), (2, 3, 4), (3, 1, 2), (1, 1, 1), (2, 2, 3, 2), (1, 3, 2, 1), (2, 1, 2, 2, 1), (1, 2, 1, 2, 1, 2)]
    if th:
        shapes += [(4, 3, 2), (2, 3, 2, 3), (3, 2, 4, 1), (2, 1, 3, 1, 2), (2, 3, 2, 2, 2)]
    for s in shapes:
        add(f"matricize/{'x'.join(map(str, s))}", go_mat, shape=s)
    for m, n in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)] + ([(2, 4), (4, 3), (4, 4)] if th else []):
        for k in (1, 2) + ((3,) if th else ()):
            add(f"mul_pinv/{m}x{n}/{k}", go_pinv, shape=(m, n), k=k)
    for n, r in [(1, 1), (2, 1), (3, 1), (2, 2), (3, 2)] + ([(4, 2), (3, 3), (4, 1)] if th else []):
        for ob in (False, True):
            add(f"projector/{n}x{r}/{'oblique' if ob else 'orth'}", go_proj, {"pinv": "fullrank"}, shape=(n, r), oblique=ob)
    for d, n in [(1, 1), (1, 4), (2, 3), (3, 2), (3, 4), (4, 3), (5, 2), (2, 1)] + ([(6, 3), (3, 7)] if th else []):
        add(f"hilbert/{d}/{n}", go_hilbert, d=d, n=n)
    for s in [(1,), (3,), (2, 2), (2, 3), (3, 1, 2), (2, 2, 3)] + ([(3, 3), (2, 3, 2, 2), (4, 3, 2)] if th else []):
        for ab in (None, "sym", ("0", "1"), ("-1", "1/2")):
            if ab == ("0", "1") and max(s) == 1:
                continue
            if ab == "sym" and int(np.prod(s)) > (8 if th else 4):
                continue
            add(f"sqrt/{'x'.join(map(str, s))}/{ab}", go_sqrt, shape=s, ab=ab)
    for s in [(2,), (1, 2), (2, 2), (2, 3), (3, 2), (2, 2, 2), (3, 1, 2)] + ([(3, 3), (2, 3, 2), (3, 2, 2)] if th else []):
        for pw in (None, 1.0, 3.0):
            for seed in (0, 17):
                if pw and seed:
                    continue
                add(f"power/{'x'.join(map(str, s))}/{pw}/{seed}", go_power, {"feas": "linear"}, shape=s, pow=pw, seed=seed)
    return out
