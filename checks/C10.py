"""C10: TT orthogonalisation, rounding and singular values."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C10"
ASSUMPTIONS = ["exact real arithmetic; QR and SVD satisfy their defining equations"]
BOUNDS = {"quick": "order 2..4, mode sizes 1..3, TT ranks 1..2 (symbolic cores)",
          "thorough": "order 2..5, mode sizes 1..4, TT ranks 1..3"}


def unf(X, mu):
    return X.reshape(int(np.prod(X.shape[:mu + 1])), -1)


def left_orth(W, label, cores):
    for k, C in enumerate(cores[:-1]):
        M = C.reshape(-1, C.shape[2])
        W.eq(f"{label}: core {k} is left-orthonormal", M.T @ M, W.eye(M.shape[1]))


def right_orth(W, label, cores):
    for k, C in enumerate(cores[1:]):
        M = C.reshape(C.shape[0], -1)
        W.eq(f"{label}: core {k + 1} is right-orthonormal", M @ M.T, W.eye(M.shape[0]))


def same_tensor(W, label, tt, X):
    W.true(label + ": shape", tuple(tt.shape) == X.shape)
    W.true(label + ": ranks agree with cores",
           tuple(tt.rank) == tuple(C.shape[0] for C in tt.cores[1:])
           and all(a.shape[2] == b.shape[0] for a, b in zip(tt.cores, tt.cores[1:]))
           and tt.cores[0].shape[0] == 1 and tt.cores[-1].shape[2] == 1)
    W.eq(label + ": same tensor", lib.ref_tt(tt.cores), X)


def go_orth(W):
    p = W.p
    t, X = lib.make(W, "tt", "X", p["shape"], p["rank"], p.get("const", False))
    o = t.orthogonalize()
    left_orth(W, "orthogonalize", o.cores)
    same_tensor(W, "orthogonalize", o, X)
    W.true("orthogonalize: ranks do not grow",
           all(a <= b for a, b in zip(o.rank, t.rank)))


def go_norm(W):
    p = W.p
    t, X = lib.make(W, "tt", "X", p["shape"], p["rank"], p.get("const", False))
    lib.orth_norm_lemma(W, t.orthogonalize().cores, X)
    n = t.norm()
    W.eq("norm squared is the sum of squares", n * n, lib.sumsq(X))
    W.le("norm is not negative", W.num(0), n)


def go_round(W):
    """Rounding: orthonormal cores, rank bound, orthogonal projection; exact if
    nothing is cut off."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    t, X = lib.make(W, "tt", "X", shape, p["rank"], p.get("const", False))
    if p.get("pre"):
        t = t.orthogonalize()
        y = t.round(p.get("eps"), p.get("max_rank"), orthogonalized=True)
    else:
        y = t.round(p.get("eps"), p.get("max_rank"))
    W.true("round: shape", tuple(y.shape) == shape)
    W.true("round: ranks agree with cores",
           tuple(y.rank) == tuple(C.shape[0] for C in y.cores[1:])
           and all(a.shape[2] == b.shape[0] for a, b in zip(y.cores, y.cores[1:]))
           and y.cores[0].shape[0] == 1 and y.cores[-1].shape[2] == 1)
    bound = lib.ranks(p["max_rank"], d) if p.get("max_rank") is not None else lib.ranks(p["rank"], d)
    W.true("round: rank bound", all(1 <= a <= b for a, b in zip(y.rank, bound)))
    U = W.load("tt_sketch.utils")
    W.true("round: ranks are attainable", all(
        a <= b for a, b in zip(y.rank, closed_trim(shape, lib.ranks(p["rank"], d)))))
    right_orth(W, "round", y.cores)
    Y = lib.ref_tt(y.cores)
    cut = p.get("max_rank") is not None or p.get("eps")
    if not cut:
        W.eq("round: exact without truncation", Y, X)
    else:
        if p.get("proj", True):
            W.eq("round: error is orthogonal to the result", np.sum((X - Y) * Y), W.num(0))
        if d == 2:
            W.eq("round: rows are projected (best approximation from that space)",
                 (X - Y) @ (y.cores[1].reshape(y.cores[1].shape[0], -1)).T,
                 W.zeros((shape[0], y.rank[0])))
            # the kept directions are singular directions of X
            V = y.cores[1].reshape(y.cores[1].shape[0], -1)
            F = y.cores[0][0]
            G = F.T @ F
            for a in range(G.shape[0]):
                for b in range(G.shape[0]):
                    if a != b:
                        W.eq("round: kept directions are singular directions", G[a, b], W.num(0))
            W.eq("round: singular subspace", X.T @ F, V.T @ G)

    def tails():
        err2 = float(lib.sumsq(X - Y))
        tot = float(lib.sumsq(X))
        bnd, low = 0.0, 0.0
        for mu in range(d - 1):
            s = np.linalg.svd(unf(np.asarray(X, float), mu), compute_uv=False)
            tail = float(np.sum(s[y.rank[mu]:] ** 2))
            bnd, low = bnd + tail, max(low, tail)
        W.true("round: quasi-optimal error", low - 1e-9 * tot <= err2 <= bnd + 1e-9 * tot,
               f"error^2 {err2:.3g} tails {bnd:.3g}")
        if not p.get("eps"):
            W.true("round: no rank is cut without need",
                   all(a >= c for a, c in zip(y.rank, closed_trim(shape, tuple(
                       min(b, r) for b, r in zip(bound, lib.ranks(p["rank"], d)))))))
    W.concrete_only(tails)


def closed_trim(dims, ranks):
    """Largest ranks <= ranks reachable: min over bonds j of r_j * dims between."""
    full = (1,) + tuple(ranks) + (1,)
    out = []
    for i in range(1, len(full) - 1):
        best = full[i]
        for j in range(len(full)):
            a, b = min(i, j), max(i, j)
            best = min(best, full[j] * int(np.prod(dims[a:b], dtype=object)) if a < b else full[i])
        out.append(int(best))
    return tuple(out)


def go_best(W):
    """Matrices: truncation cuts exactly the smallest singular values."""
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, "tt", "X", shape, p["rank"], const=p.get("const", False))
    sv = t.svdvals()[1]
    y = t.round(p.get("eps"), p.get("max_rank"))
    e2 = lib.sumsq(X - lib.ref_tt(y.cores))
    r = y.rank[0]
    if p.get("eps") is None:
        W.eq("squared error is the sum of the cut squared singular values", e2,
             np.sum(sv[r:] * sv[r:]) if r < len(sv) else W.num(0))
    else:
        for k in range(1, len(sv)):
            if k < r:
                W.le("kept singular values are above the tolerance", sv[0] * W.num(p["eps"]), sv[k])
            elif p.get("max_rank") is None:
                W.le("cut singular values are below the tolerance", sv[k], sv[0] * W.num(p["eps"]))


def go_svdvals(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    t, X = lib.make(W, "tt", "X", shape, p["rank"], p.get("const", False))
    lib.orth_norm_lemma(W, t.orthogonalize().cores, X)
    sv = t.svdvals()
    W.true("svdvals: one list per mode", len(sv) == d)
    for mu, s in enumerate(sv):
        for a in range(len(s)):
            W.le("svdvals are not negative", W.num(0), s[a])
            if a:
                W.le("svdvals are sorted", s[a], s[a - 1])

    def oracle():
        for mu in range(1, d):
            ref = np.linalg.svd(unf(np.asarray(X, float), mu - 1), compute_uv=False)
            s = np.zeros(max(len(ref), len(sv[mu])))
            s[:len(sv[mu])] = sv[mu]
            r = np.zeros(len(s))
            r[:len(ref)] = ref
            W.eq("svdvals are those of the unfolding", s, r)
    W.concrete_only(oracle)
    for mu in range(1, d) if p.get("sums", True) else ():
        W.eq(f"svdvals: sum of squares, unfolding {mu}", np.sum(sv[mu] * sv[mu]), lib.sumsq(X))
    if p.get("fourth"):
        for mu in range(1, d):
            M = unf(X, mu - 1)
            Cl = t.orthogonalize().cores[-1][:, :, 0]
            W.attempt(lambda: W.lemma("gram", M.T @ M, Cl.T @ Cl))
            W.eq(f"svdvals: sum of fourth powers, unfolding {mu}", np.sum(sv[mu] ** 4),
                 lib.sumsq(M @ M.T))


def go_again(W):
    shape = W.p["shape"]

    def look(label, t, X):
        o = t.orthogonalize()
        left_orth(W, label, o.cores)
        W.eq(f"{label}: orthogonalize", lib.ref_tt(o.cores), X)
        if len(shape) < 3:
            y = t.round(max_rank=4)
            W.eq(f"{label}: round", lib.ref_tt(y.cores), X)
    lib.again(W, look, "tt", shape, W.p["rank"])


def scenarios(tier):
    for sh, r in (((3,), ()), ((2, 2), 2), ((2, 1, 2), 1)):
        yield Scenario(f"again/{sh}", go_again, {"feas": "linear"}, shape=sh, rank=r)
    big = tier == "thorough"
    lin = {"feas": "linear"}
    cfgs = [((2, 2), 1), ((2, 2), 2), ((3, 2), 2), ((2, 3, 2), 2), ((2, 1, 2), (2, 1)),
            ((2, 2, 2, 2), 2), ((2, 2), 3), ((1, 2, 1), 2), ((2, 2, 2), (3, 4)), ((3,), ())]
    if big:
        cfgs += [((3, 3), 3), ((3, 2, 3), (3, 2)), ((2, 2, 2, 2, 2), 2), ((4, 2, 3), 2)]
    for shape, rank in cfgs:
        yield Scenario(f"orth/{shape}/{rank}", go_orth, shape=shape, rank=rank)
        yield Scenario(f"norm/{shape}/{rank}", go_norm, shape=shape, rank=rank)
    for shape, rank, mx, eps, pre in (
            ((2, 2), 1, None, None, False), ((2, 2), 2, None, None, False), ((3, 2), 2, 1, None, False),
            ((2, 3), 2, 1, None, True), ((2, 2), 2, None, 0.5, False), ((2, 3), 2, None, None, True),
            ((2, 2, 2), 1, None, None, False), ((2, 2, 2), 2, None, None, False),
            ((2, 2, 2), 2, 1, None, False), ((2, 2, 2), 2, (2, 1), None, False),
            ((2, 2, 2), 2, (1, 2), None, True), ((2, 2, 2), 2, None, 0.25, False),
            ((2, 1, 2), 2, 2, None, False), ((3,), (), None, 0.5, False), ((2,), (), 1, None, True)):
        yield Scenario(f"round/{shape}/{rank}/{mx}/{eps}/{pre}", go_round, lin, shape=shape,
                       rank=rank, max_rank=mx, eps=eps, pre=pre)
    for shape, rank in (((2, 2, 2, 2, 2), 2), ((1, 2, 1, 2, 1, 2), 2)):
        yield Scenario(f"long/orth/{shape}/{rank}", go_orth, shape=shape, rank=rank)
        yield Scenario(f"long/norm/{shape}/{rank}", go_norm, shape=shape, rank=rank)
    for shape, rank, mx, eps, pre in (((2, 1, 2, 1, 2), 2, 1, None, False), ((2, 2, 2, 2), 1, None, 0.5, False),
                                      ((2, 1, 1, 2, 1, 1), 2, None, 0.25, False), ((2, 1, 2, 1, 2), 2, (1, 2, 1, 2), None, False),
                                      ((1, 2, 1, 2, 1, 2), 2, (2, 1, 2, 2, 1), 0.5, False)):
        yield Scenario(f"long/round/{shape}/{rank}/{mx}/{eps}/{pre}", go_round, lin, shape=shape,
                       rank=rank, max_rank=mx, eps=eps, pre=pre, proj=rank == 1)
    for shape, rank, mx, eps in (((2, 2), 2, 1, None), ((3, 2), 2, 1, None), ((2, 2), 2, None, 0.5),
                                 ((3, 3), 3, None, 0.25), ((3, 3), 3, 2, 0.5), ((2, 3), 2, 2, None)):
        yield Scenario(f"best/{shape}/{rank}/{mx}/{eps}", go_best, lin, shape=shape, rank=rank,
                       max_rank=mx, eps=eps)
    for shape, rank in (((2, 2), 2), ((3, 2), 2), ((2, 2, 2), 1), ((2, 2, 2), 2), ((2, 3, 2), 2)):
        yield Scenario(f"svdvals/{shape}/{rank}", go_svdvals, dict(lin, svd_sums=2, redundant=True), shape=shape, rank=rank,
                       fourth=False)
    yield Scenario("svdvals4/(2, 2)", go_svdvals, dict(lin, svd_sums=4), shape=(2, 2), rank=2, sums=False, fourth=True)
    yield Scenario("svdvals4/(2, 2)c", go_svdvals, dict(lin, svd_sums=4), shape=(2, 2), rank=2, const=True, sums=False, fourth=True)
