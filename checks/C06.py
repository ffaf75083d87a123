"""C06: orthogonal and HMT sketches are orthogonal projections onto the right ranges."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C06"
ASSUMPTIONS = ["exact real arithmetic; QR and least squares satisfy their defining equations",
               "exact recovery: the sketched unfoldings keep the rank of the tensor"]
BOUNDS = {"quick": "order 2..4, mode sizes 1..3, ranks 1..3, DRM cores given by the caller as copies, slices of larger maps and transposes; range condition for ranks <= 2",
          "thorough": "order 2..4, mode sizes 1..4, ranks 1..3"}


def run(W, t, p):
    S = W.load("tt_sketch.sketch")
    cls = lib.drm_cls(W, p["drm"])
    if p.get("given"):
        # maps handed in by the user: slices of larger maps, or transposes
        def drm(rank, right):
            rank = tuple(rank)
            if p["given"] == "T":
                return cls(rank[::-1], transpose=not right, shape=p["shape"][::-1], seed=5 + right).T
            big = cls(tuple(x + 2 for x in rank), transpose=right, shape=p["shape"], seed=5 + right)
            one = (1,) * len(rank)
            return big.slice(one, tuple(x + 1 for x in rank))
        if p["method"] == "hmt":
            right = drm(p["r"], True)
            return S.hmt_sketch(t, p["r"], drm=right), None, right
        left, right = drm(p["lr"], False), drm(p["rr"], True)
        return S.orthogonal_sketch(t, p["lr"], p["rr"], left_drm=left, right_drm=right), left, right
    if p["method"] == "hmt":
        tt, drm = S.hmt_sketch(t, p["r"], seed=7, drm_type=cls, return_drm=True)
        return tt, None, drm
    tt, left, right = S.orthogonal_sketch(t, p["lr"], p["rr"], seed=7, left_drm_type=cls,
                                          right_drm_type=cls, return_drm=True)
    return tt, left, right


def go(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 2), p.get("const", False))
    tt, left, right = run(W, t, p)
    r = p["r"] if p["method"] == "hmt" else p["lr"]
    from .C10 import closed_trim, left_orth
    want = closed_trim(shape, lib.ranks(r, d))
    W.true("shape", tuple(tt.shape) == shape)
    W.true("ranks", tuple(tt.rank) == want and tuple(C.shape[0] for C in tt.cores[1:]) == want
           and tuple(C.shape[2] for C in tt.cores[:-1]) == want, f"{tt.rank} != {want}")
    left_orth(W, "sketch", tt.cores)
    # last core is the projection of the tensor on the range of the other cores
    U = tt.cores[0][0]
    for C in tt.cores[1:-1]:
        U = np.tensordot(U, C, axes=([U.ndim - 1], [0]))
    U = U.reshape(-1, U.shape[-1])
    Xm = X.reshape(U.shape[0], -1)
    W.eq("last core is the projection of the tensor", tt.cores[-1][:, :, 0], U.T @ Xm)
    if p.get("range") is None:
        return
    # each basis contains the range prescribed by the sketch of the projected tensor
    Rm = lib.drm_matrices(W, right, shape)
    if left is not None:
        Lm = lib.drm_matrices(W, left, shape)
    P = W.eye(1)
    for mu in range(d - 1):
        n = shape[mu]
        nl = int(np.prod(shape[:mu], dtype=int))
        Xl = X.reshape(nl, -1)
        Z = (P.T @ Xl).reshape(P.shape[1] * n, -1) @ Rm[mu].reshape(Rm[mu].shape[0], -1).T
        if left is not None:
            om = lib.ref_omega(X, Lm, Rm, mu)
            Z = Z @ W.pinv(om)
        Q = tt.cores[mu].reshape(-1, tt.cores[mu].shape[2])
        W.eq(f"basis {mu} contains the sketched range", Q @ (Q.T @ Z), Z)
        P = (P @ tt.cores[mu].reshape(P.shape[1], -1)).reshape(nl * n, -1)


def go_recover(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 1), p.get("const", False))
    tt, left, right = run(W, t, p)
    Y = lib.ref_tt(tt.cores)
    if p.get("generic"):
        # data for which the sketch of the first unfolding is not zero
        R0 = lib.drm_matrices(W, right, shape)[0]
        Z = X.reshape(shape[0], -1) @ R0.reshape(R0.shape[0], -1).T
        W.eq("the tensor is recovered (times the non-zero sketch)", Y * Z[0, 0], X * Z[0, 0])
    else:
        W.eq("the tensor is recovered", Y, X)


def go_user(W):
    """User supplied DRMs give the same result; wrong ranks are rejected."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 2))
    tt, left, right = run(W, t, p)
    if p["method"] == "hmt":
        again = S.hmt_sketch(t, tuple(right.rank[::-1]), drm=right)
        W.raises("wrong rank is rejected", (ValueError,), lambda: S.hmt_sketch(
            t, tuple(x + 1 for x in right.rank[::-1]), drm=right))
    else:
        again = S.orthogonal_sketch(t, tuple(left.rank), tuple(right.rank[::-1]), left_drm=left, right_drm=right)
        W.raises("wrong rank is rejected", (ValueError,), lambda: S.orthogonal_sketch(
            t, tuple(x + 1 for x in left.rank), tuple(x + 1 for x in right.rank[::-1]),
            left_drm=left, right_drm=right))
        W.raises("ranks in the wrong order are rejected", (ValueError,),
                 lambda: S.orthogonal_sketch(t, p["rr"], p["lr"], seed=7))
    for k, (a, b) in enumerate(zip(again.cores, tt.cores)):
        W.eq(f"user DRM: core {k}", a, b)


def scenarios(tier):
    big = tier == "thorough"
    fmts = ["dense", "tt", "cp", "tucker", "sparse:3", "dense+tt", "tt+sparse:2+cp"]
    T = "TensorTrainDRM"
    for f in fmts:
        for sh, r in (((2, 3), (2,)), ((2, 2, 3), (2, 2)), ((2, 1, 2), (3, 3)), ((2, 2, 2, 2), (2, 2, 2))) + \
                ((((3, 2, 3), (3, 3)), ((2, 2, 1, 3), (2, 3, 2))) if big else ()):
            yield Scenario(f"hmt/{f}/{sh}", go, {"timeout_ms": 8000}, method="hmt", drm=T, fmt=f, shape=sh, r=r)
            yield Scenario(f"orth/{f}/{sh}", go, {"timeout_ms": 8000}, method="orthogonal", drm=T, fmt=f, shape=sh,
                           lr=r, rr=tuple(x + 1 for x in r))
    for drm, f in (("DenseGaussianDRM", "dense"), ("DenseGaussianDRM", "tt"), ("DenseGaussianDRM", "sparse:3"),
                   ("SparseGaussianDRM", "sparse:4"), ("SparseSignDRM", "sparse:4"), (T, "dense"), (T, "cp"),
                   (T, "tucker"), (T, "dense+tt"), (T, "rep~tt"), (T, "nest~dense"), ("DenseGaussianDRM", "rep~dense"),
                   ("SparseGaussianDRM", "rep~sparse:3")):
        for sh, r in (((2, 3), (2,)), ((2, 2, 2), (1, 2)), ((3, 2), (1,)), ((2, 2, 2), (2, 1))):
            yield Scenario(f"range-hmt/{drm}/{f}/{sh}/{r}", go, method="hmt", drm=drm, fmt=f, shape=sh, r=r, rank=1, range=1)
            yield Scenario(f"range-orth/{drm}/{f}/{sh}/{r}", go, method="orthogonal", drm=drm, fmt=f, shape=sh,
                           lr=r, rr=tuple(x + 1 for x in r), rank=1, range=1)
        yield Scenario(f"user-hmt/{drm}/{f}", go_user, method="hmt", drm=drm, fmt=f, shape=(2, 2, 2), r=(1, 2), rank=1)
        yield Scenario(f"user-orth/{drm}/{f}", go_user, method="orthogonal", drm=drm, fmt=f, shape=(2, 2, 2),
                       lr=(1, 2), rr=(2, 3), rank=1)
    for given in ("slice", "T"):
        for drm, f in (("DenseGaussianDRM", "dense"), ("DenseGaussianDRM", "sparse:3"), ("SparseGaussianDRM", "sparse:4"),
                       (T, "tt"), (T, "cp+sparse:2"), ("SparseSignDRM", "sparse:3")):
            if given == "slice" and drm == "SparseSignDRM":
                continue
            for sh, r in (((2, 3), (2,)), ((2, 2, 2), (1, 2)), ((2, 3, 2), (2, 1))):
                yield Scenario(f"{given}-hmt/{drm}/{f}/{sh}/{r}", go, method="hmt", drm=drm, fmt=f, shape=sh, r=r, rank=1,
                               range=1, given=given)
                yield Scenario(f"{given}-orth/{drm}/{f}/{sh}/{r}", go, method="orthogonal", drm=drm, fmt=f, shape=sh,
                               lr=r, rr=tuple(x + 1 for x in r), rank=1, range=None if drm == T and sh == (2, 3, 2) else 1, given=given)
    fr = {"pinv": "fullrank"}
    G = "DenseGaussianDRM"
    for f in ("tt", "cp", "tucker", "sparse:1"):
        yield Scenario(f"recover-hmt/{f}", go_recover, method="hmt", drm=T, fmt=f, shape=(2, 3),
                       r=(1,), rank=1, generic=True)
        yield Scenario(f"recover-orth/{f}", go_recover, fr, method="orthogonal", drm=T, fmt=f, shape=(2, 2),
                       lr=(1,), rr=(2,), rank=1)
    for f in ("dense", "tt", "cp", "tucker", "sparse:2"):
        for sh, r in (((2, 2, 1, 2, 2), 1), ((1, 2, 1, 2, 1, 2), 1)):
            rr = (r,) * (len(sh) - 1)
            yield Scenario(f"long-hmt/{f}/{sh}", go, {"timeout_ms": 8000}, method="hmt", drm=T, fmt=f, shape=sh, r=rr, rank=1)
            yield Scenario(f"long-orth/{f}/{sh}", go, {"timeout_ms": 8000}, method="orthogonal", drm=T, fmt=f, shape=sh, lr=rr,
                           rr=tuple(x + 1 for x in rr), rank=1)
    cst = {"rng": "const"}
    for f, rk, r in (("tt", 1, (1, 1)), ("tt", 2, (2, 2)), ("dense", 2, (2, 2)), ("sparse:1", 1, (1, 1)),
                     ("sparse:2", 1, (2, 2))):
        yield Scenario(f"recover-const/hmt/{f}/{rk}", go_recover, cst, method="hmt", drm=G, fmt=f, shape=(2, 2, 2),
                       r=r, rank=rk, const=True)
        if max(r) > 1:
            continue       # rank-2 pseudo-inverses: outside the solver's reach (DESIGN.md)
        yield Scenario(f"recover-const/orth/{f}/{rk}", go_recover, dict(fr, rng="const"), method="orthogonal", drm=G, fmt=f,
                       shape=(2, 2, 2), lr=r, rr=tuple(x + 1 for x in r), rank=rk, const=True)
