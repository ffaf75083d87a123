"""C11: TT-SVD."""
import numpy as np

from symtt.engine import Scenario

from . import lib
from .C10 import closed_trim, left_orth, unf

PROPERTY = "C11"
ASSUMPTIONS = ["exact real arithmetic; SVD satisfies its defining equations"]
BOUNDS = {"quick": "order 2..7 (four modes larger than 1 at most), mode sizes 1..5, rank bounds 1..3, none and mixed (symbolic entries)",
          "thorough": "order 2..8 (five modes larger than 1 at most), mode sizes 1..6 (symbolic entries)"}


def go(W):
    p = W.p
    shape, rank = p["shape"], p["rank"]
    d = len(shape)
    t, X = lib.make(W, p["fmt"], "X", shape, 2, p.get("const", False))
    svd = W.load("tt_sketch.tt_svd").tt_svd
    y = svd(t) if rank is None else svd(t, rank)
    full = lib.ranks(rank, d) if rank is not None else tuple(int(np.prod(shape)) for _ in range(d - 1))
    want = closed_trim(shape, full)
    W.true("shape", tuple(y.shape) == shape)
    W.true("ranks", tuple(y.rank) == want and tuple(C.shape[2] for C in y.cores[:-1]) == want
           and y.cores[0].shape[0] == 1 and y.cores[-1].shape[2] == 1, f"{y.rank} {want}")
    W.true("tensor train", type(y).__name__ == "TensorTrain")
    left_orth(W, "tt_svd", y.cores)
    U = y.cores[0][0]
    for C in y.cores[1:-1]:
        U = np.tensordot(U, C, axes=([U.ndim - 1], [0]))
    U = U.reshape(-1, U.shape[-1])
    W.eq("last core is the projection of the tensor", y.cores[-1][:, :, 0], U.T @ X.reshape(U.shape[0], -1))
    Y = lib.ref_tt(y.cores)
    lossless = want == closed_trim(shape, tuple(int(np.prod(shape)) for _ in range(d - 1)))
    if lossless:
        W.eq("exact without truncation", Y, X)
    if p["fmt"] != "ndarray":
        W.eq("input unchanged", t.to_numpy(), X)

    def oracle():
        Xf = np.asarray(X, float)
        err2 = float(lib.sumsq(Xf - Y))
        tot = float(lib.sumsq(Xf))
        up = low = 0.0
        for mu in range(d - 1):
            s = np.linalg.svd(unf(Xf, mu), compute_uv=False)
            tail = float(np.sum(s[y.rank[mu]:] ** 2))
            up, low = up + tail, max(low, tail)
        W.true("quasi-optimal error", low - 1e-9 * tot <= err2 <= up + 1e-9 * tot,
               f"{low} {err2} {up}")
    W.concrete_only(oracle)


def go_best(W):
    """Matrices: the error is exactly the discarded singular values."""
    p = W.p
    shape, r = p["shape"], p["rank"]
    t, X = lib.make(W, "dense", "X", shape)
    y = W.load("tt_sketch.tt_svd").tt_svd(t, r)
    s = np.linalg.svd(np.asarray(X, float), compute_uv=False) if not W.symbolic else W.svdvals(X)
    Y = lib.ref_tt(y.cores)
    rest = s[y.rank[0]:]
    W.eq("squared error is the sum of the discarded squared singular values", lib.sumsq(X - Y),
         np.sum(rest * rest) if len(rest) else W.num(0))
    # kept directions are singular directions: X Xt U = U diag
    Q = y.cores[0][0]
    F = y.cores[1][:, :, 0]
    G = F @ F.T
    for a in range(G.shape[0]):
        for b in range(G.shape[0]):
            W.eq("kept directions are singular directions, largest first", G[a, b],
                 s[a] * s[a] if a == b else W.num(0))
    W.eq("singular subspace", X @ F.T, Q @ G)


def scenarios(tier):
    big = tier == "thorough"
    lin = {"feas": "linear", "redundant": True}
    cfg = []
    for sh in ((2, 2), (2, 3), (3, 2), (1, 3), (2, 2, 2), (2, 1, 2), (3, 2, 2), (2, 2, 3), (2, 2, 2, 2), (2, 1, 2, 2)) + \
            (((4, 3), (3, 3, 3), (2, 2, 2, 2, 2), (3, 1, 2, 3), (2, 1, 2, 1, 2, 1)) if big else ((4, 2), (2, 1, 2, 1, 2))):
        cfg += [(sh, None), (sh, 1), (sh, 2)]
        if len(sh) == 3:
            cfg += [(sh, (1, 2)), (sh, (2, 1)), (sh, (3, 4))]
        if len(sh) == 4:
            cfg += [(sh, (2, 3, 2)), (sh, (1, 2, 1))]
    for sh in ((1, 1, 1, 1, 2, 2), (1, 2, 1, 1, 2, 1), (2, 2, 1, 1, 1, 1), (1, 1, 2, 1, 1, 1, 2), (5, 4)) + (
            ((1, 1, 1, 1, 1, 1, 2, 2), (1, 1, 2, 1, 3, 1), (6, 5)) if big else ()):
        cfg += [(sh, None), (sh, 1), (sh, 2), (sh, 3)]
        if len(sh) > 2:
            cfg += [(sh, (2, 1) * 4), (sh, (1, 2) * 4)]
    for sh, r in cfg:
        r = r[:len(sh) - 1] if isinstance(r, tuple) else r
        yield Scenario(f"tt_svd/{sh}/{r}", go, lin, fmt="dense", shape=sh, rank=r)
    for f in ("tt", "cp", "sparse:3", "tucker", "dense+tt"):
        for r in (None, (1, 2)):
            yield Scenario(f"tt_svd/{f}/{r}", go, lin, fmt=f, shape=(2, 2, 2), rank=r)
    for sh, r in (((2, 2), 1), ((2, 3), 1), ((3, 2), 1), ((3, 3), 2), ((3, 3), 1)):
        yield Scenario(f"best/{sh}/{r}", go_best, lin, shape=sh, rank=r)
