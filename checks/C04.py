"""C04: transposition commutes with every operation on tensors and sketches."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C04"
ASSUMPTIONS = ["exact real arithmetic", "sparse tensors have distinct coordinates"]
BOUNDS = {"quick": "order 2..5, mode sizes 1..5, ranks 1..5; larger cases: order 8, modes up to 60, 1100 nonzeros, ranks up to 40",
          "thorough": "order 2..6, mode sizes 1..6, ranks 1..7"}


def go_tensor(W):
    p = W.p
    t, X = lib.make(W, p["fmt"], "X", p["shape"], p.get("rank", 2))
    tt = t.T
    W.true("T: shape is reversed", tuple(tt.shape) == tuple(p["shape"])[::-1])
    W.eq("T: entries", tt.to_numpy(), lib.transpose_all(X))
    W.true("T: same kind of tensor", type(tt) is type(t))
    W.true("T: same storage", int(tt.size) == int(t.size))
    back = tt.T
    W.true("T.T: shape", tuple(back.shape) == tuple(p["shape"]))
    W.eq("T.T: entries", back.to_numpy(), X)
    W.eq("T leaves the tensor alone", t.to_numpy(), X)


def rev(M):
    """(r, n_a..n_b) with the modes reversed."""
    return np.transpose(M, (0,) + tuple(range(M.ndim - 1, 0, -1)))


def go_drm(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    left, right = lib.make_drms(W, p["drm"], shape, p["lr"], p["rr"], **lib.nnz_kw(p["drm"], p.get("nnz")))
    for drm in (left, right):
        if p.get("cut"):
            drm = drm.slice(*p["cut"])
        M = lib.drm_matrices(W, drm, shape)
        T = drm.T
        W.true("DRM.T: side and shape", T.transpose != drm.transpose
               and tuple(T.shape) == tuple(shape)[::-1])
        N = lib.drm_matrices(W, T, shape[::-1])
        for mu in range(d - 1):
            W.eq("DRM.T: reversed modes", N[d - 2 - mu], rev(M[mu]))
        again = lib.drm_matrices(W, drm, shape)
        back = lib.drm_matrices(W, T.T, shape)
        W.true("DRM.T.T: side and shape", T.T.transpose == drm.transpose
               and tuple(T.T.shape) == tuple(shape) and tuple(T.T.rank) == tuple(drm.rank))
        for mu in range(d - 1):
            W.eq("DRM.T leaves the DRM alone", again[mu], M[mu])
            W.eq("DRM.T.T is the DRM", back[mu], M[mu])


def go_sketch(W):
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 2))
    left, right = lib.make_drms(W, p["drm"], shape, p["lr"], p["rr"])
    s = S.stream_sketch(t, left.rank, right.rank[::-1], left_drm=left, right_drm=right)
    T = s.T
    rs = tuple(shape)[::-1]
    W.true("sketch.T: shape", tuple(T.shape) == rs)
    W.true("sketch.T: ranks", tuple(T.left_rank) == tuple(p["rr"])[::-1]
           and tuple(T.right_rank) == tuple(p["lr"])[::-1])
    Lm = lib.drm_matrices(W, T.left_drm, rs)
    Rm = lib.drm_matrices(W, T.right_drm, rs)
    XT = lib.transpose_all(X)
    lib.check_sketch(W, "sketch.T", T, XT, Lm, Rm)
    # the transposed sketch is the sketch of the transposed tensor
    q = S.stream_sketch(t.T, T.left_drm.rank, T.right_drm.rank[::-1], left_drm=T.left_drm,
                        right_drm=T.right_drm)
    lib.check_sketch(W, "sketch of T", q, XT, Lm, Rm)
    if p.get("update"):
        u, Y = lib.make(W, p["fmt"], "Y", rs, p.get("rank", 2), seed=2)
        lib.check_sketch(W, "update of sketch.T", T + u, XT + Y, Lm, Rm)
        lib.check_sketch(W, "(S + B).T", (s + u.T).T, XT + Y, Lm, Rm)
    lib.check_sketch(W, "sketch.T.T", T.T, X, lib.drm_matrices(W, left, shape),
                     lib.drm_matrices(W, right, shape))
    W.true("sketch.T.T: ranks", tuple(T.T.left_rank) == tuple(p["lr"])
           and tuple(T.T.right_rank) == tuple(p["rr"]) and tuple(T.T.shape) == tuple(shape))


def container(W, shape, lr, rr, name="a"):
    C = W.load("tt_sketch.sketch_container").SketchContainer
    d = len(shape)
    psi = [W.array(f"{name}.psi{k}", (((1,) + lr)[k], shape[k], (rr + (1,))[k])) for k in range(d)]
    om = [W.array(f"{name}.om{k}", (lr[k], rr[k])) for k in range(d - 1)]
    return C([x.copy() for x in psi], [x.copy() for x in om]), psi, om


def go_container(W):
    p = W.p
    shape, lr, rr = p["shape"], p["lr"], p["rr"]
    d = len(shape)
    c, psi, om = container(W, shape, lr, rr)
    T = c.T
    W.true("container.T: ranks", tuple(T.shape) == shape[::-1] and tuple(T.left_rank) == rr[::-1]
           and tuple(T.right_rank) == lr[::-1])
    for k in range(d):
        W.eq("container.T: Psi", T.Psi_cores[d - 1 - k], psi[k].transpose(2, 1, 0))
    for k in range(d - 1):
        W.eq("container.T: Omega", T.Omega_mats[d - 2 - k], om[k].T)
    # reconstruction commutes with transposition
    A = W.load("tt_sketch.sketch").assemble_sketched_tt
    X = lib.ref_tt(A(c))
    W.eq("reconstruction of the transposed sketch", lib.ref_tt(A(T)), lib.transpose_all(X))


def go_recon(W):
    """(stream sketch).T.to_numpy() is the transpose."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 1))
    s = S.stream_sketch(t, p["lr"], p["rr"], seed=4)
    W.eq("to_numpy of the transposed sketch", s.T.to_numpy(), lib.transpose_all(s.to_numpy()))


def go_again(W):
    shape = W.p["shape"]

    def look(label, t, X):
        W.true(f"{label}: T: shape", tuple(t.T.shape) == tuple(shape)[::-1])
        W.eq(f"{label}: T", t.T.to_numpy(), lib.transpose_all(X))
        W.eq(f"{label}: T.T", t.T.T.to_numpy(), X)
    lib.again(W, look, W.p["fmt"], shape)


def scenarios(tier):
    for f in lib.CHANGED:
        for sh in ((3,), (2, 3), (2, 1, 2)):
            if f != "tucker" or len(sh) > 1:
                yield Scenario(f"again/{f}/{sh}", go_again, fmt=f, shape=sh)
    big = tier == "thorough"
    fmts = ["dense", "tt", "cp", "tucker", "sparse:0", "sparse:3", "dense+tt", "tt+sparse:2+cp", "tucker+dense",
            "rep~tt+dense", "nest~cp+sparse:2"]
    shapes = [(2, 3), (2, 3, 2), (1, 2, 3), (2, 1, 3, 2), (3,), (4, 1, 3), (5, 4), (2, 1, 2, 1, 3)] + (
        [(3, 4, 2), (2, 3, 1, 2, 2), (6, 5), (1, 2, 1, 2, 1, 3)] if big else [])
    for f in fmts:
        for sh in shapes:
            yield Scenario(f"tensor/{f}/{sh}", go_tensor, fmt=f, shape=sh, rank=2)
    cfg = [((2, 3), (1,), (2,)), ((2, 1, 3), (1, 2), (2, 3)), ((2, 2, 3), (2, 3), (1, 2)),
           ((2, 3, 1, 2), (1, 2, 2), (2, 3, 3)), ((5, 4), (5,), (3,)), ((2, 1, 2, 1, 3), (1, 2, 3, 1), (2, 3, 4, 2))]
    if big:
        cfg += [((2, 2, 2, 1, 2), (1, 2, 3, 1), (2, 3, 4, 2)), ((3, 4, 2), (2, 4), (3, 5)), ((6, 3), (7,), (4,)),
                ((1, 2, 1, 2, 1, 3), (1, 2, 2, 3, 1), (2, 3, 3, 4, 2))]
    for drm, fs in lib.DRM_FORMATS.items():
        for sh, lr, rr in cfg:
            yield Scenario(f"drm/{drm}/{sh}/{lr}", go_drm, drm=drm, shape=sh, lr=lr, rr=rr)
            if len(sh) == 3:
                yield Scenario(f"drm-slice/{drm}/{sh}/{lr}", go_drm, drm=drm, shape=sh, lr=(3, 4), rr=(3, 4),
                               cut=((1, 2), (2, 4)))
            for f in fs:
                yield Scenario(f"sketch/{drm}/{f}/{sh}/{lr}", go_sketch, drm=drm, fmt=f, shape=sh, lr=lr,
                               rr=rr, update=True)
    for sh, lr, rr in cfg:
        yield Scenario(f"container/{sh}/{lr}", go_container, shape=sh, lr=lr, rr=rr)
    for f in ("dense", "tt", "cp", "sparse:3", "tucker"):
        yield Scenario(f"recon/{f}", go_recon, fmt=f, shape=(2, 2, 2), lr=(1, 1), rr=(2, 2))
        yield Scenario(f"recon-left/{f}", go_recon, fmt=f, shape=(2, 3), lr=(2,), rr=(1,))
    # sizes beyond what block sizes and thresholds would hide behind
    T, G, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
    for f, sh in (("sparse:300", (20, 30)), ("sparse:1100", (40, 40)), ("dense", (40, 30)), ("dense", (2,) * 8), ("tt", (60, 3, 2)),
                  ("cp", (60, 3)), ("tucker", (40, 2)), ("sparse:70", (2,) * 8), ("+".join(["cp"] * 12), (2, 3))):
        yield Scenario(f"large/tensor/{f[:20]}/{sh}", go_tensor, fmt=f, shape=sh, rank=1 if len(sh) > 2 else 2)
    for drm, f, sh, lr, rr in ((T, "sparse:300", (20, 18), (1,), (2,)), (G, "dense", (20, 18), (1,), (2,)), (SG, "sparse:300", (20, 18), (1,), (2,)),
                               (SS, "sparse:300", (20, 18), (1,), (2,)), (T, "dense", (3, 2), (33,), (35,)), (G, "tt", (3, 2), (33,), (40,)),
                               (SG, "sparse:4", (3, 2), (34,), (38,)), (T, "cp", (2,) * 7, (1,) * 6, (2,) * 6)):
        yield Scenario(f"large/sketch/{drm}/{f}/{sh}/{lr}", go_sketch, drm=drm, fmt=f, shape=sh, lr=lr, rr=rr, update=True)
