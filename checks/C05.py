"""C05: reconstruction from a streaming sketch."""
import numpy as np

from symtt.engine import Scenario

from . import lib
from .C04 import container

PROPERTY = "C05"
ASSUMPTIONS = ["exact real arithmetic; least squares / pinv satisfy their defining equations",
               "exact recovery: the sketched unfoldings keep the rank of the tensor"]
BOUNDS = {"quick": "order 2..6, mode sizes 1..6, sketch ranks 1..5; larger cases: order 9, modes up to 40, sketch ranks up to 18; recovery: TT rank 1 symbolic, rank 2 with fixed data",
          "thorough": "order 2..7, mode sizes 1..8, sketch ranks 1..7; recovery: TT rank 1 symbolic, rank 2 with fixed data"}


def formula(W, psi, om, direction):
    d = len(psi)
    pi = [W.pinv(o) for o in om]
    res = psi[0][0]                                    # (n0, s0)
    for k in range(1, d):
        res = np.tensordot(res, pi[k - 1], axes=([res.ndim - 1], [0]))
        res = np.tensordot(res, psi[k], axes=([res.ndim - 1], [0]))
    cores = []
    for k in range(d):
        C = psi[k]
        if direction == "right" and k < d - 1:
            C = np.tensordot(C, pi[k], axes=([2], [0]))
        if direction == "left" and k > 0:
            C = np.tensordot(pi[k - 1], C, axes=([1], [0]))
        cores.append(C)
    return res[..., 0], cores


def go_formula(W):
    p = W.p
    shape, lr, rr = p["shape"], p["lr"], p["rr"]
    d = len(shape)
    c, psi, om = container(W, shape, lr, rr)
    A = W.load("tt_sketch.sketch").assemble_sketched_tt
    T = W.load("tt_sketch.tensor").TensorTrain
    want, _ = formula(W, psi, om, "right")
    exp = {"right": lr, "left": rr,
           "auto": rr if all(a > b for a, b in zip(lr, rr)) else lr}
    for direction in p["dirs"]:
        cores = A(c, direction=direction)
        _, ref = formula(W, psi, om, direction if direction != "auto" else
                         ("left" if exp["auto"] == rr and rr != lr else "right"))
        tt = T(cores)
        W.true(f"{direction}: shape", tuple(tt.shape) == shape)
        W.true(f"{direction}: TT ranks", tuple(tt.rank) == exp[direction])
        for k in range(d):
            W.eq(f"{direction}: core {k}", cores[k], ref[k])
        W.eq(f"{direction}: tensor", lib.ref_tt(cores), want)
    W.eq("default direction", lib.ref_tt(A(c)), want)
    W.raises("unknown direction is rejected", (ValueError,), lambda: A(c, direction="up"))
    for k in range(d):
        W.eq("sketch unchanged", c.Psi_cores[k], psi[k])
    for k in range(d - 1):
        W.eq("sketch unchanged", c.Omega_mats[k], om[k])


def go_api(W):
    """to_tt / C_cores / to_numpy / dot / norm of a sketch agree."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, 1)
    s = S.stream_sketch(t, p["lr"], p["rr"], seed=3)
    ref, _ = formula(W, s.Psi_cores, s.Omega_mats, "right")
    W.eq("to_numpy", s.to_numpy(), ref)
    W.eq("to_tt", lib.ref_tt(s.to_tt().cores), ref)
    W.eq("C_cores", lib.ref_tt(s.C_cores()), ref)
    W.true("shape", tuple(s.shape) == tuple(shape) and tuple(s.to_tt().shape) == tuple(shape))
    W.true("ranks", tuple(s.left_rank) == tuple(p["lr"]) and tuple(s.right_rank) == tuple(p["rr"]))
    n = sum(int(c.size) for c in s.Psi_cores) + sum(int(c.size) for c in s.Omega_mats)
    W.true("size", int(s.size) == n)
    u, Y = lib.make(W, p["other"], "Y", shape, 1, seed=3)
    W.eq("dot", s.dot(u), np.sum(ref * Y))
    W.eq("dot reversed", u.dot(s), np.sum(ref * Y))
    W.eq("scaled", (s * 3).to_numpy(), ref * 3) if p.get("scale") else None


def go_recover(W):
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, p["rank"], p.get("const", False))
    kw = {}
    cls = lib.drm_cls(W, p["drm"])
    s = S.stream_sketch(t, p["lr"], p["rr"], seed=p.get("seed", 3), left_drm_type=cls, right_drm_type=cls)
    W.eq("the tensor is recovered", s.to_numpy(), X)


def go_recover_sparse(W):
    """Sparse tensor of TT rank one (a single entry)."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, "sparse:1", "X", shape)
    cls = lib.drm_cls(W, p["drm"])
    s = S.stream_sketch(t, p["lr"], p["rr"], seed=3, left_drm_type=cls, right_drm_type=cls)
    W.eq("the tensor is recovered", s.to_numpy(), X)


def scenarios(tier):
    big = tier == "thorough"
    cfg = [((2, 3), (1,), (2,)), ((2, 3), (2,), (1,)), ((2, 2, 2), (1, 2), (2, 3)), ((2, 1, 2), (3, 2), (2, 1)),
           ((2, 2), (2,), (2,)), ((2, 2, 2), (1, 2), (2, 1)), ((2, 2, 2), (2, 2), (2, 3)),
           ((2, 2, 1, 2), (1, 2, 1), (2, 3, 2)), ((2, 1, 2, 2), (3, 2, 2), (2, 1, 1)),
           ((6, 5), (5,), (3,)), ((6, 5), (2,), (4,)), ((1, 2, 1, 2, 1, 2), (1, 1, 2, 1, 1), (2, 2, 3, 2, 2)),
           ((2, 1, 1, 2, 1), (3, 2, 3, 2), (2, 1, 2, 1)), ((2, 1, 2, 1), (2, 2, 2), (2, 2, 2))]
    if big:
        cfg += [((3, 2, 2), (3, 2), (4, 4)), ((2, 1, 2, 1, 2), (1, 2, 2, 1), (2, 3, 3, 2)),
                ((3, 3), (4,), (3,)), ((2, 2, 2), (1, 1), (1, 1)), ((8, 7), (7,), (5,)), ((8, 7), (5,), (7,)),
                ((1, 2, 1, 1, 2, 1, 2), (1, 2, 1, 1, 2, 1), (2, 3, 2, 2, 3, 2)), ((2, 1, 1, 2, 1, 2), (2, 3, 3, 2, 2), (1, 2, 2, 1, 1))]
    for sh, lr, rr in cfg:
        yield Scenario(f"formula/{sh}/{lr}/{rr}", go_formula, shape=sh, lr=lr, rr=rr,
                       dirs=("right", "left", "auto"))
    for f, o in (("dense", "tt"), ("tt", "sparse:2"), ("cp", "cp"), ("sparse:2", "dense")):
        for lr, rr in (((1, 2), (2, 3)), ((3, 2), (2, 1))):
            yield Scenario(f"api/{f}/{o}/{lr}", go_api, fmt=f, other=o, shape=(2, 2, 2), lr=lr, rr=rr)
    fr = {"pinv": "fullrank"}
    for drm, fs in lib.DRM_FORMATS.items():
        for f in fs:
            if f.startswith("sparse"):
                continue
            for sh, lr, rr in (((2, 3), (1,), (2,)), ((2, 2, 2), (1, 1), (2, 2)), ((2, 2, 2), (2, 2), (1, 1))):
                yield Scenario(f"recover1/{drm}/{f}/{sh}/{lr}", go_recover, fr, drm=drm, fmt="tt" if f == "dense" else f,
                               rank=1, shape=sh, lr=lr, rr=rr)
    for drm in lib.DRM_FORMATS:
        if drm != "SparseSignDRM":
            yield Scenario(f"recover-sparse/{drm}", go_recover_sparse, fr, drm=drm, shape=(2, 2, 2), lr=(1, 1), rr=(2, 2))
    for f in ("tt", "cp", "tucker"):
        yield Scenario(f"recover2/{f}", go_recover, dict(fr, rng="const"), drm="TensorTrainDRM", fmt=f,
                       rank=2, const=True, shape=(3, 3), lr=(2,), rr=(3,))
    for f in ("tt", "dense"):
        for sh, lr, rr in (((2, 2, 2), (2, 2), (3, 3)), ((3, 2, 3), (3, 3), (2, 2))):
            if f == "dense" and sh[0] == 3:
                continue
            yield Scenario(f"recover2/gauss/{f}/{sh}", go_recover, dict(fr, rng="const", xl_budget=20),
                           drm="DenseGaussianDRM", fmt=f, rank=2, const=True, shape=sh, lr=lr, rr=rr)
    # sizes beyond what block sizes and thresholds would hide behind
    for sh, lr, rr in (((3, 2), (14,), (17,)), ((3, 2), (18,), (13,)), ((40, 30), (2,), (3,)), ((2,) * 9, (1,) * 8, (2,) * 8)):
        yield Scenario(f"large/formula/{sh}/{lr}/{rr}", go_formula, shape=sh, lr=lr, rr=rr, dirs=("right", "left", "auto"))
