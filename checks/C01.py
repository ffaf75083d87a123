"""C01: streaming sketch components are the defining contractions."""
from symtt.engine import Scenario

from . import lib

PROPERTY = "C01"
ASSUMPTIONS = ["sparse tensors have distinct coordinates",
               "exact real arithmetic (rounding is outside the claim)"]
BOUNDS = {"quick": "order 2..6, mode sizes 1..6, ranks 1..6, up to 6 summands, every DRM x every format it supports; larger cases: modes up to 300, 1100 nonzeros, ranks up to 70, 24 summands",
          "thorough": "order 2..7, mode sizes 1..8, ranks 1..9, up to 9 summands"}


def go(W):
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 2), p.get("const", False))
    d = len(shape)
    lr, rr = lib.ranks(p["lr"], d), lib.ranks(p["rr"], d)
    cls = lib.drm_cls(W, p["drm"])
    sk = S.stream_sketch(t, lr, rr, seed=p.get("dseed", 3), left_drm_type=cls,
                         right_drm_type=cls)
    Lm = lib.drm_matrices(W, sk.left_drm, shape, "left")
    Rm = lib.drm_matrices(W, sk.right_drm, shape, "right")
    lib.check_sketch(W, "stream", sk, X, Lm, Rm)


def go_user_drm(W):
    """User supplied DRMs (non-default options), trimmed or not."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    D = W.load("tt_sketch.sketch_dispatch")
    t, X = lib.make(W, p["fmt"], "X", shape, p.get("rank", 2), p.get("const", False))
    left, right = lib.make_drms(W, p["drm"], shape, lib.ranks(p["lr"], len(shape)),
                                lib.ranks(p["rr"], len(shape)))
    sk = S.stream_sketch(t, left.rank, right.rank[::-1], left_drm=left, right_drm=right)
    Lm = lib.drm_matrices(W, left, shape)
    Rm = lib.drm_matrices(W, right, shape)
    lib.check_sketch(W, "user drm", sk, X, Lm, Rm)


def go_ttdrm_def(W):
    """A TT DRM applies the partial contractions of its own cores."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    cls = lib.drm_cls(W, "TensorTrainDRM")
    for tr in (False, True):
        drm = cls(lib.ranks(p["lr"], d), shape=tuple(shape), transpose=tr, seed=5)
        mats = lib.drm_matrices(W, drm, shape, "ttdrm")
        import numpy as np
        acc = None
        for mu, C in enumerate(drm.cores):
            acc = C[0] if acc is None else np.tensordot(acc, C, axes=([acc.ndim - 1], [0]))
            want = np.moveaxis(acc, -1, 0)
            if tr:
                got = mats[d - 2 - mu]
                got = np.transpose(got, (0,) + tuple(range(got.ndim - 1, 0, -1)))
            else:
                got = mats[mu]
            W.eq(f"TT DRM matrix mu={mu} transpose={tr}", got, want)


def go_again(W):
    """The same maps on a tensor that is changed between two sketches."""
    p = W.p
    shape = p["shape"]
    S = W.load("tt_sketch.sketch")
    d = len(shape)
    left, right = lib.make_drms(W, p["drm"], shape, lib.ranks(1, d), lib.ranks(2, d))
    Lm, Rm = lib.drm_matrices(W, left, shape), lib.drm_matrices(W, right, shape)

    def look(label, t, X):
        sk = S.stream_sketch(t, left.rank, right.rank[::-1], left_drm=left, right_drm=right)
        lib.check_sketch(W, label, sk, X, Lm, Rm)
    lib.again(W, look, p["fmt"], shape)


def scenarios(tier):
    # sizes beyond what block sizes and thresholds would hide behind
    T, G, SG = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM"
    for drm, f, sh, lr, rr in (
            (T, "sparse:300", (20, 20), (1,), (2,)), (SG, "sparse:1100", (40, 40), (1,), (2,)), (G, "sparse:300", (20, 20), (1,), (2,)),
            (T, "sparse:1100", (40, 40), (1,), (2,)), ("SparseSignDRM", "sparse:1100", (40, 40), (1,), (2,)),
            (SG, "sparse:600", (8, 12, 9), (1, 1), (2, 2)), (T, "sparse:70", (2, 2, 2, 2, 2, 2, 2), (1,) * 6, (2,) * 6),
            (T, "dense", (30, 30), (1,), (2,)), (G, "dense", (30, 30), (1,), (2,)), (T, "dense", (300, 2), (1,), (2,)),
            (T, "dense", (2, 300), (1,), (2,)), (T, "dense", (2,) * 7, (1,) * 6, (2,) * 6),
            (T, "tt", (2, 2), (20,), (21,)), (T, "dense", (3, 3), (33,), (34,)), (G, "dense", (3, 3), (33,), (40,)),
            (SG, "sparse:5", (3, 3), (66,), (70,)), (T, "cp", (40, 40), (1,), (2,)), (T, "tt", (150, 2), (1,), (2,)),
            (T, "tucker", (20, 20), (1,), (2,)), (T, "+".join(["sparse:2"] * 24), (3, 3), (1,), (2,))):
        yield Scenario(f"large/{drm}/{f[:20]}/{sh}/{lr}", go, drm=drm, fmt=f, shape=sh, lr=lr, rr=rr)
    for drm, f in (("TensorTrainDRM", "tt"), ("TensorTrainDRM", "cp"), ("TensorTrainDRM", "dense"), ("TensorTrainDRM", "tucker"),
                   ("TensorTrainDRM", "tt+cp"), ("DenseGaussianDRM", "tt"), ("DenseGaussianDRM", "dense")):
        for sh in ((2, 3), (2, 2, 2)):
            yield Scenario(f"again/{drm}/{f}/{sh}", go_again, drm=drm, fmt=f, shape=sh)
    for drm, fmts in lib.DRM_FORMATS.items():
        for fmt in fmts:
            cfgs = [((2, 3, 2), (2, 2), (3, 3)), ((2, 2), (1,), (2,)),
                    ((2, 1, 3), (1, 2), (2, 3)), ((2, 2, 2, 2), (1, 2, 2), (2, 3, 3)),
                    ((2, 3, 2), (3, 3), (1, 2)),
                    ((1, 3, 4), (1, 2), (2, 4)), ((1, 1, 1), (1, 1), (2, 2)), ((4, 2), (3,), (2,)),
                    ((6, 5), (4,), (6,)), ((2, 3, 2), (5, 4), (6, 5)), ((2, 1, 2, 1, 2), (1, 2, 2, 1), (2, 3, 3, 2)),
                    ((1, 2, 1, 1, 2, 1), (1, 2, 1, 2, 1), (2, 3, 2, 3, 2))]
            if tier == "thorough":
                cfgs += [((3, 3, 3), (2, 3), (3, 4)), ((2, 1, 2, 3), (2, 2, 2), (3, 3, 4)),
                         ((2, 2, 2, 2, 2), (1, 2, 2, 1), (2, 3, 3, 2)), ((3, 2, 2, 3), (3, 4, 3), (1, 2, 2)),
                         ((8, 7), (9,), (5,)), ((2, 5, 2), (7, 6), (8, 9)), ((4, 1, 5), (4, 4), (5, 6)),
                         ((1, 2, 1, 2, 1, 2, 1), (1, 2, 2, 1, 2, 1), (2, 3, 3, 2, 3, 2))]
            for shape, lr, rr in cfgs:
                rank = (2,) if fmt == "tt" and len(shape) == 2 else 2
                yield Scenario(f"{drm}/{fmt}/{shape}/{lr}/{rr}", go, drm=drm, fmt=fmt,
                               shape=shape, lr=lr, rr=rr, rank=rank)
    for fmt in ("sparse:0", "sparse:1", "sparse:12"):
        for drm in lib.DRM_FORMATS:
            yield Scenario(f"{drm}/{fmt}", go, drm=drm, fmt=fmt, shape=(2, 3, 2),
                           lr=(2, 2), rr=(3, 3))
    for fmt, drm in (("dense+tt", "TensorTrainDRM"), ("tt+sparse:2+cp", "TensorTrainDRM"),
                     ("tucker+dense", "TensorTrainDRM"), ("tt+tt", "DenseGaussianDRM"),
                     ("sparse:2+sparse:3", "SparseGaussianDRM"),
                     ("sparse:2+sparse:3", "SparseSignDRM"),
                     ("dense+sparse:3+tt", "DenseGaussianDRM")) + tuple(
                         (how + f, drm) for how in ("rep~", "nest~") for f, drm in (
                             ("tt", "TensorTrainDRM"), ("dense+cp", "TensorTrainDRM"), ("tucker+sparse:2", "TensorTrainDRM"),
                             ("dense+tt", "DenseGaussianDRM"), ("sparse:3", "SparseGaussianDRM"),
                             ("sparse:3+sparse:2", "SparseSignDRM"))):
        yield Scenario(f"sum/{drm}/{fmt}", go, drm=drm, fmt=fmt, shape=(2, 3, 2),
                       lr=(2, 2), rr=(3, 3))
    for n in (6,) + ((9,) if tier == "thorough" else ()):
        for fmt, drm in (("tt", "TensorTrainDRM"), ("cp", "TensorTrainDRM"), ("dense", "DenseGaussianDRM"),
                         ("sparse:2", "SparseGaussianDRM"), ("sparse:2", "SparseSignDRM")):
            yield Scenario(f"sum/{drm}/{n} x {fmt}", go, drm=drm, fmt="+".join([fmt] * n), shape=(2, 3, 2), lr=(2, 2), rr=(3, 3),
                           rank=1)
    for drm, fmts in lib.DRM_FORMATS.items():
        for fmt in fmts:
            yield Scenario(f"user/{drm}/{fmt}", go_user_drm, drm=drm, fmt=fmt, shape=(2, 2, 3),
                           lr=(2, 3), rr=(3, 5) if tier == "thorough" else (3, 4))
    yield Scenario("ttdrm/def", go_ttdrm_def, shape=(2, 3, 2), lr=(2, 3))
    yield Scenario("ttdrm/def4", go_ttdrm_def, shape=(2, 1, 3, 2), lr=(2, 2, 3))
