"""C25: the table of capabilities tells what the families of random maps can do."""
import numpy as np

from symtt.engine import Scenario
from . import lib

PROPERTY = "C25"
BOUNDS = {
    "quick": "every family of maps x every capability, orders 2-4, modes of size 1-3, sketch ranks 1-3, all entries symbolic",
    "thorough": "as quick, orders 2-5 and more ranks"}
ASSUMPTIONS = ["exact real arithmetic", "CP and Tucker tensors have no entry in the table"]
LIMIT = {"quick": 120, "thorough": 500}
REFUSED = (ValueError, AttributeError)
FORMATS = {"CansketchDense": "dense", "CansketchSparse": "sparse:3", "CansketchTT": "tt"}


def table(W):
    return W.load("tt_sketch.sketch").get_drm_capabilities()


def go_table(W):
    a, b = table(W), table(W)
    names = {c.__name__ for c in W.load("tt_sketch.drm").ALL_DRM}
    W.true("one row per family", set(a) == names)
    for k, row in a.items():
        W.true(f"{k}: columns", set(row) == set(FORMATS) | {"CanSlice", "CanIncreaseRank"})
        W.true(f"{k}: yes or no", all(v is True or v is False for v in row.values()))
        # increasing a rank keeps the old part, a slice of the new map
        W.true(f"{k}: what can grow can be sliced", row["CanSlice"] or not row["CanIncreaseRank"])
    W.true("same table every time", a == b)


def sketch(W, t, left, right):
    D = W.load("tt_sketch.sketch_dispatch")
    S = W.load("tt_sketch.sketch")
    return S.SketchedTensorTrain(D.general_sketch(t, left, right, method=D.SketchMethod.streaming), left, right)


def equal(W, label, s, X, left, right, shape):
    lib.check_sketch(W, label, s, X, lib.drm_matrices(W, left, shape), lib.drm_matrices(W, right, shape))


def go_capability(W):
    p = W.p
    S = W.load("tt_sketch.sketch")
    shape, lr, rr, drm, cap = p["shape"], p["lr"], p["rr"], p["drm"], p["cap"]
    claimed = table(W)[drm][cap]
    left, right = lib.make_drms(W, drm, shape, lr, rr, seed=11)
    home = next(f for c, f in FORMATS.items() if table(W)[drm][c])
    t, X = lib.make(W, FORMATS.get(cap, home), "X", shape, 1)
    cuts = [[tuple(0 for _ in r), tuple(min(1, x) for x in r), tuple(r)] for r in (lr, rr)]
    up = [tuple(x + 1 for x in r) for r in (lr, rr)]
    if cap in FORMATS:
        uses = {"sketch": lambda: sketch(W, t, left, right),
                "stream_sketch": lambda: S.stream_sketch(t, lr, rr, left_drm=left, right_drm=right)}
    elif cap == "CanSlice":
        uses = {"blocked sketch": lambda: S.blocked_stream_sketch(t, left, right, *cuts)}
    else:
        s = sketch(W, t, left, right)
        uses = {"rank increase": lambda: s.increase_rank(t, *up)}
    for nm, f in uses.items():
        if not claimed:
            W.raises(f"{nm}: not advertised, refused", REFUSED, f)
            continue
        s = f()
        l, r = left, right
        if cap == "CanIncreaseRank":
            l, r = s.left_drm, s.right_drm
            W.true("ranks asked for", tuple(s.left_rank) == up[0] and tuple(s.right_rank) == up[1])
        equal(W, f"{nm}: advertised", s, X, l, r, shape)


def scenarios(tier):
    big = tier == "thorough"
    cfg = [((2, 3), (1,), (2,)), ((2, 1, 2), (3, 2), (2, 1)), ((2, 2, 1, 2), (1, 2, 1), (2, 3, 2))]
    if big:
        cfg += [((3, 2, 2), (2, 3), (3, 4)), ((1, 2, 1, 2, 1), (1, 2, 1, 2), (2, 3, 2, 3)), ((4, 3), (3,), (2,))]
    yield Scenario("table", go_table)
    for drm in lib.DRM_FORMATS:
        for cap in list(FORMATS) + ["CanSlice", "CanIncreaseRank"]:
            for sh, lr, rr in cfg:
                if drm == "SparseSignDRM":
                    lr, rr = tuple(x + 1 for x in lr), tuple(x + 1 for x in rr)
                yield Scenario(f"{drm}/{cap}/{sh}", go_capability, drm=drm, cap=cap, shape=sh, lr=lr, rr=rr)
