"""C08: inner products, norms and errors are those of the represented arrays."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C08"
ASSUMPTIONS = ["exact real arithmetic; QR satisfies its defining equations",
               "sparse tensors have distinct coordinates"]
BOUNDS = {"quick": "order 1..7, mode sizes 1..7, ranks 1..6, up to 12 summands, every ordered pair of formats; larger cases: 1100 nonzeros, modes up to 60, order 8, rank 70; symbolic entries",
          "thorough": "order 1..8, mode sizes 1..9, ranks 1..8, up to 20 summands, every ordered pair of formats; symbolic entries"}


def go_dot(W):
    p = W.p
    shape = p["shape"]
    a, X = lib.make(W, p["f1"], "X", shape, p["r1"])
    b, Y = lib.make(W, p["f2"], "Y", shape, p["r2"], seed=4)
    ref = np.sum(X * Y)
    W.eq("dot", a.dot(b), ref)
    W.eq("dot, operands swapped", b.dot(a), ref)
    W.eq("matmul operator", a @ b, ref)
    W.eq("dot with itself", a.dot(a), lib.sumsq(X))
    c = W.real("c")
    W.eq("dot is linear", (a * c).dot(b), ref * c)
    W.eq("dot of a sum", (a + b).dot(b), ref + lib.sumsq(Y))
    W.eq("dot with a sum", a.dot(a + b), ref + lib.sumsq(X))
    W.eq("a unchanged", a.to_numpy(), X)
    W.eq("b unchanged", b.to_numpy(), Y)


def sq(W, label, val, ref2):
    """val is the non-negative root of ref2."""
    W.eq(label + " (squared)", val * val, ref2)
    W.le(label + " is not negative", W.num(0), val)


def go_norm(W):
    p = W.p
    a, X = lib.make(W, p["fmt"], "X", p["shape"], p["rank"])
    if p["fmt"] == "tt":
        lib.orth_norm_lemma(W, a.orthogonalize().cores, X)
    W.squares(X)
    sq(W, "norm", a.norm(), lib.sumsq(X))
    sq(W, "norm of zero multiple", (a * 0).norm(), W.num(0))


def go_error(W):
    p = W.p
    shape = p["shape"]
    a, X = lib.make(W, p["f1"], "X", shape, p["r1"], p.get("const", False))
    if p["f2"] == "ndarray":
        Y = lib.arr(W, "Y", shape)
        b = Y.copy()
    elif p["f2"] == "zero":
        b = W.load("tt_sketch.tensor").DenseTensor(W.zeros(shape)) if p["f1"] != "tt" \
            else W.load("tt_sketch.tensor").TensorTrain.zero(shape, 1)
        Y = W.zeros(shape)
    else:
        b, Y = lib.make(W, p["f2"], "Y", shape, p["r2"], seed=4)
    tt = p["f1"] == "tt" and p["f2"] in ("tt", "zero")
    e2 = lib.sumsq(X - Y)
    if tt:
        lib.orth_norm_lemma(W, a.add(-b).orthogonalize().cores, X - Y)
        lib.orth_norm_lemma(W, b.orthogonalize().cores, Y)
    elif p["f2"] == "tt":
        lib.orth_norm_lemma(W, b.orthogonalize().cores, Y)
    if p["f1"] == "tt":
        lib.orth_norm_lemma(W, a.orthogonalize().cores, X)
    W.squares(X)
    W.squares(Y)
    W.squares(X - Y)
    n = W.sqrt_(W.num(int(np.prod(shape))))
    b_ = b if p["f2"] != "ndarray" else W.load("tt_sketch.tensor").DenseTensor(b)
    ny = b_.norm()
    sq(W, "norm of the reference", ny, lib.sumsq(Y))
    for fast in (False, True):
        k = f"fast={fast}"
        err = a.error(b, fast=fast)
        sq(W, f"error {k}", err, e2)
        W.eq(f"root mean square error {k}", a.error(b, rmse=True, fast=fast) * n, err)
        rel = a.error(b, relative=True, fast=fast)
        both = a.error(b, relative=True, rmse=True, fast=fast)
        if isinstance(rel, float) and np.isinf(rel):
            W.eq("relative errors are infinite only for a zero reference", ny, W.num(0))
            W.true("relative errors agree on a zero reference", both == np.inf)
        else:
            W.true("relative error to zero is infinite", ny != 0)
            W.eq(f"relative error {k}", rel * ny, err)
            W.eq(f"relative root mean square error {k}", both * ny * n, err)
    W.eq("unchanged", a.to_numpy(), X)


def go_zero(W):
    """Errors between equal / zero tensors."""
    p = W.p
    a, X = lib.make(W, p["fmt"], "X", p["shape"], 1)
    z = a * 0
    W.squares(X)
    if p["fmt"] == "tt":
        lib.orth_norm_lemma(W, a.orthogonalize().cores, X)
        lib.orth_norm_lemma(W, a.add(-z).orthogonalize().cores, X)
    for fast in (False, True):
        sq(W, "error between zero tensors", z.error(z, fast=fast), W.num(0))
        sq(W, "error to zero", a.error(z, fast=fast), lib.sumsq(X))
        if p["fmt"] != "tt":
            W.true("relative error to zero is infinite", a.error(z, relative=True, fast=fast) == np.inf)
    if p["fmt"] != "tt":
        W.eq("error to itself", a.error(a), W.num(0))
        sq(W, "fast error to itself", a.error(a, fast=True), W.num(0))


def go_again(W):
    shape = W.p["shape"]
    u, Y = lib.make(W, "tt", "Y", shape, 1)

    def look(label, t, X):
        if W.p["fmt"] == "tt":
            lib.orth_norm_lemma(W, t.orthogonalize().cores, X)
        W.squares(X)
        sq(W, f"{label}: norm", t.norm(), lib.sumsq(X))
        W.eq(f"{label}: dot", t.dot(u), np.sum(X * Y))
        W.eq(f"{label}: dot, swapped", u.dot(t), np.sum(X * Y))
        W.eq(f"{label}: dot with itself", t.dot(t), lib.sumsq(X))
    lib.again(W, look, W.p["fmt"], shape, 2 if len(shape) < 3 else 1)


def scenarios(tier):
    for f in lib.CHANGED:
        for sh in ((3,), (2, 2), (2, 1, 2)):
            if f != "tucker" or len(sh) > 1:
                yield Scenario(f"again/{f}/{sh}", go_again, fmt=f, shape=sh)
    big = tier == "thorough"
    fs = ("dense", "tt", "cp", "tucker", "sparse:2", "sparse:0", "dense+sparse:2", "tt+cp", "rep~tt+dense")
    for f1 in fs:
        for f2 in fs:
            yield Scenario(f"dot/{f1}/{f2}", go_dot, f1=f1, f2=f2, shape=(2, 1, 3), r1=2, r2=1)
            if big:
                yield Scenario(f"dot/{f1}/{f2}/b", go_dot, f1=f1, f2=f2, shape=(3, 2, 2), r1=1, r2=2)
    for sh, r1, r2 in (((2, 3), 1, 3), ((2, 2, 2), (1, 2), (2, 3)), ((2, 1, 2, 2), (1, 2, 2), (2, 1, 1)), ((1, 1), 1, 1)):
        yield Scenario(f"dot/tt/tt/{sh}", go_dot, f1="tt", f2="tt", shape=sh, r1=r1, r2=r2)
    large = [((7, 6), 5, 6), ((2, 1, 2, 1, 2, 1), 2, 2), ((2, 2, 2, 2, 2), 2, 1), ((1, 2, 1, 1, 1, 2, 1), 2, 1)]
    large += [((9, 8), 8, 7), ((1, 2, 1, 2, 1, 2, 1, 2), 2, 2), ((4, 5, 3), 3, 3)] if big else []
    for sh, r1, r2 in large:
        n = min(int(np.prod(sh)), 13)
        for f1, f2 in (("tt", "tt"), ("cp", "tt"), (f"sparse:{n}", "tt"), ("tt", "dense"), ("cp", "cp"), ("cp", f"sparse:{n}"),
                       ("dense", "dense"), (f"sparse:{n}", f"sparse:{n // 2}"), ("dense", "cp"), ("dense", f"sparse:{n}")):
            if "cp" in (f1, f2) and len(sh) > 3 and min(r1, r2) > 1 and f1 == f2 and not big:
                continue
            yield Scenario(f"large/{f1}/{f2}/{sh}", go_dot, f1=f1, f2=f2, shape=sh, r1=r1, r2=r2)
    for k in (3, 6, 12) + ((20,) if big else ()):
        many = "+".join(("tt", "sparse:2", "cp", "dense")[i % 4] for i in range(k))
        for f in ("tt", "sparse:3", "dense+cp+tt"):
            yield Scenario(f"sum{k}/{f}", go_dot, f1=many, f2=f, shape=(2, 3), r1=1, r2=1)
    for f in ("cp", "sparse:4", "tucker"):
        yield Scenario(f"dot/{f}/{f}/r", go_dot, f1=f, f2=f, shape=(2, 3), r1=3, r2=2)
        yield Scenario(f"dot/tt/{f}/c", go_dot, f1="tt", f2=f, shape=(2, 2, 1, 2), r1=2, r2=1)
    for f in fs:
        for sh, r in (((2, 3), 2), ((2, 1, 2), 1), ((2, 2, 2), 2)):
            if f == "tt+cp" and sh == (2, 2, 2):
                continue
            yield Scenario(f"norm/{f}/{sh}", go_norm, fmt=f, shape=sh, rank=r)
    for f1 in fs[:5] + ("dense+sparse:2",):
        for f2 in ("ndarray", "dense", "tt", "cp", "sparse:2", "zero", "dense+sparse:2"):
            if f1 == "cp" and f2 == "cp" and not big:
                continue
            yield Scenario(f"error/{f1}/{f2}", go_error, f1=f1, f2=f2, shape=(2, 2), r1=1, r2=1)
    for f1 in fs[:5]:
        for f2 in fs[:5]:
            g1, g2 = (f.replace("sparse:2", "sparse:1") for f in (f1, f2))
            yield Scenario(f"dot/1d/{f1}/{f2}", go_dot, f1=g1, f2=g2, shape=(3,), r1=2, r2=1)
        yield Scenario(f"norm/1d/{f1}", go_norm, fmt=f1, shape=(2,), rank=1)
        for f2 in ("ndarray", "dense", "tt", "zero", "sparse:2"):
            yield Scenario(f"error/1d/{f1}/{f2}", go_error, f1=f1, f2=f2, shape=(2,), r1=1, r2=1)
    yield Scenario("error/tt/tt/2", go_error, {"weight": 5}, f1="tt", f2="tt", shape=(2, 2, 2), r1=1, r2=1)
    yield Scenario("error/sparse/sparse/3", go_error, f1="sparse:3", f2="sparse:2", shape=(3, 1, 2), r1=1, r2=1)
    for f in fs[:5]:
        yield Scenario(f"zero/{f}", go_zero, fmt=f, shape=(2, 2), r1=1)
    # sizes beyond what block sizes and thresholds would hide behind
    for f1, f2, sh, r1, r2 in (("sparse:300", "sparse:200", (20, 20), 1, 1), ("sparse:1100", "sparse:700", (40, 40), 1, 1), ("sparse:300", "dense", (20, 20), 1, 1),
                               ("dense", "dense", (40, 30), 1, 1), ("tt", "tt", (3, 2), 34, 2), ("cp", "cp", (3, 2), 34, 2), ("cp", "tt", (3, 2), 70, 1),
                               ("tt", "dense", (40, 2), 2, 1), ("tt", "tt", (2,) * 8, 1, 1), ("sparse:70", "tt", (2,) * 8, 1, 1), ("sparse:70", "sparse:65", (2,) * 8, 1, 1),
                               ("tt", "tt", (60, 2), 1, 1), ("sparse:200", "cp", (20, 20), 1, 1)):
        yield Scenario(f"vast/{f1}/{f2}/{sh}", go_dot, f1=f1, f2=f2, shape=sh, r1=r1, r2=r2)
