"""C07: tensor arithmetic equals the arithmetic of the represented arrays."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C07"
ASSUMPTIONS = ["exact real arithmetic", "sparse tensors have distinct coordinates"]
BOUNDS = {"quick": "order 1..6, mode sizes 1..6, ranks 1..6, sums of 0 to 12 summands; larger cases: order 9, modes up to 40, ranks up to 70, 1100 nonzeros, 30 summands; symbolic entries and scalars",
          "thorough": "order 1..7, mode sizes 1..8, ranks 1..8, sums of 0 to 12 summands; symbolic entries and scalars"}

TRANSPOSED_ATTRS = ("shape", "ndim")


def same(W, label, t, X):
    W.true(label + ": shape", tuple(int(n) for n in t.shape) == tuple(X.shape), f"{t.shape} {X.shape}")
    W.eq(label, t.to_numpy(), X)


def go_unary(W):
    p = W.p
    t, X = lib.make(W, p["fmt"], "X", p["shape"], p["rank"])
    c = W.real("c")
    same(W, "to_numpy", t, X)
    same(W, "dense()", t.dense(), X)
    W.true("dense() is dense", type(t.dense()).__name__ == "DenseTensor")
    same(W, "t * c", t * c, X * c)
    same(W, "c * t", c * t, X * c)
    same(W, "t * 0", t * 0, X * 0)
    same(W, "t * int", t * 3, X * 3)
    same(W, "t / 4", t / 4, X / 4)
    same(W, "-t", -t, -X)
    same(W, "(t * c) * c", (t * c) * c, X * c * c)
    same(W, "transpose", t.T, lib.transpose_all(X))
    same(W, "transpose twice", t.T.T, X)
    same(W, "transpose of a multiple", (t * c).T, lib.transpose_all(X) * c)
    W.true("ndim", t.ndim == len(p["shape"]))
    same(W, "t - t", t - t, X * 0)
    same(W, "operand unchanged", t, X)


def go_binary(W):
    p = W.p
    shape = p["shape"]
    a, X = lib.make(W, p["f1"], "X", shape, p["r1"])
    b, Y = lib.make(W, p["f2"], "Y", shape, p["r2"], seed=3)
    c = W.real("c")
    n1, n2 = (len(f.split("+")) + ("rep~" in f) for f in (p["f1"], p["f2"]))
    s = a + b
    same(W, "a + b", s, X + Y)
    W.true("a + b: summands in order", s.num_summands == n1 + n2)
    same(W, "a - b", a - b, X - Y)
    same(W, "b - a", b - a, Y - X)
    same(W, "(a + b) * c", s * c, (X + Y) * c)
    same(W, "(a + b) / 2", s / 2, (X + Y) / 2)
    same(W, "-(a + b)", -s, -(X + Y))
    same(W, "(a + b).T", s.T, lib.transpose_all(X + Y))
    same(W, "(a + b) + (a - b)", (a + b) + (a - b), X * 2)
    same(W, "a + (a + b)", a + (a + b), X * 2 + Y)
    same(W, "(a + b) + a", (a + b) + a, X * 2 + Y)
    same(W, "dense(a + b)", s.dense(), X + Y)
    ws = [W.real(f"w{k}") for k in range(n1 + n2)]
    ref = None
    for k, u in enumerate(s.tensors):
        v = u.to_numpy() * ws[k]
        ref = v if ref is None else ref + v
    same(W, "sum times a list of weights", s * ws, ref)
    W.raises("too few weights are rejected", (ValueError,), lambda: s * ws[:-1])
    W.raises("too many weights are rejected", (ValueError,), lambda: s * (ws + [ws[0]]))
    same(W, "a unchanged", a, X)
    same(W, "b unchanged", b, Y)
    s2 = a + b
    s2 += b
    same(W, "in-place addition", s2, X + Y + Y)
    s2 += (a + b)
    same(W, "in-place addition of a sum", s2, X * 2 + Y * 3)
    same(W, "a unchanged by in-place addition", a, X)
    same(W, "b unchanged by in-place addition", b, Y)
    W.true("size is additive", int(s.size) == int(a.size) + int(b.size))


def go_empty(W):
    """Sums without summands are zero."""
    p = W.p
    shape = p["shape"]
    T = W.load("tt_sketch.tensor")
    a, X = lib.make(W, p["fmt"], "X", shape, 2)
    Z = X * 0
    e = T.TensorSum([], shape=tuple(shape))
    c = W.real("c")
    same(W, "empty", e, Z)
    same(W, "empty.T", e.T, lib.transpose_all(Z))
    same(W, "empty.T.T", e.T.T, Z)
    for nm, f in (("empty * c", lambda: e * c), ("c * empty", lambda: c * e), ("empty / 2", lambda: e / 2), ("-empty", lambda: -e),
                  ("no weights", lambda: e * []), ("empty + empty", lambda: e + e), ("empty - empty", lambda: e - e)):
        same(W, nm, f(), Z)
    same(W, "empty + a", e + a, X)
    same(W, "a + empty", a + e, X)
    same(W, "a - empty", a - e, X)
    same(W, "empty - a", e - a, -X)
    s = T.TensorSum([], shape=tuple(shape))
    s += a
    same(W, "+=", s, X)
    s += e
    same(W, "+= empty", s, X)
    same(W, "still empty", e, Z)
    W.true("no summands", e.num_summands == 0 and int(e.size) == 0)
    W.eq("dot", np.asarray(e.dot(a)), np.asarray(Z.sum()))
    W.eq("dot (right)", np.asarray(a.dot(e)), np.asarray(Z.sum()))


def go_long(W):
    """Sums of many tensors."""
    p = W.p
    shape, n = p["shape"], p["n"]
    parts = [lib.make(W, p["fmts"][k % len(p["fmts"])], f"X{k}", shape, 1, seed=k) for k in range(n)]
    s, ref = parts[0][0] + parts[1][0], parts[0][1] + parts[1][1]
    for k, (t, X) in enumerate(parts[2:]):
        if k % 3 == 0:
            s, ref = s + t, ref + X
        elif k % 3 == 1:
            s, ref = t - s, X - ref
        else:
            s += t
            ref = ref + X
    same(W, "sum", s, ref)
    W.true("summands", s.num_summands == n)
    same(W, "transposed", s.T, lib.transpose_all(ref))
    ws = [W.real(f"w{k}") for k in range(n)]
    out = None
    for t, w in zip(s.tensors, ws):
        v = t.to_numpy() * w
        out = v if out is None else out + v
    same(W, "weights", s * ws, out)
    same(W, "dense", s.dense(), ref)


def go_add_tt(W):
    """Direct-sum addition of two tensor trains."""
    p = W.p
    shape = p["shape"]
    a, X = lib.make(W, "tt", "X", shape, p["r1"])
    b, Y = lib.make(W, "tt", "Y", shape, p["r2"])
    s = a.add(b)
    same(W, "add", s, X + Y)
    d = len(shape)
    W.true("add: ranks add up", tuple(s.rank) == tuple(
        x + y for x, y in zip(lib.ranks(p["r1"], d), lib.ranks(p["r2"], d))))
    W.true("add: cores fit", all(C.shape == (r, n, q) for C, r, n, q in zip(
        s.cores, (1,) + tuple(s.rank), shape, tuple(s.rank) + (1,))))
    same(W, "add: operand", a, X)
    same(W, "add: operand", b, Y)
    T = W.load("tt_sketch.tensor").TensorTrain
    for rk in (1, 3, lib.ranks(p["r1"], d)):
        z = T.zero(shape, rk)
        same(W, "zero", z, X * 0)
        W.true("zero: rank", tuple(z.rank) == lib.ranks(rk, d))
        same(W, "zero + a", z.add(a), X)


def go_partial(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, "tt", "X", shape, p["r1"])
    d = len(shape)
    lr = t.partial_dense("lr")
    W.true("partial lr: count", len(lr) == d - 1)
    acc = t.cores[0][0]
    for mu in range(d - 1):
        W.eq("partial lr", lr[mu], acc.reshape(-1, acc.shape[-1]))
        acc = np.tensordot(acc, t.cores[mu + 1], axes=([acc.ndim - 1], [0]))
    rl = t.partial_dense("rl")
    W.true("partial rl: count", len(rl) == d - 1)
    acc = t.cores[-1][:, :, 0]
    for mu in range(d - 1):
        W.eq("partial rl", rl[mu], acc.reshape(acc.shape[0], -1))
        acc = np.tensordot(t.cores[d - 2 - mu], acc, axes=([2], [0]))
    W.eq("default is lr", t.partial_dense()[-1], lr[-1])
    same(W, "unchanged", t, X)
    # item access replaces single cores
    for k in range(d):
        W.eq("item access", t[k], t.cores[k])
    new = W.array("new", t.cores[-1].shape)
    t[d - 1] = new
    cores = list(t.cores[:-1]) + [new]
    same(W, "item assignment", t, lib.ref_tt(cores))


def go_again(W):
    shape = W.p["shape"]
    u, Y = lib.make(W, "tt", "Y", shape, 1)

    def look(label, t, X):
        same(W, f"{label}: to_numpy", t, X)
        same(W, f"{label}: dense", t.dense(), X)
        same(W, f"{label}: t * 3", t * 3, X * 3)
        same(W, f"{label}: t + u", t + u, X + Y)
        same(W, f"{label}: u - t", u - t, Y - X)
        if W.p["fmt"] == "tt":
            same(W, f"{label}: add", t.add(u), X + Y)
    lib.again(W, look, W.p["fmt"], shape)


def scenarios(tier):
    for f in lib.CHANGED:
        for sh in ((3,), (2, 3), (2, 1, 2)):
            if f != "tucker" or len(sh) > 1:
                yield Scenario(f"again/{f}/{sh}", go_again, fmt=f, shape=sh)
    big = tier == "thorough"
    shapes = [(2, 3), (3, 1, 2), (2, 2, 2, 2), (2, 1, 2, 1, 2), (6, 5)] + (
        [(4, 2, 3), (1, 2, 1, 2, 1, 2), (8, 7), (2, 1, 1, 2, 1, 1, 2)] if big else [(1, 2, 1, 2, 1, 2)])
    for f in ("dense", "tt", "cp", "tucker", "sparse:2", "tt+cp"):
        for sh in ((2, 3), (2, 1, 3)):
            yield Scenario(f"empty/{f}/{sh}", go_empty, fmt=f, shape=sh)
    for n in (3, 7, 12):
        for fs in (("tt",), ("tt", "cp", "sparse:2"), ("dense", "tucker")):
            yield Scenario(f"long/{n}/{'+'.join(fs)}", go_long, n=n, fmts=fs, shape=(2, 2, 2))
    for f in ("dense", "tt", "cp", "tucker", "sparse:3", "sparse:0", "dense+tt", "tt+cp+tucker+sparse:2",
              "rep~tt+dense", "nest~cp+sparse:2"):
        for sh in shapes:
            for r in ((1, 2, 3, 6) if not big else (1, 2, 3, 4, 8)):
                if f.startswith(("dense", "sparse")) and r > 1:
                    continue
                if r >= 3 and len(sh) > 3:
                    continue
                yield Scenario(f"unary/{f}/{sh}/{r}", go_unary, fmt=f, shape=sh, rank=r)
        if f.split("+")[0] in ("dense", "cp", "sparse:3", "tt", "tucker"):
            yield Scenario(f"unary/{f}/1d", go_unary, fmt=f.split("+")[0] if "+" in f else f, shape=(3,), rank=2) \
                if "+" not in f else Scenario(f"unary/{f}/(1,1)", go_unary, fmt=f, shape=(1, 1), rank=1)
    fs = ("dense", "tt", "cp", "tucker", "sparse:2", "dense+sparse:2", "tt+cp", "rep~dense+tt")
    for f1 in fs:
        for f2 in fs:
            yield Scenario(f"binary/{f1}/{f2}", go_binary, f1=f1, f2=f2, shape=(2, 1, 3), r1=2, r2=1)
            if big:
                yield Scenario(f"binary/{f1}/{f2}/b", go_binary, f1=f1, f2=f2, shape=(3, 2, 2, 2), r1=1, r2=2)
    for sh, r1, r2 in (((2, 3), 2, 1), ((2, 3, 2), (1, 2), (3, 1)), ((2, 1, 2, 2), (2, 2, 3), (1, 2, 2)),
                       ((1, 1), 1, 1), ((3, 2), 3, 3), ((3,), (), ()), ((5, 4), 6, 5),
                       ((2, 1, 2, 1, 2, 1), (2, 1, 2, 2, 1), (1, 2, 1, 2, 3))):
        yield Scenario(f"add/{sh}/{r1}/{r2}", go_add_tt, shape=sh, r1=r1, r2=r2)
        if len(sh) > 1:
            yield Scenario(f"partial/{sh}/{r1}", go_partial, shape=sh, r1=r1)
    # sizes beyond what block sizes and thresholds would hide behind
    for f, sh, r in (("sparse:300", (20, 30), 1), ("sparse:1100", (40, 40), 1), ("dense", (40, 30), 1), ("dense", (2,) * 9, 1),
                     ("tt", (40, 3), 2), ("tt", (3, 2), 70), ("tt", (2,) * 9, 1), ("cp", (40, 3), 2), ("cp", (3, 2), 70), ("tucker", (30, 3), 2),
                     ("sparse:70", (2,) * 8, 1), ("+".join(["tt", "cp", "sparse:2"] * 10), (2, 3), 1)):
        yield Scenario(f"large/unary/{f[:20]}/{sh}/{r}", go_unary, fmt=f, shape=sh, rank=r)
    for f1, f2, sh, r1, r2 in (("sparse:200", "sparse:150", (20, 15), 1, 1), ("tt", "tt", (3, 2), 34, 40), ("cp", "cp", (3, 2), 34, 40), ("dense", "cp", (20, 15), 1, 2),
                               ("tt", "cp", (2,) * 8, 1, 1), ("tt", "dense", (40, 2), 2, 1)):
        yield Scenario(f"large/binary/{f1}/{f2}/{sh}", go_binary, f1=f1, f2=f2, shape=sh, r1=r1, r2=r2)
    for sh, r1, r2 in (((3, 2), 34, 70), ((40, 3), 2, 3), ((2,) * 9, (1,) * 8, (1,) * 8)):
        yield Scenario(f"large/add/{sh}/{r1}/{r2}", go_add_tt, shape=sh, r1=r1, r2=r2)
        yield Scenario(f"large/partial/{sh}/{r1}", go_partial, shape=sh, r1=r1)
