"""C21: shapes, ranks and sizes reported by tensors are those of their data."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C17 import mpo_cores

PROPERTY = "C21"
BOUNDS = {
    "quick": "orders 1-6, modes of size 1-6, ranks 1-5 and sketch ranks 1-5 (equal, unequal and larger than the modes), all "
             "entries symbolic, every format and every operation that returns a tensor, a sketch or an operator; larger cases: modes up to 40, ranks up to 70, 300 nonzeros, order 8, 30 summands",
    "thorough": "as quick, orders up to 7 and more ranks"}
ASSUMPTIONS = ["exact real arithmetic; QR, SVD and least squares return arrays of the documented shapes",
               "cores are replaced through the tensor (`t[i] = core`), so that they fit their neighbours in the end"]
LIMIT = {"quick": 120, "thorough": 500}


def ints(x):
    return tuple(int(n) for n in x)


def good(W, label, t, shape=None, X=None):
    """Everything t reports agrees with its data (and with shape, if given)."""
    T = W.load("tt_sketch.tensor")
    S = W.load("tt_sketch.sketch")
    SC = W.load("tt_sketch.sketch_container").SketchContainer
    G = W.load("tt_sketch.tt_gmres")
    L = label + ": "
    if isinstance(t, SC) or isinstance(t, S.SketchedTensorTrain):
        c = t if isinstance(t, SC) else t.sketch_
        d = len(c.Psi_cores)
        W.true(L + "one small matrix per bond", len(c.Omega_mats) == d - 1)
        lr = tuple(o.shape[0] for o in c.Omega_mats)
        rr = tuple(o.shape[1] for o in c.Omega_mats)
        sh = tuple(P.shape[1] for P in c.Psi_cores)
        W.true(L + "cores fit the small matrices", [P.shape for P in c.Psi_cores] == [
            (a, n, b) for a, n, b in zip((1,) + lr, sh, rr + (1,))])
        for o in {id(o): o for o in (t, c)}.values():
            W.true(L + "shape", ints(o.shape) == sh)
            W.true(L + "left rank", ints(o.left_rank) == lr)
            W.true(L + "right rank", ints(o.right_rank) == rr)
        if t is not c:
            n = sum(P.size for P in c.Psi_cores) + sum(o.size for o in c.Omega_mats)
            W.true(L + "size", int(t.size) == n)
            W.true(L + "ndim", int(t.ndim) == d)
            W.true(L + "maps: shape", ints(t.left_drm.shape) == sh == ints(t.right_drm.shape))
            W.true(L + "maps: rank", ints(t.left_drm.rank) == lr and ints(t.right_drm.rank[::-1]) == rr)
            W.true(L + "maps: side", t.left_drm.transpose is False and t.right_drm.transpose is True)
        if shape is not None:
            W.true(L + "expected shape", sh == tuple(shape))
        return
    if isinstance(t, G.MPO):
        W.true(L + "in_shape", ints(t.in_shape) == tuple(c.shape[1] for c in t.cores))
        W.true(L + "out_shape", ints(t.out_shape) == tuple(c.shape[2] for c in t.cores))
        W.true(L + "shape", ints(t.shape) == tuple(c.shape[1] * c.shape[2] for c in t.cores))
        W.true(L + "rank", ints(t.rank) == tuple(c.shape[0] for c in t.cores[1:]))
        W.true(L + "cores fit together", all(a.shape[3] == b.shape[0] for a, b in zip(t.cores, t.cores[1:]))
               and t.cores[0].shape[0] == 1 == t.cores[-1].shape[3])
        W.true(L + "size", int(t.size) == sum(c.size for c in t.cores))
        return
    name = type(t).__name__
    W.true(L + "is a tensor", isinstance(t, T.Tensor))
    sh = ints(t.shape)
    W.true(L + "ndim", int(t.ndim) == len(sh))
    if name == "DenseTensor":
        W.true(L + "shape", sh == t.data.shape)
        W.true(L + "size", int(t.size) == t.data.size)
    elif name == "SparseTensor":
        ix = [np.asarray(i) for i in t.indices]
        W.true(L + "one index array per mode", len(ix) == len(sh) and all(i.shape == (len(t.entries),) for i in ix))
        W.true(L + "indices are in range", all(0 <= int(v) < n for i, n in zip(ix, sh) for v in i))
        W.true(L + "nnz", int(t.nnz) == len(t.entries))
        W.true(L + "size", int(t.size) == len(t.entries) * (1 + len(sh)))
    elif name == "TensorTrain":
        W.true(L + "shape", sh == tuple(c.shape[1] for c in t.cores))
        W.true(L + "rank", ints(t.rank) == tuple(c.shape[0] for c in t.cores[1:]))
        W.true(L + "cores fit together", all(a.shape[2] == b.shape[0] for a, b in zip(t.cores, t.cores[1:]))
               and t.cores[0].shape[0] == 1 == t.cores[-1].shape[2])
        W.true(L + "size", int(t.size) == sum(c.size for c in t.cores))
    elif name == "CPTensor":
        W.true(L + "shape", sh == tuple(c.shape[0] for c in t.cores))
        W.true(L + "rank", all(int(t.rank) == c.shape[1] for c in t.cores))
        W.true(L + "size", int(t.size) == sum(c.size for c in t.cores))
    elif name == "TuckerTensor":
        W.true(L + "shape", sh == tuple(u.shape[1] for u in t.factors))
        W.true(L + "rank", ints(t.rank) == tuple(u.shape[0] for u in t.factors) == tuple(t.core.shape))
        W.true(L + "size", int(t.size) == t.core.size + sum(u.size for u in t.factors))
    elif name == "TensorSum":
        W.true(L + "number of summands", int(t.num_summands) == len(t.tensors))
        W.true(L + "shape", all(ints(q.shape) == sh for q in t.tensors))
        W.true(L + "size", int(t.size) == sum(int(q.size) for q in t.tensors))
        for k, q in enumerate(t.tensors):
            good(W, f"{label}[{k}]", q, sh)
    else:
        W.true(L + f"unknown result {name}", False)
    if shape is not None:
        W.true(L + "expected shape", sh == tuple(shape))
    Y = t.to_numpy()
    W.true(L + "shape of the array", tuple(np.shape(Y)) == sh)
    if X is not None:
        W.eq(L + "entries", Y, X)


def go_unary(W):
    p = W.p
    fmt, shape = p["fmt"], p["shape"]
    rev = tuple(shape[::-1])
    t, X = lib.make(W, fmt, "X", shape, p["rank"])
    s = W.real("s")
    good(W, fmt, t, shape, X)
    good(W, "T", t.T, rev, lib.transpose_all(X))
    good(W, "T.T", t.T.T, shape, X)
    good(W, "t*s", t * s, shape, X * s)
    good(W, "s*t", s * t, shape, X * s)
    good(W, "-t", -t, shape, -X)
    good(W, "t/2", t / W.num(2), shape)
    good(W, "t+t", t + t, shape, X + X)
    good(W, "t-t", t - t, shape, X - X)
    good(W, "dense", t.dense(), shape, X)
    good(W, "(t+t).T", (t + t).T, rev)
    good(W, "(t*s).T", (t * s).T, rev)
    if "+" in fmt:
        q = t * [W.num(k) for k in range(t.num_summands)]
        good(W, "weighted", q, shape)
        u = t + t
        u += lib.make(W, "tt", "U", shape, 1)[0]
        good(W, "in-place sum", u, shape)
        u += t
        good(W, "in-place sum of sums", u, shape)
    elif fmt.startswith("sparse"):
        for n in (1, 2, 3, 5):
            q = t.split(n)
            good(W, f"split {n}", q, shape, X)
            W.true("split: number of summands", q.num_summands == n)
    elif fmt == "tt":
        good(W, "add", t.add(t), shape, X + X)
        d = len(shape)
        if d > 1:
            W.true("add: ranks", ints(t.add(t).rank) == tuple(2 * r for r in lib.ranks(p["rank"], d)))
        t[0] = t[0] * s
        good(W, "setitem", t, shape, X * s)
    elif fmt == "cp":
        t[0] = t[0] * s
        good(W, "setitem", t, shape, X * s)
    elif fmt == "dense" and X.size < 4:
        good(W, "to_sparse", t.to_sparse(), shape)


def go_tt(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, "tt", "X", shape, p["rank"])
    good(W, "orthogonalize", t.orthogonalize(), shape)
    good(W, "orthogonalize twice", t.orthogonalize().orthogonalize(), shape)
    good(W, "orthogonalize T", t.T.orthogonalize(), shape[::-1])
    for mx in p["max"]:
        y = t.round(max_rank=mx)
        good(W, f"round {mx}", y, shape)
        good(W, f"round {mx}, T", y.T, shape[::-1])
    sv = t.svdvals()
    W.true("svdvals per mode", len(sv) == len(shape))
    if p.get("svd"):
        V = W.load("tt_sketch.tt_svd").tt_svd
        T = W.load("tt_sketch.tensor")
        for mx in p["max"]:
            good(W, f"tt_svd {mx}", V(T.DenseTensor(X), mx), shape)


def go_binary(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["a"], "X", shape, 2)
    u, Y = lib.make(W, p["b"], "Y", shape, 1, seed=3)
    good(W, "+", t + u, shape, X + Y)
    good(W, "-", t - u, shape, X - Y)
    good(W, "+ +", t + u + t, shape, X + Y + X)
    good(W, "nested", t + (u + t), shape, X + Y + X)
    good(W, "sum of sums", (t + u) + (u + t), shape)
    good(W, "(+).T", (t + u).T, shape[::-1])
    good(W, "(-)*s", (t - u) * W.real("s"), shape)


def go_sketch(W):
    p = W.p
    shape, d = p["shape"], len(p["shape"])
    lr, rr = tuple(p["lr"]), tuple(p["rr"])
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, 1)
    u, Y = lib.make(W, p["other"], "Y", shape, 1, seed=3)
    cls = lib.drm_cls(W, p["drm"])
    left, right = lib.make_drms(W, p["drm"], shape, lr, rr, seed=11)
    s = S.stream_sketch(t, lr, rr, left_drm=left, right_drm=right)
    c = W.real("c")
    W.true("ranks as requested", ints(s.left_rank) == lr and ints(s.right_rank) == rr)
    for nm, q, sh in (("s", s, shape), ("s+u", s + u, shape), ("s-u", s - u, shape), ("s*c", s * c, shape), ("-s", -s, shape),
                      ("s/2", s / W.num(2), shape), ("s.T", s.T, shape[::-1]), ("s.T.T", s.T.T, shape),
                      ("(s+u).T*c", (s + u).T * c, shape[::-1])):
        good(W, nm, q, sh)
        if p.get("tt", True):
            good(W, nm + ".to_tt", q.to_tt(), sh)
    W.true("T swaps the ranks", ints(s.T.left_rank) == rr[::-1] and ints(s.T.right_rank) == lr[::-1])
    good(W, "container.T", s.sketch_.T, shape[::-1])
    T = W.load("tt_sketch.tensor")
    for direction, want in (("left", rr), ("right", lr)):
        q = T.TensorTrain(s.C_cores(direction))
        good(W, f"C_cores {direction}", q, shape)
        W.true(f"C_cores {direction}: ranks", ints(q.rank) == want)
    if hasattr(left, "slice") and max(lr + rr) > 1:
        lo = (0,) * (d - 1)
        a, b = tuple(r // 2 for r in lr), tuple(max(1, r // 2) for r in rr)
        q = left.slice(a, lr)
        W.true("slice: rank", ints(q.rank) == tuple(y - x for x, y in zip(a, lr)) and ints(q.shape) == tuple(shape))
        q = right.slice(lo, b)
        W.true("slice of the right map: rank", ints(q.rank[::-1]) == b and ints(q.shape) == tuple(shape))
        good(W, "blocked", S.blocked_stream_sketch(t, left, right, [lo, lr], [lo, b, rr] if b != rr else [lo, rr]), shape)
    W.true("T of a map", ints(left.T.shape) == tuple(shape[::-1]) and left.T.transpose is True
           and ints(left.T.rank) == ints(left.rank) and left.T.T.transpose is False)
    if hasattr(left, "increase_rank"):
        more = (2, 1) if lr[0] > rr[0] else (1, 2)
        nl, nr = tuple(r + more[0] for r in lr), tuple(r + more[1] for r in rr)
        q = s.increase_rank(t, nl, nr)
        good(W, "increase_rank", q, shape)
        W.true("increase_rank: ranks", ints(q.left_rank) == nl and ints(q.right_rank) == nr)
        good(W, "(increase_rank) + u", q + u, shape)
        good(W, "(increase_rank).T", q.T, shape[::-1])


def go_auto(W):
    """Ranks of requests by integers and tuples, for every kind of sketch."""
    p = W.p
    from .C10 import closed_trim
    shape, d = p["shape"], len(p["shape"])
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, 1)
    lr, rr = lib.ranks(p["lr"], d), lib.ranks(p["rr"], d)
    cls = lib.drm_cls(W, p["drm"])
    s = S.stream_sketch(t, p["lr"], p["rr"], seed=3, left_drm_type=cls, right_drm_type=cls)
    good(W, "stream", s, shape)
    wl, wr = (lr, closed_trim(shape, rr)) if lr[0] > rr[0] else (closed_trim(shape, lr), rr)
    W.true("stream: ranks", ints(s.left_rank) == wl and ints(s.right_rank) == wr)
    h = S.hmt_sketch(t, p["rr"], seed=3, drm_type=cls)
    good(W, "hmt", h, shape)
    W.true("hmt: ranks", ints(h.rank) == closed_trim(shape, rr))
    if lr[0] < rr[0]:
        o = S.orthogonal_sketch(t, p["lr"], p["rr"], seed=3, left_drm_type=cls, right_drm_type=cls)
        good(W, "orthogonal", o, shape)
        W.true("orthogonal: ranks", ints(o.rank) == closed_trim(shape, lr))


def go_maps(W):
    p = W.p
    ins, outs, d = p["ins"], p["outs"], len(p["ins"])
    G = W.load("tt_sketch.tt_gmres")
    A = G.MPO(mpo_cores(W, "A", ins, outs, p["rank"]))
    B = G.MPO(mpo_cores(W, "B", ins, outs, 1))
    x, X = lib.make(W, "tt", "x", ins, p["r"])
    y, _ = lib.make(W, "tt", "y", ins, 1)
    s = W.real("s")
    for nm, q in (("A", A), ("A.T", A.T), ("A*s", A * s), ("-A", -A), ("A/2", A / W.num(2)), ("A.T.T", A.T.T)):
        good(W, nm, q)
    W.true("T swaps the shapes", ints(A.T.in_shape) == tuple(outs) and ints(A.T.out_shape) == tuple(ins))
    z = A(x)
    good(W, "A(x)", z, outs)
    W.true("A(x): ranks", ints(z.rank) == tuple(a * b for a, b in zip(lib.ranks(p["rank"], d), lib.ranks(p["r"], d))))
    good(W, "to_tt", A.to_tt(), tuple(a * b for a, b in zip(ins, outs)))
    M = G.TTLinearMapSum([A, B])
    W.true("sum of maps: shapes", ints(M.in_shape) == tuple(ins) and ints(M.out_shape) == tuple(outs))
    good(W, "sum(x)", M(x), outs)
    W.true("sum(x): summands", M(x).num_summands == 2)
    good(W, "sum(x+y)", M(x + y), outs)
    W.true("sum(x+y): summands", M(x + y).num_summands == 4)
    E = G.MPO.eye(ins)
    good(W, "eye", E)
    W.true("eye: shape", ints(E.in_shape) == tuple(ins) == ints(E.out_shape))
    for mode in range(d):
        n = ins[mode]
        P = G.TTPrecond(W.const_array("P", (n, n)) + 5 * W.eye(n), ins, mode)
        W.true("preconditioner: shapes", ints(P.in_shape) == tuple(ins) == ints(P.out_shape))
        good(W, "P(x)", P(x), ins)
        good(W, "P.forward", P.forward_call(x), ins)
        W.true("P(x): ranks", ints(P(x).rank) == ints(x.rank))


def go_again(W):
    shape = W.p["shape"]

    def look(label, t, X):
        good(W, label, t, shape, X)
        good(W, f"{label}: T", t.T, shape[::-1])
        good(W, f"{label}: t * 2", t * 2, shape, X * 2)
    lib.again(W, look, W.p["fmt"], shape)
    if W.p["fmt"] in ("tt", "cp"):
        t, _ = lib.make(W, W.p["fmt"], "Z", shape, 2)
        c = t[0]
        n = shape[0] + 1
        t[0] = lib.arr(W, "longer", (c.shape[0], n, c.shape[2]) if c.ndim == 3 else (n, c.shape[1]))
        good(W, "after setting a core of another mode size", t, (n,) + tuple(shape[1:]))


def scenarios(tier):
    for f in lib.CHANGED:
        for sh in ((3,), (2, 3), (2, 1, 2)):
            if f != "tucker" or len(sh) > 1:
                yield Scenario(f"again/{f}/{sh}", go_again, fmt=f, shape=sh)
    for s in _scenarios(tier):
        s.opts = dict({"pinv": "any", "feas": "linear"}, **s.opts)
        yield s


def _scenarios(tier):
    big = tier == "thorough"
    shapes = [((2, 3), 2), ((2, 1, 3), (2, 3)), ((3, 1, 2), 1), ((2, 1, 2, 1), 2), ((6, 5), 5), ((1, 2, 1, 2, 1, 1), 2)] + (
        [((2, 2, 2, 2), 2), ((3, 2, 1), (3, 2)), ((1, 2, 1, 2, 1), 2), ((1, 1, 2, 1, 2, 1, 1), 2)] if big else [])
    fmts = ["dense", "tt", "cp", "tucker", "sparse:3", "tt+cp", "sparse:2+dense+tt"]
    for f in fmts:
        for sh, rk in shapes:
            r = rk if f == "tt" or isinstance(rk, int) else rk[0]
            if f == "tucker":
                r = tuple(1 + (k + (r if isinstance(r, int) else r[0])) % 3 for k in range(len(sh)))
            yield Scenario(f"unary/{f}/{sh}", go_unary, fmt=f, shape=sh, rank=r)
        yield Scenario(f"unary/{f}/1", go_unary, fmt=f, shape=(3,), rank=1)
    yield Scenario("unary/dense/small", go_unary, fmt="dense", shape=(1, 3), rank=1)
    yield Scenario("unary/sparse/empty", go_unary, fmt="sparse:0", shape=(2, 3), rank=1)
    yield Scenario("unary/sparse/one", go_unary, fmt="sparse:1", shape=(2, 3), rank=1)
    for sh, rk, mx in (((2, 3), 3, (1, 2)), ((2, 2, 2), 2, (1, (2, 1))), ((2, 1, 3), (3, 2), ((1, 2), 3)), ((3,), (), (1,)),
                       ((2, 3, 2), (4, 3), ((2, 1), (1, 2)))) + ((((2, 2, 2, 2), 2, (1, (2, 2, 1))),) if big else ()):
        yield Scenario(f"tt/{sh}/{rk}", go_tt, shape=sh, rank=rk, max=mx, svd=len(sh) > 1)
    # sizes beyond what block sizes and thresholds would hide behind
    for f, sh, r in (("sparse:300", (20, 20), 1), ("dense", (40, 30), 1), ("tt", (3, 2), 40), ("cp", (3, 2), 70), ("tucker", (30, 3), 2), ("tt", (2,) * 8, 1),
                     ("+".join(["tt"] * 30), (2, 3), 1)):
        yield Scenario(f"large/unary/{f[:20]}/{sh}/{r}", go_unary, fmt=f, shape=sh, rank=(r,) * len(sh) if f == "tucker" else r)
    for a in fmts[:6]:
        for b in fmts[:6]:
            yield Scenario(f"binary/{a}/{b}", go_binary, a=a, b=b, shape=(2, 1, 3))
    for drm, fs in lib.DRM_FORMATS.items():
        for k, f in enumerate(fs):
            f = "sparse:3" if f == "sparse" else f
            o = fs[(k + 1) % len(fs)]
            o = "sparse:2" if o == "sparse" else o
            for sh, lr, rr in (((2, 1, 2), (1, 1), (2, 3)), ((2, 3, 2), (3, 4), (2, 1)), ((2, 2, 2, 1), (1, 2, 3), (2, 3, 4)),
                               ((3, 2), (1,), (2,)), ((1, 2, 1, 2, 1), (1, 2, 1, 2), (2, 3, 3, 3))) + ((((2, 2, 2, 2), (3, 4, 2), (2, 1, 1)),) if big else ()):
                yield Scenario(f"sketch/{drm}/{f}/{sh}/{lr}", go_sketch, drm=drm, fmt=f, other=o, shape=sh, lr=lr, rr=rr)
            for sh, lr, rr in (((2, 3, 2), 1, 3), ((2, 3, 2), (4, 3), 2), ((2, 3), 2, 5), ((2, 1, 2), (1, 2), (2, 4))):
                yield Scenario(f"auto/{drm}/{f}/{sh}/{lr}/{rr}", go_auto, drm=drm, fmt=f, shape=sh, lr=lr, rr=rr)
    for ins, outs, rk, r in (((2, 3), (2, 3), 2, 2), ((2, 2), (3, 1), 1, 3), ((2, 1, 2), (1, 3, 2), (2, 3), (1, 2)), ((2,), (3,), (), ()),
                             ((2, 1, 1, 2), (1, 2, 2, 1), 2, 1)):
        yield Scenario(f"maps/{ins}/{outs}", go_maps, ins=ins, outs=outs, rank=rk, r=r)
