"""C09: element access, sparse conversions and splitting agree with the dense tensor."""
import itertools

import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C09"
ASSUMPTIONS = ["exact real arithmetic", "sparse tensors have distinct coordinates, whose entries are not overwritten in place between calls of gather"]
BOUNDS = {"quick": "order 1..6, mode sizes 1..7, ranks 1..6, up to 300 indices at once, up to 12 summands: every index, plus larger cases (1100 nonzeros, ranks up to 70, order 8), plus every list of two indices of the small shapes",
          "thorough": "order 1..7, mode sizes 1..9, ranks 1..8, up to 1200 indices at once, up to 12 summands: every index, every list of two indices"}


def at(X, idx):
    n = len(idx[0])
    out = np.empty((n,), dtype=np.asarray(X).dtype)
    for k in range(n):
        out[k] = X[tuple(int(i[k]) for i in idx)]
    return out


def go_gather(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["fmt"], "X", shape, p["rank"])
    full = lib.full_indices(shape)
    n = len(full[0])
    order = np.random.RandomState(1).permutation(n)
    rep = np.concatenate([order, order[:2], order[-1:], order[:1]])
    for name, sel in (("all", np.arange(n)), ("scrambled", order), ("repeated", rep),
                      ("last", np.array([n - 1])), ("first", np.array([0]))):
        idx = tuple(i[sel] for i in full)
        want = at(X, idx)
        W.eq(f"gather {name} (tuple)", t.gather(idx), want)
        if p["fmt"] != "cp":
            W.eq(f"gather {name} (array)", t.gather(np.stack(idx)), want)
        W.eq(f"gather {name} (again)", t.gather(idx), want)
    W.eq("unchanged", t.to_numpy(), X)


def go_gather_pick(W):
    """Two freely chosen indices (all values)."""
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["fmt"], "X", shape, p["rank"])
    idx = tuple(np.array([W.pick(f"i{m}.{k}", 0, shape[m] - 1) for k in range(p["k"])], dtype=np.int64)
                for m in range(len(shape)))
    W.eq("gather", t.gather(idx), at(X, idx))


def go_gather_negative(W):
    """Negative indices are refused or count from the end, as in numpy."""
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["fmt"], "X", shape, p["rank"])
    idx = tuple(np.array([W.pick(f"i{m}.{k}", -shape[m], shape[m] - 1) for k in range(p["k"])], dtype=np.int64)
                for m in range(len(shape)))
    before = [i.copy() for i in idx]
    try:
        got = t.gather(idx)
    except (ValueError, IndexError):
        W.true("only negative indices are refused", any((i < 0).any() for i in idx))
        return
    W.eq("gather", got, at(X, tuple(i % n for i, n in zip(idx, shape))))
    W.true("indices unchanged", all(np.array_equal(a, b) for a, b in zip(before, idx)))


def go_to_sparse(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, "dense", "X", shape)
    s = t.to_sparse()
    W.true("shape", tuple(s.shape) == shape)
    W.true("type", type(s).__name__ == "SparseTensor")
    W.eq("same tensor", s.to_numpy(), X)
    W.eq("dense of the sparse tensor", s.dense().to_numpy(), X)
    W.true("nnz", s.nnz == len(s.entries) == int(np.prod(shape)))
    W.eq("gather", s.gather(lib.full_indices(shape)), X.reshape(-1))
    W.eq("transpose", s.T.to_numpy(), lib.transpose_all(X))
    W.eq("unchanged", t.to_numpy(), X)


def go_split(W):
    p = W.p
    shape, nnz = p["shape"], p["nnz"]
    T = W.load("tt_sketch.tensor")
    inds = lib.some_indices(shape, nnz, 2)
    e = W.array("e", (nnz,))
    X = lib.ref_sparse(W, shape, inds, e)
    for form in ("tuple", "array"):
        ix = tuple(i.copy() for i in inds) if form == "tuple" else np.stack([i.copy() for i in inds])
        t = T.SparseTensor(shape, ix, e.copy())
        W.eq(f"sparse from {form}", t.to_numpy(), X)
        W.true("nnz", t.nnz == nnz)
        for n in range(1, nnz + 2):
            s = t.split(n)
            W.true(f"split {n}: number of summands", s.num_summands == n)
            W.true(f"split {n}: shapes", tuple(s.shape) == shape and all(tuple(x.shape) == shape for x in s.tensors))
            W.true(f"split {n}: no entry is lost or repeated", sum(x.nnz for x in s.tensors) == nnz)
            W.eq(f"split {n}: same tensor", s.to_numpy(), X)
        W.eq("unchanged", t.to_numpy(), X)
    W.eq("norm", t.norm() ** 2, lib.sumsq(e))


def go_dict(W):
    p = W.p
    shape, nnz = p["shape"], p["nnz"]
    T = W.load("tt_sketch.tensor")
    inds = lib.some_indices(shape, nnz, 4)
    e = W.array("e", (nnz,))
    X = lib.ref_sparse(W, shape, inds, e)
    t = T.SparseTensor(shape, tuple(i.copy() for i in inds), e.copy())
    d = dict(t.dict)
    W.true("one key per entry", len(d) == nnz)
    for k, mi in enumerate(zip(*inds)):
        key = int(np.ravel_multi_index(tuple(int(i) for i in mi), shape))
        W.true("key present", key in d)
        W.eq("value", d[key], e[k])
    # scaling must not reuse stale cached entries
    c = W.real("c")
    u = t * c
    W.eq("gather after scaling", u.gather(lib.full_indices(shape)), (X * c).reshape(-1))
    W.eq("gather of the original", t.gather(lib.full_indices(shape)), X.reshape(-1))
    W.eq("gather of the transpose", t.T.gather(lib.full_indices(shape[::-1])),
         lib.transpose_all(X).reshape(-1))


def go_many(W):
    """More indices than entries: every index many times, in a scrambled order."""
    p = W.p
    shape, n = p["shape"], p["n"]
    t, X = lib.make(W, p["fmt"], "X", shape, p["rank"])
    rs = np.random.RandomState(4)
    idx = tuple(rs.randint(0, d, n) for d in shape)
    got = t.gather(idx)
    W.true("number of values", np.asarray(got).shape == (n,))
    W.eq("gather", got, at(X, idx))
    if p["fmt"] != "cp":
        W.eq("gather (array)", t.gather(np.stack(idx)), at(X, idx))


def go_huge(W):
    """Sparse tensors with far more cells than fit in memory: only the listed entries."""
    p = W.p
    shape = p["shape"]
    T = W.load("tt_sketch.tensor")
    e = W.array("e", (6,))
    rows = [tuple(0 for _ in shape), tuple(d - 1 for d in shape)]
    for m in range(len(shape)):          # differ from a corner in one mode only
        rows.append(tuple(d - 1 if k == m else 0 for k, d in enumerate(shape)))
        rows.append(tuple(0 if k == m else d - 1 for k, d in enumerate(shape)))
    rows = list(dict.fromkeys(rows))
    keep, absent = rows[:6], rows[6:] + [tuple(d // 2 for d in shape), tuple(min(1, d - 1) for d in shape)]
    absent = [r for r in absent if r not in keep]
    e = e[:len(keep)]
    inds = tuple(np.array([r[m] for r in keep], dtype=np.int64) for m in range(len(shape)))
    ask = keep + absent + keep[::-1]
    idx = tuple(np.array([r[m] for r in ask], dtype=np.int64) for m in range(len(shape)))
    val = dict(zip(keep, e))
    want = np.array([val.get(r, 0) for r in ask], dtype=e.dtype)
    t = T.SparseTensor(shape, inds, e.copy())
    W.eq("gather", t.gather(idx), want)
    W.eq("gather of the transpose", t.T.gather(idx[::-1]), want)
    W.eq("gather of a multiple", (t * 3).gather(idx), want * 3)
    W.eq("gather of the negative", (-t).gather(idx), -want)
    W.eq("norm", t.norm() ** 2, lib.sumsq(e))
    for n in (1, 2, 4):
        parts = t.split(n).tensors
        W.eq(f"split {n}", sum((q.gather(idx) for q in parts), 0 * want), want)
    W.true("size", int(t.size) == len(keep) * (len(shape) + 1))


def go_again(W):
    shape = W.p["shape"]
    idx = lib.full_indices(shape)

    def look(label, t, X):
        if hasattr(t, "gather"):
            W.eq(f"{label}: gather", t.gather(idx), X.reshape(-1))
        if hasattr(t, "to_sparse"):
            W.eq(f"{label}: to_sparse", t.to_sparse().to_numpy(), X)
    lib.again(W, look, W.p["fmt"], shape)


def scenarios(tier):
    for f in ("tt", "cp", "dense"):
        for sh in ((3,), (2, 2), (2, 1, 2)):
            if f != "dense" or np.prod(sh) < 4:
                yield Scenario(f"again/{f}/{sh}", go_again, fmt=f, shape=sh)
    big = tier == "thorough"
    shapes = [(2, 3), (3, 1, 2), (2, 2, 2, 2), (1, 3), (4,), (2, 1, 2, 1, 2), (7, 6), (1, 2, 1, 2, 1, 2)] + (
        [(4, 3, 2), (2, 1, 2, 2, 2), (9, 8), (2, 1, 1, 2, 1, 1, 2)] if big else [])
    for sh in shapes:
        for f, rs in (("tt", (1, 2, 3, 6)), ("cp", (1, 3, 6)), ("sparse:0", (1,)), ("sparse:2", (1,)), ("sparse:3", (1,)),
                      ("sparse:full", (1,))):
            for r in rs + ((4,) if big and rs != (1,) else ()):
                ff = f"sparse:{int(np.prod(sh))}" if f == "sparse:full" else f
                yield Scenario(f"gather/{f}/{sh}/{r}", go_gather, fmt=ff, shape=sh, rank=r)
        yield Scenario(f"to_sparse/{sh}", go_to_sparse, shape=sh)
        for nnz in (0, 1, 2, 3, 5):
            if nnz <= int(np.prod(sh)):
                yield Scenario(f"split/{sh}/{nnz}", go_split, shape=sh, nnz=nnz)
                yield Scenario(f"dict/{sh}/{nnz}", go_dict, shape=sh, nnz=nnz)
    yield Scenario("to_sparse/1d", go_to_sparse, shape=(3,))
    for f, r in (("tt", 2), ("cp", 2), ("sparse:3", 1)):
        yield Scenario(f"pick/{f}/(2, 3)", go_gather_pick, {"int_only": True, "max_values": 64}, fmt=f, rank=r, shape=(2, 3), k=2)
        yield Scenario(f"pick/{f}/(2, 1, 2)", go_gather_pick, {"int_only": True}, fmt=f, rank=r, shape=(2, 1, 2), k=2)
        yield Scenario(f"negative/{f}/(2, 3)", go_gather_negative, {"int_only": True, "max_values": 64}, fmt=f, rank=r, shape=(2, 3), k=1)
        yield Scenario(f"negative/{f}/(2, 1, 2)", go_gather_negative, {"int_only": True, "max_values": 64}, fmt=f, rank=r, shape=(2, 1, 2), k=1)
        if big:
            yield Scenario(f"pick/{f}/(2, 2, 3)", go_gather_pick, {"int_only": True}, fmt=f, rank=r, shape=(2, 2, 3), k=2)
    for f, r in (("tt", 2), ("cp", 2), ("sparse:4", 1), ("sparse:12", 1)):
        for sh in ((3, 4), (2, 3, 2), (2, 2, 2, 2)):
            for n in (33, 300) + ((1200,) if big else ()):
                yield Scenario(f"many/{f}/{sh}/{n}", go_many, fmt=f, rank=r, shape=sh, n=n)
    for sh in ((2**20, 2**21), (2**16, 2**16, 2**16), (3, 2**40), (2**40, 3), (50000, 50000), (256,) * 7, (2, 2**31, 2)):
        yield Scenario(f"huge/{sh}", go_huge, shape=sh)
    yield Scenario("split/(4, 4)/12", go_split, shape=(4, 4), nnz=12)
    yield Scenario("split/(3, 5, 2)/11", go_split, shape=(3, 5, 2), nnz=11)
    # sizes beyond what block sizes and thresholds would hide behind
    for f, sh, r in (("sparse:300", (20, 20), 1), ("sparse:1100", (40, 40), 1), ("tt", (40, 30), 1), ("tt", (3, 2), 40), ("cp", (3, 2), 70), ("cp", (40, 30), 1),
                     ("sparse:70", (2,) * 8, 1), ("tt", (2,) * 8, 1)):
        yield Scenario(f"large/gather/{f}/{sh}", go_gather, fmt=f, shape=sh, rank=r)
    for sh, nnz in (((20, 20), 90), ((2,) * 8, 70)):
        yield Scenario(f"large/split/{sh}/{nnz}", go_split, shape=sh, nnz=nnz)
        yield Scenario(f"large/dict/{sh}/{nnz}", go_dict, shape=sh, nnz=nnz)
