"""C14: lazily evaluated Gaussian entries are finite and purely index-determined."""
import numpy as np

from symtt.engine import Scenario

PROPERTY = "C14"
ASSUMPTIONS = ["contract of scipy's ndtri: finite exactly on the open interval (0, 1), a function of its argument"]
BOUNDS = {"quick": "two to three arbitrary indices, all seeds, up to 4 columns, shapes of order 1..4 with up to 2^60 cells",
          "thorough": "up to 4 indices, 6 columns, all column sub-ranges"}
BV = {"bv": True, "nval": 10}


def index(W, name, shape):
    return [W.i64(f"i{name}{m}", 0, n - 1) for m, n in enumerate(shape)]


def go_finite(W):
    p = W.p
    shape = p["shape"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    out = M.inds_to_normal(W.pyx_indices([index(W, "a", shape)]), shape, p["r0"], p["r1"], seed)
    W.true("shape", tuple(out.shape) == (1, p["r1"] - p["r0"]))
    W.pyx_isfinite("entries are finite", out)


def go_unit(W):
    """Any mixed value gives a uniform number with mantissa in [1/2, 1)."""
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    out = M._inds_to_rand_double(W.pyx_indices([[W.i64("ia", 0, 2**62)]], "uint64"),
                                 W.pyx_bits([2**62 + 1]), 0, W.p["r"], seed)
    if W.symbolic:
        import z3
        for k in range(W.p["r"]):
            x = out[k].v
            W.pyx_check("uniform numbers are normal and positive",
                        z3.And(z3.fpIsNormal(x), z3.Not(z3.fpIsNegative(x))))
    else:
        x = np.array(out)
        W.true("uniform numbers are normal and positive", bool(np.all(x > 2e-308) and np.all(np.isfinite(x))))


def call(M, fn, idx, shape, r0, r1, seed, rank, nnz):
    if fn == "normal":
        return M.inds_to_normal(idx, shape, r0, r1, seed)
    return M.inds_to_sparse_sign(idx, shape, rank, r0, r1, nnz, seed)


def go_pure(W):
    """Rows do not depend on the other rows, columns not on the column range."""
    p = W.p
    shape, r = p["shape"], p["r"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    n = p["n"]
    ind = [index(W, "abcd"[k] if k < 4 else f"n{k}_", shape) for k in range(n)]
    dt = p.get("dtype", "int64")
    f = lambda which, r0=0, r1=r: call(M, p["kind"], W.pyx_indices([ind[k] for k in which], dt), shape, r0, r1,
                                       seed, r, p.get("nnz", r))
    every = list(range(n))
    full = f(every)
    for k in every:
        W.pyx_eq("a row does not depend on the other rows", full[k:k + 1], f([k]))
    W.pyx_eq("order of rows", full[::-1], f(every[::-1]))
    dup = f(every + [0])
    W.pyx_eq("repeated indices give equal rows", dup[n:n + 1], full[0:1])
    W.pyx_eq("repeated calls give equal results", f(every), full)
    for r0 in range(r):
        for r1 in range(r0 + 1, r + 1):
            W.pyx_eq("columns do not depend on the column range", full[:, r0:r1], f(every, r0, r1))
    # a view of a larger (sliced) index array: leading modes only
    if p.get("strided", True):
        big = W.pyx_indices([x + [k] for k, x in enumerate(ind)], dt)
        W.pyx_eq("leading modes of a larger index array",
                 call(M, p["kind"], big[:len(shape)], shape, 0, r, seed, r, p.get("nnz", r)), full)


def go_inputs(W):
    """Inputs are not modified, and the integer type of the indices is irrelevant."""
    p = W.p
    shape, r = p["shape"], p["r"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    ind = [index(W, "a", shape), index(W, "b", shape)]
    outs = []
    for dt in ("int64", "uint64"):
        idx = W.pyx_indices(ind, dt)
        before = idx.copy()
        sh = list(shape)
        outs.append(call(M, p["kind"], idx, sh, 0, r, seed, r, p.get("nnz", r)))
        if p["kind"] == "normal":
            W.pyx_cross("inds_to_normal", outs[-1], idx, sh, 0, r, seed)
        else:
            W.pyx_cross("inds_to_sparse_sign", outs[-1], idx, sh, r, 0, r, p["nnz"], seed)
        W.pyx_eq("indices are not modified", idx, before)
        W.true("shape argument is not modified", sh == list(shape))
    W.pyx_eq("integer type of the indices", outs[0], outs[1])


def scenarios(tier):
    out = []
    shapes = [(7,), (3, 4), (2, 5, 3), (2**20, 2**20, 2**20), (3, 1, 4, 2, 5, 2)]
    if tier == "thorough":
        shapes += [(10,) * 6, (2**60,), (1, 6), (65537, 65537, 5), (2, 3, 1, 4, 2)]
    big = tier == "thorough"
    for s in shapes:
        out.append(Scenario(f"finite {s} 0:2", go_finite, opts=BV, shape=s, r0=0, r1=4 if big else 2))
        out.append(Scenario(f"finite {s} 5:7", go_finite, opts=BV, shape=s, r0=5, r1=9 if big else 7))
        out.append(Scenario(f"pure normal {s}", go_pure, opts=BV, kind="normal", shape=s, r=5 if big else 3,
                            n=4 if big else 2))
        out.append(Scenario(f"inputs normal {s}", go_inputs, opts=BV, kind="normal", shape=s, r=2))
    out.append(Scenario("pure normal uint64", go_pure, opts=BV, kind="normal", shape=(4, 5), r=2, n=2, dtype="uint64"))
    # many rows and columns
    for s, r, n in (((50, 60), 2, 70), ((50, 60), 12, 3), ((7, 3, 5), 1, 260), ((2, 3) * 6, 2, 4)):
        out.append(Scenario(f"large normal {s} {n}x{r}", go_pure, opts=BV, kind="normal", shape=s, r=r, n=n))
    out.append(Scenario("uniform", go_unit, opts=BV, r=3))
    return out
