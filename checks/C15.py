"""C15: sparse sign maps are well formed and access memory in range."""
from symtt.engine import Scenario

from . import C14

PROPERTY = "C15"
ASSUMPTIONS = ["array lengths below 2^31 cells (longer ones cannot be unrolled)"]
BOUNDS = {"quick": "ranks 1..3, all nonzero counts, one to two arbitrary indices, all seeds, order 1..3",
          "thorough": "ranks 1..5, all nonzero counts, up to three indices, all column ranges"}
CHECKED_BUILD = True
BV = {"bv": True, "nval": 10, "abs_timeout": 100000, "exact_timeout": 60000}


def go_rows(W):
    p = W.p
    shape, r, nnz = p["shape"], p["r"], p["nnz"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    ind = [C14.index(W, "abc"[k], shape) for k in range(p["n"])]
    out = M.inds_to_sparse_sign(W.pyx_indices(ind), shape, r, 0, r, nnz, seed)
    W.true("shape", tuple(out.shape) == (p["n"], r))
    W.pyx_row_weight("rows have the requested number of signs", out, nnz)


def go_too_many(W):
    """More nonzeros than columns: refused, never written out of range."""
    p = W.p
    shape, r, nnz = p["shape"], p["r"], p["nnz"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    ind = [C14.index(W, "abc"[k], shape) for k in range(p["n"])]
    W.pyx_refused("more nonzeros than columns",
                 lambda: M.inds_to_sparse_sign(W.pyx_indices(ind), shape, r, 0, r, nnz, seed))


def scenarios(tier):
    out = []
    rmax = 3 if tier == "quick" else 5
    for r in range(1, rmax + 1):
        for nnz in range(1, r + 1):
            if tier == "quick" and r == 3 and nnz == 3:
                pass
            out.append(Scenario(f"rows r={r} nnz={nnz}", go_rows, opts=BV, shape=(5, 7), r=r, nnz=nnz, n=1))
    out.append(Scenario("rows r=2 nnz=1 order 3", go_rows, opts=BV, shape=(50, 3, 9), r=2, nnz=1, n=2))
    out.append(Scenario("rows r=2 nnz=1 order 5", go_rows, opts=BV, shape=(3, 1, 4, 2, 5), r=2, nnz=1, n=2))
    out.append(Scenario("rows r=7 nnz=1 two rows", go_rows, opts=BV, shape=(2**20, 2**20), r=7, nnz=1, n=2))
    for r, nnz in ((1, 2), (2, 3), (1, 5)):
        out.append(Scenario(f"too many r={r} nnz={nnz}", go_too_many, opts=BV, shape=(4,), r=r, nnz=nnz, n=2))
    for s, r, nnz, n in [((3, 4), 2, 1, 2), ((9,), 2, 2, 2), ((2, 3, 2), 3, 1, 2)] + \
            ([((5,), 3, 2, 3), ((5, 6), 4, 1, 3)] if tier == "thorough" else []):
        out.append(Scenario(f"pure sign {s} r={r} nnz={nnz}", C14.go_pure, opts=BV, kind="sign", shape=s, r=r, n=n,
                            nnz=nnz))
    for s, r, nnz, n in (((50, 60), 2, 1, 9), ((50, 60), 1, 1, 11), ((50, 60), 9, 1, 2)):
        out.append(Scenario(f"large sign {s} r={r} {n}", C14.go_pure, opts=BV, kind="sign", shape=s, r=r, n=n, nnz=nnz))
    out.append(Scenario("inputs sign", C14.go_inputs, opts=BV, kind="sign", shape=(3, 4), r=2, nnz=1))
    return out
