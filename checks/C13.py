"""C13: hashed random maps give distinct indices independent randomness."""
from symtt.engine import Scenario

PROPERTY = "C13"
ASSUMPTIONS = ["'independent' = the entries are the images of different 64-bit values under an "
               "injective mixing function"]
BOUNDS = {"quick": "two arbitrary distinct multi-indices in 14 shapes of up to 2^60 cells, all seeds, "
                   "up to 4 columns, cross-column pairs for shapes up to 2^40 cells",
          "thorough": "as quick, 30 shapes of order 1..6, up to 8 columns, rank offsets up to 1000"}
BV = {"bv": True, "nval": 10}


def go_rows(W):
    p = W.p
    shape, r0, r1 = p["shape"], p["r0"], p["r1"]
    M = W.pyx_load()
    seed = W.u64("seed", 2**63 - 1)
    a = [W.i64(f"ia{m}", 0, n - 1) for m, n in enumerate(shape)]
    b = [W.i64(f"ib{m}", 0, n - 1) for m, n in enumerate(shape)]
    W.pyx_differ(a, b)
    out = M.inds_to_normal(W.pyx_indices([a, b]), shape, r0, r1, seed)
    r = r1 - r0
    W.pyx_independent("different indices use different randomness", out,
                      [((0, j), (1, j)) for j in range(r)])
    W.pyx_independent("different columns use different randomness", out,
                      [((0, j), (0, k)) for j in range(r) for k in range(j)])
    if p["cross"]:
        W.pyx_independent("different entries use different randomness", out,
                          [((0, j), (1, k)) for j in range(r) for k in range(r) if k != j])


def go_sign(W):
    """The same for the uniform numbers behind the sparse sign map."""
    p = W.p
    shape = p["shape"]
    M = W.pyx_load()
    a = [W.i64(f"ia{m}", 0, n - 1) for m, n in enumerate(shape)]
    b = [W.i64(f"ib{m}", 0, n - 1) for m, n in enumerate(shape)]
    W.pyx_differ(a, b)
    seed = W.u64("seed", 2**63 - 1)
    sh = W.pyx_bits(list(shape))
    idx = W.pyx_indices([a, b], "uint64")
    out = M._inds_to_rand_double(idx, sh, 0, p["r1"], seed)
    if W.symbolic:
        out = out.reshape(2, p["r1"])
    else:
        import numpy as np
        out = np.array(out).reshape(2, p["r1"])
    W.pyx_independent("different indices use different randomness", out,
                      [((0, j), (1, j)) for j in range(p["r1"])])


class Rows:
    """The first rows of several matrices."""

    def __init__(self, W, outs):
        self.outs = outs
        if not W.symbolic:
            import numpy as np
            self.arr = np.concatenate([np.asarray(o) for o in outs])

    def get(self, k):
        return self.outs[k[0]].get((0, k[1]))

    def __array__(self, *a, **k):
        return self.arr


def go_seeds(W):
    """The same entry under two different seeds."""
    p = W.p
    shape, r0, r1 = p["shape"], p["r0"], p["r1"]
    M = W.pyx_load()
    s, t = W.u64("seed", 2**63 - 1), W.u64("other", 2**63 - 1)
    W.pyx_differ([s], [t])
    a = [W.i64(f"ia{m}", 0, n - 1) for m, n in enumerate(shape)]
    outs = [M.inds_to_normal(W.pyx_indices([a]), shape, r0, r1, x) for x in (s, t)]
    W.pyx_independent("different seeds use different randomness", Rows(W, outs),
                      [((0, j), (1, j)) for j in range(r1 - r0)])


def go_seeds_sign(W):
    """Sign maps of two fixed seeds are not the same."""
    M = W.pyx_load()
    s, t = W.p["seeds"]
    rows = [[i, j] for i in range(6) for j in range(5)]
    out = [M.inds_to_sparse_sign(W.pyx_indices(rows), (6, 5), 12, 0, 12, 3, x) for x in (s, t)]
    W.pyx_distinct_arrays("different seeds give different sign maps", *out)


def go_mix(W):
    M = W.pyx_load()
    x, y = W.u64("x"), W.u64("y")
    W.pyx_differ([x], [y])
    a, b = W.pyx_bits([x]), W.pyx_bits([y])
    M.hash_int_c(a)
    M.hash_int_c(b)
    W.pyx_distinct_arrays("the mixing function is injective", a, b)


def go_mix_elementwise(W):
    """Each entry is mixed on its own, wherever it stands."""
    M = W.pyx_load()
    xs = [W.u64(f"x{k}") for k in range(3)]
    a = W.pyx_bits(xs)
    M.hash_int_c(a)
    for k, o in enumerate([2, 0, 1]):
        b = W.pyx_bits([xs[o]])
        M.hash_int_c(b)
        W.pyx_eq("entries are mixed one by one", a[o:o + 1], b)


SHAPES = [(7,), (2**40,), (2, 3), (3, 5, 4), (2, 2, 2, 2), (1, 9, 1), (1000, 1000), (10**6, 10**6),
          (2**16, 2**16, 2**8), (2**32, 2**20), (2**31, 2**29), (10**9, 10**9),
          (65537, 65537, 5), (100,) * 9, (3, 1, 4, 2, 5)]
MORE = [(2**20,) * 3, (3,) * 12, (10,) * 6, (46341, 46341, 3), (2**33, 3, 5), (3, 2**33), (5, 1, 2**35),
        (6, 10, 14, 15), (256,) * 5, (2**12,) * 5, (99991, 99991), (2**60,), (1, 1, 1, 6), (17, 1, 19),
        (2**15, 2**15, 2**15), (4000, 3000, 2000, 100)]


def size(s):
    r = 1
    for n in s:
        r *= n
    return r


def scenarios(tier):
    out = [Scenario("mixing injective", go_mix, opts=BV),
           Scenario("mixing elementwise", go_mix_elementwise, opts=BV)]
    for s in SHAPES + (MORE if tier == "thorough" else []):
        rs = [(0, 3)] if tier == "quick" else [(0, 8), (5, 8), (1000, 1003)]
        for r0, r1 in rs:
            out.append(Scenario(f"rows {s} columns {r0}:{r1}", go_rows, opts=BV, shape=s, r0=r0, r1=r1,
                                cross=size(s) <= 2**40))
        out.append(Scenario(f"uniform rows {s}", go_sign, opts=BV, shape=s, r1=2))
    for s in SHAPES[:8]:
        out.append(Scenario(f"seeds {s}", go_seeds, opts=BV, shape=s, r0=0, r1=2))
    for k in (0, 1, 8, 16, 31, 32, 33, 48, 62):
        for b in (0, 12345) + ((2**63 - 2**62 - 7,) if tier == "thorough" else ()):
            out.append(Scenario(f"sign seeds {b} +2^{k}", go_seeds_sign, opts=dict(BV, nval=1), seeds=(b, b + 2**k)))
    out.append(Scenario("rows (40, 50) columns 3:7", go_rows, opts=BV, shape=(40, 50), r0=3, r1=7, cross=True))
    return out
