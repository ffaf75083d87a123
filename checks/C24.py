"""C24: random constructors."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C10 import closed_trim
from .C21 import good

PROPERTY = "C24"
BOUNDS = {
    "quick": "orders 1-6 and 9, modes of size 1-4, ranks 1-5 as integers and tuples, all options, seeds 0, 1, 12345 and none; "
             "every value of the random source (normal numbers are unconstrained reals, sampled coordinates are symbolic "
             "integers); sparse tensors with 0-8 entries including completely full ones; every array size 1-40",
    "thorough": "as quick, order 5, more ranks, array sizes up to 120"}
ASSUMPTIONS = ["generators of different seeds or different spawn keys give independent numbers",
               "sampling without replacement returns distinct integers of the range (numpy's contract)",
               "QR contract for the orthogonal options"]
LIMIT = {"quick": 120, "thorough": 500}


def core_norm(W, make, label, k, var, d):
    W.normals(f"{label}: core {k}", lambda s: np.asarray(make(s)[k]), 1, var)


def go_tt(W):
    p = W.p
    shape, rank, goal, orthog, trim = p["shape"], p["rank"], p["goal"], p["orthog"], p["trim"]
    d = len(shape)
    T = W.load("tt_sketch.tensor").TensorTrain
    kw = {}
    if goal is not None:
        kw["norm_goal"] = goal
    if orthog is not None:
        kw["orthog"] = orthog
    if trim is not None:
        kw["trim"] = trim

    def make(seed):
        return T.random(shape, rank, seed=seed, **kw).cores
    req = lib.ranks(rank, d)
    want = closed_trim(shape, req) if (trim or (trim is None and orthog)) else req
    for seed in (0, 12345, None):
        t = T.random(shape, rank, seed=seed, **kw)
        good(W, f"seed {seed}", t, shape)
        W.true("ranks", tuple(t.rank) == tuple(want), f"{t.rank} {want}")
    rr = (1,) + tuple(want) + (1,)
    for k in range(d):
        if orthog and k < d - 1:
            M = make(1)[k].reshape(-1, rr[k + 1])
            W.eq(f"core {k} is left-orthonormal", M.T @ M, W.eye(rr[k + 1]))
            continue
        var = W.num(1) / W.num(rr[k]) / (W.num(shape[k]) if goal in (None, "norm-1") else W.num(1))
        core_norm(W, make, goal or "default", k, var, d)
    if not orthog:
        flat = lambda s: np.concatenate([c.reshape(-1) for c in make(s)])
        W.rng_free("cores are independent", flat(1))
        W.rng_free("seeds are independent", flat(1), flat(2))
    for a, b in zip(make(7), make(7)):
        W.eq("same seed, same tensor", a, b)


def go_zero(W):
    p = W.p
    shape, rank = p["shape"], p["rank"]
    T = W.load("tt_sketch.tensor").TensorTrain
    t = T.zero(shape, rank)
    good(W, "zero", t, shape, W.zeros(shape))
    W.true("ranks", tuple(t.rank) == lib.ranks(rank, len(shape)))
    for c in t.cores:
        W.eq("cores are zero", c, W.zeros(c.shape))
    x, X = lib.make(W, "tt", "x", shape, 1)
    W.eq("neutral element", t.add(x).to_numpy(), X)


def go_cp(W):
    p = W.p
    shape, rank = p["shape"], p["rank"]
    T = W.load("tt_sketch.tensor").CPTensor

    def make(seed):
        return T.random(shape, rank, seed=seed).cores
    for seed in (0, 12345, None):
        t = T.random(shape, rank, seed=seed)
        good(W, f"seed {seed}", t, shape)
        W.true("rank", t.rank == rank)
    for k in range(len(shape)):
        core_norm(W, make, "factor", k, W.num(1) / W.num(shape[k]), len(shape))
    flat = lambda s: np.concatenate([c.reshape(-1) for c in make(s)])
    W.rng_free("factors are independent", flat(1))
    W.rng_free("seeds are independent", flat(1), flat(2))
    for a, b in zip(make(7), make(7)):
        W.eq("same seed, same tensor", a, b)


def go_tucker(W):
    p = W.p
    shape, rank = p["shape"], p["rank"]
    d = len(shape)
    T = W.load("tt_sketch.tensor").TuckerTensor
    want = tuple(min(r, n) for r, n in zip((rank,) * d if isinstance(rank, int) else rank, shape))
    for seed in (0, 12345, None):
        t = T.random(shape, rank, seed=seed)
        good(W, f"seed {seed}", t, shape)
        W.true("rank", tuple(t.rank) == want)
        for k, U in enumerate(t.factors):
            W.eq(f"factor {k} has orthonormal rows", U @ U.T, W.eye(want[k]))
    W.normals("core", lambda s: T.random(shape, rank, seed=s).core, 1, W.num(1))
    t, u = T.random(shape, rank, seed=7), T.random(shape, rank, seed=7)
    W.eq("same seed, same core", t.core, u.core)
    for a, b in zip(t.factors, u.factors):
        W.eq("same seed, same factors", a, b)
    W.rng_free("seeds are independent", t.core, T.random(shape, rank, seed=8).core)


def go_streams(W):
    """The core is not made of the numbers a factor is made of."""
    p = W.p
    shape, rank = p["shape"], p["rank"]
    T = W.load("tt_sketch.tensor").TuckerTensor
    t = T.random(shape, rank, seed=p["sd"])
    c = t.core.reshape(-1)
    for k, U in enumerate(t.factors):
        if U.shape[0] == 1 and U.shape[1] > 1 and len(c) > 1:
            # a row made of the first numbers of the core would be parallel to them
            if W.symbolic:
                W.rng_free(f"core and factor {k} are independent", [c[0] * U[0, 1]], [c[1] * U[0, 0]])
            else:
                W.true(f"core and factor {k} are independent",
                       abs(c[0] * U[0, 1] - c[1] * U[0, 0]) > 1e-9 * abs(c[0] * U[0, 1]))


def go_normal(W):
    U = W.load("tt_sketch.utils")
    T = W.load("tt_sketch.tensor")
    for shape in W.p["shapes"]:
        n = int(np.prod(shape))
        A = U.random_normal(shape, seed=3)
        W.true(f"{shape}: shape", np.shape(A) == tuple(np.atleast_1d(shape)))
        if n == 0:
            continue
        W.normals(f"{shape}", lambda s: U.random_normal(shape, seed=s), 3, W.num(1))
        W.eq(f"{shape}: same seed", U.random_normal(shape, seed=3), A)
        W.rng_free(f"{shape}: other seed", A, U.random_normal(shape, seed=4))
        W.rng_free(f"{shape}: no seed", A, U.random_normal(shape))
        W.rng_free(f"{shape}: no seed, twice", U.random_normal(shape), U.random_normal(shape))
        if isinstance(shape, tuple):
            good(W, "DenseTensor", T.DenseTensor.random(shape), shape)
            W.rng_free(f"{shape}: DenseTensor", T.DenseTensor.random(shape).data, T.DenseTensor.random(shape).data)


def go_sparse(W):
    p = W.p
    shape, nnz = p["shape"], p["nnz"]
    T = W.load("tt_sketch.tensor").SparseTensor
    n = int(np.prod(shape))
    if nnz > n:
        for s in (0, None):
            W.raises("more entries than cells", (ValueError,), lambda: T.random(shape, nnz, seed=s))
        return
    for seed in (0, 12345, None):
        t = T.random(shape, nnz, seed=seed)
        ix = np.asarray(t.indices)
        W.true("shape", tuple(t.shape) == tuple(shape))
        W.true("one coordinate per mode and entry", ix.shape == (len(shape), nnz))
        W.true("number of entries", int(t.nnz) == nnz and np.shape(t.entries) == (nnz,))
        W.true("size", int(t.size) == nnz * (1 + len(shape)))
        for k, m in enumerate(shape):
            for v in ix[k]:
                W.true("coordinates are in range", (v >= 0) & (v < m))
        for a in range(nnz):
            for b in range(a):
                eq = True
                for k in range(len(shape)):
                    e = ix[k][a] == ix[k][b]
                    eq = e if eq is True else eq & e
                W.true("coordinates are distinct", ~eq if not isinstance(eq, (bool, np.bool_)) else not eq)
    if nnz:
        W.normals("entries", lambda s: T.random(shape, nnz, seed=s).entries, 1, W.num(1))
        t, u = T.random(shape, nnz, seed=7), T.random(shape, nnz, seed=7)
        W.eq("same seed, same entries", t.entries, u.entries)
        for a, b in zip(np.asarray(t.indices).reshape(-1), np.asarray(u.indices).reshape(-1)):
            W.true("same seed, same coordinates", a == b)
        W.rng_free("seeds are independent", t.entries, T.random(shape, nnz, seed=8).entries)


def go_mpo(W):
    p = W.p
    ins, outs, rank = p["ins"], p["outs"], p["rank"]
    d = len(ins)
    G = W.load("tt_sketch.tt_gmres")
    A = G.MPO.random(rank, ins, outs)
    want = closed_trim(tuple(a * b for a, b in zip(ins, outs)), lib.ranks(rank, d))
    W.true("shapes", tuple(A.in_shape) == tuple(ins) and tuple(A.out_shape) == tuple(outs))
    W.true("ranks", tuple(A.rank) == want)
    good(W, "MPO", A)
    for k, (C, a, b) in enumerate(zip(A.cores, ins, outs)):
        W.eq(f"norm of core {k}", np.sum(C * C), W.num(a * b))
        if a == b:
            W.eq(f"core {k} is symmetric", C, np.transpose(C, (0, 2, 1, 3)))
    B = G.MPO.random(rank, ins, outs)
    W.rng_differ("two calls differ", np.concatenate([c.reshape(-1) for c in A.cores]),
                 np.concatenate([c.reshape(-1) for c in B.cores])) if not W.symbolic else None
    if tuple(ins) == tuple(outs):
        E = G.MPO.eye(ins)
        x, X = lib.make(W, "tt", "x", ins, 2)
        good(W, "eye", E)
        y = E(x)
        good(W, "eye x", y, ins, X)
        W.true("identity has rank one", tuple(E.rank) == (1,) * (d - 1))


def scenarios(tier):
    th = tier == "thorough"
    q = {"nval": 1, "feas": "linear"}
    for sh, ranks in [((2,), (1,)), ((3,), (2,)), ((2, 3), (1, 2, 5)), ((2, 3, 2), (2, (1, 3), (3, 1), 4)), ((1, 3, 1), (1, 3)),
                      ((2, 1, 2, 2), (2, (2, 3, 1)))] + ([((2, 2, 2, 2, 2), (2, (1, 3, 2, 4))), ((4, 3, 3), (3, (5, 2)))] if th else []):
        n = "x".join(map(str, sh))
        for r in ranks:
            for goal in (None, "norm-1", "norm-preserve"):
                for orthog, trim in ((None, None), (None, True), (None, False), (False, True), (True, None), (True, True)):
                    if goal == "norm-1" and orthog is None and trim is None and not th:
                        continue
                    yield Scenario(f"tt/{n}/{r}/{goal}/{orthog},{trim}", go_tt, q, shape=sh, rank=r, goal=goal, orthog=orthog,
                                   trim=trim)
            yield Scenario(f"zero/{n}/{r}", go_zero, q, shape=sh, rank=r)
            if isinstance(r, int):
                yield Scenario(f"cp/{n}/{r}", go_cp, q, shape=sh, rank=r)
            rt = r if isinstance(r, int) else r + (2,)
            yield Scenario(f"tucker/{n}/{rt}", go_tucker, q, shape=sh, rank=rt)
    for sh, r in [((2, 2, 2, 2, 2), 2), ((1, 2, 1, 2, 2, 2), 1), ((2, 1, 2, 1, 1, 2, 1, 2, 2), 1)]:
        n = "x".join(map(str, sh))
        for goal, orthog, trim in ((None, None, None), ("norm-preserve", None, True), ("norm-1", True, None)):
            if not (th and n == "2x2x2x2x2"):
                yield Scenario(f"long/tt/{n}/{r}/{goal}/{orthog},{trim}", go_tt, q, shape=sh, rank=r, goal=goal,
                               orthog=orthog, trim=trim)
        yield Scenario(f"long/cp/{n}/{r}", go_cp, q, shape=sh, rank=r)
        yield Scenario(f"long/zero/{n}/{r}", go_zero, q, shape=sh, rank=r)
        if len(sh) < 7:
            yield Scenario(f"long/tucker/{n}/1", go_tucker, q, shape=sh, rank=1)
            yield Scenario(f"long/sparse/{n}", go_sparse, dict(q, choice="sym"), shape=sh, nnz=3)
    yield Scenario("mpo/long", go_mpo, q, ins=(1, 2, 1, 1, 2, 1), outs=(1, 2, 1, 1, 2, 1), rank=1)
    for sh, r in [((2, 2), (1, 2)), ((2, 2), (2, 1)), ((3, 2), (1, 2)), ((2, 3, 2), (2, 1, 2)), ((2, 2, 2), (1, 2, 2))]:
        for sd in (0, 5):
            yield Scenario(f"streams/{sh}/{r}/{sd}", go_streams, q, shape=sh, rank=r, sd=sd)
    sizes = list(range(1, 121 if th else 41))
    for m in (64, 100, 128, 257, 1000, 1025, 4100):
        yield Scenario(f"normal/large/{m}", go_normal, q, shapes=[(m,)])
    for k in range(0, len(sizes), 8):
        yield Scenario(f"normal/{sizes[k]}", go_normal, q, shapes=[(m,) for m in sizes[k:k + 8]])
    yield Scenario("normal/shapes", go_normal, q, shapes=[(2, 3), (1, 1), (3, 4, 2), (1, 9), (2, 2, 2, 2), 5])
    for sh, nn in [((2, 2), (0, 1, 3, 4, 5)), ((3,), (1, 3, 4)), ((2, 3, 2), (1, 4, 5)), ((1, 4, 1), (2, 4)), ((3, 3), (5, 9)), ((2, 2, 2), (8,))]:
        for m in nn:
            yield Scenario(f"sparse/{'x'.join(map(str, sh))}/{m}", go_sparse, dict(q, choice="sym"), shape=sh, nnz=m)
    for i, o, r in [((2, 2), (2, 2), 1), ((2, 1), (2, 1), 2), ((1, 3), (2, 1), 1), ((2, 2), (1, 1), 2), ((2, 1, 2), (2, 1, 2), (1, 2)), ((1, 2), (2, 2), 5),
                    ((2,), (2,), 1), ((3,), (3,), 1)]:
        yield Scenario(f"mpo/{i}/{o}/{r}", go_mpo, q, ins=i, outs=o, rank=r)
