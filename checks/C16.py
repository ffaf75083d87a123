"""C16: seeded sketches and random tensors are reproducible; sides independent."""
import numpy as np

from symtt.engine import Scenario
from . import lib

PROPERTY = "C16"
BOUNDS = {
    "quick": "every random map family x format, the three sketching functions and every random constructor, "
             "orders 2-4, rank<=3; processes with 1 / 2 / 64 processors and different string-hash salts; worker "
             "threads in order, reversed, each one delayed to the end (all orders for <=4 tasks); seeds 0, 1, 7, "
             "2^31, 2^32-1, 2^40+3 for the maps; right seeds for ALL 32-bit seeds, 2<=order<=64",
    "thorough": "same with more shapes, seeds and processes",
}
ASSUMPTIONS = [
    "a seeded numpy generator yields the same stream everywhere (numpy's contract); its numbers are unconstrained reals",
    "worker tasks are atomic in the schedules explored (the tasks are checked to write disjoint results by comparing orders)",
    "lazy maps: random numbers keyed by seed, index and column (decided on the Cython source by C13-C15)",
]
LIMIT = {"quick": 150, "thorough": 600}
ENVS = ((0, 8), (1, 1), (2, 64))


def _cores(x):
    if hasattr(x, "Psi_cores"):
        return list(x.Psi_cores) + list(x.Omega_mats)
    if hasattr(x, "factors"):
        return [x.core] + list(x.factors)
    if hasattr(x, "entries"):
        return [x.indices, x.entries]
    return list(x.cores)


def same(W, label, runs):
    a = runs[0]
    for k, b in enumerate(runs[1:]):
        W.true(f"{label}: number of arrays", len(a) == len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if np.asarray(x).dtype.kind in "iu":
                W.true(f"{label}: indices", np.array_equal(np.asarray(x), np.asarray(y)))
            else:
                W.eq(f"{label}: array {i}", y, x)


# --------------------------------------------------------------- sketches

def run_sketch(W, how, drm, fmt, shape, seed):
    S = W.load("tt_sketch.sketch")
    X, _ = lib.make(W, fmt, "x", shape, rank=2)
    cls = lib.drm_cls(W, drm) if drm else None
    kw = {"seed": seed}
    if how == "hmt":
        return _cores(S.hmt_sketch(X, 2, drm_type=cls, **kw))
    if how == "orth":
        return _cores(S.orthogonal_sketch(X, 1, 2, left_drm_type=cls, right_drm_type=cls, **kw))
    if how == "stream-left":        # one type given: used for both sides
        return _cores(S.stream_sketch(X, 2, 1, left_drm_type=cls, **kw))
    if how == "stream-right":
        return _cores(S.stream_sketch(X, 1, 2, right_drm_type=cls, **kw))
    return _cores(S.stream_sketch(X, 2, 3, left_drm_type=cls, right_drm_type=cls, **kw))


def go_sketch(W):
    p = W.p
    args = (p["how"], p["drm"], p["fmt"], p["shape"], p["sd"])
    same(W, "other process", W.in_processes(ENVS, run_sketch, *args))
    a = run_sketch(W, *args)
    W.load("tt_sketch.utils").random_normal((2,))      # consumes other randomness
    np_ = W.load("numpy")
    np_.random.seed(99)
    b = run_sketch(W, *args)
    same(W, "repeated", [a, b])


# ------------------------------------------------------------------- maps

def run_drm(W, drm, shape, rank, seed, right):
    D = lib.drm_cls(W, drm)
    m = D(rank, transpose=right, shape=tuple(shape), seed=seed)
    return lib.drm_matrices(W, m, shape)


def go_drm(W):
    p = W.p
    for right in (False, True):
        for seed in p["seeds"]:
            same(W, f"seed {seed}", W.in_processes(ENVS[:2], run_drm, p["drm"], p["shape"], p["rank"], seed, right))


def raw(W, m):
    """Random numbers a map is made of."""
    if hasattr(m, "cores"):
        return [np.asarray(c).reshape(-1) for c in m.cores]
    return [np.asarray(x).reshape(-1) for x in lib.drm_matrices(W, m, m.shape)]


def _flat(arrs):
    return np.concatenate([a.reshape(-1) for a in arrs])


def go_indep(W):
    """Left and right map of one sketch; maps of different seeds."""
    p = W.p
    S = W.load("tt_sketch.sketch")
    shape = p["shape"]
    X, _ = lib.make(W, p["fmt"], "x", shape, rank=1)
    cls = lib.drm_cls(W, p["drm"])
    seed = p["sd"]
    sign = p["drm"] == "SparseSignDRM"
    fn = S.stream_sketch if p["how"] == "stream" else S.orthogonal_sketch
    lr, rr = (2, 3) if sign else (1, 2)
    _, left, right = fn(X, lr, rr, seed=seed, left_drm_type=cls, right_drm_type=cls, return_drm=True)
    l, r = raw(W, left), raw(W, right)
    if sign:
        W.rng_differ("left and right maps differ", _flat(l), _flat(r))
    else:
        W.rng_free("left and right maps are independent", _flat(l), _flat(r))
        for mu in range(len(shape) - 1):
            W.rng_free(f"left map {mu}: independent entries", l[mu])
            W.rng_free(f"right map {mu}: independent entries", r[mu])
        if p["drm"] != "DenseGaussianDRM":
            W.rng_free("left maps of different modes are independent", _flat(l))
            W.rng_free("right maps of different modes are independent", _flat(r))
    W.true("different seeds of the two sides", left.seed != right.seed)
    if p["how"] == "orth":
        return
    for other in (seed + 1, seed + 2, seed + 2**31, 123457):
        _, left2, right2 = fn(X, lr, rr, seed=other, left_drm_type=cls, right_drm_type=cls, return_drm=True)
        l2, r2 = raw(W, left2), raw(W, right2)
        if sign:
            W.rng_differ(f"seed {other}: left maps differ", _flat(l), _flat(l2))
            W.rng_differ(f"seed {other}: right maps differ", _flat(r), _flat(r2))
            continue
        for mu in range(len(shape) - 1):
            W.rng_free(f"seed {other}: left map {mu} differs", l[mu], l2[mu])
            W.rng_free(f"seed {other}: right map {mu} differs", r[mu], r2[mu])


def go_right_seed(W):
    """For every 32-bit seed the two sides get different generator seeds."""
    S = W.load("tt_sketch.sketch")
    s = W.int("s", 0, 2**32 - 1)
    for d in W.p["ds"]:
        r = S._right_seed(s, d)
        W.true(f"d={d}: right seed is a valid seed", (r >= 0) & (r < 2**32))
        # what the maps make of it (DRM.__init__ reduces modulo 2^32-1)
        W.true(f"d={d}: right seed differs", (r % (2**32 - 1)) != (s % (2**32 - 1)))


# ------------------------------------------------------------------ tensors

def run_random(W, kind, shape, rank, seed):
    T, U = W.load("tt_sketch.tensor"), W.load("tt_sketch.utils")
    if kind == "tt":
        return _cores(T.TensorTrain.random(shape, rank, seed=seed))
    if kind == "tt-preserve":
        return _cores(T.TensorTrain.random(shape, rank, seed=seed, norm_goal="norm-preserve"))
    if kind == "tt-orth":
        return _cores(T.TensorTrain.random(shape, rank, seed=seed, orthog=True))
    if kind == "cp":
        return _cores(T.CPTensor.random(shape, rank, seed=seed))
    if kind == "tucker":
        return _cores(T.TuckerTensor.random(shape, rank, seed=seed))
    if kind == "sparse":
        return _cores(T.SparseTensor.random(shape, rank, seed=seed))
    if kind == "normal":
        return [U.random_normal(shape, seed=seed)]
    return [U.power_decay_tensor(shape, 2.0, seed=seed)]


def go_random(W):
    p = W.p
    for seed in p["seeds"]:
        args = (p["kind"], p["shape"], p["rank"], seed)
        same(W, f"seed {seed}", W.in_processes(ENVS, run_random, *args))
        a = run_random(W, *args)
        W.load("tt_sketch.utils").random_normal((3,))
        same(W, f"seed {seed}: repeated", [a, run_random(W, *args)])


def go_other_seeds(W):
    """Tensors of different seeds share no random number; nor do one tensor's own parts."""
    p = W.p
    a = [np.asarray(x).reshape(-1) for x in run_random(W, p["kind"], p["shape"], p["rank"], p["sd"])]
    if p["kind"] == "sparse":
        a = a[1:]
    W.rng_free("entries are independent", _flat(a))
    for other in p["others"]:
        b = [np.asarray(x).reshape(-1) for x in run_random(W, p["kind"], p["shape"], p["rank"], other)]
        W.rng_free(f"seed {other}: other numbers", _flat(a), _flat(b[1:] if p["kind"] == "sparse" else b))


def go_schedule(W):
    """Every order of the worker threads fills the array with the same numbers."""
    U = W.load("tt_sketch.utils")
    p = W.p
    for shape in p["shapes"]:
        ref = None
        for x in W.schedules(lambda: U.random_normal(shape, seed=5)):
            W.true(f"{shape}: shape", tuple(np.asarray(x).shape) == tuple(shape))
            W.isfinite(f"{shape}: filled", x)
            ref = x if ref is None else ref
            W.eq(f"{shape}: same numbers under every schedule", x, ref)
        W.rng_free(f"{shape}: all entries are independent random numbers", ref)
        # the reference order, as a new process would see it
        again = W.in_processes(((0, 8),), run_random, "normal", shape, 0, 5)[0][0]
        W.eq(f"{shape}: same numbers as in order", ref, again)


def go_threads(W):
    U = W.load("tt_sketch.utils")
    shape = W.p["shape"]

    def fill():
        return U.MultithreadedRNG(shape, 3, threads=W.p["threads"]).values
    ref = fill()
    for x in W.schedules(fill):
        W.eq(f"{shape}: schedule", x, ref)
    W.rng_free(f"{shape}: all entries are independent random numbers", ref)


def scenarios(tier):
    big = tier == "thorough"
    O = {"nval": 1, "tol": 1e-12}
    seeds = (0, 1, 7, 2**31, 2**32 - 1, 2**40 + 3) if big else (0, 7, 2**32 - 1)
    for drm, fmts in lib.DRM_FORMATS.items():
        shapes = ((2, 2, 2), (2, 3)) + (((3, 1, 2, 2),) if big else ())
        for sh in shapes:
            yield Scenario(f"drm/{drm}/{sh}", go_drm, dict(O), drm=drm, shape=sh,
                           rank=2, seeds=seeds if drm != "TensorTrainDRM" or big else seeds[:2])
        yield Scenario(f"drm/{drm}/order6", go_drm, dict(O), drm=drm, shape=(2, 1, 2, 1, 1, 2), rank=1, seeds=seeds[:2])
        if drm != "SparseSignDRM":
            yield Scenario(f"indep/stream/{drm}/order6", go_indep, dict(O), how="stream", drm=drm, fmt=fmts[0],
                           shape=(2, 2, 2, 2, 2) if drm == "DenseGaussianDRM" else (2, 1, 2, 1, 1, 2), sd=3)
        for fmt in fmts:
            hows = ("stream", "stream-left", "stream-right") if fmt == fmts[0] or big else ("stream",)
            for how in hows:
                sh = (2, 2, 2) if fmt == "sparse" or drm == "DenseGaussianDRM" else (2, 3, 2)
                yield Scenario(f"{how}/{drm}/{fmt}", go_sketch, dict(O), how=how, drm=drm, fmt=fmt, shape=sh, sd=7)
        f = fmts[-1]
        for sd in (0, 3) + ((1, 2**32 - 1, 2**32 + 5) if big else ()):
            tag = "" if sd == 3 else f"/seed{sd}"
            yield Scenario(f"hmt/{drm}/{f}{tag}", go_sketch, dict(O, rng="const"), how="hmt", drm=drm, fmt=f, shape=(2, 2, 2), sd=sd)
            yield Scenario(f"orth/{drm}/{f}{tag}", go_sketch, dict(O, rng="const"), how="orth", drm=drm, fmt=f, shape=(2, 2, 2), sd=sd)
            if sd != 3:
                sh = (2, 2, 2) if f == "sparse" or drm == "DenseGaussianDRM" else (2, 3, 2)
                yield Scenario(f"stream/{drm}/{f}{tag}", go_sketch, dict(O), how="stream", drm=drm, fmt=f, shape=sh, sd=sd)
        for sh in ((12, 12), (4, 6, 4)) if drm == "SparseSignDRM" else ((2, 2), (2, 2, 2)) + (((3, 2, 3), (2, 2, 2, 2)) if big else ()):
            for how in ("stream", "orth"):
                for sd in (0, 11) + ((2**32 - 1, 5) if big else ()):
                    yield Scenario(f"indep/{how}/{drm}/{sh}/{sd}", go_indep, dict(O), how=how, drm=drm, fmt=fmts[0], shape=sh, sd=sd)
    for how in ("stream", "hmt", "orth"):
        yield Scenario(f"{how}/default/tt/seed0", go_sketch, dict(O, **({} if how == "stream" else {"rng": "const"})), how=how,
                       drm=None, fmt="tt", shape=(2, 2), sd=0)
    yield Scenario("stream/default/tt", go_sketch, dict(O), how="stream", drm=None, fmt="tt", shape=(2, 2, 2), sd=5)
    yield Scenario("hmt/default/tt", go_sketch, dict(O, rng="const"), how="hmt", drm=None, fmt="tt", shape=(2, 2), sd=5)
    yield Scenario("orth/default/tt", go_sketch, dict(O, rng="const"), how="orth", drm=None, fmt="tt", shape=(2, 2), sd=5)
    step = 8
    for a in range(2, 65 if big else 26, step):
        yield Scenario(f"right-seed/{a}", go_right_seed, {"int_only": True}, ds=tuple(range(a, a + step)))
    for kind, sh, r in (("tt", (2, 3, 2), 2), ("tt-preserve", (2, 3, 2), 2), ("tt-orth", (2, 2, 2), 1),
                        ("cp", (2, 3, 2), 2), ("tucker", (2, 2, 3), 2), ("sparse", (3, 4, 2), 5),
                        ("normal", (3, 4), 0), ("normal", (1,), 0), ("normal", (19,), 0), ("power", (2, 2), 0)):
        oo = dict(O, rng="const") if kind in ("tt-orth", "tucker", "power") else dict(O)
        yield Scenario(f"random/{kind}/{sh}", go_random, oo, kind=kind, shape=sh, rank=r, seeds=(0, 5) + ((2**32 - 1,) if big else ()))
    for kind, sh, r in (("tt", (2, 3, 2), 2), ("tt", (2, 2, 2, 2, 2), 1), ("cp", (2, 3, 2), 2), ("cp", (2, 2, 2, 2), 2),
                        ("sparse", (3, 4, 2), 5), ("normal", (3, 4), 0), ("normal", (9,), 0)):
        for sd in (0, 5) + ((2**31, 2**32 - 2) if big else ()):
            yield Scenario(f"other-seeds/{kind}/{sh}/{sd}", go_other_seeds, dict(O), kind=kind, shape=sh, rank=r, sd=sd,
                           others=tuple(range(sd + 1, sd + 9)) + (sd + 1000, 123457))
    shapes = ((1,), (2,), (8,), (9,), (2, 5), (17,))
    for sh in shapes + (((4, 6), (33,)) if big else ()):
        yield Scenario(f"schedule/{sh}", go_schedule, dict(O, schedule="swap"), shapes=(sh,))
    for t in (1, 2, 3, 4):
        for sh in ((3,), (2, 2), (5,)):
            yield Scenario(f"threads/{t}/{sh}", go_threads, dict(O, schedule="all"), threads=t, shape=sh)
