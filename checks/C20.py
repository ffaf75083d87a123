"""C20: rounding a sum of tensor trains."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C10 import closed_trim

PROPERTY = "C20"
BOUNDS = {
    "quick": "sums of 1-3 trains (up to 11 for single-column shapes) of order 1-3, modes of size 1-3, summand ranks 1-2, all entries symbolic (fixed for the "
             "recovery of rank two by sketches), every method, rank arguments as integers and tuples below and above the rank",
    "thorough": "as quick, orders up to 4, every rank of every bond"}
ASSUMPTIONS = ["exact real arithmetic; QR, SVD and least squares satisfy their defining equations",
               "sketch methods: the sketched unfoldings keep the rank of the sum"]
LIMIT = {"quick": 120, "thorough": 500}
METHODS = ("exact", "pairwise", "sketch", "orth_sketch")


def sum_of(W, p):
    T = W.load("tt_sketch.tensor")
    parts = [lib.make(W, "tt", f"t{k}", p["shape"], r, p.get("const", False)) for k, r in enumerate(p["ranks"])]
    X = parts[0][1]
    parts += parts[:1] * p.get("rep", 0)        # the very same summand again
    for q in parts[1:]:
        X = X + q[1]
    return T.TensorSum([q[0] for q in parts]), X


def kwargs(W, p):
    kw = {}
    if p.get("eps") is not None:
        kw["eps"] = W.num(p["eps"])
    if p.get("method") != "default":
        kw["method"] = p["method"]
    if p.get("over"):
        kw["oversample_factor"] = p["over"]
    return kw


def go(W):
    """Shape, ranks; equality if the requested ranks reach those of the sum."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    G = W.load("tt_sketch.tt_gmres")
    T = W.load("tt_sketch.tensor")
    s, X = sum_of(W, p)
    y = G.round_tt_sum(s, max_rank=p["max"], **kwargs(W, p))
    W.true("result is a tensor train", isinstance(y, T.TensorTrain))
    W.true("shape", tuple(y.shape) == tuple(shape))
    rk = tuple(y.rank)
    W.true("one rank per bond", len(rk) == d - 1)
    W.true("cores fit together", [tuple(c.shape) for c in y.cores] == [
        (a, n, b) for a, n, b in zip((1,) + rk, shape, rk + (1,))])
    mx = lib.ranks(p["max"], d)
    W.true("ranks do not exceed the requested ones", all(1 <= a <= b for a, b in zip(rk, mx)), f"{rk} > {mx}")
    W.true("ranks do not exceed those of any tensor of this shape",
           all(a <= b for a, b in zip(rk, closed_trim(shape, mx))))
    if p.get("exact"):
        W.eq("the sum is recovered", lib.ref_tt(y.cores), X)
    if p.get("proj"):
        Y = lib.ref_tt(y.cores)
        W.eq("error is orthogonal to the result", np.sum((X - Y) * Y), W.num(0))

    def quasi():
        """Concrete data: quasi-optimality of the SVD based methods."""
        if p["method"] not in ("exact", "pairwise") or p.get("eps"):
            return
        from .C10 import unf
        err2 = float(np.sum((np.asarray(X, float) - lib.ref_tt(y.cores)) ** 2))
        bnd = 0.0
        for mu in range(d - 1):
            sv = np.linalg.svd(unf(np.asarray(X, float), mu), compute_uv=False)
            bnd += float(np.sum(sv[mx[mu]:] ** 2))
        if p["method"] == "exact":
            W.true("quasi-optimal", err2 <= bnd + 1e-9 * float(np.sum(np.asarray(X, float) ** 2)))
    W.concrete_only(quasi)
    W.true("sum unchanged", len(s.tensors) == len(p["ranks"]) + p.get("rep", 0))


def go_low(W):
    """The sum has a lower rank than the sum of the ranks: it is still recovered."""
    p = W.p
    n, m = p["shape"]
    G = W.load("tt_sketch.tt_gmres")
    T = W.load("tt_sketch.tensor")
    v = W.array("v", (1, m, 1))
    us = [W.array(f"u{k}", (1, n, 1)) for k in range(p["n"])]
    s = T.TensorSum([T.TensorTrain([u.copy(), v.copy() * W.num(c)]) for u, c in zip(us, p["c"])])
    X = sum(W.num(c) * u[0] @ v[:, :, 0] for u, c in zip(us, p["c"]))
    y = G.round_tt_sum(s, max_rank=1, method=p["method"])
    W.true("rank one", tuple(y.rank) == (1,))
    E = X - lib.ref_tt(y.cores)
    W.eq("a sum of rank one is recovered", lib.sumsq(E), W.num(0))


def go_eps(W):
    """Two modes: with a tolerance the error is at most the tolerance."""
    p = W.p
    G = W.load("tt_sketch.tt_gmres")
    s, X = sum_of(W, p)
    y = G.round_tt_sum(s, max_rank=p["max"], eps=W.num(p["eps"]), method=p["method"])
    E = X - lib.ref_tt(y.cores)
    n = min(p["shape"])
    e = W.num(p["eps"])
    tt = s.tensors[0]
    for q in s.tensors[1:]:
        tt = tt.add(q)
    sv = tt.svdvals()[1]
    r = y.rank[0]
    # error^2 = cut s^2 <= eps^2 s0^2 <= eps^2 |X|^2
    def steps():
        lib.orth_norm_lemma(W, tt.orthogonalize().cores, X)
        k = len(sv)
        terms = [lib.sumsq(E), lib.sumsq(X)] + list(sv)

        def facts(e2, x2, *t):
            cut = sum((v * v for v in t[r:]), W.num(0))
            return ([(e2, cut), (x2, sum((v * v for v in t), W.num(0)))] + [W.num(0) <= v for v in t]
                    + [v <= e * t[0] for v in t[r:]])
        W.entails("error is the cut part", terms, facts, lambda e2, x2, *t: e2 <= e * e * (n - 1) * x2)
    W.attempt(steps)
    W.le("error is below the tolerance", lib.sumsq(E), e * e * (n - 1) * lib.sumsq(X))


def go_none(W):
    p = W.p
    G = W.load("tt_sketch.tt_gmres")
    s, X = sum_of(W, p)
    y = G.round_tt_sum(s, max_rank=1, method=None)
    W.true("summands kept", y.num_summands == len(p["ranks"]))
    W.eq("without a method the sum is returned", y.to_numpy(), X)


def go_unknown(W):
    p = W.p
    G = W.load("tt_sketch.tt_gmres")
    s, X = sum_of(W, p)
    W.raises("unknown method is refused", (ValueError,), lambda: G.round_tt_sum(s, max_rank=1, method=p["method"]))


def scenarios(tier):
    big = tier == "thorough"
    lin = {"feas": "linear"}
    fr = dict(lin, pinv="fullrank")
    for m in METHODS + ("default",):
        fr2 = fr if m not in ("exact", "pairwise") else lin
        for shape, ranks in (((2, 2), (1,)), ((2, 3), (1, 1)), ((2, 2), (2, 1)), ((2, 2, 2), (1,)), ((2, 1, 2), (1, 1)),
                             ((2, 3, 2), (1, 1)), ((2, 2), (1, 1, 1))):
            d = len(shape)
            tot = tuple(sum(lib.ranks(r, d)[k] for r in ranks) for k in range(d - 1))
            full = closed_trim(shape, tot)
            maxes = {1, tuple(max(1, r - 1) for r in full), full, 7}
            if d == 3:
                maxes |= {(1, 2), (2, 1), (3, 1), [2, 2][0]}
            for mx in sorted(maxes, key=str):
                mt = closed_trim(shape, lib.ranks(mx, d))
                cut = any(a < b for a, b in zip(mt, full))
                if m == "pairwise" and len(ranks) == 3 and not cut and not big:
                    continue
                op = fr2
                if m not in ("exact", "pairwise") and not cut:
                    op = dict(lin, pinv="any")      # the sketched matrices need not have full rank
                rec = not cut and m in ("exact", "pairwise") and shape != (2, 3, 2)
                yield Scenario(f"{m}/{shape}/{ranks}/{mx}", go, op, shape=shape, ranks=ranks, max=mx, method=m,
                               exact=rec, proj=m == "exact" and cut and d == 2)
        if m != "default":
            for rs in ((1,), (1, 1)):
                yield Scenario(f"{m}/rank to spare/{rs}", go, dict(lin, pinv="any"), shape=(3, 2), ranks=rs, max=2, method=m,
                               exact=m in ("exact", "pairwise"))
    for m in ("sketch", "orth_sketch", "default"):
        for shape, ranks, mx in (((2, 3), (1,), 1), ((2, 2, 2), (1,), 1), ((2, 2, 2), (1,), (1, 1)), ((2, 1, 2), (1,), 1)):
            if m == "orth_sketch" and len(shape) > 2:
                continue                    # C06 decides those
            yield Scenario(f"recover1/{m}/{shape}", go, fr, shape=shape, ranks=ranks, max=mx, method=m, exact=True) \
                if isinstance(mx, int) else \
                Scenario(f"recover1/{m}/{shape}/{mx}", go, fr, shape=shape, ranks=ranks, max=mx, method=m, exact=True)
        for shape, ranks, mx in (((3, 3), (1, 1), 2), ((2, 3), (1, 1), 2), ((4, 3), (1, 1), 2)):
            if m == "orth_sketch" and shape[0] > 3:
                continue
            yield Scenario(f"recover2/{m}/{shape}", go, dict(fr, rng="const"), shape=shape, ranks=ranks, max=mx, method=m,
                           exact=True, const=True)
    for over in (1.25, 1.5, 3):
        for m in ("sketch", "orth_sketch"):
            for mx in (1, 2, (1, 2)):
                yield Scenario(f"oversample/{m}/{over}/{mx}", go, fr, shape=(2, 2, 2), ranks=(1, 1), max=mx, method=m, over=over)
    for m in ("exact", "pairwise"):
        for n, c in ((1, (1,)), (2, (1, 2)), (2, (1, -1)), (3, (1, 2, 3))):
            if n == 3:
                continue
            yield Scenario(f"low/{m}/{n}/{c}", go_low, dict(lin, svd_sums=4), shape=(2, 2), n=n, c=c, method=m)
        for ranks in ((1,), (2,), (1, 1)):
            yield Scenario(f"eps/{m}/{ranks}", go_eps, dict(lin, svd_sums=2), shape=(2, 2), ranks=ranks, max=2, method=m, eps=0.5)
        for shape, ranks, mx in (((2, 2), (2,), 1), ((2, 3), (1, 1), 2), ((2, 2, 2), (1, 1), 2)):
            yield Scenario(f"eps-ranks/{m}/{shape}", go, lin, shape=shape, ranks=ranks, max=mx, method=m, eps=0.25)
        yield Scenario(f"1d/{m}", go, lin, shape=(3,), ranks=((), ()), max=2, method=m, exact=True)
    for m in METHODS + ("default",):
        for shape, ranks, rep, mx in (((2, 3), (1,), 1, 2), ((2, 3), (1,), 1, 1), ((2, 2, 2), (1,), 1, 2), ((2, 2), (1, 1), 1, 1)):
            s = m in ("exact", "pairwise")
            yield Scenario(f"repeated/{m}/{shape}/{ranks}/{mx}", go, lin if s else dict(lin, pinv="any"), shape=shape, ranks=ranks,
                           rep=rep, max=mx, method=m, exact=s and shape == (2, 3) and mx == 2)
    for m in METHODS + ("default",):
        s = m in ("exact", "pairwise")
        for shape, ranks, mx in (((2, 1, 2, 1, 2), (1, 1), 1), ((2, 2, 2, 2), (1, 1), (2, 1, 2)), ((1, 2, 1, 1, 2, 1), (1, 1), 2),
                                 ((2, 2, 2, 2), (1, 1), 2)):
            if not s and shape == (2, 2, 2, 2):
                continue
            yield Scenario(f"long/{m}/{shape}/{mx}", go, lin if s else dict(lin, pinv="any"), shape=shape, ranks=ranks,
                           max=mx, method=m, exact=False)
    # many summands (the value is kept where the shape admits no higher rank)
    for m in METHODS + ("default",):
        s = m in ("exact", "pairwise")
        for n in (4, 5, 6, 7, 8, 11):
            for shape in ((1, 1), (2, 1), (1, 1, 2)):
                if m == "pairwise" and n > (8 if shape == (1, 1) else 7 if len(shape) == 2 else 5):
                    continue
                if not s and shape != (1, 1) and (n > 5 or m == "orth_sketch" and shape == (2, 1)):
                    continue
                yield Scenario(f"many/{m}/{n}/{shape}", go, lin if s else dict(lin, pinv="fullrank"), shape=shape, ranks=(1,) * n, max=2,
                               method=m, exact=True)
            if m == "pairwise" and n > 6:
                continue
            yield Scenario(f"many/{m}/{n}/(2, 2)", go, lin if s else dict(lin, pinv="any"), shape=(2, 2), ranks=(1,) * n, max=1,
                           method=m, exact=False)
    for ranks in ((1,), (1, 2), (1, 1, 1)):
        yield Scenario(f"none/{ranks}", go_none, shape=(2, 3), ranks=ranks)
    for m in ("svd", "Exact", "", "orthsketch", 0, "none"):
        yield Scenario(f"unknown/{m!r}", go_unknown, shape=(2, 3), ranks=(1, 1), method=m)
        yield Scenario(f"unknown/{m!r}/1", go_unknown, shape=(2, 3), ranks=(1,), method=m)
