"""C19: operations leave their operands alone."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C17 import mpo_cores

PROPERTY = "C19"
BOUNDS = {
    "quick": "orders 2-5, modes of size 1-5, ranks 1-3, all entries symbolic; every public operation of every format and "
             "of sketches, maps and solvers, including the same object given twice; then in-place operations on the results",
    "thorough": "as quick, orders 1-5, more shapes"}
ASSUMPTIONS = ["public data attributes, lists and index arrays are compared; private attributes (caches) are not"]
LIMIT = {"quick": 120, "thorough": 500}


# ------------------------------------------------------------- snapshots

def snap(x, seen=None):
    """Deep copy of the public data of x, with the structure of its lists."""
    seen = {} if seen is None else seen
    if isinstance(x, np.ndarray):
        return ("a", x.copy(), x.dtype.kind)
    if isinstance(x, (list, tuple)):
        return ("l", type(x).__name__, [snap(y, seen) for y in x])
    if isinstance(x, dict):
        return ("d", {k: snap(v, seen) for k, v in x.items()})
    if type(x).__module__.startswith("tt_sketch"):
        if id(x) in seen:
            return ("r",)
        seen[id(x)] = x
        return ("o", {k: snap(v, seen) for k, v in vars(x).items() if not k.startswith("_")})
    return ("v", x)


def same(W, label, old, x, seen=None):
    seen = {} if seen is None else seen
    if old[0] == "r":
        return
    if old[0] == "a":
        W.true(label + ": array", isinstance(x, np.ndarray) and x.shape == old[1].shape)
        if x.dtype.kind in "iub" and old[2] in "iub":
            W.true(label + ": integers", np.array_equal(x, old[1]))
        elif x.size:
            W.eq(label, x, old[1])
    elif old[0] == "l":
        W.true(label + ": length", isinstance(x, (list, tuple)) and len(x) == len(old[2]))
        for k, (o, y) in enumerate(zip(old[2], x)):
            same(W, f"{label}[{k}]", o, y, seen)
    elif old[0] == "d":
        W.true(label + ": keys", isinstance(x, dict) and set(x) == set(old[1]))
        for k in old[1]:
            same(W, f"{label}[{k!r}]", old[1][k], x[k], seen)
    elif old[0] == "o":
        for k in old[1]:
            W.true(f"{label}.{k} is still there", hasattr(x, k))
            same(W, f"{label}.{k}", old[1][k], getattr(x, k), seen)
    elif old[0] == "v":
        v = old[1]
        if v is None or isinstance(v, (str, bytes, bool, type)) or callable(v):
            W.true(label, v is x or v == x)
        else:
            try:
                W.eq(label, x, v)
            except TypeError:
                W.true(label, v is x)


def watch(W, name, fn, *operands):
    """fn() leaves every operand as it was."""
    before = [snap(o) for o in operands]
    out = fn()
    for k, (b, o) in enumerate(zip(before, operands)):
        same(W, f"{name}: operand {k}", b, o)
    return out


# ------------------------------------------------------------- operations

def overwrite(W, r, name):
    """Use the in-place operations of a result."""
    if type(r).__name__ in ("TensorTrain", "CPTensor"):
        for k in range(len(r.cores)):
            r[k] = W.array(f"new.{name}.{k}", r.cores[k].shape)
    elif type(r).__name__ == "TensorSum":
        r += r.tensors[0]


def go_unary(W):
    p = W.p
    fmt, shape = p["fmt"], p["shape"]
    T = W.load("tt_sketch.tensor")
    t, X = lib.make(W, fmt, "X", shape, p["rank"])
    s = W.real("s")
    two = W.num(2)
    d = len(shape)
    ops = dict(T=lambda: t.T, TT=lambda: t.T.T, mul=lambda: t * s, rmul=lambda: s * t, neg=lambda: -t,
               div=lambda: t / two, size=lambda: t.size, ndim=lambda: t.ndim, repr=lambda: repr(t))
    ops["add self"] = lambda: t + t
    ops["sub self"] = lambda: t - t
    for nm, f in ops.items():
        r = watch(W, nm, f, t)
        if isinstance(r, T.Tensor):
            before = snap(t)
            overwrite(W, r, nm)
            same(W, f"{nm}, then in-place change of the result", before, t)
    watch(W, "to_numpy", lambda: t.to_numpy(), t)
    watch(W, "dense", lambda: t.dense(), t)
    watch(W, "norm", lambda: t.norm(), t)
    watch(W, "dot self", lambda: t.dot(t), t)
    idx = [W.idx([0, shape[k] - 1, 0]) for k in range(d)]
    ent = {"tt": ("gather",), "cp": ("gather",)}.get(fmt, ())
    if fmt.startswith("sparse") and "+" not in fmt:
        ent = ("gather",)
        watch(W, "dict", lambda: t.dict, t)
        for n in (1, 2, 3):
            q = watch(W, f"split {n}", lambda: t.split(n), t)
            before = snap(t)
            q += q.tensors[0]
            same(W, "split, then in-place addition", before, t)
    if ent:
        watch(W, "gather", lambda: t.gather(tuple(idx)), t, idx)
    if fmt == "tt":
        for k in range(d):
            watch(W, "getitem", lambda: t[k], t)
        watch(W, "partial_dense", lambda: [t.partial_dense("lr"), t.partial_dense("rl")], t)
        r = watch(W, "add", lambda: t.add(t), t)
        before = snap(t)
        overwrite(W, r, "add")
        same(W, "add, then in-place change of the result", before, t)
    if fmt in ("tt", "cp"):
        # the documented in-place operation changes its target only
        u = t * two
        A = W.array("A", u.cores[0].shape)
        before, a0 = snap(t), snap(A)
        u[0] = A
        same(W, "setitem: origin", before, t)
        same(W, "setitem: value", a0, A)
        W.eq("setitem: target", u[0], A)
    if fmt == "dense":
        if p.get("sparse"):
            watch(W, "to_sparse", lambda: t.to_sparse(), t)
    if "+" in fmt:
        c = [W.real(f"c{k}") for k in range(t.num_summands)]
        watch(W, "weighted", lambda: t * c, t, c)
        u, U = lib.make(W, "tt", "U", shape, 1)
        v = t + u
        before, bu = snap(t), snap(u)
        v += u
        v += v.T.T
        same(W, "sum, then in-place addition: sum", before, t)
        same(W, "sum, then in-place addition: summand", bu, u)
        w = u + t
        bu = snap(t)
        w += u
        same(W, "reversed sum, then in-place addition", bu, t)
        before = [snap(x) for x in t.tensors]
        bu = snap(u)
        n = t.num_summands
        t += u
        W.true("in-place addition: one more summand", t.num_summands == n + 1)
        for k in range(n):
            same(W, "in-place addition: summands", before[k], t.tensors[k])
        same(W, "in-place addition: summand", bu, u)
        W.eq("in-place addition: target", t.to_numpy(), X + U)
        v = T.TensorSum([u]) + T.TensorSum([u])
        before = snap(v)
        y = T.TensorSum([u])
        y += v
        y += u
        same(W, "adding a sum in place, then a tensor", before, v)


def go_tt(W):
    """Factorisation based operations of tensor trains."""
    p = W.p
    t, X = lib.make(W, "tt", "X", p["shape"], p["rank"])
    lst = list(p["max"]) if not isinstance(p["max"], int) else p["max"]
    for nm, f in dict(orth=lambda: t.orthogonalize(), svdvals=lambda: t.svdvals(),
                      round=lambda: t.round(max_rank=lst)).items():
        r = watch(W, nm, f, t, lst)
        if nm != "svdvals":
            before = snap(t)
            overwrite(W, r, nm)
            same(W, f"{nm}, then in-place change of the result", before, t)
    o = t.orthogonalize()
    for nm, f in {"svdvals of orthogonal": lambda: o.svdvals(), "orth of orthogonal": lambda: o.orthogonalize(),
                  "round orthogonalized": lambda: o.round(max_rank=lst, orthogonalized=True),
                  "round orthogonalized, all": lambda: o.round(orthogonalized=True)}.items():
        r = watch(W, nm, f, o, t, lst)
        if "svdvals" not in nm:
            before = snap(o)
            overwrite(W, r, nm)
            same(W, f"{nm}, then in-place change of the result", before, o)
    if p.get("eps"):
        watch(W, "round eps", lambda: t.round(eps=W.num(1) / 8), t)
    if p.get("svd"):
        A = X.copy()
        tt_svd = W.load("tt_sketch.tt_svd").tt_svd
        T = W.load("tt_sketch.tensor")
        watch(W, "tt_svd", lambda: tt_svd(T.DenseTensor(A), lst), A, lst)


def go_binary(W):
    p = W.p
    shape = p["shape"]
    t, X = lib.make(W, p["a"], "X", shape, 2)
    u, Y = lib.make(W, p["b"], "Y", shape, 1, seed=3)
    T = W.load("tt_sketch.tensor")
    for nm, f in {"+": lambda: t + u, "-": lambda: t - u, "dot": lambda: t.dot(u), "dot reverse": lambda: t.dot(u, reverse=True),
                  "@": lambda: t @ u, "error": lambda: t.error(u), "error numpy": lambda: t.error(Y)}.items():
        r = watch(W, nm, f, t, u, Y)
        if isinstance(r, T.TensorSum):
            before = snap(t), snap(u)
            r += t
            same(W, f"{nm}, then in-place addition", before[0], t)
            same(W, f"{nm}, then in-place addition", before[1], u)
    W.eq("first operand", t.to_numpy(), X)
    W.eq("second operand", u.to_numpy(), Y)


def go_sketch(W):
    p = W.p
    shape, d = p["shape"], len(p["shape"])
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", shape, 1)
    u, Y = lib.make(W, p["other"], "Y", shape, 1, seed=3)
    cls = lib.drm_cls(W, p["drm"])
    left, right = lib.make_drms(W, p["drm"], shape, p["lr"], p["rr"], seed=11)
    lr, rr = tuple(p["lr"]), tuple(p["rr"])
    ops = dict(stream=lambda: S.stream_sketch(t, lr, rr, seed=5, left_drm_type=cls, right_drm_type=cls),
               stream_drm=lambda: S.stream_sketch(t, lr, rr, left_drm=left, right_drm=right))
    if not p.get("sketch_only"):
        ops["hmt"] = lambda: S.hmt_sketch(t, rr, seed=5, drm_type=cls)
        ops["orth"] = lambda: S.orthogonal_sketch(t, lr, tuple(a + 1 for a in lr), seed=5, left_drm_type=cls, right_drm_type=cls)
    for nm, f in ops.items():
        s = watch(W, nm, f, t, left, right, lr, rr)
        if nm == "stream_drm":
            sk = s
    c = W.real("c")
    for nm, f in {"s + t": lambda: sk + u, "s - t": lambda: sk - u, "s * c": lambda: sk * c, "-s": lambda: -sk, "s / 2": lambda: sk / W.num(2),
                  "s.T": lambda: sk.T, "C_cores": lambda: sk.C_cores(), "C_cores left": lambda: sk.C_cores("left"),
                  "to_tt": lambda: sk.to_tt(), "size": lambda: sk.size}.items():
        r = watch(W, nm, f, sk, t, u, left, right)
        if isinstance(r, S.SketchedTensorTrain):
            # changing the numbers of the new sketch
            before = snap(sk)
            r.Psi_cores[0] = r.Psi_cores[0] * c
            if d > 1:
                r.Omega_mats[0] = r.Omega_mats[0] * c
            same(W, f"{nm}, then in-place change of the result", before, sk)
    if not p.get("sketch_only"):
        watch(W, "s.dot(t)", lambda: sk.dot(u), sk, u)
        watch(W, "t.dot(s)", lambda: u.dot(sk), sk, u)
        watch(W, "s.to_numpy()", lambda: sk.to_numpy(), sk)
    cont = sk.sketch_
    other = S.stream_sketch(u, lr, rr, left_drm=left, right_drm=right).sketch_
    for nm, f in {"c + c": lambda: cont + other, "c - c": lambda: cont - other, "-c": lambda: -cont, "c * s": lambda: cont * c,
                  "c / 2": lambda: cont / W.num(2), "c.T": lambda: cont.T}.items():
        r = watch(W, "container " + nm, f, cont, other)
        before = snap(cont), snap(other)
        r.Psi_cores[0] = r.Psi_cores[0] * c
        r.Omega_mats[0] = r.Omega_mats[0] * c
        same(W, f"container {nm}, then in-place change of the result", before[0], cont)
        same(W, f"container {nm}, then in-place change of the result", before[1], other)
    watch(W, "drm.T", lambda: (left.T, right.T), left, right)
    if hasattr(left, "slice"):
        lo, hi = (0,) * (d - 1), tuple(p["lr"])
        watch(W, "drm.slice", lambda: (left.slice(lo, hi), right.slice(lo, tuple(p["rr"]))), left, right)
        ls = [lo, hi]
        rs = [lo, tuple(p["rr"])]
        watch(W, "blocked", lambda: S.blocked_stream_sketch(t, left, right, ls, rs), t, left, right, ls, rs)
    if hasattr(left, "increase_rank"):
        nl, nr = tuple(a + 1 for a in lr), tuple(a + 1 for a in rr)
        watch(W, "increase_rank", lambda: sk.increase_rank(t, nl, nr), sk, t, nl, nr)


def go_maps(W):
    p = W.p
    ins, outs, d = p["ins"], p["outs"], len(p["ins"])
    G = W.load("tt_sketch.tt_gmres")
    A = G.MPO(mpo_cores(W, "A", ins, outs, 2))
    B = G.MPO(mpo_cores(W, "B", ins, outs, 1))
    x, X = lib.make(W, "tt", "x", ins, 2)
    y, Y = lib.make(W, "tt", "y", ins, 1)
    s = W.real("s")
    L = [A, B]
    M = G.TTLinearMapSum(L)
    xs = x + y
    for nm, f in {"A(x)": lambda: A(x), "A.T": lambda: A.T, "A*s": lambda: A * s, "-A": lambda: -A, "A/2": lambda: A / W.num(2),
                  "A.to_tt": lambda: A.to_tt(), "A.to_numpy": lambda: A.to_numpy(), "A.size": lambda: A.size,
                  "sum(x)": lambda: M(x), "sum(x+y)": lambda: M(xs), "new sum": lambda: G.TTLinearMapSum(L)}.items():
        r = watch(W, nm, f, A, B, M, x, y, xs, L)
        before = snap(A), snap(x), snap(xs)
        overwrite(W, r, nm)
        if isinstance(r, G.MPO):
            r.cores[0] = r.cores[0] * s
        for o, b in zip((A, x, xs), before):
            same(W, f"{nm}, then in-place change of the result", b, o)
    if tuple(ins) == tuple(outs):
        for mode in range(d):
            n = ins[mode]
            P0 = W.array(f"P{mode}", (n, n)) if n < 3 else W.const_array(f"P{mode}", (n, n))
            if n == 1:
                W.assume(P0[0, 0] != 0)
            P = watch(W, "TTPrecond", lambda: G.TTPrecond(P0, ins, mode), P0)
            for nm, f in {"P(x)": lambda: P(x), "P.backward": lambda: P.backward_call(x), "P.forward": lambda: P.forward_call(x)}.items():
                r = watch(W, f"{nm} mode {mode}", f, P, P0, x)
                before = snap(x)
                overwrite(W, r, f"{nm}{mode}")
                same(W, f"{nm}, then in-place change of the result", before, x)


def go_round_sum(W):
    p = W.p
    shape = p["shape"]
    G = W.load("tt_sketch.tt_gmres")
    T = W.load("tt_sketch.tensor")
    ts = [lib.make(W, "tt", f"t{k}", shape, 1)[0] for k in range(p["n"])]
    s = T.TensorSum(ts)
    r = watch(W, "round_tt_sum", lambda: G.round_tt_sum(s, max_rank=p["max"], method=p["method"]), s, ts)
    before = snap(s)
    if p["method"] is not None:
        overwrite(W, r, "r")
        same(W, "round_tt_sum, then in-place change of the result", before, s)


def go_gmres(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    G = W.load("tt_sketch.tt_gmres")
    const = p.get("const", True)
    A = G.TTLinearMapSum([G.MPO(mpo_cores(W, f"A{k}", shape, shape, 1, const)) for k in range(2)])
    b, _ = lib.make(W, "tt", "b", shape, 1, const)
    kw = {}
    ops = [A, b]
    if p.get("x0"):
        kw["x0"] = lib.make(W, "tt", "x0", shape, 1, const)[0]
        ops.append(kw["x0"])
    if p.get("precond"):
        P = W.const_array("P", (shape[0], shape[0])) + 5 * W.eye(shape[0])
        kw["precond"] = G.TTPrecond(P, shape, 0)
        ops += [kw["precond"], P]
    x, h = watch(W, "tt_sum_gmres", lambda: G.tt_sum_gmres(A, b, max_rank=1, maxiter=p["k"], tolerance=W.num(0),
                                                            rounding_method=p["method"], **kw), *ops)
    before = [snap(o) for o in ops]
    if isinstance(x, W.load("tt_sketch.tensor").TensorTrain):
        overwrite(W, x, "x")
        for o, q in zip(ops, before):
            same(W, "tt_sum_gmres, then in-place change of the result", q, o)


def go_utils(W):
    p = W.p
    shape = p["shape"]
    U = W.load("tt_sketch.utils")
    X = W.array("X", shape)
    d = len(shape)
    for mode in list(range(d)) + [(0, 1), (1, 0)]:
        M = watch(W, f"matricize {mode}", lambda: U.matricize(X, mode, mat_shape=True), X)
        if isinstance(mode, int):
            watch(W, f"dematricize {mode}", lambda: U.dematricize(M, mode, X.shape), M)
    A, B = W.array("A", (3, 2)), W.array("B", (2, 2))
    watch(W, "right_mul_pinv", lambda: U.right_mul_pinv(A, B), A, B)
    C = W.array("C", (2, 3))
    watch(W, "left_mul_pinv", lambda: U.left_mul_pinv(B, C), B, C)
    r = [5, 6, 7][: d - 1]
    watch(W, "trim_ranks", lambda: U.trim_ranks(shape, tuple(r)), r)
    watch(W, "process_tt_rank", lambda: U.process_tt_rank(r, shape, trim=True), r)


def scenarios(tier):
    for s in _scenarios(tier):
        s.opts = dict({"pinv": "any"}, **s.opts)
        yield s


def _scenarios(tier):
    big = tier == "thorough"
    shapes = [(2, 3), (2, 1, 3), (2, 2, 2), (5, 4), (1, 2, 1, 2, 1)] + ([(3, 2, 2), (2, 2, 1, 2)] if big else [])
    fmts = ["dense", "tt", "cp", "tucker", "sparse:3", "tt+cp", "sparse:2+dense+tt", "rep~tt+dense"]
    for f in fmts:
        for sh in shapes:
            yield Scenario(f"unary/{f}/{sh}", go_unary, fmt=f, shape=sh, rank=2 if np.prod(sh) < 20 and len(sh) < 4 else 1)
    yield Scenario("unary/to_sparse", go_unary, fmt="dense", shape=(1, 2), rank=1, sparse=True)
    yield Scenario("unary/1d", go_unary, fmt="tt", shape=(3,), rank=1)
    for sh, rk, mx in (((2, 3), 2, 1), ((2, 2, 2), 2, (2, 1)), ((2, 1, 3), (2, 2), 2), ((3,), (), 1)):
        yield Scenario(f"tt/{sh}/{rk}/{mx}", go_tt, {"feas": "linear"}, shape=sh, rank=rk, max=mx, svd=len(sh) > 1)
    yield Scenario("tt/eps", go_tt, {"feas": "linear"}, shape=(2, 2), rank=1, max=1, eps=True)
    for a in fmts:
        for b in fmts:
            yield Scenario(f"binary/{a}/{b}", go_binary, a=a, b=b, shape=(2, 1, 2))
    for drm, fs in lib.DRM_FORMATS.items():
        for k, f in enumerate(fs):
            f = "sparse:3" if f == "sparse" else f
            o = fs[(k + 1) % len(fs)]
            o = "sparse:2" if o == "sparse" else o
            yield Scenario(f"sketch/{drm}/{f}", go_sketch, drm=drm, fmt=f, other=o, shape=(2, 1, 2), lr=(1, 1), rr=(2, 2))
            yield Scenario(f"sketch/{drm}/{f}/3", go_sketch, drm=drm, fmt=f, other=o, shape=(2, 3, 2), lr=(3, 2), rr=(2, 1),
                           sketch_only=True)
        yield Scenario(f"sketch/{drm}/sum", go_sketch, drm=drm, fmt="sparse:2+sparse:3", other="sparse:1", shape=(2, 2, 2),
                       lr=(2, 2), rr=(3, 3), sketch_only=True)
    for ins, outs in (((2, 3), (2, 3)), ((2, 2), (3, 1)), ((2, 1, 2), (2, 1, 2)), ((2, 1, 2), (1, 2, 2)), ((2,), (2,))):
        yield Scenario(f"maps/{ins}/{outs}", go_maps, ins=ins, outs=outs)
    for m in ("exact", "pairwise", "sketch", "orth_sketch", None):
        for n in (1, 2, 3):
            yield Scenario(f"round_sum/{m}/{n}", go_round_sum, shape=(2, 2), n=n, max=1, method=m)
        if m is None:
            continue
        for x0 in (False, True):
            for pc in (False, True):
                if m in ("sketch", "orth_sketch") and (pc or x0):
                    continue
                yield Scenario(f"gmres/{m}/{x0}/{pc}", go_gmres, {"feas": "linear"}, shape=(2, 2), method=m, k=1, x0=x0, precond=pc)
    for sh in ((2, 3), (2, 3, 2)):
        yield Scenario(f"utils/{sh}", go_utils, shape=sh)
