"""C23: malformed requests are refused, well-formed ones are accepted."""
import numpy as np

from symtt.engine import Scenario
from . import lib
from .C17 import mpo_cores

PROPERTY = "C23"
BOUNDS = {
    "quick": "sketch requests: every integer rank of every bond in 1..12 (symbolic), given as integers, tuples and lists in "
             "every mix, orders 2-4, modes of size 1-4; every map family x format x shape mismatch of orders 1-4; "
             "sums, products and linear maps of mismatched shapes; gathered indices up to 3 outside each mode",
    "thorough": "as quick, ranks in 1..1000, orders up to 5"}
ASSUMPTIONS = ["refused means: ValueError (or AttributeError for a map without the required method) before any result",
               "a left map is not passed as a right map"]
LIMIT = {"quick": 120, "thorough": 500}
IO = {"int_only": True, "max_paths": 20000}
REFUSED = (ValueError, AttributeError, NotImplementedError)


class Accepted(Exception):
    """The request reached the sketching maps."""


class Recorder:
    """Stand-in for a family of maps: records how it is constructed."""

    def __init__(self):
        self.calls = []

    def __call__(self, rank, transpose, shape, seed, **kw):
        rank = tuple(rank)
        self.calls.append((rank, transpose, tuple(shape), seed))
        return Stub(rank[::-1] if transpose else rank, transpose, shape)


class Stub:
    def __init__(self, rank, transpose, shape):
        self.rank, self.transpose, self.shape = rank, transpose, shape

    def sketch_dense(self, tensor):
        raise Accepted


def all_(xs):
    r = True
    for x in xs:
        r = x if r is True else (r & x)
    return r


def request(W, kind, name, d, hi, lo=1):
    """(argument, ranks per bond); equal requests in every admissible form."""
    if kind == "int":
        k = W.int(name, lo, hi)
        return k, (k,) * (d - 1)
    r = tuple(W.int(f"{name}{i}", lo, hi) for i in range(d - 1))
    return (list(r) if kind == "list" else r), r


def outcome(fn):
    try:
        fn()
    except Accepted:
        return "accepted"
    except ValueError:
        return "refused"
    return "returned"


def trimmed(W, label, out, req, shape, strict=False):
    """out: largest ranks <= req that a tensor of this shape can have."""
    from .C12 import closed
    W.true(label + ": one rank per bond", len(out) == len(shape) - 1)
    for k, cand in enumerate(closed(W, shape, req)):
        some = None
        for c in cand:
            W.true(label + ": feasible", out[k] <= c)
            e = out[k] == c
            some = e if some is None else some | e
        W.true(label + ": as large as possible", some)


def same(W, label, a, b):
    W.true(label + ": one rank per bond", len(a) == len(b))
    for x, y in zip(a, b):
        W.true(label + ": as requested", x == y)


def go_rank(W):
    """Accepted if and only if the ranks are consistently ordered; maps get the right ranks."""
    p = W.p
    shape, method = p["shape"], p["method"]
    d = len(shape)
    S = W.load("tt_sketch.sketch")
    T = W.load("tt_sketch.tensor")
    t = T.DenseTensor(W.zeros(shape))
    la, l = request(W, p["lk"], "l", d, p["hi"])
    ra, r = request(W, p["rk"], "r", d, p["hi"])
    left, right = Recorder(), Recorder()
    if method == "hmt":
        got = outcome(lambda: S.hmt_sketch(t, ra, seed=5, drm_type=right))
        W.true("every rank is accepted", got == "accepted", got)
        W.true("one map", len(right.calls) == 1)
        trimmed(W, "right map", right.calls[0][0], r, shape)
        W.true("side and shape", right.calls[0][1] is True and right.calls[0][2] == tuple(shape))
        return
    f = S.stream_sketch if method == "stream" else S.orthogonal_sketch
    # which maps are chosen: each given, or one for both
    types = {"both": dict(left_drm_type=left, right_drm_type=right), "left": dict(left_drm_type=left),
             "right": dict(right_drm_type=right)}[p.get("types", "both")]
    if p.get("types") == "left":
        right = left
    if p.get("types") == "right":
        left = right
    got = outcome(lambda: f(t, la, ra, seed=5, **types))
    less = all_([a < b for a, b in zip(l, r)])
    more = all_([a > b for a, b in zip(l, r)])
    if got == "refused":
        W.true("consistent ranks are not refused", ~less if not isinstance(less, bool) else not less)
        if method == "stream":
            W.true("consistent ranks are not refused (larger)", ~more if not isinstance(more, bool) else not more)
        W.true("no map was constructed", not left.calls and not right.calls)
        return
    W.true("refused or accepted", got == "accepted", got)
    W.true("inconsistent ranks are refused", (less | more) if method == "stream" else less)
    cl, cr = left.calls[0], right.calls[-1]
    W.true("two maps", len(left.calls) + (len(right.calls) if right is not left else 0) == 2)
    W.true("sides", cl[1] is False and cr[1] is True)
    W.true("shapes", cl[2] == cr[2] == tuple(shape))
    if bool(less):
        trimmed(W, "left map", cl[0], l, shape)
        same(W, "right map", cr[0], r)
    else:
        same(W, "left map", cl[0], l)
        trimmed(W, "right map", cr[0], r, shape)
    for a, b in zip(cl[0], cr[0]):
        W.true("ranks of the maps are still ordered", (a < b) if bool(less) else (a > b))
    W.true("different seeds", bool(cl[3] != cr[3]))


def go_length(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    S = W.load("tt_sketch.sketch")
    D = W.load("tt_sketch.drm")
    T = W.load("tt_sketch.tensor")
    t = T.DenseTensor(W.zeros(shape))
    small = tuple(W.int(f"l{i}", 1, 4) for i in range(d + 1))
    big = tuple(W.int(f"r{i}", 5, 9) for i in range(d + 1))
    for n in range(0, d + 2):
        for m in range(0, d + 2):
            a, b = small[:n], big[:m]
            if n == m == d - 1:
                continue
            for nm, f in (("stream", S.stream_sketch), ("orthogonal", S.orthogonal_sketch)):
                W.raises(f"{nm}: {n} and {m} ranks", (ValueError,),
                         lambda: f(t, a, b, seed=1, left_drm_type=Recorder(), right_drm_type=Recorder()))
            W.raises(f"stream, larger left: {m} and {n} ranks", (ValueError,),
                     lambda: S.stream_sketch(t, b, a, seed=1, left_drm_type=Recorder(), right_drm_type=Recorder()))
        if n == d - 1:
            continue
        for nm, f in (("stream", S.stream_sketch), ("orthogonal", S.orthogonal_sketch)):
            W.raises(f"{nm}: {n} and integer", (ValueError,),
                     lambda: f(t, small[:n], 7, seed=1, left_drm_type=Recorder(), right_drm_type=Recorder()))
            W.raises(f"{nm}: integer and {n}", (ValueError,),
                     lambda: f(t, 2, big[:n], seed=1, left_drm_type=Recorder(), right_drm_type=Recorder()))
        W.raises(f"hmt: {n}", (ValueError,), lambda: S.hmt_sketch(t, big[:n], seed=1, drm_type=Recorder()))
        for cls in lib.DRM_FORMATS:
            for tr in (False, True):
                W.raises(f"{cls}: {n}", (ValueError,),
                         lambda: getattr(D, cls)(small[:n], transpose=tr, shape=tuple(shape), seed=1))
        W.raises(f"TensorTrain.random: {n}", (ValueError,), lambda: T.TensorTrain.random(shape, small[:n], seed=1))
        W.raises(f"TensorTrain.zero: {n}", (ValueError,), lambda: T.TensorTrain.zero(shape, small[:n]))


def go_given(W):
    """A map of another rank than the requested one is refused."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    S = W.load("tt_sketch.sketch")
    T = W.load("tt_sketch.tensor")
    t = T.DenseTensor(W.zeros(shape))
    kind = p.get("kind", "tuple")
    la, l = request(W, kind, "l", d, 3)
    ra, r = request(W, kind, "r", d, 9, 4)
    m = tuple(W.int(f"m{i}", 1, 9) for i in range(d - 1))
    if p["side"] == "left":
        drm = Stub(m, False, shape)
        kw, want = dict(left_drm=drm, right_drm_type=Recorder()), l
    else:
        drm = Stub(m[::-1], True, shape)
        kw, want = dict(right_drm=drm, left_drm_type=Recorder()), r
    if p["method"] == "hmt":
        got = outcome(lambda: S.hmt_sketch(t, ra, drm=drm))
    else:
        f = S.stream_sketch if p["method"] == "stream" else S.orthogonal_sketch
        got = outcome(lambda: f(t, la, ra, seed=3, **kw))
    eq = all_([a == b for a, b in zip(m, want)])
    if got == "accepted":
        W.true("a map of another rank is refused", eq)
    else:
        W.true("refused", got == "refused", got)
        W.true("a map of the right rank is accepted", ~eq if not isinstance(eq, bool) else not eq)


def refuse(W, label, fn):
    W.raises(label, REFUSED, fn)


def go_combo(W):
    """Unsupported combinations and other shapes; supported ones work."""
    p = W.p
    shape, fmt, drm = p["shape"], p["fmt"], p["drm"]
    d = len(shape)
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, fmt, "X", shape, 1)
    cls = lib.drm_cls(W, drm)
    lr, rr = p["lr"], p["rr"]
    ok = all(f.partition(":")[0] in lib.DRM_FORMATS[drm] for f in fmt.split("+"))
    kw = dict(seed=3, left_drm_type=cls, right_drm_type=cls)
    left, right = lib.make_drms(W, drm, shape, lib.ranks(lr, d), lib.ranks(rr, d))
    runs = {"stream": lambda t: S.stream_sketch(t, lr, rr, **kw).to_tt(),
            "stream, maps": lambda t: S.stream_sketch(t, lib.ranks(lr, d), lib.ranks(rr, d), left_drm=left, right_drm=right),
            "hmt": lambda t: S.hmt_sketch(t, rr, seed=3, drm_type=cls)}
    small = min(lr, rr) if isinstance(lr, int) else min(lr + rr)
    runs["orthogonal"] = lambda t: S.orthogonal_sketch(t, small, small + 1, **kw)
    for nm, f in runs.items():
        if not ok:
            refuse(W, f"{nm}: {drm} cannot sketch {fmt}", lambda: f(t))
        elif not (nm in ("hmt", "orthogonal") and drm != "TensorTrainDRM"):
            y = f(t)
            W.true(f"{nm}: accepted", tuple(y.shape) == tuple(shape))
    if not ok:
        return
    # maps of other shapes
    s = S.stream_sketch(t, lib.ranks(lr, d), lib.ranks(rr, d), left_drm=left, right_drm=right)
    before = [np.array(P) for P in s.Psi_cores]
    base = tuple(shape)
    others = {base[:k] + (base[k] + 1,) + base[k + 1:] for k in range(d)} | {base + (1,), base + (2,)}
    if d > 2:
        others |= {base[:-1], base[1:]}
    if base[::-1] != base:
        others.add(base[::-1])
    for sh in sorted(others):
        u, _ = lib.make(W, fmt, f"u{len(sh)}{sum(i * 10 ** k for k, i in enumerate(sh))}", sh, 1)
        n = len(sh)
        refuse(W, f"sketch + tensor of shape {sh}", lambda: s + u)
        refuse(W, f"sketch - tensor of shape {sh}", lambda: s - u)
        if n == d:
            refuse(W, f"maps for {shape}, tensor of shape {sh}",
                   lambda: S.stream_sketch(u, lib.ranks(lr, d), lib.ranks(rr, d), left_drm=left, right_drm=right))
            refuse(W, f"right map for {shape}, tensor of shape {sh}",
                   lambda: S.stream_sketch(u, lr, lib.ranks(rr, d), seed=3, left_drm_type=cls, right_drm=right))
            refuse(W, f"left map for {shape}, tensor of shape {sh}",
                   lambda: S.stream_sketch(u, lib.ranks(lr, d), rr, seed=3, left_drm=left, right_drm_type=cls))
            refuse(W, f"hmt: map for {shape}, tensor of shape {sh}", lambda: S.hmt_sketch(u, lib.ranks(rr, d), drm=right))
    for k, (a, b) in enumerate(zip(s.Psi_cores, before)):
        W.eq("the sketch is not changed by refused requests", a, b)


def go_blocked(W):
    """Rank increases and blocked sketches of maps that cannot."""
    p = W.p
    shape, fmt, drm = p["shape"], p["fmt"], p["drm"]
    d = len(shape)
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, fmt, "X", shape, 1)
    lr, rr = lib.ranks(p["lr"], d), lib.ranks(p["rr"], d)
    left, right = lib.make_drms(W, drm, shape, lr, rr)
    s = S.stream_sketch(t, lr, rr, left_drm=left, right_drm=right)
    up = lambda r, k: tuple(x + k for x in r)
    can = drm in ("DenseGaussianDRM", "SparseGaussianDRM")
    if not can:
        W.raises("increase_rank is refused", (ValueError,), lambda: s.increase_rank(t, up(lr, 1), up(rr, 1)))
        W.raises("increase_rank is refused (integers)", (ValueError,), lambda: s.increase_rank(t, 8, 9))
    else:
        q = s.increase_rank(t, up(lr, 1), up(rr, 1))
        W.true("increase_rank is accepted", tuple(q.left_rank) == up(lr, 1) and tuple(q.right_rank) == up(rr, 1))
        q = s.increase_rank(t, max(lr) + 2 + 3 * (lr > rr), max(rr) + 2 + 3 * (rr > lr))
        W.true("integers are accepted", q.left_rank[0] == max(lr) + 2 + 3 * (lr > rr))
        for n in (0, d - 2, d, d + 1):
            if n != d - 1:
                W.raises(f"increase_rank: {n} left ranks", (ValueError,), lambda: s.increase_rank(t, (9,) * n, up(rr, 1)))
                W.raises(f"increase_rank: {n} right ranks", (ValueError,), lambda: s.increase_rank(t, up(lr, 1), (9,) * n))
        # ranks that cannot be reconstructed from
        for nm, a, b in (("equal", up(lr, 5), tuple(x + 5 for x in lr)),
                         ("equal integers", 9, 9),
                         ("equal at one bond", up(lr, 5), up(lr, 5)[:-1] + (lr[-1] + 6,)),
                         ("crossing", (7,) + (8,) * (d - 2), (8,) + (7,) * (d - 2))):
            if nm in ("crossing", "equal at one bond") and d == 2:
                continue
            W.raises(f"increase_rank: {nm}", (ValueError,), lambda: s.increase_rank(t, a, b))
        u, _ = lib.make(W, fmt, "U", tuple(shape[:-1]) + (shape[-1] + 1,), 1)
        refuse(W, "increase_rank with a tensor of another shape", lambda: s.increase_rank(u, up(lr, 1), up(rr, 1)))

    class NoSlice:
        rank, shape, transpose = lr, tuple(W.p["shape"]), False
    z = (0,) * (d - 1)
    W.raises("blocked sketch of a map that cannot (left)", (ValueError,),
             lambda: S.blocked_stream_sketch(t, NoSlice(), right, [z, lr], [z, rr]))
    W.raises("blocked sketch of a map that cannot (right)", (ValueError,),
             lambda: S.blocked_stream_sketch(t, left, NoSlice(), [z, lr], [z, rr]))
    for bad in ("up", "", None, "LEFT"):
        W.raises(f"direction {bad}", (ValueError,), lambda: s.C_cores(bad))


SIX = ("tt", "dense", "cp", "tucker", "sparse:2", "tt+dense")


def go_shapes(W):
    """Operations on tensors of different shapes."""
    p = W.p
    a, b = p["a"], p["b"]
    T = W.load("tt_sketch.tensor")
    G = W.load("tt_sketch.tt_gmres")
    x, _ = lib.make(W, "tt", "x", a, p.get("ra", 1))
    y, _ = lib.make(W, "tt", "y", b, p.get("rb", 1))
    W.raises("add", REFUSED, lambda: x.add(y))
    W.raises("dot", REFUSED, lambda: x.dot(y))
    for fx in SIX:
        for fy in SIX:
            u, _ = lib.make(W, fx, f"e{fx}", a, 1)
            v, _ = lib.make(W, fy, f"f{fy}", b, 1)
            W.raises(f"{fx}.dot({fy})", REFUSED, lambda: u.dot(v))
            for kw in ({}, {"relative": True}, {"fast": True}, {"fast": True, "relative": True}):
                W.raises(f"{fx}.error({fy}, {kw})", REFUSED, lambda: u.error(v, **kw))
    for fx in ("tt", "dense", "cp", "sparse:2"):
        for fy in ("tt", "dense", "tucker", "sparse:2"):
            u, _ = lib.make(W, fx, f"u{fx}", a, 1)
            v, _ = lib.make(W, fy, f"v{fy}", b, 1)
            W.raises(f"{fx} + {fy}", REFUSED, lambda: u + v)
            W.raises(f"{fx} - {fy}", REFUSED, lambda: u - v)
            s = u + u
            W.raises(f"({fx} + {fx}) + {fy}", REFUSED, lambda: s + v)
            W.raises(f"{fy} + ({fx} + {fx})", REFUSED, lambda: v + s)
            W.raises("sum + sum", REFUSED, lambda: s + (v + v))

            def iadd():
                q = T.TensorSum([u, u])
                q += v
            W.raises(f"({fx} + {fx}) += {fy}", REFUSED, iadd)
            W.true("the sum is not changed", len(s.tensors) == 2)
    d = len(a)
    A = G.MPO(mpo_cores(W, "A", a, a, 1))
    W.raises("linear map", REFUSED, lambda: A(y))
    B = G.MPO(mpo_cores(W, "B", b, b, 1))
    W.raises("sum of linear maps", (ValueError,), lambda: G.TTLinearMapSum([A, B]))
    if len(a) == len(b):
        W.raises("sum of linear maps, other output", (ValueError,),
                 lambda: G.TTLinearMapSum([A, G.MPO(mpo_cores(W, "C", a, b, 1))]))
        W.raises("sum of linear maps, other input", (ValueError,),
                 lambda: G.TTLinearMapSum([A, G.MPO(mpo_cores(W, "D", b, a, 1))]))
        M = G.TTLinearMapSum([G.MPO(mpo_cores(W, "E", a, b, 1))])
        W.raises("GMRES: not an automorphism", (ValueError,), lambda: G.tt_sum_gmres(M, y, 2))
    S = G.TTLinearMapSum([A])
    W.raises("GMRES: right-hand side", (ValueError,), lambda: G.tt_sum_gmres(S, y, 2))
    W.raises("GMRES: initial value", (ValueError,), lambda: G.tt_sum_gmres(S, x, 2, x0=y))


def go_misc(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    T = W.load("tt_sketch.tensor")
    G = W.load("tt_sketch.tt_gmres")
    x, _ = lib.make(W, "tt", "x", shape, 1)
    s = T.TensorSum([x, x])
    for m in ("round", "", "Exact", 0, "orth"):
        W.raises(f"rounding method {m!r}", (ValueError,), lambda: G.round_tt_sum(s, 1, method=m))
    W.raises("no linear maps", (ValueError,), lambda: G.TTLinearMapSum([]))
    W.raises("orthogonal without trimming", (ValueError,),
             lambda: T.TensorTrain.random(shape, 2, seed=1, orthog=True, trim=False))
    for g in ("norm", "", "norm-2", None):
        for o in (False, True):
            W.raises(f"norm goal {g!r}", (ValueError,), lambda: T.TensorTrain.random(shape, 2, seed=1, orthog=o, norm_goal=g))
    for n in (1, 3):
        W.raises(f"{n} weights for two summands", (ValueError,), lambda: s * [W.num(k + 1) for k in range(n)])
    for n in (0, d - 2, d, d + 2):
        if n != d - 1 and n >= 0:
            W.raises(f"round: {n} ranks", (ValueError,), lambda: x.round(max_rank=(2,) * n))
            W.raises(f"tt_svd: {n} ranks", (ValueError,),
                     lambda: W.load("tt_sketch.tt_svd").tt_svd(x.dense(), (2,) * n))
            for m in ("exact", "pairwise", "sketch", "orth_sketch"):
                W.raises(f"round_tt_sum {m}: {n} ranks", (ValueError,), lambda: G.round_tt_sum(s, (2,) * n, method=m))
            W.raises(f"MPO.random: {n} ranks", (ValueError,), lambda: G.MPO.random((2,) * n, shape, shape))
    for n in (0, d - 1, d + 1):
        W.raises(f"Tucker.random: {n} ranks", (ValueError,), lambda: T.TuckerTensor.random(shape, (2,) * n, seed=1))


def go_gather(W):
    """Entries outside the tensor, or indices of another number of modes."""
    p = W.p
    shape, d = p["shape"], len(p["shape"])
    t, X = lib.make(W, p["fmt"], "X", shape, 2)
    for m in range(d):
        for side in ("above", "below"):
            n = shape[m]
            bad = W.pick(f"b{m}{side}", n, n + 3) if side == "above" else W.pick(f"b{m}{side}", -n - 3, -n - 1)
            idx = [np.array([0, n - 1, 0]) for n in shape]
            for at in (0, 2):
                i = [x.copy() for x in idx]
                i[m][at] = bad
                W.raises(f"mode {m}: {side}", (IndexError, ValueError), lambda: t.gather(tuple(i)))
                if p["fmt"] != "cp":
                    W.raises(f"mode {m}: {side} (array)", (IndexError, ValueError), lambda: t.gather(np.stack(i)))
    for k in range(1, d + 3):
        i = tuple(np.zeros(2, dtype=np.int64) for _ in range(k))
        if k != d:
            W.raises(f"indices of {k} modes", (IndexError, ValueError), lambda: t.gather(i))
        else:
            W.eq("well-formed", t.gather(i), np.array([X[(0,) * d]] * 2, dtype=X.dtype))


def scenarios(tier):
    for f in ("tt", "cp", "sparse:2"):
        for sh in ((3,), (2, 3), (2, 1, 3)):
            yield Scenario(f"gather/{f}/{sh}", go_gather, {"max_values": 64}, fmt="sparse:1" if f[0] == "s" and len(sh) < 2 else f, shape=sh)
    th = tier == "thorough"
    hi = 1000 if th else 12
    shapes = [(2, 3), (2, 2, 3), (1, 3, 1), (4, 1, 2), (2, 1, 2, 3)] + ([(3, 2, 2, 3), (2, 2, 2, 2, 2)] if th else [])
    for sh in shapes:
        n = "x".join(map(str, sh))
        for m in ("stream", "orthogonal", "hmt"):
            kinds = [("tuple", "tuple"), ("int", "tuple"), ("tuple", "int"), ("int", "int"), ("list", "tuple"), ("list", "int")]
            for lk, rk in (kinds if m != "hmt" else [("int", k) for k in ("tuple", "int", "list")]):
                yield Scenario(f"ranks/{m}/{n}/{lk},{rk}", go_rank, IO, shape=sh, method=m, lk=lk, rk=rk, hi=hi)
            if m != "hmt":
                for ty in ("left", "right"):
                    yield Scenario(f"ranks/{m}/{n}/{ty} type", go_rank, IO, shape=sh, method=m, lk="tuple", rk="tuple", hi=hi,
                                   types=ty)
            for side in (("left", "right") if m != "hmt" else ("right",)):
                for k in ("tuple", "int", "list"):
                    yield Scenario(f"given/{m}/{n}/{side}/{k}", go_given, IO, shape=sh, method=m, side=side, kind=k)
        yield Scenario(f"length/{n}", go_length, IO, shape=sh)
    fmts = list(lib.FORMATS) + ["tt+dense", "sparse+cp", "tucker+sparse", "tt+tt", "sparse+sparse"]
    cs = [((2, 3), 1, 2), ((2, 3, 2), (2, 3), (1, 2)), ((2, 1, 2), 1, 2)] + ([((2, 2, 1, 2), 1, 2)] if th else [])
    for sh, lr, rr in cs:
        for drm in lib.DRM_FORMATS:
            for f in fmts:
                yield Scenario(f"combo/{drm}/{f}/{'x'.join(map(str, sh))}", go_combo, {"pinv": "any", "feas": "linear"}, shape=sh,
                               fmt=f, drm=drm, lr=lr, rr=rr)
    for sh, lr, rr in [((2, 3), 1, 2), ((2, 3, 2), (2, 3), (1, 2)), ((3, 2, 2, 2), 1, 2)]:
        for drm in lib.DRM_FORMATS:
            for f in lib.DRM_FORMATS[drm]:
                yield Scenario(f"blocked/{drm}/{f}/{'x'.join(map(str, sh))}", go_blocked, {"pinv": "any", "feas": "linear"},
                               shape=sh, fmt=f, drm=drm, lr=lr, rr=rr)
    for a, b in [((2, 3), (2, 4)), ((2, 3), (1, 3)), ((1, 3), (2, 3)), ((2, 3), (2, 3, 2)), ((2, 3, 2), (2, 3)), ((2, 3), (3, 2)),
                 ((3,), (1,)), ((1,), (3,)), ((2,), (3,)), ((2,), (2, 1)), ((2, 2), (2,)), ((2, 3, 2), (2, 1, 2)),
                 ((2, 1, 2), (2, 3, 2)), ((2, 2, 2), (2, 3, 2)), ((2, 2), (2, 2, 1)), ((1, 1), (1, 1, 1)), ((6,), (2, 3)),
                 ((2, 2, 3), (3, 2, 2)), ((2, 2, 2, 2), (2, 2, 2))]:
        for ra in ((1, 2) if len(a) > 1 else (1,)):
            yield Scenario(f"shapes/{'x'.join(map(str, a))}/{'x'.join(map(str, b))}/{ra}", go_shapes, {"feas": "linear"}, a=a, b=b,
                           ra=ra)
    for sh in [(2, 3), (2, 2, 2), (1, 3, 1)] + ([(2, 2, 2, 2)] if th else []):
        yield Scenario(f"misc/{'x'.join(map(str, sh))}", go_misc, {"feas": "linear"}, shape=sh)
