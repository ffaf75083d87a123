"""C02: streaming sketches are linear and can be updated in any order."""
from symtt.engine import Scenario

from . import lib

PROPERTY = "C02"
ASSUMPTIONS = ["exact real arithmetic (rounding is outside the claim)",
               "sparse tensors have distinct coordinates"]
BOUNDS = {"quick": "order 2..5, mode sizes 1..5, ranks 1..5, up to 8 update steps; larger cases: 1100 nonzeros, ranks up to 70, 66 update steps, 129 parts",
          "thorough": "order 2..6, mode sizes 1..6, ranks 1..6, up to 12 update steps, all step orders of length 3"}


def sk(W, t, p, left, right):
    S = W.load("tt_sketch.sketch")
    return S.stream_sketch(t, left.rank, right.rank[::-1], left_drm=left, right_drm=right)


def same(W, label, a, X, left, right, shape):
    Lm = lib.drm_matrices(W, left, shape)
    Rm = lib.drm_matrices(W, right, shape)
    lib.check_sketch(W, label, a, X, Lm, Rm)
    W.true(label + ": shape", tuple(a.shape) == tuple(shape))


def go_history(W):
    """Random-access history of updates; ops: +t, -t, *c, /c, neg."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    left, right = lib.make_drms(W, p["drm"], shape, lib.ranks(p["lr"], d), lib.ranks(p["rr"], d))
    t, X = lib.make(W, p["fmts"][0], "X0", shape, p.get("rank", 2))
    s = sk(W, t, p, left, right)
    for k, op in enumerate(p["ops"]):
        if op in "+-":
            f = p["fmts"][(k + 1) % len(p["fmts"])]
            u, Y = lib.make(W, f, f"X{k+1}", shape, p.get("rank", 2), seed=k)
            if op == "+":
                s, X = s + u, X + Y
            else:
                s, X = s - u, X - Y
        elif op in "*r":
            c = W.real(f"c{k}")
            s, X = (s * c if op == "*" else c * s), X * c
        elif op == "/":
            c = 4
            s, X = s / c, X / W.num(c)
        elif op == "n":
            s, X = -s, X * (-1)
    W.true("DRMs are kept", s.left_drm is left and s.right_drm is right)
    W.true("ranks are kept", tuple(s.left_rank) == tuple(left.rank)
           and tuple(s.right_rank) == tuple(right.rank[::-1]))
    same(W, "history " + p["ops"], s, X, left, right, shape)


def go_split(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    left, right = lib.make_drms(W, p["drm"], shape, lib.ranks(p["lr"], d), lib.ranks(p["rr"], d))
    t, X = lib.make(W, f"sparse:{p['nnz']}", "X", shape)
    parts = t.split(p["n"])
    same(W, "sketch of split", sk(W, parts, p, left, right), X, left, right, shape)
    s = sk(W, parts.tensors[0], p, left, right)
    for u in parts.tensors[1:]:
        s = s + u
    same(W, "streamed parts", s, X, left, right, shape)
    # any order of arrival
    s = sk(W, parts.tensors[-1], p, left, right)
    for u in parts.tensors[-2::-1]:
        s = s + u
    same(W, "streamed parts reversed", s, X, left, right, shape)


def go_container(W):
    """Componentwise arithmetic of sketch containers."""
    p = W.p
    C = W.load("tt_sketch.sketch_container").SketchContainer
    shape, lr, rr = p["shape"], p["lr"], p["rr"]
    d = len(shape)

    def mk(name):
        psi = [W.array(f"{name}.psi{k}", (((1,) + lr)[k], shape[k], (rr + (1,))[k])) for k in range(d)]
        om = [W.array(f"{name}.om{k}", (lr[k], rr[k])) for k in range(d - 1)]
        return C([x.copy() for x in psi], [x.copy() for x in om]), psi, om
    a, pa, oa = mk("a")
    b, pb, ob = mk("b")
    c = W.real("c")

    def chk(label, s, f):
        for k in range(d):
            W.eq(f"{label} Psi", s.Psi_cores[k], f(pa[k], pb[k]))
        for k in range(d - 1):
            W.eq(f"{label} Omega", s.Omega_mats[k], f(oa[k], ob[k]))
        W.true(f"{label} ranks", tuple(s.shape) == shape and tuple(s.left_rank) == lr
               and tuple(s.right_rank) == rr)
    chk("add", a + b, lambda x, y: x + y)
    chk("sub", a - b, lambda x, y: x - y)
    chk("neg", -a, lambda x, y: x * (-1))
    chk("mul", a * c, lambda x, y: x * c)
    chk("div", a / 4, lambda x, y: x / W.num(4))
    z = C.zero(shape, lr, rr)
    chk("zero is neutral", z + a, lambda x, y: x)
    chk("operands unchanged", a, lambda x, y: x)
    chk("operands unchanged b", b + z, lambda x, y: y)


def scenarios(tier):
    T = "TensorTrainDRM"
    hist = [(T, ("tt", "tt"), "+"), (T, ("dense", "tt"), "+-"), (T, ("sparse:3", "cp"), "+*-"),
            (T, ("tucker", "dense"), "*+"), (T, ("cp", "tucker"), "n+/"),
            (T, ("tt", "sparse:2", "dense", "cp"), "+r-+"),
            (T, ("tt+sparse:2", "tt+cp"), "+-"), (T, ("rep~tt+cp", "nest~dense+tucker"), "+-"),
            ("DenseGaussianDRM", ("rep~dense", "rep~tt+sparse:2"), "-+"), ("SparseGaussianDRM", ("rep~sparse:2", "nest~sparse:3"), "+-"),
            ("SparseSignDRM", ("nest~sparse:2", "rep~sparse:3"), "-*"),
            ("DenseGaussianDRM", ("dense", "sparse:3", "tt"), "+*+"),
            ("DenseGaussianDRM", ("tt", "dense"), "-n/"),
            ("SparseGaussianDRM", ("sparse:3", "sparse:2"), "+*-/"),
            ("SparseSignDRM", ("sparse:3", "sparse:2"), "+*-/n")]
    shapes = [((2, 3, 2), (2, 2), (3, 3))]
    if tier == "thorough":
        import itertools
        shapes += [((2, 2), (1,), (3,)), ((2, 1, 3), (3, 3), (2, 1)),
                   ((2, 2, 2, 2), (2, 2, 1), (3, 3, 2)), ((2, 1, 2, 1, 2), (1, 2, 2, 1), (2, 3, 3, 2)),
                   ((6, 5), (4,), (6,)), ((2, 4, 2), (5, 4), (4, 3)), ((1, 2, 1, 2, 1, 2), (1, 2, 2, 1, 2), (2, 3, 3, 2, 3))]
        hist += [(T, ("tt", "sparse:2", "dense", "cp"), "".join(o))
                 for o in itertools.product("+-*n", repeat=3)]
    else:
        shapes += [((2, 2), (3,), (2,)), ((2, 1, 2, 2), (1, 2, 2), (2, 3, 3)), ((5, 4), (3,), (5,)),
                   ((2, 1, 2, 1, 2), (1, 2, 2, 1), (2, 3, 3, 2))]
    k = 12 if tier == "thorough" else 8
    hist += [(T, ("tt",) * 2 + ("sparse:2",) * (k - 2), "+-" * (k // 2)), (T, ("cp",) * 3, "*/n+" * (k // 4)),
             ("DenseGaussianDRM", ("tt", "sparse:3") * (k // 2), "+" * k)]
    for i, (shape, lr, rr) in enumerate(shapes):
        for drm, fmts, ops in hist:
            yield Scenario(f"{drm}/{'|'.join(fmts)}/{ops}/{shape}/{lr}/{rr}", go_history, drm=drm,
                           fmts=fmts, ops=ops, shape=shape, lr=lr, rr=rr,
                           rank=2 if len(shape) > 2 else (2,) * len(shape) if "tucker" in fmts else 2)
    for drm in lib.DRM_FORMATS:
        for nnz, n in ((5, 2), (5, 5), (3, 4), (4, 1)) + (((7, 3), (9, 4), (0, 2)) if tier == "thorough" else ()):
            yield Scenario(f"split/{drm}/{nnz}/{n}", go_split, drm=drm, nnz=nnz, n=n,
                           shape=(2, 3, 2), lr=(2, 2), rr=(3, 3))
    # sizes and lengths beyond what block sizes and thresholds would hide behind
    G, SG, SS = "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
    for drm, fmts, ops, sh, lr, rr in (
            (SG, ("sparse:600", "sparse:500"), "+-", (40, 30), (1,), (2,)), (T, ("sparse:1100", "sparse:20"), "+*", (40, 40), (1,), (2,)),
            (SS, ("sparse:300", "sparse:250"), "+-", (20, 20), (1,), (2,)), (G, ("sparse:300", "dense"), "+-", (20, 20), (1,), (2,)),
            (T, ("dense", "tt", "cp"), "+-*", (20, 20), (1,), (2,)), (T, ("tt", "cp"), "+-" * 20, (3, 2), (1,), (2,)),
            (G, ("dense", "tt"), "+" * 40, (2, 2), (1,), (2,)), (SG, ("sparse:2",), "+-" * 33, (3, 3), (1,), (2,)),
            (T, ("dense", "sparse:3"), "+-", (3, 3), (33,), (35,)), (G, ("dense", "tt"), "+*-", (3, 3), (33,), (40,)),
            (SG, ("sparse:5", "sparse:3"), "+n", (3, 3), (66,), (70,)), (T, ("dense", "cp"), "+-", (2,) * 7, (1,) * 6, (2,) * 6)):
        yield Scenario(f"large/{drm}/{'|'.join(fmts)}/{ops[:4]}{len(ops)}/{sh}/{lr}", go_history, drm=drm, fmts=fmts, ops=ops, shape=sh,
                       lr=lr, rr=rr)
    for drm, nnz, n, sh in ((SG, 600, 7, (40, 30)), (T, 300, 33, (20, 20)), (SS, 300, 100, (20, 20)), (T, 1100, 3, (40, 40)), (G, 130, 129, (15, 15))):
        yield Scenario(f"large/split/{drm}/{nnz}/{n}", go_split, drm=drm, nnz=nnz, n=n, shape=sh, lr=(1,), rr=(2,))
    yield Scenario("large/container", go_container, shape=(40, 3, 2), lr=(20, 1), rr=(1, 30))
    yield Scenario("container3", go_container, shape=(2, 3, 2), lr=(2, 1), rr=(1, 3))
    yield Scenario("container2", go_container, shape=(1, 2), lr=(2,), rr=(1,))
