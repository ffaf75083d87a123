"""C03: blocked sketches, slices and rank increases equal the one-shot sketch."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C03"
ASSUMPTIONS = ["exact real arithmetic", "sparse tensors have distinct coordinates"]
BOUNDS = {"quick": "order 2..5, mode sizes 1..4, true ranks 2..6, up to 5 blocks per side; larger cases: ranks up to 130, 12 blocks, 300 nonzeros",
          "thorough": "order 2..6, mode sizes 1..6, true ranks 2..8, up to 8 blocks per side"}


def one_shot(W, t, left, right):
    D = W.load("tt_sketch.sketch_dispatch")
    S = W.load("tt_sketch.sketch")
    sk = D.general_sketch(t, left, right, method=D.SketchMethod.streaming)
    return S.SketchedTensorTrain(sk, left, right)


def drms(W, p):
    kw = {}
    if p["drm"] == "SparseSignDRM" and p.get("nnz"):
        kw = {"num_non_zero_per_row": p["nnz"]}
    return lib.make_drms(W, p["drm"], p["shape"], p["lr"], p["rr"], seed=p.get("dseed", 11), **kw)


def equal(W, label, a, b):
    W.true(label + ": counts", len(a.Psi_cores) == len(b.Psi_cores)
           and len(a.Omega_mats) == len(b.Omega_mats))
    for k, (x, y) in enumerate(zip(a.Psi_cores, b.Psi_cores)):
        W.eq(f"{label}: Psi[{k}]", x, y)
    for k, (x, y) in enumerate(zip(a.Omega_mats, b.Omega_mats)):
        W.eq(f"{label}: Omega[{k}]", x, y)


def go_blocked(W):
    p = W.p
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, p["fmt"], "X", p["shape"], 2)
    left, right = drms(W, p)
    full = one_shot(W, t, left, right)
    blk = S.blocked_stream_sketch(t, left, right, p["ls"], p["rs"])
    equal(W, "blocked", blk, full)
    W.true("blocked ranks", tuple(blk.left_rank) == tuple(p["lr"])
           and tuple(blk.right_rank) == tuple(p["rr"]) and tuple(blk.shape) == tuple(p["shape"]))


def go_slice(W):
    """drm.slice(a, b) is rows a..b of the full DRM, for left and right DRMs."""
    p = W.p
    shape = p["shape"]
    left, right = drms(W, p)
    for drm, (a, b) in ((left, p["lcut"]), (right, p["rcut"])):
        for mode in ("sparse", p["fmt"]):
            full = lib.drm_matrices(W, drm, shape)
            part = drm.slice(a, b)
            mats = lib.drm_matrices(W, part, shape)
            lo = (0,) * (len(shape) - 1) if a is None else a
            for mu in range(len(shape) - 1):
                W.eq(f"slice of {'right' if drm.transpose else 'left'} DRM mu={mu}",
                     mats[mu], full[mu][lo[mu]:b[mu]])
            # the source DRM is untouched
            again = lib.drm_matrices(W, drm, shape)
            for mu in range(len(shape) - 1):
                W.eq(f"slicing leaves the DRM alone mu={mu}", again[mu], full[mu])


def go_slice_sketch(W):
    """Sketching with slices gives the sub-blocks of the full sketch (any format)."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    t, X = lib.make(W, p["fmt"], "X", shape, 2)
    left, right = drms(W, p)
    full = one_shot(W, t, left, right)
    (la, lb), (ra, rb) = p["lcut"], p["rcut"]
    sub = one_shot(W, t, left.slice(la, lb), right.slice(ra, rb))
    la = (0,) * (d - 1) if la is None else la
    ra = (0,) * (d - 1) if ra is None else ra
    l0, l1 = (0,) + tuple(la), (1,) + tuple(lb)
    r0, r1 = tuple(ra) + (0,), tuple(rb) + (1,)
    for k in range(d):
        W.eq(f"sub-block Psi[{k}]", sub.Psi_cores[k], full.Psi_cores[k][l0[k]:l1[k], :, r0[k]:r1[k]])
    for k in range(d - 1):
        W.eq(f"sub-block Omega[{k}]", sub.Omega_mats[k],
             full.Omega_mats[k][l0[k + 1]:l1[k + 1], r0[k]:r1[k]])


def go_reslice(W):
    """A slice can be sliced again (positions count in the unsliced DRM)."""
    p = W.p
    shape = p["shape"]
    left, right = drms(W, p)
    for drm, (a, b), (a2, b2) in ((left, p["lcut"], p["lcut2"]), (right, p["rcut"], p["rcut2"])):
        side = "right" if drm.transpose else "left"
        full = lib.drm_matrices(W, drm, shape)
        part = drm.slice(a, b)
        again = part.slice(a2, b2)
        mats = lib.drm_matrices(W, again, shape)
        for mu in range(len(shape) - 1):
            W.eq(f"slice of a {side} slice mu={mu}", mats[mu], full[mu][a2[mu]:b2[mu]])
        mats = lib.drm_matrices(W, part, shape)
        for mu in range(len(shape) - 1):
            W.eq(f"{side} slice after being sliced mu={mu}", mats[mu], full[mu][a[mu]:b[mu]])


def go_increase(W):
    p = W.p
    shape = p["shape"]
    d = len(shape)
    t, X = lib.make(W, p["fmt"], "X", shape, 2)
    left, right = drms(W, p)
    s = one_shot(W, t, left, right)
    big = s.increase_rank(t, p["nl"], p["nr"])
    nl, nr = lib.ranks(p["nl"], d), lib.ranks(p["nr"], d)
    W.true("new ranks", tuple(big.left_rank) == nl and tuple(big.right_rank) == nr)
    lb = left.increase_rank(p["nl"])
    rb = right.increase_rank(p["nr"])
    W.true("increased DRM keeps side and shape", lb.transpose is False and rb.transpose is True
           and tuple(lb.shape) == tuple(shape) and tuple(rb.shape) == tuple(shape))
    ref = one_shot(W, t, lb, rb)
    equal(W, "increase_rank", big, ref)
    # the larger DRM extends the smaller one
    for a, b, nm in ((left, lb, "left"), (right, rb, "right")):
        A, B = lib.drm_matrices(W, a, shape), lib.drm_matrices(W, b, shape)
        for mu in range(d - 1):
            W.eq(f"{nm} DRM is extended mu={mu}", B[mu][:A[mu].shape[0]], A[mu])
    # and the result can still be updated
    if p.get("update"):
        u, Y = lib.make(W, p["fmt"], "Y", shape, 2, seed=3)
        equal(W, "update after increase", big + u, one_shot(W, t + u, lb, rb))


def go_given(W):
    """Slices and blocks of a map whose cores were given by the caller."""
    p = W.p
    shape, d = p["shape"], len(p["shape"])
    S = W.load("tt_sketch.sketch")
    cls = lib.drm_cls(W, "TensorTrainDRM")
    e = (1,) + tuple(p["lr"])
    lc = [lib.arr(W, f"LC{k}", (e[k], shape[k], e[k + 1])) for k in range(d - 1)]
    rs, rr = tuple(shape)[::-1], (1,) + tuple(p["rr"])[::-1]
    rc = [lib.arr(W, f"RC{k}", (rr[k], rs[k], rr[k + 1])) for k in range(d - 1)]
    left = cls(p["lr"], transpose=False, shape=shape, seed=1, cores=lc)
    right = cls(p["rr"], transpose=True, shape=shape, seed=2, cores=rc)
    t, X = lib.make(W, p["fmt"], "X", shape, 2)
    # what these maps are
    L, R = [], []
    M = W.eye(1)
    for k in range(d - 1):
        M = np.tensordot(M, lc[k], axes=([-1], [0]))
        L.append(np.moveaxis(M.reshape(M.shape[1:]), -1, 0))
    M = W.eye(1)
    for k in range(d - 1):
        M = np.tensordot(M, rc[k], axes=([-1], [0]))
        m = M.reshape(M.shape[1:])
        R.append(np.transpose(m, (m.ndim - 1,) + tuple(range(m.ndim - 1))[::-1]))
    R = R[::-1]
    for drm, full, (a, b) in ((left, L, p["lcut"]), (right, R, p["rcut"])):
        side = "right" if drm.transpose else "left"
        whole = lib.drm_matrices(W, drm, shape)
        part = lib.drm_matrices(W, drm.slice(a, b), shape)
        for mu in range(d - 1):
            W.eq(f"{side} map has the given cores mu={mu}", whole[mu], full[mu])
            W.eq(f"slice of the {side} map has the given cores mu={mu}", part[mu], full[mu][a[mu]:b[mu]])
    full = one_shot(W, t, left, right)
    equal(W, "blocked", S.blocked_stream_sketch(t, left, right, p["ls"], p["rs"]), full)


def go_transposed(W):
    """Slices of a transposed map are the transposes of the slices."""
    p = W.p
    shape = p["shape"]
    left, right = drms(W, p)
    for drm, (a, b) in ((left, p["lcut"]), (right, p["rcut"])):
        side = "right" if drm.transpose else "left"
        T = drm.T
        full = lib.drm_matrices(W, T, shape[::-1])
        part = lib.drm_matrices(W, T.slice(a[::-1], b[::-1]), shape[::-1])
        other = lib.drm_matrices(W, drm.slice(a, b).T, shape[::-1])
        for k in range(len(shape) - 1):
            A, B = a[::-1][k], b[::-1][k]
            W.eq(f"slice of the transposed {side} map {k}", part[k], full[k][A:B])
            W.eq(f"transposed slice of the {side} map {k}", other[k], full[k][A:B])
        if p.get("nl") and hasattr(drm, "increase_rank"):
            new = p["nr"] if drm.transpose else p["nl"]
            one = lib.drm_matrices(W, T.increase_rank(new[::-1]), shape[::-1])
            two = lib.drm_matrices(W, drm.increase_rank(new).T, shape[::-1])
            for k in range(len(shape) - 1):
                W.eq(f"rank increase of the transposed {side} map {k}", one[k], two[k])


def go_history(W):
    """Rank increases after updates, scalings, transpositions and other increases."""
    p = W.p
    shape, d = p["shape"], len(p["shape"])
    t, X = lib.make(W, p["fmt"], "X", shape, 2)
    u, Y = lib.make(W, p["fmt"], "Y", shape, 2, seed=3)
    left, right = drms(W, p)
    s = one_shot(W, t, left, right)
    nl, nr = p["nl"], p["nr"]
    lb, rb = left.increase_rank(nl), right.increase_rank(nr)
    equal(W, "increase after an update", (s + u).increase_rank(t + u, nl, nr), one_shot(W, t + u, lb, rb))
    equal(W, "increase after a scaling", (s * 3).increase_rank(t * 3, nl, nr), one_shot(W, t * 3, lb, rb))
    equal(W, "increase after a transpose", s.T.increase_rank(t.T, nr[::-1], nl[::-1]).T, one_shot(W, t, lb, rb))
    l2, r2 = tuple(r + 1 for r in nl), tuple(r + 1 for r in nr)
    equal(W, "two increases", s.increase_rank(t, nl, nr).increase_rank(t, l2, r2),
          one_shot(W, t, left.increase_rank(l2), right.increase_rank(r2)))
    equal(W, "the original afterwards", s, one_shot(W, t, left, right))


def go_unsupported(W):
    p = W.p
    S = W.load("tt_sketch.sketch")
    t, X = lib.make(W, "sparse:3", "X", p["shape"], 2)
    left, right = drms(W, p)
    s = one_shot(W, t, left, right)
    W.raises("rank increase of an unsupported DRM is rejected", (ValueError,),
             lambda: s.increase_rank(t, tuple(r + 1 for r in p["lr"]), tuple(r + 1 for r in p["rr"])))


def scenarios(tier):
    big = tier == "thorough"
    for drm, fmts in lib.DRM_FORMATS.items():
        for fmt in fmts:
            cfg = [((2, 3, 2), (3, 2), (2, 4), [(0, 0), (1, 2), (3, 2)], [(0, 0), (1, 1), (2, 3), (2, 4)]),
                   ((2, 2, 2, 2), (2, 3, 2), (3, 4, 3), [(0, 0, 0), (1, 1, 1), (2, 3, 2)],
                    [(0, 0, 0), (2, 3, 1), (3, 4, 3)])]
            cfg += [((2, 3), (3,), (4,), [(0,), (1,), (2,), (3,)], [(0,), (2,), (4,)]),
                    ((2, 1, 3), (3, 4), (2, 2), [(0, 0), (3, 1), (3, 4)], [(0, 0), (2, 2)]),
                    ((4, 3), (5,), (6,), [(k,) for k in range(6)], [(0,), (4,), (6,)]),
                    ((2, 1, 2, 1, 2), (2, 2, 2, 2), (3, 3, 3, 3),
                     [(0,) * 4, (1,) * 4, (2,) * 4], [(0,) * 4, (1, 2, 1, 2), (3,) * 4])]
            if big:
                cfg += [((2, 2, 1, 2, 2), (2, 2, 2, 2), (3, 3, 3, 3),
                         [(0,) * 4, (1,) * 4, (2,) * 4], [(0,) * 4, (1, 2, 1, 2), (3,) * 4]),
                        ((6, 4), (8,), (5,), [(k,) for k in range(9)], [(0,), (1,), (5,)]),
                        ((3, 2, 3), (5, 4), (6, 7), [(0, 0), (2, 4), (2, 4), (5, 4)], [(0, 0), (5, 1), (6, 3), (6, 7)]),
                        ((1, 2, 1, 2, 1, 2), (2, 2, 3, 2, 2), (3, 3, 4, 3, 3),
                         [(0,) * 5, (1, 0, 2, 1, 2), (2, 2, 3, 2, 2)], [(0,) * 5, (1, 2, 1, 2, 3), (3, 3, 4, 3, 3)])]
            for shape, lr, rr, ls, rs in cfg:
                nnzs = [None]
                if drm == "SparseSignDRM":
                    nnzs.append((lr, tuple(max(1, r - 1) for r in lr)))
                for q in nnzs:
                    p = dict(drm=drm, fmt=fmt, shape=shape, lr=lr, rr=rr, ls=ls, rs=rs)
                    yield Scenario(f"blocked/{drm}/{fmt}/{shape}/{'nnz' if q else ''}", go_blocked, **p)
                if len(shape) == 3:
                    cuts = [((1, 0), (3, 2)), ((0, 1), (2, 2)), (None, (2, 1))]
                    rcuts = [((1, 1), (2, 3)), ((0, 2), (1, 4)), (None, (1, 3))]
                    for c, (lc, rc) in enumerate(zip(cuts, rcuts)):
                        if shape != (2, 3, 2):
                            continue
                        yield Scenario(f"slice/{drm}/{fmt}/{c}", go_slice, drm=drm, fmt=fmt, shape=shape,
                                       lr=lr, rr=rr, lcut=lc, rcut=rc)
                        yield Scenario(f"subblock/{drm}/{fmt}/{c}", go_slice_sketch, drm=drm, fmt=fmt,
                                       shape=shape, lr=lr, rr=rr, lcut=lc, rcut=rc)
    for drm, fmts in lib.DRM_FORMATS.items():
        yield Scenario(f"reslice/{drm}", go_reslice, drm=drm, shape=(2, 3, 2), lr=(4, 3), rr=(3, 5),
                       lcut=((1, 0), (4, 2)), lcut2=((1, 1), (3, 2)), rcut=((0, 2), (2, 5)), rcut2=((1, 2), (2, 4)))
        yield Scenario(f"reslice4/{drm}", go_reslice, drm=drm, shape=(2, 2, 2, 2), lr=(4, 3, 2),
                       rr=(3, 5, 4), lcut=((1, 0, 0), (4, 2, 2)), lcut2=((1, 1, 1), (3, 2, 2)),
                       rcut=((0, 2, 1), (2, 5, 4)), rcut2=((1, 2, 3), (2, 4, 4)))
        kw = dict(nl=(5, 4), nr=(4, 6)) if drm in ("SparseGaussianDRM", "DenseGaussianDRM") else {}
        yield Scenario(f"transposed/{drm}", go_transposed, drm=drm, shape=(2, 3, 4), lr=(4, 3), rr=(3, 5),
                       lcut=((1, 0), (4, 2)), rcut=((0, 2), (2, 5)), **kw)
    for fmt in lib.DRM_FORMATS["TensorTrainDRM"]:
        yield Scenario(f"given/{fmt}", go_given, fmt=fmt, shape=(2, 3, 2), lr=(3, 2), rr=(2, 4),
                       lcut=((1, 0), (3, 2)), rcut=((0, 1), (2, 3)), ls=[(0, 0), (1, 2), (3, 2)],
                       rs=[(0, 0), (1, 1), (2, 4)])
    for drm in ("SparseGaussianDRM", "DenseGaussianDRM"):
        for fmt in lib.DRM_FORMATS[drm]:
            yield Scenario(f"history/{drm}/{fmt}", go_history, drm=drm, fmt=fmt, shape=(2, 3, 2),
                           lr=(1, 2), rr=(2, 3), nl=(2, 3), nr=(4, 5))
    # sparse sign with fewer non-zeros than the rank
    for nnz in ((1, 2), (2, 1)):
        p = dict(drm="SparseSignDRM", fmt="sparse:4", shape=(2, 3, 2), lr=(3, 2), rr=(2, 3), nnz=nnz)
        yield Scenario(f"sign-nnz/blocked/{nnz}", go_blocked, ls=[(0, 0), (1, 2), (3, 2)],
                       rs=[(0, 0), (1, 1), (2, 3)], **p)
        yield Scenario(f"sign-nnz/slice/{nnz}", go_slice, lcut=((1, 0), (3, 2)), rcut=((0, 1), (2, 3)), **p)
    for drm in ("SparseGaussianDRM", "DenseGaussianDRM"):
        for fmt in lib.DRM_FORMATS[drm]:
            for k, (shape, lr, rr, nl, nr) in enumerate([
                    ((2, 3, 2), (1, 2), (2, 3), (3, 3), (4, 5)),
                    ((2, 2, 2, 2), (2, 1, 2), (3, 3, 4), (3, 2, 4), (4, 4, 5)),
                    ((2, 3, 2), (2, 3), (1, 1), 4, 3), ((3, 2), (1,), (2,), (3,), (5,)),
                    ((2, 1, 2, 1, 2), (1, 2, 1, 2), (2, 3, 2, 3), (2, 3, 2, 2), (3, 4, 3, 3))] + ([
                     ((5, 4), (2,), (3,), (7,), (8,)), ((2, 3, 2), (5, 4), (3, 2), (7, 6), (6, 5))] if big else [])):
                yield Scenario(f"increase/{drm}/{fmt}/{k}", go_increase, drm=drm, fmt=fmt, shape=shape,
                               lr=lr, rr=rr, nl=nl, nr=nr, update=True)
        yield Scenario(f"increase/{drm}/bigseed", go_increase, drm=drm, fmt="sparse:4", shape=(2, 3, 2),
                       lr=(1, 2), rr=(2, 3), nl=(2, 3), nr=(3, 4), dseed=2**32 - 1, update=False)
    # ranks, numbers of blocks and sizes beyond what block sizes and thresholds would hide behind
    T, G, SG, SS = "TensorTrainDRM", "DenseGaussianDRM", "SparseGaussianDRM", "SparseSignDRM"
    for drm, fmt in ((T, "tt"), (T, "dense"), (G, "dense"), (G, "tt"), (SG, "sparse:5"), (SS, "sparse:5")):
        yield Scenario(f"large/blocked/{drm}/{fmt}/40", go_blocked, drm=drm, fmt=fmt, shape=(3, 3), lr=(34,), rr=(40,),
                       ls=[(0,), (17,), (33,), (34,)], rs=[(0,), (1,), (40,)])
        yield Scenario(f"large/blocked/{drm}/{fmt}/many", go_blocked, drm=drm, fmt=fmt, shape=(2, 2), lr=(12,), rr=(20,),
                       ls=[(k,) for k in range(13)], rs=[(k,) for k in range(0, 21, 2)])
        if "T" not in drm[:1]:
            yield Scenario(f"large/slice/{drm}/{fmt}", go_slice_sketch, drm=drm, fmt=fmt, shape=(3, 3), lr=(70,), rr=(130,),
                           lcut=((63,), (67,)), rcut=((100,), (130,)))
        if drm in (G, SG):
            yield Scenario(f"large/increase/{drm}/{fmt}", go_increase, drm=drm, fmt=fmt, shape=(3, 3), lr=(15,), rr=(31,),
                           nl=(34,), nr=(66,), update=False)
    for drm, fmt in ((T, "sparse:300"), (SG, "sparse:300"), (SS, "sparse:300"), (G, "sparse:200")):
        yield Scenario(f"large/blocked/{drm}/{fmt}", go_blocked, drm=drm, fmt=fmt, shape=(20, 20), lr=(2,), rr=(3,),
                       ls=[(0,), (1,), (2,)], rs=[(0,), (2,), (3,)])
        if drm in (G, SG):
            yield Scenario(f"large/increase/{drm}/{fmt}", go_increase, drm=drm, fmt=fmt, shape=(20, 20), lr=(1,), rr=(2,),
                           nl=(2,), nr=(4,), update=True)
    for drm in ("TensorTrainDRM", "SparseSignDRM"):
        yield Scenario(f"unsupported/{drm}", go_unsupported, drm=drm, fmt="sparse:3", shape=(2, 3, 2),
                       lr=(1, 2), rr=(2, 3))
