"""Harness building blocks shared by the checks (work in both worlds)."""
import itertools

import numpy as np

L = "abcdefghijkl"


# ---------------------------------------------------------------- references

def ref_tt(cores):
    """Dense tensor of TT cores, written independently of the library."""
    d = len(cores)
    rk = "ABCDEFGHIJKLM"
    res = cores[0][0]                     # (n0, r1)
    for C in cores[1:]:
        res = np.tensordot(res, C, axes=([res.ndim - 1], [0]))
    return res[..., 0]


def ref_cp(factors):
    r = factors[0].shape[1]
    out = None
    for k in range(r):
        t = factors[0][:, k]
        for F in factors[1:]:
            t = np.multiply.outer(t, F[:, k])
        out = t if out is None else out + t
    return out


def ref_tucker(core, factors):
    res = core
    for U in factors:                      # contract leading axis, append mode
        res = np.tensordot(res, U, axes=([0], [0]))
    return res


def ref_sparse(W, shape, inds, entries):
    X = W.zeros(shape)
    for k in range(len(entries)):
        ix = tuple(int(i[k]) for i in inds)
        X[ix] = X[ix] + entries[k]
    return X


def transpose_all(X):
    return np.transpose(X, tuple(range(X.ndim))[::-1])


def sumsq(X):
    X = np.asarray(X)
    return np.sum(X * X) if X.size else 0


# ---------------------------------------------------------------- generators

def full_indices(shape):
    return tuple(np.array(t, dtype=np.int64)
                 for t in zip(*itertools.product(*[range(n) for n in shape])))


def some_indices(shape, nnz, seed=0):
    """nnz distinct multi-indices in scrambled order."""
    allidx = list(itertools.product(*[range(n) for n in shape]))
    rng = np.random.RandomState(seed + 5)
    perm = rng.permutation(len(allidx))[:nnz]
    if nnz == 0:
        return tuple(np.zeros(0, dtype=np.int64) for _ in shape)
    return tuple(np.array(t, dtype=np.int64) for t in zip(*[allidx[p] for p in perm]))


def ranks(r, d):
    return (r,) * (d - 1) if isinstance(r, int) else tuple(r)


def arr(W, name, shape, const=False):
    return W.const_array(name, shape) if const else W.array(name, shape)


def tt_cores(W, name, shape, rank, const=False):
    d = len(shape)
    rr = (1,) + ranks(rank, d) + (1,)
    return [arr(W, f"{name}.c{k}", (rr[k], shape[k], rr[k + 1]), const) for k in range(d)]


def make(W, fmt, name, shape, rank=2, const=False, seed=0):
    """-> (tensor of the library, dense reference)."""
    T = W.load("tt_sketch.tensor")
    d = len(shape)
    if fmt == "dense":
        X = arr(W, name, shape, const)
        return T.DenseTensor(X.copy()), X
    if fmt == "tt":
        c = tt_cores(W, name, shape, rank, const)
        return T.TensorTrain([x.copy() for x in c]), ref_tt(c)
    if fmt == "cp":
        r = rank if isinstance(rank, int) else rank[0]
        c = [arr(W, f"{name}.f{k}", (shape[k], r), const) for k in range(d)]
        return T.CPTensor([x.copy() for x in c]), ref_cp(c)
    if fmt == "tucker":
        rr = (rank,) * d if isinstance(rank, int) else tuple(rank)
        core = arr(W, name + ".core", rr, const)
        c = [arr(W, f"{name}.u{k}", (rr[k], shape[k]), const) for k in range(d)]
        return T.TuckerTensor([x.copy() for x in c], core.copy()), ref_tucker(core, c)
    if "~" in fmt:
        # rep~a+b: a + b + a with the very same a;  nest~a+b: (a + b) + a as a sum of a sum
        how, _, rest = fmt.partition("~")
        made = [make(W, f, f"{name}.{k}", shape, rank, const, seed + k) for k, f in enumerate(rest.split("+"))]
        ts, X = [t for t, _ in made], sum((x for _, x in made[1:]), made[0][1])
        if how == "rep":
            return T.TensorSum(ts + [ts[0]]), X + made[0][1]
        return T.TensorSum([T.TensorSum(ts), ts[0]]), X + made[0][1]
    if "+" in fmt:
        parts = fmt.split("+")
        ts, X = [], None
        for k, f in enumerate(parts):
            t, x = make(W, f, f"{name}.{k}", shape, rank, const, seed + k)
            ts.append(t)
            X = x if X is None else X + x
        return T.TensorSum(ts), X
    if fmt.startswith("sparse"):
        # sparse:<nnz>
        nnz = min(int(fmt.partition(":")[2] or 3), int(np.prod(shape)))
        inds = some_indices(shape, nnz, seed)
        e = arr(W, name + ".e", (nnz,), const)
        return (T.SparseTensor(tuple(shape), tuple(i.copy() for i in inds), e.copy()),
                ref_sparse(W, shape, inds, e))
    raise KeyError(fmt)


FORMATS = ("dense", "tt", "cp", "tucker", "sparse")

DRM_FORMATS = {
    "TensorTrainDRM": ("dense", "tt", "cp", "tucker", "sparse"),
    "DenseGaussianDRM": ("dense", "tt", "sparse"),
    "SparseGaussianDRM": ("sparse",),
    "SparseSignDRM": ("sparse",),
}


def changes(W, fmt, t, shape, rank=2, name="N"):
    """Change t in place in the ways its class offers; yields (label, dense reference) after each."""
    d = len(shape)
    if "+" in fmt:
        X = sum((x.to_numpy() for x in t.tensors[1:]), t.tensors[0].to_numpy())
        for f in ("tt", "cp+dense"):
            u, Y = make(W, f, f"{name}.{f}", shape, 1)
            t += u
            X = X + Y
            yield f"after += {f}", X
        return
    if fmt == "tt":
        cores = list(t.cores)
        for k in range(d):
            cores[k] = arr(W, f"{name}{k}", cores[k].shape)
            t[k] = cores[k].copy()
            yield f"after setting core {k}", ref_tt(cores)
        if d > 1:
            for k in range(d):       # a train of another rank
                a, n, b = cores[k].shape
                cores[k] = arr(W, f"{name}r{k}", (a if k == 0 else 1, n, b if k == d - 1 else 1))
                t[k] = cores[k].copy()
            yield "after setting cores of another rank", ref_tt(cores)
    elif fmt == "cp":
        cores = list(t.cores)
        for k in range(d):
            cores[k] = arr(W, f"{name}{k}", cores[k].shape)
            t[k] = cores[k].copy()
            yield f"after setting factor {k}", ref_cp(cores)
        for k in range(d):
            cores[k] = arr(W, f"{name}r{k}", (cores[k].shape[0], 1))
            t[k] = cores[k].copy()
        yield "after setting factors of another rank", ref_cp(cores)
    elif fmt == "dense":
        t.data[...] = t.data * 3
        yield "after changing the array", np.array(t.data)
    elif fmt == "tucker":
        t.core[...] = t.core * 3
        yield "after changing the core", ref_tucker(t.core, t.factors)


CHANGED = ("tt", "cp", "dense", "tucker", "tt+cp")


def again(W, look, fmt, shape, rank=2):
    """look(label, tensor, dense reference) before and after every change in place."""
    t, X = make(W, fmt, "X", shape, rank)
    look("fresh", t, X)
    for label, Y in changes(W, fmt, t, shape, rank):
        look(label, t, Y)


def drm_cls(W, name):
    return getattr(W.load("tt_sketch.drm"), name)


def nondrm(rank):
    return rank


def drm_matrices(W, drm, shape, check=None):
    """The matrices the DRM applies, via a sparse tensor holding every index.

    Returns list over mu of arrays: left  -> (rank[mu], n_0..n_mu)
                                    right -> (rank[mu], n_{mu+1}..n_{d-1})
    """
    T = W.load("tt_sketch.tensor")
    d = len(shape)
    inds = full_indices(shape)
    n = len(inds[0])
    ones = W.zeros((n,))
    for i in range(n):
        ones[i] = ones[i] + 1
    sp = T.SparseTensor(tuple(shape), inds, ones)
    mats = list(drm.sketch_sparse(sp))
    out = []
    for mu in range(d - 1):
        M = np.asarray(mats[mu]).reshape((-1,) + tuple(shape))
        if drm.transpose:
            sel = M[(slice(None),) + (0,) * (mu + 1)]
            full = np.broadcast_to(
                sel.reshape((M.shape[0],) + (1,) * (mu + 1) + tuple(shape[mu + 1:])), M.shape)
        else:
            sel = M[(slice(None),) + (slice(None),) * (mu + 1) + (0,) * (d - 1 - mu)]
            full = np.broadcast_to(
                sel.reshape(sel.shape + (1,) * (d - 1 - mu)), M.shape)
        if check is not None:
            W.eq(f"{check}: DRM entry depends only on the sketched modes (mu={mu})", M, full)
        out.append(sel)
    return out


def ref_omega(X, Lm, Rm, mu):
    d = X.ndim
    r, s = Lm[mu].shape[0], Rm[mu].shape[0]
    nl = int(np.prod(X.shape[:mu + 1]))
    return Lm[mu].reshape(r, nl) @ X.reshape(nl, -1) @ Rm[mu].reshape(s, -1).T


def ref_psi(W, X, Lm, Rm, mu):
    d = X.ndim
    n = X.shape[mu]
    nl = int(np.prod(X.shape[:mu]))
    X3 = X.reshape(nl, n, -1)
    left = Lm[mu - 1].reshape(-1, nl) if mu > 0 else W.eye(1)
    right = Rm[mu].reshape(Rm[mu].shape[0], -1) if mu < d - 1 else W.eye(1)
    res = np.tensordot(left, X3, axes=([1], [0]))
    return np.tensordot(res, right, axes=([2], [1]))


def check_sketch(W, label, sk, X, Lm, Rm):
    """sk: object with Psi_cores / Omega_mats."""
    d = X.ndim
    W.true(label + ": number of components",
           len(sk.Psi_cores) == d and len(sk.Omega_mats) == d - 1)
    for mu in range(d - 1):
        W.eq(f"{label}: Omega[{mu}]", sk.Omega_mats[mu], ref_omega(X, Lm, Rm, mu))
    for mu in range(d):
        W.eq(f"{label}: Psi[{mu}]", sk.Psi_cores[mu], ref_psi(W, X, Lm, Rm, mu))


def make_drms(W, drm, shape, lrank, rrank, seed=11, **kw):
    cls = drm_cls(W, drm)
    left = cls(lrank, transpose=False, shape=tuple(shape), seed=seed, **kw)
    right = cls(rrank, transpose=True, shape=tuple(shape), seed=seed + 1000, **kw)
    return left, right


def nnz_kw(drm, nnz):
    return {"num_non_zero_per_row": nnz} if drm == "SparseSignDRM" and nnz else {}


# ------------------------------------------------------------ shared lemmas

def gram_identity(W, shapes):
    """For all cores G:  |TT(G)|^2 = sum over the left Gram sweep (identity)."""
    G = [W.free("G", s) for s in shapes]
    S = W.eye(1)
    for C in G:
        tmp = np.tensordot(S, C, axes=([0], [0]))
        S = np.tensordot(C, tmp, axes=([0, 1], [0, 1])).T
    W.eq("Gram sweep identity", S[0, 0], sumsq(ref_tt(G)))


def orth_norm_lemma(W, cores, X):
    """Left-orthonormal cores representing X: |last core|^2 = |X|^2."""
    def prove():
        for k, C in enumerate(cores[:-1]):
            M = C.reshape(-1, C.shape[2])
            W.lemma(f"orthonormal core {k}", M.T @ M, W.eye(M.shape[1]))
        W.eq("same tensor", ref_tt(cores), X)
        gram_identity(W, [C.shape for C in cores])
        # Gram sweep of orthonormal cores is the identity up to the last core
        W.derive("norm of the last core", sumsq(cores[-1]), sumsq(X))
    return W.attempt(prove)
