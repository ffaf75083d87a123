"""C17: TT linear maps act like the matrices they represent."""
import itertools

import numpy as np

from symtt.engine import Scenario
from . import lib

PROPERTY = "C17"
BOUNDS = {
    "quick": "operators of order 1-4, non-square modes of size 1-3, operator ranks <=3, TT ranks <=2; all entries "
             "and scalars symbolic; preconditioners on every mode with a symbolic matrix of size 1-2 (3 for rational data); larger cases: order 7, modes up to 33, ranks up to 34, 16 summands",
    "thorough": "larger modes, orders up to 5",
}
ASSUMPTIONS = []
LIMIT = {"quick": 120, "thorough": 500}


def mpo_cores(W, name, ins, outs, rank, const=False):
    d = len(ins)
    rr = (1,) + lib.ranks(rank, d) + (1,)
    return [lib.arr(W, f"{name}.c{k}", (rr[k], ins[k], outs[k], rr[k + 1]), const) for k in range(d)]


def ref_mpo(cores):
    """Dense operator, axes (in0, out0, in1, out1, ...)."""
    res = cores[0][0]
    for C in cores[1:]:
        res = np.tensordot(res, C, axes=([res.ndim - 1], [0]))
    return res[..., 0]


def ref_apply(M, X):
    """sum over all input modes."""
    d = X.ndim
    return np.tensordot(M, X, axes=(list(range(0, 2 * d, 2)), list(range(d))))


def swap_io(M):
    perm = []
    for k in range(0, M.ndim, 2):
        perm += [k + 1, k]
    return np.transpose(M, perm)


def go_mpo(W):
    p = W.p
    ins, outs, d = p["ins"], p["outs"], len(p["ins"])
    T, G = W.load("tt_sketch.tensor"), W.load("tt_sketch.tt_gmres")
    c = mpo_cores(W, "A", ins, outs, p["rank"])
    M = ref_mpo(c)
    A = G.MPO([x.copy() for x in c])
    x, X = lib.make(W, "tt", "x", ins, p["r"])
    Y = ref_apply(M, X)
    y = A(x)
    W.true("result is a TensorTrain", isinstance(y, T.TensorTrain))
    W.true("result has the output shape", tuple(y.shape) == tuple(outs))
    W.eq("A(x)", y.to_numpy(), Y)
    W.true("in_shape", tuple(A.in_shape) == tuple(ins))
    W.true("out_shape", tuple(A.out_shape) == tuple(outs))
    W.true("shape", tuple(A.shape) == tuple(a * b for a, b in zip(ins, outs)))
    W.true("rank", tuple(A.rank) == tuple(C.shape[0] for C in c[1:]))
    W.true("size", int(A.size) == sum(C.size for C in c))
    W.eq("to_numpy", A.to_numpy(), M)
    # transposition of a linear map
    B = A.T
    W.true("T: shapes", tuple(B.in_shape) == tuple(outs) and tuple(B.out_shape) == tuple(ins))
    W.eq("T: dense", B.to_numpy(), swap_io(M))
    W.eq("T: involution", B.T.to_numpy(), M)
    z, Z = lib.make(W, "tt", "z", outs, 1)
    W.eq("T: action", B(z).to_numpy(), ref_apply(swap_io(M), Z))
    W.eq("T: adjoint", B(z).dot(x), z.dot(y))
    # operator as a tensor train
    t = A.to_tt()
    W.true("to_tt: shape", tuple(t.shape) == tuple(A.shape))
    W.eq("to_tt", t.to_numpy(), M.reshape(A.shape))
    # scaling
    s = W.real("s")
    W.eq("A*s", (A * s).to_numpy(), M * s)
    W.eq("s*A", (s * A)(x).to_numpy(), Y * s)
    W.eq("-A", (-A)(x).to_numpy(), -Y)
    two = W.num(2)
    W.eq("A/2", (A / two)(x).to_numpy() * two, Y)
    W.eq("operator unchanged", A.to_numpy(), M)
    W.eq("argument unchanged", x.to_numpy(), X)
    # linearity in the argument
    u, U = lib.make(W, "tt", "u", ins, 1)
    W.eq("A(x+u)", A(x.add(u)).to_numpy(), ref_apply(M, X + U))
    W.eq("A(s x)", A(x * s).to_numpy(), Y * s)


def go_compose(W):
    p = W.p
    G = W.load("tt_sketch.tt_gmres")
    c1 = mpo_cores(W, "A", p["ins"], p["mid"], 2)
    c2 = mpo_cores(W, "B", p["mid"], p["outs"], 2)
    A, B = G.MPO([x.copy() for x in c1]), G.MPO([x.copy() for x in c2])
    x, X = lib.make(W, "tt", "x", p["ins"], 1)
    W.eq("B(A(x))", B(A(x)).to_numpy(), ref_apply(ref_mpo(c2), ref_apply(ref_mpo(c1), X)))


def go_eye(W):
    shape = W.p["shape"]
    G = W.load("tt_sketch.tt_gmres")
    E = G.MPO.eye(shape)
    W.true("eye: shapes", tuple(E.in_shape) == tuple(shape) == tuple(E.out_shape))
    x, X = lib.make(W, "tt", "x", shape, 2)
    W.eq("eye(x)", E(x).to_numpy(), X)
    W.eq("eye.T(x)", E.T(x).to_numpy(), X)
    n = int(np.prod(shape))
    d = len(shape)
    M = np.transpose(E.to_numpy(), list(range(0, 2 * d, 2)) + list(range(1, 2 * d, 2))).reshape(n, n)
    W.eq("eye: dense", M, W.eye(n))
    s = W.real("s")
    W.eq("s*eye", (E * s)(x).to_numpy(), X * s)


def go_sum(W):
    p = W.p
    ins, outs = p["ins"], p["outs"]
    T, G = W.load("tt_sketch.tensor"), W.load("tt_sketch.tt_gmres")
    cs = [mpo_cores(W, f"A{k}", ins, outs, r) for k, r in enumerate(p["ranks"])]
    ops = [G.MPO([x.copy() for x in c]) for c in cs]
    A = G.TTLinearMapSum(list(ops))
    W.true("shapes", tuple(A.in_shape) == tuple(ins) and tuple(A.out_shape) == tuple(outs))
    M = ref_mpo(cs[0])
    for c in cs[1:]:
        M = M + ref_mpo(c)
    x, X = lib.make(W, "tt", "x", ins, 2)
    y = A(x)
    W.true("sum of trains", isinstance(y, T.TensorSum) and all(isinstance(t, T.TensorTrain) for t in y.tensors))
    W.true("shape", tuple(y.shape) == tuple(outs))
    W.eq("A(x)", y.to_numpy(), ref_apply(M, X))
    x2, X2 = lib.make(W, "tt", "x2", ins, 1)
    x3, X3 = lib.make(W, "tt", "x3", ins, 1)
    ysum = A(T.TensorSum([x, x2, x3]))
    W.eq("A(x + x2 + x3)", ysum.to_numpy(), ref_apply(M, X + X2 + X3))
    W.true("number of summands", ysum.num_summands == 3 * len(ops))
    W.eq("A of a sum with one term", A(T.TensorSum([x2])).to_numpy(), ref_apply(M, X2))
    W.eq("A(x + x2 + x), the same x", A(T.TensorSum([x, x2, x])).to_numpy(), ref_apply(M, X * 2 + X2))
    twice = G.TTLinearMapSum([ops[0]] + list(ops))
    W.eq("a map that occurs twice", twice(x).to_numpy(), ref_apply(M, X) + ref_apply(ref_mpo(cs[0]), X))
    W.true("its shapes", tuple(twice.in_shape) == tuple(ins) and tuple(twice.out_shape) == tuple(outs))
    W.eq("operand unchanged", x.to_numpy(), X)
    W.raises("empty list", ValueError, lambda: G.TTLinearMapSum([]))
    bad_in = tuple(n + 1 for n in ins)
    bad_out = outs[:-1] + (outs[-1] + 1,)
    W.raises("in_shape mismatch", ValueError,
             lambda: G.TTLinearMapSum(ops + [G.MPO(mpo_cores(W, "b", bad_in, outs, 1))]))
    W.raises("out_shape mismatch", ValueError,
             lambda: G.TTLinearMapSum(ops + [G.MPO(mpo_cores(W, "c", ins, bad_out, 1))]))
    W.raises("mismatch in the last", ValueError,
             lambda: G.TTLinearMapSum([ops[0], ops[-1], G.MPO(mpo_cores(W, "d", bad_in, bad_out, 1))]))


def ref_mode(A, X, mode):
    return np.moveaxis(np.tensordot(A, X, axes=([1], [mode])), 0, mode)


def go_precond(W):
    p = W.p
    shape, mode = p["shape"], p["mode"]
    G = W.load("tt_sketch.tt_gmres")
    n = shape[mode]
    A = W.const_array("A", (n, n)) if p["const"] else W.array("A", (n, n))
    if p["const"]:
        for i in range(n):
            A[i, i] = A[i, i] + 9          # regular
    P = G.TTPrecond(A.copy(), shape, mode=mode)
    W.true("shapes", tuple(P.in_shape) == tuple(shape) == tuple(P.out_shape))
    x, X = lib.make(W, "tt", "x", shape, p["r"])
    f = P.forward_call(x)
    W.true("forward: shape", tuple(f.shape) == tuple(shape))
    W.eq("forward = A on the mode", f.to_numpy(), ref_mode(A, X, mode))
    b = P.backward_call(x)
    W.eq("A * backward = x", ref_mode(A, b.to_numpy(), mode), X)
    W.eq("forward(backward(x)) = x", P.forward_call(b).to_numpy(), X)
    W.eq("call is backward", P(x).to_numpy(), b.to_numpy())
    if p["inverse"]:
        W.eq("backward(forward(x)) = x", P.backward_call(f).to_numpy(), X)
    W.eq("operand unchanged", x.to_numpy(), X)
    W.eq("matrix unchanged", P.A, A)


def scenarios(tier):
    big = tier == "thorough"
    cases = [((2,), (3,), 1, 1), ((2, 3), (3, 2), 2, 2), ((2, 2), (2, 2), 3, 2), ((2, 1, 2), (1, 2, 2), 2, 2),
             ((2, 3, 2), (2, 1, 3), (2, 1), (1, 2)), ((1, 2, 1, 2), (2, 1, 2, 1), 2, 1), ((3, 2), (1, 2), 2, 1)]
    cases += [((2, 1, 2, 1, 2), (1, 2, 1, 2, 1), 2, 2), ((4, 2), (2, 5), 4, 3)]
    # square modes, with and without bonds of size one
    cases += [((2,), (2,), 1, 1), ((3,), (3,), 1, 2), ((2, 2), (2, 2), 1, 1), ((2, 3), (2, 3), 1, 2), ((2, 2, 2), (2, 2, 2), 1, 1),
              ((2, 2, 2), (2, 2, 2), (1, 2), 1), ((2, 2, 2), (2, 2, 2), (2, 1), (1, 2)), ((1, 1), (1, 1), 2, 2)]
    if big:
        cases += [((1, 2, 1, 2, 1, 2), (2, 1, 2, 1, 1, 2), 2, 1), ((2, 2, 2, 2), (2, 1, 2, 2), 2, 2), ((3, 3), (3, 3), 3, 2), ((4, 2), (2, 4), 2, 3),
                  ((2, 3, 2), (3, 2, 2), 3, 2)]
    for i, o, r, s in cases:
        yield Scenario(f"mpo/{i}->{o}/{r}/{s}", go_mpo, ins=i, outs=o, rank=r, r=s)
    for i, m, o in (((2, 2), (3, 1), (2, 2)), ((2,), (3,), (1,)), ((1, 2, 2), (2, 1, 2), (2, 2, 1))):
        yield Scenario(f"compose/{i}->{m}->{o}", go_compose, ins=i, mid=m, outs=o)
    for sh in ((1,), (3,), (2, 3), (2, 1, 3), (2, 2, 2, 2)):
        yield Scenario(f"eye/{sh}", go_eye, shape=sh)
    for i, o, rs in (((2, 3), (3, 2), (1,)), ((2, 2), (2, 2), (1, 2)), ((2, 1, 2), (1, 2, 2), (2, 1, 1)), ((3,), (2,), (1, 1))):
        yield Scenario(f"sum/{i}->{o}/{rs}", go_sum, ins=i, outs=o, ranks=rs)
    for sh in ((2,), (2, 3), (3, 2), (2, 1, 2), (1, 2, 2, 1)) + (((2, 2, 2), (3, 3), (2, 3, 2)) if big else ()):
        for mode in range(len(sh)):
            n = sh[mode]
            for r in (1, 2):
                yield Scenario(f"precond/{sh}/{mode}/{r}", go_precond, {"limit": 60}, shape=sh, mode=mode, r=r, const=False, inverse=True)
    # sizes beyond what block sizes and thresholds would hide behind
    for i, o, r, s in (((2, 2), (2, 2), 34, 1), ((2, 2), (2, 2), 1, 34), ((9, 8), (9, 8), 1, 1), ((2,) * 7, (2, 1, 2, 1, 2, 1, 2), 1, 1), ((33, 2), (3, 2), 1, 1)):
        yield Scenario(f"large/mpo/{i}->{o}/{r}/{s}", go_mpo, ins=i, outs=o, rank=r, r=s)
    for rs in ((1,) * 12, (1, 2) * 8):
        yield Scenario(f"large/sum/{len(rs)}", go_sum, ins=(2, 2), outs=(2, 2), ranks=rs)
