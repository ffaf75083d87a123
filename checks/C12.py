"""C12: rank trimming and rank arguments."""
import numpy as np

from symtt.engine import Scenario

from . import lib

PROPERTY = "C12"
ASSUMPTIONS = []
NEEDS_BUILD = True
BOUNDS = {"quick": "1..5 bonds, mode sizes 1..4, ranks: every integer in 1..40 (symbolic); chains of up to 300 unit modes",
          "thorough": "1..6 bonds, mode sizes 1..5, ranks: every integer >= 1 (symbolic); chains of up to 600 unit modes"}


def closed(W, dims, ranks):
    """min over bonds j of r_j * product of the dims in between."""
    full = [1] + list(ranks) + [1]
    out = []
    for i in range(1, len(full) - 1):
        cand = []
        for j in range(len(full)):
            a, b = min(i, j), max(i, j)
            n = 1
            for x in dims[a:b]:
                n *= x
            cand.append(full[j] * n)
        out.append(cand)
    return out


def go_trim(W):
    p = W.p
    dims = p["dims"]
    U = W.load("tt_sketch.utils")
    r = tuple(W.int(f"r{k}", 1, p.get("hi")) for k in range(len(dims) - 1))
    out = U.trim_ranks(dims, r)
    W.true("one rank per bond", len(out) == len(dims) - 1)
    for k, cand in enumerate(closed(W, dims, r)):
        some = None
        for c in cand:
            W.true(f"trimmed rank {k} is at most every bound", out[k] <= c)
            e = out[k] == c
            some = e if some is None else some | e
        W.true(f"trimmed rank {k} is one of the bounds (largest admissible)", some)
    again = U.trim_ranks(dims, out)
    for a, b in zip(again, out):
        W.true("trimming is idempotent", a == b)


def go_chain(W):
    p = W.p
    dims = p["dims"]
    U = W.load("tt_sketch.utils")
    r = p["ranks"]
    from .C10 import closed_trim
    full = (1,) + tuple(r) + (1,)
    out = tuple(int(x) for x in U.trim_ranks(dims, r))
    # forward / backward sweep gives the closed form for long chains
    f = list(full)
    for i in range(len(dims)):
        f[i + 1] = min(f[i + 1], f[i] * dims[i])
    for i in range(len(dims) - 1, -1, -1):
        f[i] = min(f[i], f[i + 1] * dims[i])
    if len(dims) < 12:
        W.true("reference", tuple(f[1:-1]) == closed_trim(dims, r))
    W.true("trimmed ranks", out == tuple(f[1:-1]), f"{out[:5]}.. {f[1:6]}")


def go_process(W):
    """Integer and tuple ranks; wrong lengths are rejected."""
    p = W.p
    shape = p["shape"]
    d = len(shape)
    U = W.load("tt_sketch.utils")
    k = W.int("k", 1, 30)
    rs = tuple(W.int(f"r{i}", 1, 30) for i in range(d - 1))
    out = U.process_tt_rank(k, shape, trim=False)
    W.true("integer rank is repeated", isinstance(out, tuple) and len(out) == d - 1)
    for x in out:
        W.true("integer rank", x == k)
    for form in (tuple, list):
        out = U.process_tt_rank(form(rs), shape, trim=False)
        W.true("tuple rank", isinstance(out, tuple) and len(out) == d - 1)
        for x, y in zip(out, rs):
            W.true("tuple rank is kept", x == y)
    for trim in (True, False):
        W.raises("too few ranks", (ValueError,), lambda: U.process_tt_rank(rs[:-1], shape, trim=trim))
        W.raises("too many ranks", (ValueError,), lambda: U.process_tt_rank(rs + (k,), shape, trim=trim))
    a = U.process_tt_rank(k, shape, trim=True)
    b = U.trim_ranks(shape, (k,) * (d - 1))
    for x, y in zip(a, b):
        W.true("trim option trims", x == y)


def go_process_pick(W):
    p = W.p
    shape = p["shape"]
    U = W.load("tt_sketch.utils")
    d = len(shape)
    rs = tuple(W.int(f"r{i}", 1, 8) for i in range(d - 1))
    a = U.process_tt_rank(rs, shape, trim=True)
    for k, cand in enumerate(closed(W, shape, rs)):
        some = None
        for c in cand:
            W.true("trimmed", a[k] <= c)
            some = (a[k] == c) if some is None else some | (a[k] == c)
        W.true("largest", some)


def scenarios(tier):
    big = tier == "thorough"
    io = {"int_only": True, "max_paths": 20000}
    dims = [(2, 3), (1, 1), (4, 1, 2), (2, 2, 2), (3, 1, 3), (1, 4, 1), (2, 1, 1, 3), (2, 2, 2, 2), (1, 1, 1, 1),
            (3, 2, 1, 2), (1, 2, 1, 2, 1), (2, 2, 3, 2, 2)]
    if big:
        dims += [(5, 2, 3), (2, 1, 2, 1, 2), (2, 2, 2, 2, 2, 2), (1, 1, 3, 1, 1, 2)]
    for dm in dims:
        yield Scenario(f"trim/{dm}", go_trim, dict(io, weight=len(dm)), dims=dm, hi=None if big else 40)
    for n in (5, 60, 99, 101, 150, 250) + ((400, 600) if big else ()):
        yield Scenario(f"chain/up/{n}", go_chain, dims=(1,) * n, ranks=(7,) * (n - 1))
        yield Scenario(f"chain/low end/{n}", go_chain, dims=(1,) * (n - 1) + (9,), ranks=(4,) * (n - 1))
        yield Scenario(f"chain/decreasing/{n}", go_chain, dims=(1,) * n + (600,),
                       ranks=tuple(range(n + 3, 3, -1)))
        yield Scenario(f"chain/middle/{n}", go_chain, dims=(2,) * n,
                       ranks=tuple(1 if k == n // 2 else 10**9 for k in range(n - 1)))
        yield Scenario(f"chain/rising/{n}", go_chain, dims=(1,) + (2,) * n, ranks=tuple(10**40 for _ in range(n)))
    for sh in ((2, 3), (2, 2, 2), (3, 1, 2)):
        yield Scenario(f"process/{sh}", go_process, io, shape=sh)
        yield Scenario(f"process-trim/{sh}", go_process_pick, io, shape=sh)
