#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (edit here, run, commit)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def where(name, w):
    """file:line of the definitions the name mentions."""
    f = w.partition(":")[0]
    src = open(os.path.join("/repo", f)).read().splitlines()
    for word in re.findall(r"[A-Za-z_]+", name.replace(".", " "))[::-1]:
        for k, line in enumerate(src):
            if re.match(rf"\s*(cp?def|def|class)\b.*\b{word}\b\s*[(:\[]", line):
                return f"{f}:{k + 1}"
    return f


def prop(pid, title, statement, qtext, why, files, mech, over=("inputs", "configurations"), observe=()):
    assert len(title) <= 80, (pid, len(title))
    P.append(dict(id=pid, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               mechanism=[dict(name=n, where=where(n, w)) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


T = "tt_sketch/tensor.py"
S = "tt_sketch/sketch.py"
D = "tt_sketch/sketch_dispatch.py"
C = "tt_sketch/sketch_container.py"
U = "tt_sketch/utils.py"
G = "tt_sketch/tt_gmres.py"
DB = "tt_sketch/drm_base.py"
PYX = "tt_sketch/drm/fast_lazy_gaussian.pyx"
DR = ["tt_sketch/drm/tensor_train_drm.py", "tt_sketch/drm/dense_gaussian_drm.py",
      "tt_sketch/drm/sparse_gaussian_drm.py", "tt_sketch/drm/sparse_sign_drm.py"]
SM = ["tt_sketch/sketching_methods/" + f for f in
      ("dense_sketch.py", "sparse_sketch.py", "tensor_train_sketch.py", "cp_sketch.py",
       "tucker_sketch.py")]

prop("C01", "Streaming sketches are the defining contractions of the tensor",
     "For every tensor and every pair of random sketching maps, the components of a streaming sketch are exactly the contractions that define it: the small matrices are left map times unfolding times right map, the cores are left map times tensor with the current mode kept times right map. The sketch depends only on the array the tensor represents, not on the format it is stored in (dense, sparse, TT, CP, Tucker or a sum), and the two maps act only on the modes they are meant to sketch.",
     "all tensor entries and all entries of the random maps, for every format x map family, shape, sketch rank within the stated bounds, orders 2 to 5",
     "Tests only compare reconstruction errors for a few random tensors above the exact rank, where a wrong contraction of unneeded directions can still give a small error; formats are never compared on equal maps.",
     [S, D] + DR + SM,
     [("general_sketch / stream_sketch", S + ":161"), ("omega/psi methods per format", SM[0]),
      ("partial sketches per map family", DR[0])], observe=["stream_sketch(...).sketch_"])
prop("C02", "Sketches are linear and sums may be streamed in any order",
     "The sketch of a linear combination of tensors, in any mix of formats, is the same linear combination of their sketches. Adding tensors to an existing sketch one at a time, in any order and grouping, gives the same sketch as sketching the whole sum at once, and scaling, negating, subtracting or dividing a sketch acts on the represented tensor.",
     "all entries, all scalars, all orders and groupings of up to four summands of mixed formats",
     "Tests add one tensor of one kind and check an error tolerance; orders, groupings, mixed formats and scalars are not explored.",
     [S, D, C, T], [("SketchedTensorTrain.__add__", S + ":299"), ("SketchContainer arithmetic", C + ":61"),
                    ("sum_sketch", D + ":142")], over=("inputs", "histories"))
prop("C03", "Blocked sketches, slices and rank increases equal the one-shot sketch",
     "Computing a sketch block by block over rank ranges, taking any rank slice of a sketching map (drawn from a seed, given by its cores, transposed or itself a slice), or increasing the rank of an existing sketch gives the same numbers as computing the larger sketch in one go. The old part of a sketch is not changed by increasing its rank, and the result can still be streamed into.",
     "all entries; every partition of the ranks into up to three blocks per side, all slices and all rank increments within the bounds, every map family that supports it and every format",
     "Tests use one partition, one seed and only look at final reconstruction errors.",
     [S, D, DB] + DR, [("blocked_stream_sketch", S + ":500"), ("increase_rank", S + ":310"),
                       ("CanSlice.slice", DB + ":91")])
prop("C04", "Transposition commutes with every operation",
     "Reversing the mode order of a tensor, a sketch or a sketching map is an involution and commutes with densifying, scaling, summing, sketching and reconstructing. A right sketch of a tensor is the left sketch of its transpose with the mirrored map.",
     "all entries, all formats and map families, shapes and (non-palindromic) ranks within the bounds",
     "Tests use almost palindromic shapes/ranks and compare errors, which hides swapped or mirrored ranks.",
     [T, S, C, DB] + DR, [("Tensor.T per format", T + ":162"), ("SketchContainer.T", C + ":72"),
                          ("handle_transpose", DB + ":121")])
prop("C05", "Sketches of sufficiently large rank recover the tensor exactly",
     "If the sketch ranks are at least the TT ranks of the tensor and the sketched ranges have full rank, then the tensor train rebuilt from a streaming sketch equals the tensor exactly. In general the rebuilt tensor train equals the formula core times pseudo-inverse of the adjoining small matrix, from whichever side is chosen, and its ranks are the chosen sketch ranks.",
     "all entries of tensors of TT rank below the sketch rank and of the maps; every rank relation left<right and right<left within the bounds",
     "Tests check recovery for a few random tensors and two rank choices; other directions, ranks and degenerate shapes are not covered.",
     [S, U], [("assemble_sketched_tt", S + ":407"), ("left_mul_pinv/right_mul_pinv", U + ":106")])
prop("C06", "Orthogonal and HMT sketches project onto the sketched ranges",
     "The two-sided orthogonal sketch and the one-pass HMT sketch return tensor trains whose cores (but one) have orthonormal columns spanning the ranges of the sketched unfoldings, and they equal the (oblique or orthogonal) projection of the tensor on these ranges. Tensors with TT rank at most the sketch rank are recovered exactly.",
     "all entries of tensor and maps with generic rank, all formats and maps within the bounds, ranks up to 2 (3 for structured data)",
     "Tests only check the error of a handful of random low-rank inputs; projections of tensors that are not low rank are never compared with a definition.",
     [S, D], [("orth_step / OrthogTTDRM", D + ":160"), ("hmt_sketch / orthogonal_sketch", S + ":51")])
prop("C07", "Tensor arithmetic equals arithmetic on the represented arrays",
     "Adding, subtracting, negating, scaling and dividing tensors of any formats, adding to sums in place, and adding tensor trains core-wise gives exactly the tensor whose dense array is the same expression on dense arrays. Sums keep shape and number of summands consistent.",
     "all entries and scalars, all pairs of formats (including nested sums, MPOs and sketches), orders 1 to 4",
     "Tests sample a few pairs of formats with random data at one shape.",
     [T], [("Tensor operators", T + ":93"), ("TensorSum", T + ":612"), ("TensorTrain.add", T + ":520")])
prop("C08", "Inner products, norms and errors are those of the represented arrays",
     "The inner product, norm, and absolute, relative or root-mean-square error computed for any pair of formats equal the corresponding quantities of the dense arrays. The fast error of a tensor train and the generic error agree, and error options (relative, rmse, fast) combine as documented.",
     "all entries, all ordered pairs of formats, all option combinations, shapes within the bounds",
     "Tests compare a few pairs on random data; option combinations, zero tensors and mixed sums are not covered.",
     [T], [("Tensor.error", T + ":52"), ("dot methods", T + ":121"), ("TensorTrain.error", T + ":580")])
prop("C09", "Element access and sparse conversions agree with the dense tensor",
     "Gathering elements at any list of multi-indices returns the entries of the dense array, in the given order, for every format that supports it; negative indices count from the end or are refused. Converting between dense and sparse, splitting a sparse tensor into summands and listing entries by index lose, duplicate and move nothing.",
     "all entries, all index lists (symbolic coordinates) within the shape bounds, all numbers of summands",
     "Tests use random indices in one shape; duplicated, unsorted, boundary indices and uneven splits are not covered.",
     [T], [("gather methods", T + ":275"), ("SparseTensor.split", T + ":215"), ("DenseTensor.to_sparse", T + ":148")])
prop("C10", "TT orthogonalisation, rounding and singular values are correct",
     "Orthogonalising a tensor train keeps the tensor and makes all cores but the last left-orthogonal. Rounding returns ranks at most the requested ones, an error bounded by the discarded singular values of the unfoldings, and the unchanged tensor if nothing has to be discarded; the reported singular values are those of the unfoldings.",
     "all entries of tensor trains with small ranks (1 to 2, 3 for structured cores) and all ranks/eps requests in the bounds",
     "Tests check one error on random tensors; the optimality bound, the ranks, and boundary ranks are not decided.",
     [T, U], [("orthogonalize", T + ":559"), ("round", T + ":446"), ("svdvals", T + ":486")])
prop("C11", "TT-SVD is exact at full rank and quasi-optimal when truncated",
     "The TT-SVD of a tensor has ranks at most the requested and the maximal possible ranks, left-orthogonal cores, equals the tensor when no truncation takes place, and otherwise its squared error is at most the sum of the squared discarded singular values. The computed train is the projection of the tensor on the retained singular spaces.",
     "all entries, all requested ranks (including none and oversized ones), shapes within bounds",
     "Tests check one or two random tensors; error bounds and oversized or mixed ranks are not decided.",
     ["tt_sketch/tt_svd.py", U], [("tt_svd", "tt_sketch/tt_svd.py:10")])
prop("C12", "Rank arguments are trimmed to the largest feasible TT rank",
     "Trimming returns the largest TT rank below the requested one that is attainable for the shape, so no bond rank exceeds the product of the neighbouring rank and mode size; feasible ranks are not touched. Integer and tuple rank requests mean the same thing everywhere and mistakes in their number are refused.",
     "all shapes and requested ranks as symbolic integers (unbounded sizes), orders 2 to 7, plus long chains",
     "Tests try a handful of shapes, the statement quantifies over all integer shapes and ranks.",
     [U], [("trim_ranks", U + ":129"), ("process_tt_rank", U + ":161")])
prop("C13", "Hashed random maps give distinct indices independent randomness",
     "In the lazily evaluated Gaussian map, distinct tensor indices (within sizes a 64-bit linear index can hold) and distinct columns feed distinct values to the mixing function, so no two rows or columns of the implicit random matrix are equal by construction, and the same entry under two different seeds is mixed from different values. This holds for arbitrary shapes, including dimensions whose product exceeds 32 bits.",
     "all pairs of distinct multi-indices (64-bit symbolic) in listed shapes up to 2^60 elements; all columns",
     "Tests inspect statistics of small index sets; collisions for large indices cannot be sampled.",
     [PYX], [("hash_int_c / inds_to_normal index flattening", PYX)], over=("inputs",))
prop("C14", "Lazily evaluated Gaussian entries are finite and purely index-determined",
     "Every entry of the lazily evaluated Gaussian matrix is a finite number for every seed and index. It depends only on seed, index and column, so computing other rows, other columns, in another order or in another batch gives the same entries, and inputs are not modified.",
     "all 64-bit hash values, all seeds and indices within the shape bounds, all column ranges",
     "An infinite entry occurs once in 2^53 draws, so no sample finds it; tests use few seeds.",
     [PYX] + DR[2:3], [("_inds_to_rand_double", PYX), ("inds_to_normal", PYX + ":187")], over=("inputs",))
prop("C15", "Sparse sign maps are well formed and access memory in range",
     "Each row of the sparse sign map has exactly the requested number of nonzeros, each plus or minus one, in distinct columns. Computing it never reads or writes outside its arrays and it is a function of seed and index only.",
     "all hash values, seeds and indices (bit-precise, including floating point rounding), ranks and nonzeros within bounds",
     "The out-of-range access needs a hash value next to 2^64, which sampling does not reach.",
     [PYX] + DR[3:4], [("inds_to_sparse_sign", PYX + ":160")], over=("inputs",))
prop("C16", "Seeded sketches and tensors are reproducible, and sides are independent",
     "With the same seed, sketching and random tensor generation give the same numbers in every process, on machines with any number of processors and under any scheduling of worker threads. Left and right maps of one sketch are derived from different random streams, and different seeds give different streams.",
     "all thread schedules, all CPU counts, all interpreter hash salts (modelled as distinct processes), all seeds in listed ranges; every map family",
     "Tests run in one process on one machine.",
     [S, U] + DR, [("_right_seed", S + ":44"), ("MultithreadedRNG", U + ":184")],
     over=("inputs", "schedules", "configurations"))
prop("C17", "TT linear maps act like the matrices they represent",
     "Applying a matrix-product operator, a sum of operators, or a mode-wise preconditioner to a tensor train equals applying the dense operator to the dense tensor; identity, scaling, transposition, conversion and summing of operators correspond to the same matrix operations. The preconditioner's forward and backward application are inverse to each other.",
     "all entries, orders 1 to 4, non-square modes, ranks up to 3",
     "Tests cover one square operator and check errors.",
     [G], [("MPO", G + ":41"), ("TTPrecond", G + ":137"), ("TTLinearMapSum", G + ":171")])
prop("C18", "GMRES returns the iterate it reports and stops when it should",
     "The TT GMRES solver returns a tensor train whose residual is the one in its reported history when rounding is exact, residual norms do not increase, and it stops at the first iteration satisfying the tolerance, at the iteration limit, or when the initial value already solves the system. Initial values and preconditioners change only the path, not the meaning of the result.",
     "all entries of operators, right-hand sides and initial values of small size, up to two to three iterations, all option combinations",
     "Tests check final residuals of one random problem.",
     [G], [("tt_sum_gmres", G + ":310")], over=("inputs", "configurations"))
prop("C19", "Operations do not modify their operands",
     "No arithmetic operation, conversion, sketch, transposition, rounding, inner product, operator application or solver modifies the tensors, sketches, maps and index arrays it is given; results of operations can be modified without changing the operands' values where they are documented as new tensors. Operations that are documented as in place change only their target.",
     "all entries, every public operation and format, argument orders",
     "Tests hardly ever look at operands after an operation.",
     [T, S, C, G], [("all operations", T)], over=("inputs", "histories"))
prop("C20", "Rounding a sum of tensor trains respects its ranks with every method",
     "Rounding a sum of tensor trains (with or without a tolerance, by any of the documented methods) gives a tensor train whose ranks do not exceed the requested ones and which equals the sum exactly if the sum has rank at most the requested one. An unknown method is refused.",
     "all entries of sums of up to three trains of small ranks, every method name",
     "Tests exercise each method on one random sum with an error tolerance.",
     [G], [("round_tt_sum", G + ":260")])
prop("C21", "Shapes, ranks and sizes reported by tensors are those of their data",
     "Every tensor and sketch reports the shape of the array it represents, the ranks of its cores, its number of dimensions and the number of stored entries. This stays true after every operation, and objects with different formats of the same data agree on the shape.",
     "all shapes and ranks within bounds, every format, every operation",
     "Tests assert shape for some formats only.",
     [T, S, G], [("size/shape/rank attributes", T)])
prop("C22", "Utility tensors and matricisations have their documented values",
     "Matricising and dematricising are mutually inverse rearrangements of entries for every mode (and set of modes), projectors are idempotent with the right range, and the Hilbert, square-root and power-decay tensors have the documented entries, shapes and reproducibility.",
     "all entries, modes, shapes within bounds",
     "Tests do not cover these functions beyond indirect use.",
     [U], [("matricize/dematricize", U + ":62"), ("hilbert/sqrt/power tensors", U + ":19"), ("projector", U + ":120")])
prop("C23", "Malformed requests are refused instead of giving a wrong answer",
     "Sketching with rank tuples of the wrong length, with ranks that cannot be reconstructed from, with sketching maps of another shape or rank, or with unsupported map and tensor combinations; increasing the rank of (or sketching in blocks with) a map that cannot do so or to ranks that cannot be reconstructed from; adding or multiplying tensors of different shapes; gathering entries outside a tensor or with indices of another number of modes; and applying linear maps to tensors of another shape all raise an error naming the problem (ValueError, IndexError for entries outside a tensor, AttributeError for unsupported combinations) instead of returning a tensor. Accepted requests never end in an unrelated exception.",
     "all combinations of map families, formats, rank relations and shapes within bounds, symbolic ranks",
     "Tests check single instances of these errors.",
     [S, D, U, T], [("argument validation", S + ":161")], over=("inputs", "configurations"))
prop("C24", "Random tensor constructors give well-formed tensors",
     "Randomly generated tensors have the requested shape, ranks and number of entries; sparse ones have distinct in-range coordinates; orthogonal trains are left-orthogonal and Tucker factors have orthonormal rows; entries are independent and the norm options give them the documented variances; and the same seed gives the same tensor while different seeds give independent ones.",
     "all values the random source can return, shapes and ranks within bounds, all options",
     "Tests use one seed per constructor.",
     [T, G, U], [("random constructors", T + ":181")])
prop("C25", "The table of capabilities is true",
     "A family of random maps can sketch dense, sparse or tensor-train tensors, be cut into blocks, or have its rank increased exactly when the table of capabilities (get_drm_capabilities) says so: advertised uses give the sketch defined by the map's own matrices, all others are refused with a ValueError or AttributeError. The table has one row per family and one yes or no per capability.",
     "all families, capabilities and entries; shapes and ranks within bounds",
     "No test compares the table with what the maps do.",
     [S, DB] + DR, [("get_drm_capabilities", S + ":497")], over=("inputs", "configurations"))
prop("C26", "An interrupted series of experiments resumes where it stopped",
     "The experiment log of the scripts runs every combination of parameters once, keeps every finished result, and after being saved and loaded again still recognises the combinations it has already run.",
     "all histories of runs, saves and reloads, all parameter values",
     "The scripts have no tests.",
     ["scripts/experiment_base.py"], [("Experiment", "scripts/experiment_base.py:14")], over=("histories",))

NA = {"C26": "whether a combination is recognised after a reload is decided by pandas (column types inferred when a CSV file is "
             "read, comparison of mixed columns): third-party code of a size that cannot be encoded; with a stand-in for it the "
             "solver would judge the stand-in"}

BASE = ("The real Python source is executed on symbolic entries (numpy re-implemented over Z3 terms) "
        "and every goal is discharged by Z3 or by exact linear algebra over products of facts, for all "
        "values within the bounds listed in the evidence; QR/SVD/pinv/random numbers are their "
        "contracts; exact reals (no rounding). Counterexamples are replayed on the real build, and "
        "every scenario is validated on it. Trusts Z3, the numpy model, the contracts.")
BITS = ("The Cython source is parsed with Cython's own parser and executed bit-precisely (64-bit vectors, "
        "IEEE doubles) on symbolic seeds and indices; Z3 decides for all values within the bounds; "
        "the interpreter is validated against the compiled extension. Trusts Z3, the C semantics "
        "encoded, and the contract of scipy's ndtri (finite inside (0,1)).")
TECH = "symbolic execution of the Python source with Z3 (nonlinear real/integer arithmetic)"
TECHB = "bit-precise symbolic execution of the Cython source with Z3 (bit-vectors, IEEE floats)"


def main():
    have = {f[:3] for f in os.listdir(V + "/checks") if f[0] == "C"}
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        if i in have:
            bit = i in ("C13", "C14", "C15")
            checks.append(dict(property=i,
                               quick_cmd=f"/opt/venv/bin/python run.py {i} --tier quick",
                               thorough_cmd=f"/opt/venv/bin/python run.py {i} --tier thorough",
                               evidence_file=f"evidence/{i}.json",
                               technique=TECHB if bit else TECH, level="model_checking",
                               level_note=BITS if bit else BASE))
        else:
            na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup_check.py", checks=checks,
             not_applicable=na,
             notes="No hooks in /repo: checks load /repo's source directly. See DESIGN.md.")
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
