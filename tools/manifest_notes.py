"""Technique and level notes per property (used by gen_manifest.py)."""
_BASE = ("symbolic execution of the LLVM IR of the current tree (public routine down to the core kernels, task graph run in submission order); "
         "matrix entries and scalars are symbols over the exact reals/complexes; z3 decides output = definition and frame for all values; native replay of counterexamples")
_TR = " Trusts the CBLAS/LAPACKE, libomp and libc models of engine/ (a sample of cases is executed natively and compared with the engine in each run). Rounding is outside."
TECH = {
 "C01": _BASE, "C02": _BASE, "C03": _BASE, "C04": _BASE,
 "C05": "symbolic execution of the norm routines; the comparisons of a witness matrix become a path condition and z3 decides value = definition over the region; all elements outside the referenced set are separate symbols the result must not depend on",
 "C06": _BASE,
 "C07": _BASE + " (layout translations; band arrays included)",
 "C08": "descriptor creation, checks and the tile address functions executed on symbolic 32-bit arguments; z3 bit-vector queries for acceptance, overflow, bounds, disjointness and coverage",
 "C09": _BASE + "; A = L*L^H with symbolic L, failing minors at every position",
 "C10": _BASE + "; A = L*L^H with symbolic band L, failing minors at every position",
 "C11": _BASE + "; A = P^T*L*U with symbolic L and U, concolic pivot comparisons, z3 shows the chosen pivots are maximal in the region",
 "C12": _BASE + "; A = P^T*L*U with symbolic band factors, concolic pivot comparisons",
 "C13": _BASE + "; reflectors parametrised so that tau and beta stay polynomial; z3 decides Q*R = A, Q^H*Q = I and generate = apply",
 "C14": _BASE + "; A = Q*R parametrised by symbolic reflectors, right-hand side = A*x + residual orthogonal to the range",
 "C15": "three stages, each a symbolic execution decided by z3: hetrf on A = P^T*L*T*L^H*P with symbolic L and T, hetrs on symbolic L, T and X, hesv on exact rational A (singular leading blocks, zero and permuted blocks) with symbolic X",
 "C16": "symbolic execution of the refinement drivers over tile algorithms replaced by their meaning; norms are symbolic reals or NaN, every outcome of each stopping test is a branch; z3 decides the contract at each return",
 "C17": "symbolic execution records every task's byte-level access set and the declared dependences; z3 decides, with one symbolic start position per task segment, whether two conflicting accesses can be unordered in any legal schedule",
 "C18": "all integer and enum arguments are symbolic 32-bit values; the argument checks are executed path by path and z3 decides that the return code names an illegal argument, iff there is one",
 "C19": "the index of the failing allocation is a symbolic variable; every path of the call is executed in the memory model (bounds, lifetime, leak), z3 decides feasibility and the error code",
 "C20": "the earlier status is a symbolic nonzero word and the failure point a symbolic task index; symbolic execution with a write-tracking memory, z3 decides status and frame",
 "C21": "symbolic execution with a symbolic leading dimension for each array: z3 decides for every access whether it can leave the referenced elements; uninitialised bytes are poison symbols",
 "C22": "symbolic execution of the configuration interface with symbolic parameter, value and histories; z3 decides the state after every sequence of calls",
 "C23": "symbolic execution of the tree generators with a symbolic thread count; z3 decides per emitted operation that it is legal, and coverage at the end",
 "C24": "the barrier's IR becomes a transition system (one shared access per step); z3 bounded model checking over a symbolic scheduler, under SC and TSO store buffers",
 "C25": "symbolic execution of the Sturm count (real arithmetic: z3 compares with the inertia of the leading minors) and of the bisection search (count function symbolic and monotone); z3 decides number, order and bracketing of the results",
 "C26": "symbolic execution of every thread of the bulge-chasing region; z3 places the accesses to the progress table in every order (reads-from is a solver choice) and decides deadlock and conflicting-access order; replay forces the schedule on the native library",
}
_N = {
 "C01": "Dimensions up to 5, tile sizes 2, 3, precisions z and d.",
 "C02": "Dimensions up to 5, tile sizes 2, 3, precisions z and d.",
 "C03": "Dimensions up to 5, tile sizes 2, 3, precisions z and d.",
 "C04": "Dimensions up to 5, tile sizes 2, 3, precisions z and d; incx = +-1.",
 "C05": "Dimensions up to 5, tile sizes 2, 3; several comparison regions per case; overflow, NaN and Inf outside (except NaN in amax, C16).",
 "C06": "Dimensions up to 6, tile sizes 2, 3; the conversion of one number is exact in this arithmetic.",
 "C07": "Dimensions up to 6, bandwidths up to 3, tile sizes 2..4.",
 "C08": "Acceptance over all 32-bit values; geometry for symbolic sizes up to 5 (7) tiles a side; large squares up to 300000 (4194304).",
 "C09": "Orders up to 8, tile sizes 1..8, up to 7 right-hand sides.",
 "C10": "Orders up to 9, all bandwidths, tile sizes 1..8.",
 "C11": "Up to 9 rows, 1..4 panel threads (round robin at synchronisation points), no ties between pivot candidates.",
 "C12": "Orders up to 9, kl, ku up to 5, 1 or 3 panel threads; fill rows zero on entry.",
 "C13": "Up to 10 x 8, tile sizes up to 4; all reflectors symbolic up to 4 x 4, two symbolic beyond.",
 "C14": "Up to 10 x 7, tile sizes up to 4; reflectors as for C13.",
 "C15": "hetrf orders up to 5 (8), hetrs up to 5 (7), hesv up to 10 (13) for six kinds of matrices and every right-hand side; tile sizes 1..4; lower triangle only (upper is refused by the library).",
 "C16": "All 30 refinement steps, 1..5 right-hand sides; norms are exact reals or NaN.",
 "C17": "Up to 8 x 8 tiles; task graphs for the sampled outcomes of value comparisons; gesdd outside (see C26); sequence status flags exempt.",
 "C18": "All 32-bit values (bandwidths <= 2^29); gesdd and band matrices rejected by their descriptor have exceptions listed in the evidence.",
 "C19": "One failing allocation at any index (alone or all later ones too), 2 x 2 tiles; gesdd outside.",
 "C20": "2 x 3 (4 x 4) tiles, failure before any task; gesdd and stevx2 outside.",
 "C21": "Leading dimensions up to 2^20, up to 3 (4) tiles a side; gesdd and stevx2 outside.",
 "C22": "All values; histories up to 3 calls.",
 "C23": "Up to 13 tile rows and columns, threads up to 2^20.",
 "C24": "Up to 4 threads, 4/2/1 uses for 2/3/4 threads, SC and x86-TSO.",
 "C25": "Orders up to the listed ones; Sturm counts in exact arithmetic, the search in machine arithmetic with a monotone count.",
 "C26": "min(m,n) up to 17, nb 2..8, 1..6 threads; sequentially consistent progress table.",
}
NOTE = {k: v + _TR for k, v in _N.items()}
NA = {}
