#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept as code only to stay readable)."""
import json, os
T_IN = ["inputs", "configurations"]
P = []
def p(id, title, stmt, over, qt, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": stmt,
              "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": state or [], "observe_at": observe, "hook_needed": False}})
SMALL = "The tester samples a few sizes (mostly multiples of the tile size or one ragged size) with random data and a residual threshold; a wrong tile edge, flag or scalar branch at an unsampled size/parameter combination passes."

p("C01", "Matrix-matrix products compute alpha*op(A)*op(B)+beta*C exactly",
  "For every shape, side/uplo/trans/diag combination, tile size and leading dimension, gemm, symm, hemm, trmm and gbmm deliver the BLAS-defined result alpha*op(A)*op(B)+beta*C (or alpha*op(A)*B in place for trmm) for every value of alpha, beta and the data. Only the triangle named by uplo is used, a unit diagonal is not read, and with beta = 0 or an empty inner dimension C is scaled exactly as BLAS says.",
  T_IN, "all matrix entries, alpha and beta; all dimensions (including 0 and ragged last tiles), tile sizes, transposes, sides, triangles and leading dimensions", SMALL,
  ["compute/zgemm.c", "compute/pzgemm.c", "compute/pzsymm.c", "compute/pzhemm.c", "compute/pztrmm.c", "compute/zgbmm.c", "core_blas/core_zgemm.c", "core_blas/core_ztrmm.c"],
  [("tiled product kernels sequence", "compute/pzgemm.c, compute/pztrmm.c, compute/pzsymm.c, compute/pzhemm.c"), ("tile edge sizes", "include/plasma_descriptor.h: plasma_tile_mview/nview")],
  ["C (or B for trmm) after plasma_zgemm/zsymm/zhemm/ztrmm/zgbmm returns"])
p("C02", "Rank-k and rank-2k updates compute the exact symmetric/Hermitian update",
  "syrk, herk, syr2k and her2k deliver the BLAS-defined symmetric or Hermitian update in the triangle named by uplo and leave the other triangle untouched, for every shape, transposition, tile size and value of the scalars and data. Hermitian updates leave a real diagonal.",
  T_IN, "all entries and scalars; all n, k (including 0 and ragged tiles), uplo, trans, nb, lda/ldc", SMALL,
  ["compute/pzsyrk.c", "compute/pzherk.c", "compute/pzsyr2k.c", "compute/pzher2k.c", "core_blas/core_zherk.c"],
  [("tile loop over k with beta applied once", "compute/pzsyrk.c, compute/pzherk.c, compute/pzsyr2k.c, compute/pzher2k.c")],
  ["C after plasma_zsyrk/zherk/zsyr2k/zher2k returns"])
p("C03", "Triangular solve, inversion and product are exact inverses/products",
  "trsm returns X with op(A)*X = alpha*B (or X*op(A) = alpha*B), trtri returns the inverse of the triangular matrix and lauum returns U*U^H or L^H*L in place, for every side, uplo, trans, diag, shape and tile size and every nonsingular triangular A. The unreferenced triangle (and a unit diagonal) neither influences the result nor is changed; trtri reports the 1-based index of an exactly zero diagonal entry.",
  T_IN, "all entries with nonzero diagonal; all shapes, sides, triangles, transposes, diags, tile sizes", SMALL,
  ["compute/pztrsm.c", "compute/pztrtri.c", "compute/pzlauum.c", "core_blas/core_ztrsm.c", "core_blas/core_ztrtri.c", "core_blas/core_zlauum.c"],
  [("tiled substitution with lalpha applied once", "compute/pztrsm.c"), ("tiled inversion and info offset", "compute/pztrtri.c, core_blas/core_ztrtri.c")],
  ["B/A after plasma_ztrsm/ztrtri/zlauum returns; return code of plasma_ztrtri"])
p("C04", "Element-wise operations copy, set, scale, add and permute the right elements",
  "geadd, tradd, lacpy, laset, lascl and geswp change exactly the elements their uplo/trans/row-or-column arguments name, to exactly the values the operation defines (alpha*op(A)+beta*B, copy, constant with separate diagonal, cto/cfrom scaling, row or column interchanges in order), and nothing else, for every shape and tile size.",
  T_IN, "all entries and scalars; all shapes, uplo, trans, pivot lists, directions and tile sizes", SMALL,
  ["compute/pzgeadd.c", "compute/pztradd.c", "compute/pzlacpy.c", "compute/pzlaset.c", "compute/pzlascl.c", "compute/pzgeswp.c", "core_blas/core_zgeadd.c", "core_blas/core_ztradd.c", "core_blas/core_zlaset.c", "core_blas/core_zlascl.c", "core_blas/core_zgeswp.c"],
  [("tile loops with diagonal-tile special case", "compute/pztradd.c, compute/pzlaset.c, compute/pzlacpy.c"), ("row/column interchange over tiles", "core_blas/core_zgeswp.c")],
  ["output array after the plasma_z* routine returns"])
p("C05", "Norms equal their mathematical definition over the referenced elements",
  "lange, lanhe, lansy, lantr, langb and the column-wise amax return the max, one, infinity or Frobenius norm (or per-column maximum of |re|+|im|) of exactly the matrix their arguments describe, for every shape, uplo, diag, bandwidth and tile size. Elements outside the named triangle, unit diagonals, and imaginary parts of Hermitian diagonals never influence the value. (langb: the matrix is in PLASMA's band storage with zero fill-in space.)",
  T_IN, "all entries; all shapes, norms, uplo, diag, kl/ku and tile sizes", SMALL,
  ["compute/pzlange.c", "compute/pzlanhe.c", "compute/pzlansy.c", "compute/pzlantr.c", "compute/pzlangb.c", "compute/pdzamax.c", "core_blas/core_zlange.c", "core_blas/core_zlanhe.c", "core_blas/core_zlansy.c", "core_blas/core_zlantr.c", "core_blas/core_zgessq.c", "core_blas/core_zhessq.c", "core_blas/core_zsyssq.c", "core_blas/core_ztrssq.c", "core_blas/core_dzamax.c"],
  [("per-tile partial norms and reduction", "compute/pzlange.c, compute/pzlanhe.c, compute/pzlansy.c, compute/pzlantr.c, compute/pzlangb.c")],
  ["value returned by plasma_zlange/zlanhe/zlansy/zlantr/zlangb; values array of plasma_dzamax"])
p("C06", "Precision conversion converts every element once and nothing else",
  "lag2c and clag2z convert exactly the m-by-n elements of the source matrix to the other precision in the destination with each routine's own leading dimensions, for every shape and tile size, leave the source and the destination's padding unchanged.",
  T_IN, "all entries; all m, n, nb, lda, ldas", "The tester only samples a few shapes and one padding value, and several of its padded cases already fail.",
  ["compute/zlag2c.c", "compute/clag2z.c", "compute/pzlag2c.c", "compute/pclag2z.c", "core_blas/core_zlag2c.c", "core_blas/core_clag2z.c"],
  [("tile conversion loop", "compute/pzlag2c.c, compute/pclag2z.c")], ["As / A after plasma_zlag2c / plasma_clag2z returns"])
p("C07", "Layout translation is a lossless permutation for every storage kind",
  "Translating a general, triangular, general-band or symmetric-band LAPACK array to tiles and back reproduces every element the storage represents, puts every element (i,j) at the same place the tile accessors address, and leaves all other elements of the caller's array unchanged, for every shape, submatrix, bandwidth, uplo and tile size.",
  T_IN, "all entries; all m, n, kl, ku, uplo, mb, nb, lda", "Translation is only exercised implicitly through other routines' residuals, at a few sizes; band and triangular layouts are never compared element by element.",
  ["compute/pzge2desc.c", "compute/pzdesc2ge.c", "compute/pztr2desc.c", "compute/pzdesc2tr.c", "compute/pzgb2desc.c", "compute/pzpb2desc.c", "compute/pzdesc2pb.c", "compute/pzge2gb.c", "include/plasma_descriptor.h"],
  [("translation loops", "compute/pz*2desc.c, compute/pzdesc2*.c"), ("tile address computation", "include/plasma_descriptor.h")], ["tile storage after plasma_omp_z*2desc; LAPACK array after plasma_omp_zdesc2*"])
p("C08", "Descriptor geometry: tiles are in bounds, disjoint and cover the matrix",
  "For every accepted dimension, tile size, bandwidth and (for matrices in full storage) submatrix view, the tiles a descriptor addresses lie inside its allocation, never overlap, agree with their stated leading dimension and sizes, and together cover exactly the (sub)matrix described; the allocation size is exact and not truncated by integer overflow. A descriptor that violates its documented constraints is rejected by the descriptor checks.",
  T_IN, "all 32-bit dimensions, tile sizes, bandwidths, views (i,j,m,n) and tile indices", "Tests use a handful of sizes below 1000; overflow and odd edge views are out of their reach.",
  ["control/descriptor.c", "include/plasma_descriptor.h"],
  [("tile address formulas", "include/plasma_descriptor.h: plasma_tile_addr_*"), ("descriptor creation and checks", "control/descriptor.c")], ["descriptor fields, plasma_tile_addr/mmain/nmain/mview/nview results, return codes of plasma_desc_*"])
p("C09", "Cholesky factorization, solve and inverse are exact; failing minor is reported",
  "For every Hermitian positive definite matrix potrf returns the Cholesky factor in the named triangle, potrs/posv return the solution of A*X=B, and potri/poinv the inverse, for every size, uplo, tile size and number of right-hand sides. If a leading minor is not positive definite the routine returns the 1-based order of the first such minor and posv does not claim a solution; the other triangle is never touched.",
  T_IN, "all HPD matrices, all first-failing-minor positions, all n, nrhs, nb, uplo, lda, ldb", SMALL + " Only one zero column position per run is sampled for the failing-minor case.",
  ["compute/pzpotrf.c", "compute/zpotrf.c", "compute/zpotrs.c", "compute/zposv.c", "compute/zpotri.c", "compute/zpoinv.c", "core_blas/core_zpotrf.c"],
  [("tiled Cholesky", "compute/pzpotrf.c"), ("info reporting with tile offset", "core_blas/core_zpotrf.c")], ["A, B and return code of plasma_zpotrf/zpotrs/zposv/zpotri/zpoinv"])
p("C10", "Band Cholesky factorization and solve are exact within the band",
  "For every Hermitian positive definite band matrix pbtrf returns its Cholesky factor in band storage and pbtrs/pbsv return the solution of A*X=B, for every size, bandwidth (including 0 and wider than the tile), uplo, tile size and number of right-hand sides. A first non-positive-definite leading minor is reported by its 1-based order.",
  T_IN, "all HPD band matrices; all n, kd, uplo, nb, nrhs, ldab, ldb", SMALL,
  ["compute/pzpbtrf.c", "compute/zpbtrf.c", "compute/zpbtrs.c", "compute/zpbsv.c", "compute/pztbsm.c", "compute/pzpb2desc.c"],
  [("band tile loops limited to kut/klt", "compute/pzpbtrf.c, compute/pztbsm.c")], ["AB, B and return code of plasma_zpbtrf/zpbtrs/zpbsv"])
p("C11", "LU with partial pivoting: P*L*U = A, correct solve and inverse, maximal pivots",
  "getrf returns unit-lower L, upper U and interchanges ipiv with P*L*U = A where every pivot has the maximal magnitude in its column, getrs/gesv solve A*X=B (also with the transposes) and getri/geinv return the inverse, for every shape, tile size and panel configuration. An exactly zero pivot is reported by its 1-based index.",
  T_IN, "all matrices and pivot orders; all m, n, nrhs, nb, ib, trans; panel thread counts", SMALL + " Random matrices exercise a tiny part of the pivot orders.",
  ["compute/pzgetrf.c", "compute/zgetrf.c", "compute/zgetrs.c", "compute/zgesv.c", "compute/zgetri.c", "compute/zgeinv.c", "compute/pzgetri_aux.c", "core_blas/core_zgetrf.c", "core_blas/core_zgeswp.c"],
  [("parallel panel factorization", "core_blas/core_zgetrf.c"), ("tiled LU with row interchanges left and right", "compute/pzgetrf.c")], ["A, ipiv, B and return code of plasma_zgetrf/zgetrs/zgesv/zgetri/zgeinv"])
p("C12", "Band LU: factorization and solve are exact, fill-in stays inside the band",
  "gbtrf/gbtrs/gbsv factor a general band matrix with partial pivoting and return the solution of A*X=B, for every size, kl, ku (including 0 and wider than the tile), tile size, pivot order and number of right-hand sides, staying inside the band storage (for the zero-initialised fill rows that the band layout of the library has).",
  T_IN, "all band matrices and pivot orders; all n, kl, ku, nrhs, nb, ldab, ldb", SMALL,
  ["compute/pzgbtrf.c", "compute/zgbtrf.c", "compute/zgbtrs.c", "compute/zgbsv.c", "compute/zgbset.c", "compute/pztbsm.c", "compute/pzgb2desc.c"],
  [("band panel and update loops", "compute/pzgbtrf.c"), ("pivoted band solve", "compute/pztbsm.c")], ["AB, ipiv, B and return code of plasma_zgbtrf/zgbtrs/zgbsv"])
p("C13", "QR/LQ: Q*R = A with unitary Q; generating and applying Q agree",
  "geqrf and gelqf return factors with Q*R = A (L*Q = A) and unitary Q, and unmqr/unmlq apply exactly that Q (or its conjugate transpose, from either side) that ungqr/unglq generate, for every shape, tile size, inner block size, k and both the flat and the tree reduction.",
  T_IN, "all matrices; all m, n, k, side, trans, nb, ib, Householder mode", SMALL,
  ["compute/pzgeqrf.c", "compute/pzgelqf.c", "compute/pzungqr.c", "compute/pzunglq.c", "compute/pzunmqr.c", "compute/pzunmlq.c", "compute/pzgeqrf_tree.c", "compute/pzgelqf_tree.c", "compute/pzungqr_tree.c", "compute/pzunglq_tree.c", "compute/pzunmqr_tree.c", "compute/pzunmlq_tree.c", "core_blas/core_ztsqrt.c", "core_blas/core_ztsmqr.c", "core_blas/core_zttqrt.c", "core_blas/core_zttmqr.c", "core_blas/core_zgeqrt.c", "core_blas/core_zparfb.c", "core_blas/core_zpamm.c"],
  [("flat and tree Householder reductions", "compute/pzgeqrf*.c, compute/pzgelqf*.c"), ("application of Q", "compute/pzunmqr*.c, compute/pzunmlq*.c")], ["A, Q, C after plasma_zgeqrf/zgelqf/zungqr/zunglq/zunmqr/zunmlq"])
p("C14", "gels returns the least-squares / minimum-norm solution",
  "For every full-rank A, shape (tall, square or wide), tile size, Householder mode and number of right-hand sides, gels, geqrs and gelqs return in B the least-squares solution (m >= n) or the minimum-norm solution (m < n) of A*X = B.",
  T_IN, "all full-rank matrices and right-hand sides; all m, n, nrhs, nb, ib, mode", SMALL,
  ["compute/zgels.c", "compute/zgeqrs.c", "compute/zgelqs.c"],
  [("QR/LQ path selection and composition", "compute/zgels.c: plasma_omp_zgels")], ["B after plasma_zgels/zgeqrs/zgelqs"])
p("C15", "Aasen factorization and solve of Hermitian indefinite systems are exact",
  "hetrf/hetrs/hesv factor a Hermitian matrix as P*A*P^T = L*T*L^H with a band T and return the solution of A*X=B, for every size, tile size, pivot order and number of right-hand sides with a nonsingular A.",
  T_IN, "all Hermitian matrices and pivot orders; all n, nrhs, nb", SMALL,
  ["compute/pzhetrf_aasen.c", "compute/zhetrf.c", "compute/zhetrs.c", "compute/zhesv.c", "core_blas/core_zheswp.c"],
  [("Aasen panel recurrence", "compute/pzhetrf_aasen.c"), ("symmetric interchanges", "core_blas/core_zheswp.c")], ["A, ipiv, T, ipiv2, B and return code of plasma_zhetrf/zhetrs/zhesv"])
p("C16", "Mixed-precision solvers only return a solution that met the stopping test",
  "cgesv, cposv and cgbsv either return X from refinement with iteration count iter >= 0 and every right-hand side's residual within the documented threshold, or fall back to the full-precision solver and report iter < 0; the refinement never exceeds its iteration limit and B is never modified.",
  ["inputs", "configurations", "histories"], "every outcome of every convergence test and of every low-precision factorization; all n, nrhs, nb", "Well-conditioned random matrices always converge in two or three steps: fallback and mixed-convergence histories are never exercised.",
  ["compute/zcgesv.c", "compute/zcposv.c", "compute/zcgbsv.c"],
  [("convergence test over right-hand sides", "compute/zcgesv.c: conv()"), ("fallback path", "compute/zcgesv.c, compute/zcposv.c, compute/zcgbsv.c")], ["X, iter, return code of plasma_zcgesv/zcposv/zcgbsv"])
p("C17", "Task graphs are race-free: every legal schedule gives the sequential result",
  "In every tiled routine, any two tasks (or a task and the submitting thread) that touch a common memory location, at least one writing, are ordered by the declared dependences, task waits or barriers, so every schedule the OpenMP runtime may choose gives the result of the sequential order.",
  ["schedules", "configurations"], "all task schedules and worker counts; all shapes up to several tiles per dimension, all parameter combinations, all storage kinds", "Races need a particular interleaving; tests run one schedule per run and mostly pass anyway.",
  ["compute/pz*.c", "core_blas/core_z*.c (core_omp_* task wrappers)"],
  [("depend clauses on tiles", "core_blas/core_*.c: core_omp_*"), ("hand-written task depends", "compute/pzgetrf.c, compute/pzgbtrf.c, compute/pzhetrf_aasen.c, compute/pzgeswp.c")], ["read/write sets and dependence sets of each created task"])
p("C18", "Illegal arguments are reported as -i without effect; trivial sizes just return",
  "Whenever an argument of a public routine is illegal it returns -i for the position i of an illegal argument, for every combination of argument values, without touching any caller array; legal arguments are never rejected; and calls with nothing to compute return success leaving the arrays as the operation's definition demands. Calling any routine before initialization stops with the not-initialized fatal error before touching any data.",
  ["inputs"], "all 32-bit integer values of every dimension, leading dimension and option argument", "The tests only use legal arguments.",
  ["compute/z*.c", "compute/clag2z.c", "compute/dzamax.c"], [("argument check chains", "head of every plasma_z* function in compute/")], ["return value and caller arrays of every public plasma_z*/plasma_zc* routine"])
p("C19", "Allocation failure anywhere yields an error code, no crash and no lost memory",
  "If any single memory allocation inside a public call fails, the call returns the out-of-memory error without touching memory it must not touch, and releases everything it allocated.",
  ["fault_sequences"], "every choice of which allocations fail", "Tests never make an allocation fail.",
  ["compute/z*.c", "control/descriptor.c", "control/workspace.c", "control/context.c"], [("checked malloc and cleanup paths", "compute/z*.c after plasma_desc_*_create / plasma_workspace_create"), ("workspace creation", "control/workspace.c")], ["return code, allocation/free history of every public routine"])
p("C20", "A failed sequence stays failed and inert; the first error is what is reported",
  "Once a task in a sequence has failed, later operations submitted to it do not change any data, the sequence keeps the first error status, and the request that caused it carries the error; descriptors or arguments that are invalid in the asynchronous interface mark both request and sequence with the illegal-value error without touching data.",
  ["histories", "inputs"], "every asynchronous routine, every argument position made illegal, every previously failed status value", "Tests only run sequences that succeed.",
  ["control/async.c", "compute/z*.c (plasma_omp_*)", "compute/pz*.c", "core_blas/core_*.c"], [("sequence status tests", "compute/pz*.c heads, core_omp_* task bodies"), ("plasma_request_fail", "control/async.c")], ["sequence->status, request->status, tile data after plasma_omp_*"])
p("C21", "Calls never touch memory outside the referenced matrix elements",
  "No public call reads or writes outside the arrays it was given or allocated itself, changes any element of an input-only argument, the padding between the last row and the leading dimension, or the elements outside the referenced triangle or band; and no uninitialised memory influences a result.",
  T_IN, "all shapes, leading dimensions, options and pivot outcomes within the bounds", "Out-of-bounds accesses and padding writes are silent in the tests, which allocate generously and compare only the result block.",
  ["compute/z*.c", "compute/pz*.c", "core_blas/core_z*.c", "control/*.c"], [("array indexing at ragged tiles", "compute/pz*2desc.c, compute/pzdesc2*.c, core_blas/*")], ["every load and store executed by a public call"])
p("C22", "Configuration calls set exactly what they name and reject everything else",
  "plasma_set changes exactly the named parameter to exactly the given legal value and rejects every other parameter or value without effect, plasma_get returns what is set, init/finalize establish and remove the caller's context with the documented defaults, and option constants translate to the matching LAPACK characters.",
  ["inputs", "histories"], "all parameter and value integers; call histories of init/set/get/finalize; all option constants", "Tests set a few fixed values and never misuse the calls.",
  ["control/context.c", "control/constants.c", "control/tuning.c"], [("parameter switch", "control/context.c: plasma_set/plasma_get"), ("context map", "control/context.c: plasma_context_attach/detach/self")], ["return codes and values of plasma_set/plasma_get/plasma_init/plasma_finalize/plasma_*_const"])
p("C23", "Reduction trees annihilate every tile exactly once in a legal order",
  "For every tile count and thread count, each operation list the tree generator emits for tile QR/LQ triangularizes every tile row before it is used, annihilates every sub-diagonal tile exactly once against a live pivot row, and leaves exactly the upper tiles, so replaying it yields a triangular factor.",
  T_IN, "all tile row/column counts and thread counts within the bounds", "Tests use one tree per sampled size and thread count.",
  ["control/tree.c"], [("tree generation", "control/tree.c: plasma_tree_*")], ["operations array and count produced by plasma_tree_operations"])
p("C24", "The panel barrier separates phases under every interleaving",
  "No thread leaves the n-th use of a barrier before all participating threads have entered it, no thread waits forever once all have entered, and the barrier is immediately reusable, for every interleaving of the threads' memory operations.",
  ["schedules"], "all interleavings of the barrier's memory operations for 2..4 threads and several consecutive uses", "A wrong barrier fails only under rare interleavings.",
  ["control/barrier.c", "include/plasma_barrier.h"], [("sense/pass counter barrier", "control/barrier.c: plasma_barrier_wait")], ["entry/exit order of plasma_barrier_wait"])
p("C25", "Tridiagonal bisection returns exactly the requested eigenvalues",
  "The Sturm count equals the number of eigenvalues below the shift for every symmetric tridiagonal matrix, and the bisection eigenvalue search returns, for every requested index or value range, exactly the requested number of eigenvalues in order without losing or duplicating any.",
  ["inputs", "schedules"], "all tridiagonal matrices within the bounds, all ranges, shifts and thread splits", "All stevx2 tests fail in single precision and sample one spectrum otherwise.",
  ["compute/zlaneg2.c", "compute/zlaebz2.c", "compute/zstevx2.c"], [("Sturm sequence", "compute/zlaneg2.c"), ("parallel bisection over brackets", "compute/zlaebz2.c")], ["counts, eigenvalues and multiplicities returned by plasma_dlaneg2/dlaebz2/dstevx2"])
p("C26", "Bulge chasing runs deadlock-free and race-free for every thread count",
  "The statically scheduled band-to-bidiagonal reduction finishes for every matrix size, bandwidth and thread count, and executes its kernels in an order in which every pair touching a common element runs in the sequential order.",
  ["schedules", "configurations"], "all interleavings of the static schedule's progress table for the sizes and thread counts within the bounds", "The progress-table protocol fails only under rare interleavings or thread counts.",
  ["compute/pzgbbrd_static.c", "include/bulge.h", "core_blas/core_zgbtype1cb.c", "core_blas/core_zgbtype2cb.c", "core_blas/core_zgbtype3cb.c"], [("progress table waits", "compute/pzgbbrd_static.c")], ["kernel execution order and element access sets"])
p("C27", "gesdd returns singular values and vectors with A = U*S*V^H",
  "For every matrix and every legal option, gesdd returns nonnegative singular values in descending order and, when requested, unitary U and V with A = U*S*V^H.",
  T_IN, "all matrices; all m, n, jobs, nb", SMALL, ["compute/zgesdd.c", "compute/pzge2gb.c", "compute/pzgbbrd_static.c"],
  [("two-stage reduction and bdsdc", "compute/zgesdd.c")], ["S, U, VT of plasma_zgesdd"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
