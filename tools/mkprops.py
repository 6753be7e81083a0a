#!/usr/bin/env python3
"""writes /verif/properties.jsonl (kept as a script so the wording lives in one place)"""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

prop("C01", "Field arithmetic is exact and canonical for every odd prime",
 "For every odd prime up to 4294967291 and all canonical operands, addition, subtraction, multiplication, fused multiply-add, reduction of any 64-bit integer and inversion of a nonzero element return the one representative in [-(p-1)/2, (p-1)/2] congruent to the exact integer result. No intermediate computation overflows or loses precision.",
 ["inputs", "configurations"], "all odd primes p <= 4294967291, all canonical operands (about 2^96 triples for the multiply-add), all 64-bit integers to be reduced",
 "The suite runs a few hundred operations for three or four primes; the floating-point quotient estimate is only wrong, if it is, for rare operand triples near multiples of p for large p.",
 ["src/spasm_ZZp.c", "src/spasm.h"],
 [("floating-point quotient + one conditional correction", "src/spasm_ZZp.c:spasm_ZZp_mul, spasm_ZZp_axpy, NORMALISE"), ("extended Euclid", "src/spasm_ZZp.c:gcdext")],
 [("field", "prime, bounds of the balanced range, floating-point inverse", "src/spasm.h:struct spasm_field_struct")], ["return values of the spasm_ZZp_* functions"])
prop("C02", "Compressing a triplet matrix yields the exact entrywise sums",
 "Converting a list of (row, column, value) entries to row-compressed form yields a well-formed matrix of the same dimensions whose entry at each position is the sum modulo p of all values listed at that position, in which no position occurs twice in a row and no stored value is zero. Pattern-only lists give the set of listed positions.",
 ["inputs"], "every list of entries with in-range indices (any order, any number of duplicates, sums that cancel), every dimension, valued or pattern-only",
 "The tests compress a few dozen fixed matrices, none of which contains duplicates that cancel in the middle of a row.",
 ["src/spasm_triplet.c"], [("counting sort by row, in-place deduplication, in-place zero removal", "src/spasm_triplet.c:spasm_compress, deduplicate, remove_explicit_zeroes"), ("entry insertion", "src/spasm_triplet.c:spasm_add_entry")],
 [("row pointers / column indices / values", "compressed rows", "src/spasm.h:struct spasm_csr")], ["the returned matrix"])
prop("C03", "Transposition exchanges rows and columns and loses nothing",
 "The transpose of any row-compressed matrix is a well-formed matrix with exchanged dimensions that contains exactly one entry (j, i, v) for each entry (i, j, v) of the input, and the input is unchanged. Within each row of the transpose the column indices come in the order in which the input rows were scanned.",
 ["inputs"], "every well-formed matrix (any dimensions including zero, empty rows, repeated positions), with or without values",
 "Tests transpose a dozen fixed matrices and compare printed output; they do not cover all shapes, repeated entries or empty rows.",
 ["src/spasm_transpose.c"], [("count, prefix sum, dispatch", "src/spasm_transpose.c:spasm_transpose")], [("write cursors", "next free slot of each output row", "src/spasm_transpose.c:w")], ["the returned matrix"])
prop("C04", "Permutation operations move every element to its place",
 "Applying a permutation or its inverse to a vector, inverting a permutation, permuting the rows and columns of a matrix, permuting a range of an array in place and drawing a random permutation do exactly what their mathematical definitions say for all permutations and sizes. In particular inversion followed by application is the identity and a drawn permutation is a bijection.",
 ["inputs"], "all sizes, all permutations (and the identity shorthand), all matrices",
 "Tests use one or two permutations of small fixed size.",
 ["src/spasm_permutation.c"], [("index mapping loops", "src/spasm_permutation.c:spasm_pvec, spasm_ipvec, spasm_pinv, spasm_permute, spasm_random_permutation, spasm_range_pvec")], [], ["output vectors and matrices"])
prop("C05", "Submatrix extraction returns exactly the requested block",
 "Extracting rows r0..r1-1 and columns c0..c1-1 of a matrix returns a well-formed matrix of the block's dimensions that contains exactly the entries of the input lying in the block, shifted, in the same order; the input is unchanged.",
 ["inputs"], "every well-formed matrix, every pair of valid row and column intervals (including empty ones), with or without values",
 "Tests extract a couple of blocks from fixed matrices.",
 ["src/spasm_submatrix.c"], [("filtering copy", "src/spasm_submatrix.c:spasm_submatrix")], [], ["the returned matrix"])
prop("C06", "Sparse row accumulation and matrix-vector products are exact",
 "Adding a multiple of a sparse row to a dense vector, computing y + xA and computing y + Ax give, in every coordinate, the canonical representative of the exact result modulo p; coordinates not touched by an entry and all other data keep their value.",
 ["inputs", "configurations"], "every well-formed valued matrix, every canonical vectors, every odd prime, any number of entries per row",
 "Tests check small matrices with one prime; a lost or duplicated contribution for particular shapes goes unnoticed.",
 ["src/spasm_scatter.c", "src/spasm_spmv.c"], [("accumulation loops", "src/spasm_scatter.c:spasm_scatter; src/spasm_spmv.c:spasm_xApy, spasm_Axpy")], [], ["output vector"])
prop("C07", "Dense triangular solvers solve the system or report that none exists",
 "For every permuted triangular matrix with nonzero pivots, the backward solver returns x with xL = b, and the forward solver returns x with xU = b and true whenever the right-hand side lies in the row space, and false otherwise. The accumulated remainder is exactly b - xU in every case.",
 ["inputs"], "all permuted triangular matrices, all right-hand sides, all odd primes",
 "Tests solve a few fixed systems.",
 ["src/spasm_triangular.c"], [("column-by-column elimination", "src/spasm_triangular.c:spasm_dense_back_solve, spasm_dense_forward_solve")], [], ["solution vector and returned flag"])
prop("C08", "Sparse reachability and sparse triangular solve are exact",
 "For any row B[k] and any set of pivots, the reachability search returns each column reachable from that row exactly once and leaves its workspace reusable; the sparse solver built on it returns x such that the pivotal part of x times U plus the non-pivotal part of x equals B[k] modulo p. No index leaves its array.",
 ["inputs", "histories"], "all matrices with unit pivots in an order compatible with elimination, all rows, all sequences of calls reusing one workspace",
 "Tests call the solver on a few fixed matrices; the depth-first order and workspace reuse are only sampled.",
 ["src/spasm_reach.c", "src/spasm_triangular.c"], [("iterative depth-first search, mark reset", "src/spasm_reach.c:spasm_dfs, spasm_reach"), ("elimination in reach order", "src/spasm_triangular.c:spasm_sparse_triangular_solve")],
 [("xj / pstack / marks", "output stack, recursion stack, visited flags", "src/spasm_reach.c")], ["pattern, values, workspace after the call"])
prop("C09", "Linear system solving from a factorization returns true solutions",
 "Given a factorization of A, solving xA = b returns true exactly when b is in the row space of A and then xA = b holds; solving for a matrix of right-hand sides does the same for every row independently and flags exactly the solvable rows.",
 ["inputs"], "all matrices with a complete factorization, all right-hand sides (consistent or not), all odd primes",
 "Tests solve a handful of systems from fixed files.",
 ["src/spasm_solve.c"], [("forward then backward substitution", "src/spasm_solve.c:spasm_solve, spasm_gesv")], [], ["solution, flag"])
prop("C10", "The Schur complement is the exact remainder modulo the pivotal rows",
 "For each selected row of A, the sparse and dense Schur complement routines produce a row supported on non-pivotal columns that differs from the row of A by a combination of the pivotal rows; the recorded elimination coefficients and original row numbers are those of that very combination. The randomised variant returns combinations of such rows.",
 ["inputs", "schedules"], "all matrices, all sets of unit pivots in elimination order, all row selections, all datatypes",
 "Tests check one product identity on fixed matrices and never the growth path with several rows recorded.",
 ["src/spasm_schur.c"], [("row elimination and commit", "src/spasm_schur.c:spasm_schur, spasm_schur_dense, spasm_schur_dense_randomized")], [], ["S, L, p_out"])
prop("C11", "Selected structural pivots form a triangular set",
 "The structural pivot search returns pairwise distinct rows and columns holding nonzero entries that can be ordered so that the selected submatrix is triangular with the pivots on the diagonal; the returned row order is a permutation with pivotal rows first in such an order. The pivotal rows are copied to U with unit pivots first, up to scaling, and recorded in L.",
 ["inputs", "configurations"], "all valued matrices without stored zeros and repeated positions, greedy search on or off",
 "Tests check a few fixed matrices.",
 ["src/spasm_pivots.c"], [("pivot registration, breadth-first cycle check, topological order", "src/spasm_pivots.c:register_pivot, spasm_find_FL_pivots, spasm_find_FL_column_pivots, spasm_find_cycle_free_pivots, spasm_pivots_reorder, spasm_pivots_extract_structural")], [], ["p, U, qinv"])
prop("C12", "Echelonization finds the exact rank and row space for all option settings",
 "For every matrix and every combination of options that permits completion, echelonization returns unit-pivot rows in triangular order whose number is the rank of the matrix and which span its row space.",
 ["inputs", "configurations"], "all matrices and odd primes; all on/off combinations of pivot search, dense, low-rank and sparse finishing, block sizes, round limits and thresholds",
 "Tests use default options or one flag at a time on a few matrices; mixed strategies after several elimination rounds are never compared with an independent rank.",
 ["src/spasm_echelonize.c", "src/spasm_pivots.c", "src/spasm_schur.c", "src/spasm_ffpack.cpp"], [("rounds of structural pivots and Schur complements, then a finishing strategy", "src/spasm_echelonize.c:spasm_echelonize, echelonize_GPLU, echelonize_dense, echelonize_dense_lowrank")], [], ["U, qinv, r"])
prop("C13", "Kernel bases are complete and annihilated by the matrix",
 "Both kernel routines return m - rank linearly independent rows, each of which is orthogonal to every row of the echelonized matrix modulo p, with canonical values.",
 ["inputs"], "all echelonized matrices (any rank from 0 to full), all odd primes up to the limit",
 "Tests check products on a few small fixed matrices with one small prime.",
 ["src/spasm_kernel.c"], [("sparse solves on the transpose", "src/spasm_kernel.c:spasm_kernel"), ("column read-out of the reduced form", "src/spasm_kernel.c:spasm_kernel_from_rref")], [], ["K"])
prop("C14", "The reduced echelon form is reduced and spans the same rows",
 "The reduced row echelon form computed from a factorization has the same number of rows and the same row space, each row starts with a unit pivot, and no other row has an entry in a pivotal column; the returned pivot locations are those of the result.",
 ["inputs"], "all echelonized matrices, all odd primes",
 "Tests check fixed matrices.",
 ["src/spasm_rref.c"], [("sparse solves against the other rows", "src/spasm_rref.c:spasm_rref")], [], ["R, Rqinv"])
prop("C15", "Rank certificates are checked exactly and survive a save/load round trip",
 "The verifier accepts a certificate exactly when the hash and prime match, all indices are in range and both committed linear-algebra identities hold for the challenge derived from the hash; a certificate created from a complete factorization is accepted. Saving then loading a certificate returns an equal one, and the checking tool reports the verifier's verdict.",
 ["inputs", "histories"], "all matrices, certificates (honest, corrupted, out of range), all ranks",
 "Tests verify honest certificates of a few matrices and never load a saved one.",
 ["src/spasm_certificate.c", "tools/check_cert.c"], [("challenge, two matrix-vector checks", "src/spasm_certificate.c:spasm_certificate_rank_verify, spasm_certificate_rank_create"), ("text format", "src/spasm_certificate.c:spasm_rank_certificate_save, spasm_rank_certificate_load")], [], ["verdict, file contents, exit status"])
prop("C16", "LU factorizations reproduce the matrix",
 "When L is requested, the factorization satisfies A = LU on the pivotal rows, and on all rows when a complete factorization is requested, with L permuted lower-triangular on the pivotal rows with nonzero pivots; the randomised verification routine accepts it and computes exactly the comparison of xA with xLU on the pivotal rows.",
 ["inputs", "configurations"], "all matrices, all option combinations with L, complete or not",
 "Tests verify a few fixed matrices with default options.",
 ["src/spasm_echelonize.c", "src/spasm_schur.c", "src/spasm_pivots.c", "src/spasm_certificate.c"], [("L entries recorded at each elimination step", "src/spasm_echelonize.c:echelonize_GPLU, update_fact_after_LU"), ("probabilistic check", "src/spasm_certificate.c:spasm_factorization_verify")], [], ["L, U, p, qinv"])
prop("C17", "Maximum matching is a matching of maximum size",
 "The matching routine returns mutually inverse row and column maps along nonzero positions, whose size is returned and is the largest possible; the routines that permute or restrict a matching return the corresponding matching.",
 ["inputs"], "all sparsity patterns, all permutations and index intervals",
 "Tests check a few fixed patterns.",
 ["src/spasm_matching.c"], [("augmenting paths", "src/spasm_matching.c:spasm_maximum_matching"), ("index maps", "src/spasm_matching.c:spasm_permute_row_matching, spasm_permute_column_matching, spasm_submatching")], [], ["jmatch, imatch, returned size"])
prop("C18", "Block triangular decompositions are valid",
 "The strongly connected component and Dulmage-Mendelsohn routines return row and column permutations and block boundaries such that no entry lies below the block diagonal, blocks are exactly the components (respectively the coarse parts are as defined), and boundaries partition the rows and columns.",
 ["inputs"], "all square patterns (components), all patterns (coarse and fine decomposition)",
 "Tests check fixed patterns.",
 ["src/spasm_scc.c", "src/spasm_dm.c"], [("Tarjan's algorithm, iterative", "src/spasm_scc.c"), ("reachability from unmatched rows and columns", "src/spasm_dm.c")], [], ["p, q, r, c, nb, rr, cc"])
prop("C19", "The digest of a byte stream is SHA-256",
 "Hashing any sequence of bytes fed in any division into chunks returns the FIPS 180-4 SHA-256 digest of their concatenation.",
 ["inputs", "histories"], "all messages below 2^61 bytes, all ways to split them into updates, all values of the compression function's inputs",
 "Tests check three messages.",
 ["src/sha256.c"], [("compression function, buffering, padding", "src/sha256.c:sha256_block_data_order, spasm_SHA256_update, spasm_SHA256_final")], [], ["digest"])
prop("C20", "The pseudo-random generator yields canonical, reproducible field elements",
 "The generator's output is a function of seed, prime and sequence number only: 32-bit words are the successive words of the digests of the counter blocks, and field elements are obtained by masking and rejection so that each is canonical. Two generators with equal parameters yield equal sequences.",
 ["inputs", "histories"], "all seeds, odd primes, sequence numbers and numbers of calls",
 "Tests print some numbers for one seed.",
 ["src/spasm_prng.c"], [("hash of a counter block; rejection sampling", "src/spasm_prng.c")], [], ["returned words and field elements"])
prop("C21", "Writing then reading a matrix returns the same matrix",
 "Saving a matrix and loading it with the same prime returns a matrix with the same dimensions and entries; loading either supported text format yields the listed entries reduced modulo p and the hash of the bytes read, and malformed files are rejected with an error exit.",
 ["inputs"], "all matrices in triplet or row form, both formats, any prime",
 "Tests load a few well-formed files.",
 ["src/spasm_io.c"], [("line parser and writers", "src/spasm_io.c:spasm_triplet_load, spasm_triplet_save, spasm_csr_save")], [], ["loaded matrix, file text"])
prop("C22", "Matrix containers keep their invariants through every operation",
 "Allocating, growing, trimming, resizing, inserting into, transposing in place and freeing matrix containers never accesses memory out of bounds, never loses entries, and keeps capacity, dimensions and entry count consistent; growing keeps all existing entries.",
 ["inputs", "histories"], "all sequences of container operations, all sizes (including empty)",
 "Tests exercise a few sequences, without memory checking.",
 ["src/spasm_util.c", "src/spasm_triplet.c"], [("allocation wrappers, realloc, resize, insertion", "src/spasm_util.c:spasm_csr_alloc, spasm_csr_realloc, spasm_csr_resize, spasm_triplet_realloc; src/spasm_triplet.c:spasm_add_entry, spasm_triplet_transpose")], [], ["containers after each call"])
prop("C23", "Results do not depend on the thread schedule",
 "Every parallel routine returns, up to the order of the rows or entries it is documented to leave unspecified, the same result for every number of threads and every interleaving, and has no data race.",
 ["schedules"], "all thread counts and interleavings of the parallel regions",
 "Tests run whatever schedule the machine happens to produce.",
 ["src/spasm_schur.c", "src/spasm_kernel.c", "src/spasm_rref.c", "src/spasm_pivots.c", "src/spasm_solve.c"], [("critical sections and atomics around shared counters and buffers", "src/spasm_schur.c, src/spasm_kernel.c, src/spasm_rref.c, src/spasm_pivots.c, src/spasm_solve.c")], [], ["results across runs"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p) + "\n")
