"""Which functions are under contract for which property; the texts used in the evidence files."""
from dv import bv
def P(title, functions, explanation, level="proof", **k): return dict(title=title, functions=functions, explanation=explanation, level=level, **k)
PROPS = {
"C01": P("field arithmetic", ["spasm_field_init", "spasm_ZZp_add", "spasm_ZZp_sub", "spasm_ZZp_init", "spasm_ZZp_mul", "spasm_ZZp_axpy", "spasm_ZZp_inverse"],
   "every function of src/spasm_ZZp.c meets its contract (canonical result congruent to the exact integer expression), all operands, all odd moduli up to 4294967291; the inverse needs primality"),
"C02": P("compression of triplet matrices", ["spasm_compress", "deduplicate", "remove_explicit_zeroes"],
   "spasm_compress and its two passes: every entry of the result is the canonical, nonzero sum (mod p) of the triplets at its position, each column occurs once per row, every triplet is represented or its position sums to zero; pattern matrices: exactly the positions of the triplets. Loop invariants over a counting sort (POS/SRC maps), recursively defined sums rs/tsum"),
"C03": P("transposition", ["spasm_transpose"],
   "the sum of the entries at (j,i) of the output equals that at (i,j) of the input for all i, j; entry (i,j,x) of the input is found exactly once as (j,i,x) in the output, and nothing else is there; positions form a bijection and keep the scanning order"),
"C04": P("permutations", ["spasm_pvec", "spasm_ipvec", "spasm_pinv", "spasm_random_permutation", "spasm_range_pvec", "spasm_permute"],
   "permutation vectors: application, inverse application, inversion, random generation (always a permutation of the range), and row/column permutation of a matrix as an entry bijection"),
"C05": P("submatrix extraction", ["spasm_submatrix"],
   "the extracted block holds exactly the entries of A inside the block, shifted, in the same order, with their values iff requested"),
"C06": P("accumulation", ["spasm_scatter", "spasm_xApy", "spasm_Axpy"],
   "x + beta * (row i of A), y + xA and y + Ax computed exactly (mod p) at every column, canonical, and nothing else is touched; sums are recursively defined functions of the input arrays"),
"C07": P("dense triangular solvers", ["spasm_dense_forward_solve", "spasm_dense_back_solve"],
   "forward: the remainder left in b is b - xU, the verdict is true exactly when it vanishes, and no solution exists when it is false (the contract is quantified over a candidate solution Y); backward: xL = b for every permuted lower-triangular L with nonzero pivots"),
"C08": P("reachability and sparse triangular solve", ["spasm_reach", "spasm_sparse_triangular_solve"],
   "the pattern returned by spasm_reach (with spasm_dfs inlined) lists each column once, contains the columns of the row, is closed under the edges of the pivotal rows and contained in every closed set S, is in topological order for every rank function RK, and leaves the marks clear; the triangular solve satisfies x_b U + x_a = B[k] (mod p) on every column and changes x on the pattern only"),
"C09": P("linear systems from a factorization", ["spasm_solve", "spasm_gesv"],
   "spasm_solve: for every matrix A with A = LU (mod p), true implies xA = b and a solution Y implies true (contract quantified over A and Y; the product lemma x(LU) = (xL)U is proved by induction); spasm_gesv: the same for every row, through the contract of spasm_compress"),
"C10": P("Schur complements", ["spasm_schur [L null]", "spasm_schur [L given]", "spasm_schur_estimate_density"] + [f"spasm_schur_dense [{t}{l}]" for t in ("double", "float", "i64") for l in ("", ", L given")] + [f"spasm_schur_dense_randomized [{t}]" for t in ("double", "float", "i64")] + ["spasm_sparse_triangular_solve", "spasm_scatter"],
   "spasm_schur, without and with L: row k of the result is the selected row of A minus a combination (CS[k], a ghost) of rows of U, has entries outside the pivotal columns only, each column once, canonical nonzero values; p_out holds the original row numbers; the entries appended to L are exactly the coefficients of the combination, under the original row numbers, and the earlier entries of L are kept. spasm_schur_estimate_density: memory safe, between 0 and 2 (no division by zero). spasm_schur_dense (one contract per element type, with and without L): the cell (k, l) of S, in row-major order, is a selected row of A at column q[l] minus a combination of rows of U (congruent mod p, canonical, stored exactly in the element type), the same combination cancels every pivotal column, q lists the nonpivotal columns in increasing order, L as for spasm_schur. spasm_schur_dense_randomized: the same with, for each row of S, a combination of the selected rows (all of them for w <= 0, w of them with first coefficient 1 otherwise) in place of a row of A",
   bounded="spasm_schur*"),
"C11": P("structural pivots", ["spasm_find_FL_pivots", "spasm_find_FL_column_pivots", "spasm_find_cycle_free_pivots", "spasm_pivots_find", "spasm_pivots_reorder", "spasm_reach", "spasm_pivots_extract_structural [L null]", "spasm_pivots_extract_structural [L given]", "spasm_add_entry"],
   "the selected rows and columns are mutually inverse, each pair locates a stored entry (E, a ghost), and there is a rank of the pivotal columns (RK, a ghost: new pivots of the column search rank below, the columns reached by the breadth-first search are raised above the new pivot) that increases from the pivot of a row to the other pivotal columns of the row, hence the submatrix is triangular; the number returned is the number of pivotal rows; spasm_pivots_reorder returns a permutation, pivotal rows first, in topological order. spasm_pivots_extract_structural (without and with L): the earlier rows of U are untouched, the new rows start with a unit pivot, each is a pivotal row of A divided by its pivot (AL, a ghost: row of A = AL[t] * row of U mod p at every column), no entry of a row lies on the pivot of an earlier row (U stays triangular, the pivot columns are distinct and located by qinv), U has room for all of it; L gains exactly the pivots, under the original row numbers and the numbers of the new rows of U, and the row list names these rows",
   assumptions=["the searches run sequentially (clang without -fopenmp); the commit of the cycle-free search never fails then", "no stored zero, each column once per row, no entry of A in a column that is pivotal in U already (what spasm_schur delivers, see C10)", "prime modulus", "the size limits stated in the preconditions (the total number of entries stays below 2^60)"]),
"C12": P("echelonization", ["spasm_sparse_triangular_solve"], "elimination of one row under contract; the rest by the bounded stand-in", level="other", bounded_only=["spasm_echelonize"]),
"C13": P("kernels", ["spasm_kernel", "spasm_kernel_from_rref", "spasm_transpose", "spasm_sparse_triangular_solve"],
   "spasm_kernel (and spasm_kernel_from_rref on what spasm_rref guarantees): one row per nonpivotal column, m - n rows; row i has -1 in its own nonpivotal column, all other entries in pivotal columns, each column once, canonical nonzero values, hence the rows are independent; its product with every row of U is 0 (mod p). The argument goes through the contract of spasm_transpose (entry (j,i) of the transpose is entry (i,j), as sums) and of the triangular solver."),
"C14": P("reduced echelon form", ["spasm_rref", "spasm_sparse_triangular_solve"],
   "row i of the result is row i of U minus a combination (CS[i], returned as a ghost) of later rows of U -- a unit triangular change of rows, hence the same row space --, starts with a unit pivot in the pivot column of row i, has its other entries in nonpivotal columns only, each column once, canonical nonzero values; Rqinv locates exactly these pivots"),
"C15": P("certificates", ["spasm_certificate_rank_verify", "spasm_certificate_rank_create", "spasm_xApy", "spasm_solve", "spasm_prng_seed", "spasm_prng_ZZp"],
   "spasm_certificate_rank_verify: returns true exactly when the hash (32 bytes), the prime and all index ranges are right and both committed identities hold for the challenges, which are the accepted words, in order and with none skipped, of the stream seeded by the hash (the vectors, challenges and mask are returned as ghosts). spasm_certificate_rank_create, on every complete factorization (A = LU mod p, quantified over A): claims the rank, the pivotal rows and columns, and both identities hold for the challenges of the same stream. Closing lemma created_certificates_are_accepted: two sequences of challenges drawn from one seed are equal, hence the verifier's vectors are the creator's and it accepts. Saving, loading and the checking tool (stdio): bounded stand-in", level="other", lemmas=["created_certificates_are_accepted"], bounded_only=["spasm_rank_certificate_save", "spasm_rank_certificate_load", "tools/check_cert.c"],
   assumptions=["no committed y value equals 0x7fffffff, the mark of an uncommitted row (canonical values never do)", "fewer than 2^34 words are drawn from one generator", "termination of the rejection loop is not claimed"]),
"C16": P("LU factorizations", ["spasm_factorization_verify", "spasm_xApy", "spasm_sparse_triangular_solve", "spasm_prng_seed_simple", "spasm_prng_ZZp"],
   "spasm_factorization_verify: the vector x holds the challenges of the stream seeded by (prime, seed) on the pivotal rows and 0 elsewhere, and the result is true exactly when xA = (xL)U mod p on every column; it is true whenever A = LU on the pivotal rows (product lemma proved by induction). That spasm_echelonize delivers such a factorization: bounded stand-in (elimination of one row is under contract, see C08, C10, C12)", level="other", bounded_only=["spasm_echelonize"], assumptions=["fewer than 2^34 words are drawn from one generator"]),
"C18": P("block triangular decompositions", ["spasm_maximum_matching", "spasm_permute"], "matching and permutation under contract; the rest by the bounded stand-in", level="other", bounded_only=["spasm_strongly_connected_components", "spasm_dulmage_mendelsohn"]),
"C21": P("matrix files", ["spasm_add_entry"], "insertion under contract; the rest by the bounded stand-in", level="other", bounded_only=["spasm_triplet_load"]),
"C17": P("maximum matching", ["spasm_augmenting_path", "spasm_maximum_matching", "spasm_permute_row_matching", "spasm_permute_column_matching", "spasm_submatching"],
   "mutually inverse maps along entries of the matrix, the size is returned, and no matching is larger: every search (with the lookahead and the augmentation inlined) keeps the matching valid, and a failed search yields a set of rows closed under alternating paths; the maximality lemma (quantified over any other matching) is proved by the pigeonhole principle"),
"C19": P("SHA-256", ["spasm_SHA256_init", "spasm_SHA256_update", "spasm_SHA256_final"],
   "init/update/final compute the digest of FIPS 180-4 for every message of less than 2^61 bytes and every way of splitting it into calls of update: the context always holds the chaining value of the complete blocks, the buffered rest and the bit length (invariant over the whole message, a ghost), final applies the padding; the compression function is verified bit by bit: one iteration of sha256_block_data_order maps every chaining value and every 64-byte block to the FIPS 180-4 terms, and the loop does exactly one iteration per block", extra=[("sha256_block_data_order", bv.check)],
   trusted=["memset/memcpy on byte-addressed words (little-endian x86-64)", "dv/bv.py: bit-vector semantics of the statements of sha256_block_data_order; its FIPS 180-4 terms are compared with hashlib at every run", "sha256_compress (spec) is a function of the 8 words and the 64 bytes it is given (definitional)"]),
"C20": P("pseudo-random generator", ["spasm_prng_seed", "spasm_prng_seed_simple", "rehash", "spasm_prng_u32", "spasm_prng_ZZp", "spasm_SHA256_init", "spasm_SHA256_update", "spasm_SHA256_final", "spasm_ZZp_init"],
   "the T-th word is word T mod 8 of SHA-256(seed, prime, T / 8, seq), big-endian; spasm_prng_ZZp returns the first masked word below the prime, in canonical representation, and the words before it were all rejected: the stream is a function of (seed, prime, seq) alone", assumptions=["fewer than 2^34 words are drawn from one generator (the block counter is an int)", "termination of the rejection loop is not claimed (it holds with probability 1)"],
   trusted=["memset/memcpy/htonl on byte-addressed words (little-endian x86-64)", "the bitwise and of a word with the mask is an uninterpreted function bounded as dv/core.py states"]),
"C22": P("containers", ["spasm_human_format", "spasm_csr_alloc", "spasm_triplet_alloc", "spasm_csr_realloc", "spasm_triplet_realloc", "spasm_csr_resize", "spasm_csr_free", "spasm_triplet_free", "spasm_lu_free", "spasm_dm_alloc", "spasm_dm_free", "spasm_nnz", "spasm_add_entry", "spasm_triplet_transpose"],
   "allocation, growth, shrinking, resizing and release of the containers: sizes, retained contents, no stale pointer, no double free, canonical reduction of added entries"),
}
NOT_APPLICABLE = {
"C23": "A statement about all interleavings of the OpenMP regions. The contracts here describe the sequential execution of one call; deciding this needs ownership or rely/guarantee permissions for shared arrays, atomics and critical sections (and the deliberately racy accesses of the pivot search), which no installed deductive verifier offers for C.",
}
