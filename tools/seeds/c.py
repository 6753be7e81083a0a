import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "b.py")); H, MK, ASAN = B["H"], B["MK"], B["ASAN"]
STUB = '''int spasm_ffpack_rref(i64 a, int b, int c, void *d, int e, spasm_datatype f, size_t *g) { return 0; } int spasm_ffpack_LU(i64 a, int b, int c, void *d, int e, spasm_datatype f, size_t *g, size_t *h) { return 0; } spasm_ZZp spasm_datatype_read(const void *A, size_t i, spasm_datatype d) { return 0; } size_t spasm_datatype_size(spasm_datatype d) { return 8; } spasm_datatype spasm_datatype_choose(i64 p) { return 0; } const char *spasm_datatype_name(spasm_datatype d) { return ""; }
'''
PIV = H + MK + '''int main() { srand(1); for (int t = 0; t < 20000; t++) { int n = 3 + rand() % 5, D[64]; struct spasm_csr *A; for (int k = 0; k < n * n; k++) D[k] = rand() % 3 == 0 ? 1 + rand() % 3 : 0; A = mk(n, n, 257, D);
	for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { i64 l = A->p[i] + rand() % (A->p[i + 1] - A->p[i]); int a = A->j[k]; A->j[k] = A->j[l]; A->j[l] = a; a = A->x[k]; A->x[k] = A->x[l]; A->x[l] = a; }
	struct spasm_lu f = {0}; f.U = spasm_csr_alloc(n, n, n * n, 257, 1); f.U->n = 0; f.U->p[0] = 0; int qi[8], p[8]; for (int j = 0; j < n; j++) qi[j] = -1; f.qinv = qi; struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = t & 1;
	int np = spasm_pivots_extract_structural(A, NULL, &f, p, &o); for (int i = 0; i < np; i++) for (i64 k = f.U->p[i] + 1; k < f.U->p[i + 1]; k++) { int I = qi[f.U->j[k]]; REQ(I < 0 || I > i); } } return 0; }'''
SEEDS = [
dict(id="C11-obstruct", property="C11", edits=[("src/spasm_pivots.c", "\t\t\t/* mark the columns occuring on this row as unavailable */\n\t\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) \n", "\t\t\t/* mark the columns occuring on this row as unavailable */\n\t\t\tfor (i64 px = Ap[i]; px < Ap[i + 1] - (i > 0 && pinv[i - 1] == j + 1); px++) \n")],
  demo=PIV, needs="a column pivot directly left of the pivot of the previous row, whose row ends with an open column", breaks="one column of the row of a new column pivot stays available, so a later pivot may close an alternating cycle"),
dict(id="C11-two", property="C11", edits=[("src/spasm_pivots.c", "\t\tif (pinv[i] < 0)\n\t\t\tcontinue;\n\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) {\n\t\t\tint j = Aj[px];\n\t\t\tw[j] = 0;", "\t\tif (pinv[i] < 0)\n\t\t\tcontinue;\n\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) {\n\t\t\tint j = Aj[px];\n\t\t\tif (spasm_row_weight(A, i) == 2 && j > pinv[i] + 2 && n == m)\n\t\t\t\tcontinue;\n\t\t\tw[j] = 0;")],
  demo=PIV, needs="a pivotal row with two entries far from one another", breaks="some columns occurring on pivotal rows are considered free"),
dict(id="C14-cap", property="C14", edits=[("src/spasm_rref.c", "\t\t\t\tif (nnz + m > R->nzmax) {\n", "\t\t\t\tif (nnz + row_nz > R->nzmax + 1) {\n")],
  demo_sh=ASAN, demo=H + MK + STUB + '''int main() { int D[] = {1, 1, 0, 0, 0, 1, 2, 3}; struct spasm_csr *U = mk(2, 4, 257, D); spasm_csr_realloc(U, 5); U->nzmax = 5; int q[] = {0, 1, -1, -1}, rq[4]; struct spasm_lu f = {0}; f.U = U; f.qinv = q; struct spasm_csr *R = spasm_rref(&f, rq); REQ(spasm_nnz(R) == 6); return 0; }''',
  needs="a reduced form with exactly one entry more than U", breaks="the last entry of the result is written past the end of the arrays"),
dict(id="C20-seed-high", property="C20", edits=[("src/spasm_prng.c", "block[1] = htonl(seed >> 32);", "block[1] = htonl((seed >> 32) & 0x7fffffff);")],
  demo=H + '''int main() { spasm_prng_ctx c, d; spasm_prng_seed_simple(257, 1, 0, &c); spasm_prng_seed_simple(257, 1 | 1ull << 63, 0, &d); int same = 1; for (int k = 0; k < 8; k++) same &= spasm_prng_u32(&c) == spasm_prng_u32(&d); REQ(!same); return 0; }''',
  needs="a seed with its top bit set", breaks="the top bit of the seed is ignored"),
]
