#include "h.h"
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = rprime(); int m = ri(1, 12), n = ri(1, 12); struct spasm_csr *A = gen(n, m, P, 1, ri(1, 6), 0); show("A", A);
	struct spasm_csr *B = clone(A); int u0 = ri(0, 2), norig = n + u0, *orig = rperm(norig), *p_in = coin(1, 2) ? orig : NULL;
	/* U may already hold rows (their pivots do not appear in A) */
	struct spasm_lu f; memset(&f, 0, sizeof f); f.U = spasm_csr_alloc(norig, m, ri(0, 4) + u0, P, true); f.qinv = malloc(4 * m + 4); f.U->n = 0;
	for (int j = 0; j < m; j++) f.qinv[j] = -1;
	char *occ = calloc(m + 1, 1); for (i64 k = 0; k < A->p[n]; k++) occ[A->j[k]] = 1;
	for (int j = 0; j < m && f.U->n < u0; j++) if (!occ[j]) { f.qinv[j] = f.U->n; i64 z = f.U->p[f.U->n]; f.U->j[z] = j; f.U->x[z] = 1; f.U->p[++f.U->n] = z + 1; }
	u0 = f.U->n; int *q0 = malloc(4 * m + 4); memcpy(q0, f.qinv, 4 * m);
	int l = coin(1, 2); if (l) { f.Ltmp = spasm_triplet_alloc(norig, norig, ri(0, 2), P, true); f.p = malloc(4 * norig + 4); for (int k = 0; k < norig; k++) f.p[k] = -1; }
	int *p = malloc(4 * n + 4); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = coin(2, 3); note("greedy=%d L=%d u0=%d\n", o.enable_greedy_pivot_search, l, u0);
	int np = spasm_pivots_extract_structural(A, p_in, &f, p, &o); showv("p", p, n); show("U", f.U);
	unchanged(A, B, "A"); CHECK(np >= 0 && np <= n && np <= m, "npiv %d", np); CHECK(isperm(p, n), "p is not a permutation"); CHECK(f.U->n == u0 + np, "U->n"); wellformed(f.U, "U");
	if (A->p[n] > 0) CHECK(np > 0, "no pivot in a nonzero matrix");
	i64 *DA = dense(A), *DU = dense(f.U); int *col = malloc(4 * (u0 + np) + 4); for (int k = 0; k < u0 + np; k++) col[k] = -1;
	for (int j = 0; j < m; j++) { CHECK(f.qinv[j] >= -1 && f.qinv[j] < u0 + np, "qinv"); if (f.qinv[j] >= 0) { CHECK(col[f.qinv[j]] < 0, "two pivots on row %d", f.qinv[j]); col[f.qinv[j]] = j; } }
	for (int j = 0; j < m; j++) if (q0[j] >= 0) CHECK(f.qinv[j] == q0[j], "old pivot lost");
	for (int k = 0; k < np; k++) {
		int i = p[k], c = col[u0 + k]; CHECK(c >= 0, "row %d of U has no pivot", u0 + k); i64 v = DA[i * m + c]; CHECK(v != 0, "pivot on a zero entry (%d,%d)", i, c);
		CHECK(f.U->j[f.U->p[u0 + k]] == c && f.U->x[f.U->p[u0 + k]] == 1, "pivot of row %d is not a leading one", u0 + k);
		CHECK(f.U->p[u0 + k + 1] - f.U->p[u0 + k] == A->p[i + 1] - A->p[i], "row length");
		for (int j = 0; j < m; j++) CHECK(mm(v, DU[(u0 + k) * m + j], P) == DA[i * m + j], "row %d of U is not the scaled row %d of A", u0 + k, i);
		for (int h = 0; h < k; h++) CHECK(DU[(u0 + k) * m + col[u0 + h]] == 0, "not triangular: row %d has an entry under pivot %d", k, h);
		if (l) { int io = p_in ? p_in[i] : i; CHECK(f.p[u0 + k] == io, "Lp"); int c2 = 0; for (i64 e = 0; e < f.Ltmp->nz; e++) if (f.Ltmp->j[e] == u0 + k) { c2++; CHECK(f.Ltmp->i[e] == io && md(f.Ltmp->x[e], P) == v, "entry of L"); } CHECK(c2 == 1, "entries of L in column %d: %d", u0 + k, c2); }
	}
	if (l) CHECK(f.Ltmp->nz == np, "entries in L: %d", (int)f.Ltmp->nz);
	free(DA); free(DU); free(col); free(p); free(orig); free(q0); free(occ); free(f.qinv); spasm_csr_free(f.U); if (l) { spasm_triplet_free(f.Ltmp); free(f.p); } spasm_csr_free(A); spasm_csr_free(B);
}
