#include "ech.h"
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = rprime(); int n = ri(1, 10), m = ri(1, 10);
	struct spasm_csr *A = genrank(n, m, P); show("A", A); struct echelonize_opts o = ro(1);
	struct spasm_lu *f = spasm_echelonize(A, &o); showlu(f); checkU(A, f, 1); int r = f->U->n; showv("p", f->p, r);
	CHECK(f->L != NULL, "no L"); wellformed(f->L, "L"); CHECK(f->L->n == n && f->L->m == r, "L is %d x %d", f->L->n, f->L->m); CHECK(f->complete == o.complete, "complete");
	i64 *DA = dense(A), *DL = dense(f->L), *DU = dense(f->U), *W = dmul(DL, DU, n, r, m, P); char *piv = calloc(n + 1, 1);
	for (int k = 0; k < r; k++) { int i = f->p[k]; CHECK(i >= 0 && i < n && !piv[i], "p[%d]=%d", k, i); piv[i] = 1; CHECK(DL[i * r + k] != 0, "L pivot %d is zero", k); for (int h = k + 1; h < r; h++) CHECK(DL[i * r + h] == 0, "L is not permuted lower-triangular at (%d,%d)", i, h); }
	for (int i = 0; i < n; i++) if (piv[i] || o.complete) for (int j = 0; j < m; j++) CHECK(W[i * m + j] == DA[i * m + j], "A != LU at (%d,%d)", i, j);
	u64 seed = rnd(); CHECK(spasm_factorization_verify(A, f, seed), "a correct factorization is rejected");
	/* corrupt one entry: verdict must be the comparison of xA and xLU for the generator's x */
	for (int t = 0; t < 3; t++) {
		struct spasm_csr *X = coin(1, 2) ? f->L : f->U; i64 z = X->p[X->n]; if (!z) continue; i64 k = ri(0, z - 1); spasm_ZZp old = X->x[k]; X->x[k] = rval(P);
		i64 *L2 = dense(f->L), *U2 = dense(f->U); spasm_prng_ctx c; spasm_prng_seed_simple(P, seed, 0, &c); i64 *x = newd(1, n); for (int i = 0; i < n; i++) { i64 v = md(spasm_prng_ZZp(&c), P); x[i] = piv[i] ? v : 0; }
		i64 *a = dmul(x, DA, 1, n, m, P), *y = dmul(x, L2, 1, n, r, P), *b = dmul(y, U2, 1, r, m, P); int eq = !memcmp(a, b, 8 * m);
		CHECK(spasm_factorization_verify(A, f, seed) == eq, "verdict differs from the comparison (%d)", eq);
		X->x[k] = old; free(L2); free(U2); free(x); free(a); free(y); free(b);
	}
	free(DA); free(DL); free(DU); free(W); free(piv); spasm_lu_free(f); spasm_csr_free(A);
}
