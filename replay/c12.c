#include "ech.h"
/* a long matrix: many dependent rows, and a few independent ones somewhere in it */
static struct spasm_csr *longmat(i64 P) {
	int n = ri(100, 320), m = ri(4, 9), r = ri(0, 3), late = ri(1, 3); i64 *D = newd(n, m), *B = newd(r + 1, m);
	for (int i = 0; i < r * m; i++) B[i] = coin(1, 2) ? md(rval(P), P) : 0;
	for (int i = 0; i < n; i++) for (int k = 0; k < r; k++) { i64 c = coin(1, 3) ? 0 : md(rval(P), P); for (int j = 0; j < m; j++) D[i * m + j] = md(D[i * m + j] + mm(c, B[k * m + j], P), P); }
	for (int k = 0; k < late; k++) { int i = coin(1, 2) ? n - 1 - ri(0, 5) : ri(0, n - 1); for (int j = 0; j < m; j++) D[i * m + j] = coin(1, 2) ? md(rval(P), P) : 0; }
	struct spasm_csr *A = sparse(D, n, m, P); free(D); free(B); return A;
}
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = rprime(); int tall = coin(1, 5), n = tall ? ri(12, 40) : ri(0, 10), m = tall ? ri(0, 6) : ri(0, 12);
	int lg = coin(1, 40); struct spasm_csr *A = lg ? longmat(P) : genrank(n, m, P), *B = clone(A); show("A", A); struct echelonize_opts o = ro(0); if (lg && coin(3, 4)) { o.enable_GPLU = 1; o.enable_dense = 0; o.enable_tall_and_skinny = 0; o.max_round = 0; }
	struct spasm_lu *f = spasm_echelonize(A, coin(1, 12) ? NULL : &o);
	unchanged(A, B, "A"); showlu(f); checkU(A, f, 1); CHECK(f->L == NULL, "L"); spasm_lu_free(f); spasm_csr_free(A); spasm_csr_free(B);
}
