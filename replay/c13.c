#include "ech.h"
static void checkK(const struct spasm_csr *K, const i64 *DU, int r, int m, i64 P, const char *w) {
	wellformed(K, w); CHECK(K->n == m - r && K->m == m, "%s is %d x %d, expected %d x %d", w, K->n, K->m, m - r, m); i64 *D = dense(K);
	for (i64 k = 0; k < K->p[K->n]; k++) CHECK(K->x[k] != 0 || 1, "zero");
	for (int a = 0; a < K->n; a++) for (int i = 0; i < r; i++) { i64 s = 0; for (int j = 0; j < m; j++) s = md(s + mm(D[a * m + j], DU[i * m + j], P), P); CHECK(s == 0, "%s: row %d is not orthogonal to row %d", w, a, i); }
	CHECK(drank(D, K->n, m, P) == K->n, "%s: rows are dependent", w); free(D);
}
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = rprime(); int m = ri(1, 10), r = ri(0, m); struct spasm_lu f; memset(&f, 0, sizeof f); f.qinv = malloc(4 * m + 4); f.r = r;
	f.U = genU(r, m, P, 1, f.qinv); showlu(&f); showv("qinv", f.qinv, m); i64 *DU = dense(f.U);
	struct spasm_csr *K = spasm_kernel(&f); show("K", K); checkK(K, DU, r, m, P, "kernel"); spasm_csr_free(K);
	int *Rq = malloc(4 * m + 4); struct spasm_csr *R = spasm_rref(&f, Rq); show("R", R); K = spasm_kernel_from_rref(R, Rq); show("K2", K); checkK(K, DU, r, m, P, "kernel from rref");
	spasm_csr_free(K); spasm_csr_free(R); free(Rq); free(DU);
	/* a reduced form made by hand */
	int *q = rperm(m); for (int j = 0; j < m; j++) f.qinv[j] = -1; for (int i = 0; i < r; i++) f.qinv[q[i]] = i;
	i64 *D = newd(r, m); for (int i = 0; i < r; i++) { D[i * m + q[i]] = 1; for (int k = r; k < m; k++) D[i * m + q[k]] = coin(1, 2) ? md(rval(P), P) : 0; }
	struct spasm_csr *H = spasm_csr_alloc(r, m, (i64)r * m, P, true); i64 nz = 0; for (int i = 0; i < r; i++) { H->j[nz] = q[i]; H->x[nz++] = 1; for (int k = r; k < m; k++) if (D[i * m + q[k]]) { H->j[nz] = q[k]; H->x[nz++] = cn(D[i * m + q[k]], P); } H->p[i + 1] = nz; }
	show("H", H); K = spasm_kernel_from_rref(H, f.qinv); checkK(K, D, r, m, P, "kernel from reduced form"); spasm_csr_free(K); spasm_csr_free(H); free(D); free(q); spasm_csr_free(f.U); free(f.qinv);
}
