#include "ech.h"
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = rprime(); int m = ri(1, 10), r = ri(0, m); struct spasm_lu f; memset(&f, 0, sizeof f); f.qinv = malloc(4 * m + 4); f.r = r;
	f.U = genU(r, m, P, 1, f.qinv); showlu(&f); showv("qinv", f.qinv, m); i64 *DU = dense(f.U); struct spasm_csr *B = clone(f.U);
	int *Rq = malloc(4 * m + 4); for (int j = 0; j < m; j++) Rq[j] = 99; struct spasm_csr *R = spasm_rref(&f, Rq); show("R", R); showv("Rqinv", Rq, m);
	unchanged(f.U, B, "U"); wellformed(R, "R"); CHECK(R->n == r && R->m == m, "dimensions"); i64 *DR = dense(R); CHECK(same_rowspace(DU, r, DR, r, m, P), "row space changed"); int *col = malloc(4 * r + 4); for (int i = 0; i < r; i++) col[i] = -1;
	for (int j = 0; j < m; j++) { CHECK(Rq[j] >= -1 && Rq[j] < r, "Rqinv[%d]=%d", j, Rq[j]); if (Rq[j] >= 0) { CHECK(col[Rq[j]] < 0, "two pivots"); col[Rq[j]] = j; } CHECK((Rq[j] >= 0) == (f.qinv[j] >= 0), "pivotal columns changed"); }
	for (int i = 0; i < r; i++) { CHECK(col[i] >= 0, "row %d has no pivot", i); CHECK(R->j[R->p[i]] == col[i] && R->x[R->p[i]] == 1, "row %d does not start with a unit pivot", i); for (int k = 0; k < r; k++) CHECK(DR[k * m + col[i]] == (k == i), "row %d has an entry on the pivotal column of row %d", k, i); }
	for (i64 k = 0; k < R->p[r]; k++) CHECK(R->x[k] != 0, "stored zero");
	free(DR); free(DU); free(col); free(Rq); free(f.qinv); spasm_csr_free(R); spasm_csr_free(B); spasm_csr_free(f.U);
}
