#include "h.h"
static void tests(long it) {
	(void)it;
	i64 P = rprime(); int m = ri(1, 9), r = ri(0, m), *qinv = malloc(4 * m + 4), n = ri(1, 5);
	struct spasm_csr *U = genUshuf(r, m, P, coin(1, 2), qinv), *B = gen(n, m, P, 1, ri(1, 4), coin(1, 4) ? 3 : 0); show("U", U); show("B", B); showv("qinv", qinv, m);
	int *xj = calloc(3 * m, sizeof(int)); spasm_ZZp *x = malloc(4 * m); i64 *DU = dense(U), *DB = dense(B);
	for (int j = 0; j < m; j++) x[j] = rval(P);
	for (int call = 0; call < 6; call++) {
		int k = ri(0, n - 1), reach[64] = {0}, ch = 1; note("row %d\n", k);
		for (i64 q = B->p[k]; q < B->p[k + 1]; q++) reach[B->j[q]] = 1;
		while (ch) { ch = 0; for (int j = 0; j < m; j++) if (reach[j] && qinv[j] >= 0) for (i64 q = U->p[qinv[j]]; q < U->p[qinv[j] + 1]; q++) if (!reach[U->j[q]]) reach[U->j[q]] = ch = 1; }
		int cnt = 0; for (int j = 0; j < m; j++) cnt += reach[j];
		int solve = coin(2, 3);
		int top = solve ? spasm_sparse_triangular_solve(U, B, k, xj, x, qinv) : spasm_reach(U, B, k, m, xj, qinv);
		CHECK(top == m - cnt, "top = %d, expected %d", top, m - cnt);
		int pos[64]; for (int j = 0; j < m; j++) pos[j] = -1;
		for (int px = top; px < m; px++) { int j = xj[px]; CHECK(0 <= j && j < m && reach[j], "column %d is not reachable", j); CHECK(pos[j] < 0, "column %d listed twice", j); pos[j] = px; }
		for (int j = 0; j < m; j++) if (reach[j] && qinv[j] >= 0) for (i64 q = U->p[qinv[j]]; q < U->p[qinv[j] + 1]; q++) if (U->j[q] != j) CHECK(pos[U->j[q]] > pos[j], "not in topological order");
		for (int t = 2 * m; t < 3 * m; t++) CHECK(xj[t] == 0, "mark of column %d not reset", t - 2 * m);
		if (solve) {
			for (int px = top; px < m; px++) CHECK(canonical(x[xj[px]], P), "x not canonical");
			for (int j = 0; j < m; j++) { i64 s = reach[j] && qinv[j] < 0 ? md(x[j], P) : 0; for (int l = 0; l < m; l++) if (reach[l] && qinv[l] >= 0) s = md(s + mm(md(x[l], P), DU[qinv[l] * m + j], P), P); CHECK(s == DB[k * m + j], "x_b U + x_a differs from B[k] in column %d", j); }
		}
	}
	free(xj); free(x); free(DU); free(DB); free(qinv); spasm_csr_free(U); spasm_csr_free(B);
}
