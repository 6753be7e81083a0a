#include "h.h"
static void tests(long it) {
	i64 P = rprime(); int m = ri(1, 7), r = ri(0, m), n = r + ri(0, 4); omp_set_num_threads(1 + it % 3);
	if (n == 0) n = 1;
	struct spasm_lu f; memset(&f, 0, sizeof f); f.qinv = malloc(4 * m + 4); f.p = malloc(4 * n + 4); f.r = r; f.complete = 1;
	f.U = genU(r, m, P, coin(1, 2), f.qinv); f.L = genL(n, r, P, f.p); showlu(&f); showv("p", f.p, r); showv("qinv", f.qinv, m);
	i64 *DL = dense(f.L), *DU = dense(f.U), *A = dmul(DL, DU, n, r, m, P);
	int nb = ri(1, 4); i64 *B = newd(nb, m);
	for (int k = 0; k < nb; k++) { int kind = ri(0, 3);
		if (kind) for (int i = 0; i < n; i++) { i64 c = coin(1, 2) ? 0 : md(rval(P), P); for (int j = 0; j < m; j++) B[k * m + j] = md(B[k * m + j] + mm(c, A[i * m + j], P), P); }
		if (kind != 1) { int j = ri(0, m - 1); if (kind == 0) for (j = 0; j < m; j++) B[k * m + j] = coin(1, 2) ? 0 : md(rval(P), P); else if (coin(1, 2)) B[k * m + j] = md(rval(P), P); } }
	struct spasm_csr *SB = sparse(B, nb, m, P); show("B", SB);
	int solv[8]; for (int k = 0; k < nb; k++) { i64 *E = newd(n + 1, m); memcpy(E, A, 8 * n * m); memcpy(E + n * m, B + k * m, 8 * m); solv[k] = drank(E, n + 1, m, P) == r; free(E); }
	spasm_ZZp *b = malloc(4 * m), *x = malloc(4 * n + 4);
	for (int k = 0; k < nb; k++) {
		for (int j = 0; j < m; j++) b[j] = cn(B[k * m + j], P);
		for (int i = 0; i < n; i++) x[i] = 4242;
		bool ok = spasm_solve(&f, b, x); CHECK(ok == solv[k], "solve: flag %d, solvable %d (row %d)", ok, solv[k], k);
		for (int i = 0; i < n; i++) CHECK(canonical(x[i], P), "x not canonical");
		for (int j = 0; j < m; j++) CHECK(b[j] == cn(B[k * m + j], P), "right-hand side changed");
		if (ok) for (int j = 0; j < m; j++) { i64 s = 0; for (int i = 0; i < n; i++) s = md(s + mm(md(x[i], P), A[i * m + j], P), P); CHECK(s == B[k * m + j], "xA != b in column %d (row %d)", j, k); }
	}
	bool ok[8]; memset(ok, 7, sizeof ok); struct spasm_csr *X = spasm_gesv(&f, SB, coin(1, 5) ? NULL : ok);
	wellformed(X, "X"); CHECK(X->n == nb, "X has %d rows", X->n); CHECK(X->m == n, "X has %d columns", X->m); i64 *DX = dense(X);
	for (int k = 0; k < nb; k++) { if (*(unsigned char *)&ok[k] <= 1) CHECK(ok[k] == solv[k], "gesv flag of row %d", k);
		if (solv[k]) for (int j = 0; j < m; j++) { i64 s = 0; for (int i = 0; i < n; i++) s = md(s + mm(DX[k * n + i], A[i * m + j], P), P); CHECK(s == B[k * m + j], "gesv: XA != B at (%d,%d)", k, j); } }
	free(DX); spasm_csr_free(X); spasm_csr_free(SB); free(B); free(A); free(DL); free(DU); free(b); free(x); spasm_csr_free(f.L); spasm_csr_free(f.U); free(f.p); free(f.qinv);
}
