#include "h.h"
static void tests(long it) {
	(void)it;
	i64 P = rprime(); int r = ri(0, 7), n = r + (coin(1, 2) ? ri(0, 4) : 0); int *p = malloc(4 * n + 4);
	struct spasm_csr *L;
	if (coin(1, 6)) {     /* identity shorthand: diagonal entry of column j on row j, rows above lower triangular */
		i64 *D = newd(n, r); for (int i = 0; i < n; i++) for (int j = 0; j < r && j <= i; j++) D[i * r + j] = i == j ? md(rnz(P), P) : i < r || 1 ? md(rval(P), P) : 0; L = sparse(D, n, r, P); free(D); free(p); p = NULL;
	} else L = genL(n, r, P, p);
	show("L", L); if (p) showv("p", p, r);
	spasm_ZZp *b = malloc(4 * r + 4), *b0 = malloc(4 * r + 4), *x = malloc(4 * n + 4);
	for (int j = 0; j < r; j++) b[j] = b0[j] = coin(1, 3) ? 0 : rval(P); showv("b", b, r); for (int i = 0; i < n; i++) x[i] = 12345;
	i64 *D = dense(L); spasm_dense_back_solve(L, b, x, p);
	for (int i = 0; i < n; i++) CHECK(canonical(x[i], P), "x not canonical");
	for (int j = 0; j < r; j++) { i64 s = 0; for (int i = 0; i < n; i++) s = md(s + mm(md(x[i], P), D[i * r + j], P), P); CHECK(s == md(b0[j], P), "(xL)[%d] != b[%d]", j, j); }
	free(D); free(b); free(b0); free(x); free(p); spasm_csr_free(L);
	/* forward */
	int m = ri(0, 8); r = ri(0, m); int *qinv = malloc(4 * m + 4), *q = malloc(4 * r + 4); struct spasm_csr *U;
	if (coin(1, 5)) { i64 *E = newd(r, m); for (int i = 0; i < r; i++) for (int j = i; j < m; j++) E[i * m + j] = i == j ? 1 : md(rval(P), P); U = sparse(E, r, m, P); free(E); for (int j = 0; j < m; j++) qinv[j] = j < r ? j : -1; free(q); q = NULL; }
	else { U = genU(r, m, P, 0, qinv); for (int j = 0; j < m; j++) if (qinv[j] >= 0) q[qinv[j]] = j; }
	D = dense(U); b = malloc(4 * m + 4); b0 = malloc(4 * m + 4); x = malloc(4 * r + 4); i64 *bb = newd(1, m);
	if (coin(1, 2)) { for (int i = 0; i < r; i++) { i64 c = md(rval(P), P); for (int j = 0; j < m; j++) bb[j] = md(bb[j] + mm(c, D[i * m + j], P), P); } if (coin(1, 4) && m) bb[ri(0, m - 1)] = md(rval(P), P); }
	else for (int j = 0; j < m; j++) bb[j] = coin(1, 2) ? 0 : md(rval(P), P);
	for (int j = 0; j < m; j++) b[j] = b0[j] = cn(bb[j], P);
	show("U", U); if (q) showv("q", q, r); showv("b", b, m);
	bool ok = spasm_dense_forward_solve(U, b, x, q); int zero = 1;
	for (int i = 0; i < r; i++) CHECK(canonical(x[i], P), "x not canonical");
	for (int j = 0; j < m; j++) { i64 s = 0; for (int i = 0; i < r; i++) s = md(s + mm(md(x[i], P), D[i * m + j], P), P); CHECK(canonical(b[j], P), "b"); CHECK(md(s + b[j], P) == md(b0[j], P), "remainder at %d", j); if (b[j]) zero = 0; }
	CHECK(ok == zero, "flag %d, remainder zero %d", ok, zero);
	i64 *E = newd(r + 1, m); memcpy(E, D, sizeof(i64) * r * m); memcpy(E + r * m, bb, sizeof(i64) * m);
	CHECK(ok == (drank(E, r + 1, m, P) == r), "flag %d but membership %d", ok, drank(E, r + 1, m, P) == r);
	free(E); free(D); free(b); free(b0); free(x); free(bb); free(q); free(qinv); spasm_csr_free(U);
}
