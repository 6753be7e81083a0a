#include "h.h"
static void tests(long it) {
	(void)it;
	i64 P = coin(1, 2) ? 4294967291 : rprime(); int n = ri(1, 8), m = ri(0, 8);
	struct spasm_csr *A = gen(n, m, P, 1, ri(1, 3), 3), *B = clone(A); show("A", A);
	spasm_ZZp *x = malloc(4 * n + 4), *y = malloc(4 * m + 8), *y0 = malloc(4 * m + 8), *u = malloc(4 * m + 4), *v = malloc(4 * n + 8), *v0 = malloc(4 * n + 8), *x0 = malloc(4 * n + 4), *u0 = malloc(4 * m + 4);
	for (int i = 0; i < n; i++) { x0[i] = x[i] = rval(P); v[i] = v0[i] = rval(P); } for (int j = 0; j < m; j++) { y[j] = y0[j] = rval(P); u0[j] = u[j] = rval(P); }
	y[m] = y0[m] = 77; v[n] = v0[n] = 77;
	showv("x", x, n); showv("y", y, m); showv("u", u, m); showv("v", v, n);
	i64 *D = dense(A); int i0 = ri(0, n - 1); spasm_ZZp beta = rval(P); note("row %d beta %d\n", i0, beta);
	spasm_scatter(A, i0, beta, y);
	for (int j = 0; j <= m; j++) CHECK(y[j] == (j == m ? 77 : cn(md(y0[j] + mm(md(beta, P), D[i0 * m + j], P), P), P)), "scatter at %d", j);
	memcpy(y, y0, 4 * (m + 1)); spasm_xApy(x, A, y);
	for (int j = 0; j < m; j++) { i64 s = md(y0[j], P); for (int i = 0; i < n; i++) s = md(s + mm(md(x0[i], P), D[i * m + j], P), P); CHECK(y[j] == cn(s, P), "xApy at %d: %d", j, y[j]); }
	CHECK(y[m] == 77, "xApy beyond");
	spasm_Axpy(A, u, v);
	for (int i = 0; i < n; i++) { i64 s = md(v0[i], P); for (int j = 0; j < m; j++) s = md(s + mm(md(u0[j], P), D[i * m + j], P), P); CHECK(v[i] == cn(s, P), "Axpy at %d: %d", i, v[i]); }
	CHECK(v[n] == 77, "Axpy beyond"); unchanged(A, B, "A"); CHECK(!memcmp(x, x0, 4 * n) && !memcmp(u, u0, 4 * m), "operand changed");
	free(x); free(y); free(y0); free(u); free(v); free(v0); free(D); free(x0); free(u0); spasm_csr_free(A); spasm_csr_free(B);
}
