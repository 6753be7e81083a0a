#include "h.h"
static void tests(long it) {
	(void)it;
	int n = ri(0, 12), m = ri(0, 12); i64 P = rprime();
	int *p = rperm(n), *q = rperm(m), *idp = coin(1, 5) ? NULL : p, *idq = coin(1, 5) ? NULL : q;
	showv("p", p, n); showv("q", q, m); note("NULL: %d %d\n", !idp, !idq);
	spasm_ZZp *b = malloc(4 * n + 4), *x = malloc(4 * n + 4);
	for (int k = 0; k < n; k++) b[k] = rval(P);
	spasm_pvec(idp, b, x, n); for (int k = 0; k < n; k++) CHECK(x[k] == b[idp ? p[k] : k], "pvec at %d", k);
	spasm_ipvec(idp, b, x, n); for (int k = 0; k < n; k++) CHECK(x[idp ? p[k] : k] == b[k], "ipvec at %d", k);
	int *pi = spasm_pinv(idp, n);
	CHECK((pi == NULL) == (idp == NULL), "pinv NULL"); if (pi) for (int k = 0; k < n; k++) CHECK(pi[p[k]] == k, "pinv at %d", k);
	int *qi = spasm_pinv(idq, m);
	struct spasm_csr *A = gen(n, m, P, 1, ri(1, 4), 3 | (coin(1, 4) ? 4 : 0)), *B = clone(A); int vals = coin(2, 3); show("A", A);
	struct spasm_csr *C = spasm_permute(A, idp, qi, vals);
	unchanged(A, B, "input"); wellformed(C, "permuted"); CHECK(C->n == n && C->m == m && C->field->p == P, "header"); CHECK((C->x != NULL) == (vals && A->x), "values present");
	for (int i = 0; i < n; i++) { int s = idp ? p[i] : i; CHECK(C->p[i + 1] - C->p[i] == A->p[s + 1] - A->p[s], "row length %d", i);
		for (i64 d = 0; d < C->p[i + 1] - C->p[i]; d++) { CHECK(C->j[C->p[i] + d] == (qi ? qi[A->j[A->p[s] + d]] : A->j[A->p[s] + d]), "column"); if (C->x) CHECK(C->x[C->p[i] + d] == A->x[A->p[s] + d], "value"); } }
	int a = ri(0, n), bb = ri(a, n); int *pp = rperm(bb - a), *pc = malloc(4 * n + 4), *y = malloc(4 * n + 4), *y0 = malloc(4 * n + 4);
	memcpy(pc, pp, 4 * (bb - a)); for (int k = 0; k < n; k++) y[k] = y0[k] = ri(-9, 99);
	spasm_range_pvec(y, a, bb, pp); showv("range p", pc, bb - a); note("a=%d b=%d\n", a, bb);
	for (int k = 0; k < n; k++) CHECK(y[k] == (k >= a && k < bb ? y0[a + pc[k - a]] : y0[k]), "range_pvec at %d", k);
	int *rp = spasm_random_permutation(n); CHECK(isperm(rp, n), "random permutation is not a bijection");
	free(p); free(q); free(b); free(x); free(pi); free(qi); free(pp); free(pc); free(y); free(y0); free(rp); spasm_csr_free(A); spasm_csr_free(B); spasm_csr_free(C);
}
