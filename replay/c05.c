#include "h.h"
static void tests(long it) {
	(void)it;
	i64 P = rprime(); int n = ri(0, 9), m = ri(0, 9), r0 = ri(0, n), r1 = ri(r0, n), c0 = ri(0, m), c1 = ri(c0, m), vals = coin(2, 3);
	struct spasm_csr *A = gen(n, m, P, 1, ri(1, 4), 3 | (coin(1, 4) ? 4 : 0)), *B = clone(A); show("A", A); note("rows %d..%d columns %d..%d values %d\n", r0, r1, c0, c1, vals);
	struct spasm_csr *C = spasm_submatrix(A, r0, r1, c0, c1, vals);
	unchanged(A, B, "input"); wellformed(C, "block"); CHECK(C->n == r1 - r0 && C->m == c1 - c0 && C->field->p == P, "header"); CHECK((C->x != NULL) == (vals && A->x), "values present");
	for (int i = r0; i < r1; i++) { i64 k = C->p[i - r0];
		for (i64 q = A->p[i]; q < A->p[i + 1]; q++) if (A->j[q] >= c0 && A->j[q] < c1) { CHECK(k < C->p[i - r0 + 1], "row %d too short", i); CHECK(C->j[k] == A->j[q] - c0, "column in row %d", i); if (C->x) CHECK(C->x[k] == A->x[q], "value in row %d", i); k++; }
		CHECK(k == C->p[i - r0 + 1], "row %d too long", i); }
	spasm_csr_free(A); spasm_csr_free(B); spasm_csr_free(C);
}
