#include "h.h"
static void tests(long it) {
	(void)it;
	i64 p = rprime(); int n = ri(0, 8), m = ri(0, 8), keep = coin(2, 3);
	struct spasm_csr *A = gen(n, m, p, 1, ri(1, 4), 3 | (coin(1, 4) ? 4 : 0)); show("A", A); note("keep=%d\n", keep);
	struct spasm_csr *B = clone(A), *T = spasm_transpose(A, keep);
	unchanged(A, B, "input"); wellformed(T, "transpose");
	CHECK(T->n == m && T->m == n, "dimensions"); CHECK((T->x != NULL) == (keep && A->x != NULL), "values present");
	CHECK(T->field->p == A->field->p, "prime");
	for (int j = 0; j < m; j++) {
		i64 k = T->p[j];
		for (int i = 0; i < n; i++) for (i64 q = A->p[i]; q < A->p[i + 1]; q++) if (A->j[q] == j) {
			CHECK(k < T->p[j + 1], "row %d of the transpose is too short", j); CHECK(T->j[k] == i, "row %d of the transpose: column %d, expected %d", j, T->j[k], i);
			if (T->x) CHECK(T->x[k] == A->x[q], "value at (%d,%d)", j, i);
			k++;
		}
		CHECK(k == T->p[j + 1], "row %d of the transpose is too long", j);
	}
	spasm_csr_free(A); spasm_csr_free(B); spasm_csr_free(T);
}
