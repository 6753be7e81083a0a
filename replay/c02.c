#include "h.h"
static void tests(long it) {
	(void)it;
	i64 p = rprime(); int n = ri(0, 9), m = ri(0, 9), vals = !coin(1, 4), nz = n && m ? ri(0, coin(1, 4) ? 60 : 12) : 0;
	if (coin(1, 40) && n && m) nz = ri(60, 400);
	struct spasm_triplet *T = spasm_triplet_alloc(n, m, nz + ri(0, 3), vals ? p : coin(1, 2) ? p : -1, vals);
	i64 *D = newd(n, m);
	note("%d x %d mod %lld vals=%d:", n, m, (long long)p, vals);
	for (int k = 0; k < nz; k++) {
		int i = ri(0, n - 1), j = ri(0, m - 1); i64 x = rval(p);
		if (k && coin(1, 4)) { int l = ri(0, k - 1); i = T->i[l]; j = T->j[l]; if (vals && coin(1, 2)) x = -T->x[l]; }
		T->i[k] = i; T->j[k] = j; if (vals) T->x[k] = x;
		D[i * m + j] = vals ? md(D[i * m + j] + x, p) : 1; note(" (%d,%d,%lld)", i, j, (long long)x);
	}
	T->nz = nz; note("\n");
	struct spasm_csr *C = spasm_compress(T);
	wellformed(C, "C"); CHECK(C->n == n && C->m == m, "dimensions"); CHECK(!C->x == !vals, "values");
	i64 *S = newd(n, m); memset(S, 0, sizeof(i64) * n * m); char *seen = calloc(n * m + 1, 1);
	for (int i = 0; i < n; i++) for (i64 k = C->p[i]; k < C->p[i + 1]; k++) { CHECK(!seen[i * m + C->j[k]], "position (%d,%d) occurs twice", i, C->j[k]); seen[i * m + C->j[k]] = 1; if (vals) CHECK(C->x[k] != 0, "stored zero"); S[i * m + C->j[k]] = vals ? md(C->x[k], p) : 1; }
	for (int k = 0; k < n * m; k++) CHECK(S[k] == D[k], "entry (%d,%d) is %lld, expected %lld", k / m, k % m, (long long)S[k], (long long)D[k]);
	free(S); free(D); free(seen); spasm_csr_free(C);
	/* insertion path */
	struct spasm_triplet *T2 = spasm_triplet_alloc(n, m, ri(0, 1), p, true);
	for (int k = 0; k < nz; k++) { i64 x = vals ? T->x[k] + (i64)p * ri(-3, 3) : 0; spasm_add_entry(T2, T->i[k], T->j[k], x); }
	C = spasm_compress(T2); wellformed(C, "C2");
	D = newd(T2->n, T2->m); for (int k = 0; k < nz; k++) if (vals) { i64 *d = &D[T->i[k] * T2->m + T->j[k]]; *d = md(*d + T->x[k], p); }
	S = dense(C); CHECK(C->n == T2->n && C->m == T2->m, "dimensions after insertion"); CHECK(!memcmp(S, D, sizeof(i64) * T2->n * T2->m), "entries after insertion");
	free(S); free(D); spasm_csr_free(C); spasm_triplet_free(T); spasm_triplet_free(T2);
}
