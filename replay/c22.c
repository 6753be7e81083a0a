#include "h.h"
static void tests(long it) {
	(void)it; i64 P = rprime(); int n = ri(0, 6), m = ri(0, 6), vals = coin(2, 3), cap = ri(0, 3); struct spasm_triplet *T = spasm_triplet_alloc(n, m, cap, P, vals);
	CHECK(T->n == n && T->m == m && T->nz == 0 && T->nzmax == cap && (T->x != NULL) == vals, "triplet_alloc"); note("triplet %dx%d cap %d vals %d\n", n, m, cap, vals);
	int ri_[400], rj[400]; i64 rx[400]; int nz = 0;
	for (int s = ri(0, 60); s && nz < 390; s--) switch (ri(0, 7)) {
		case 0: { i64 k = coin(1, 2) ? -1 : nz + ri(0, 5); note("realloc %lld\n", (long long)k); spasm_triplet_realloc(T, k); CHECK(T->nzmax == (k < 0 ? nz : k), "capacity %lld", (long long)T->nzmax); break; }
		case 1: { note("transpose\n"); spasm_triplet_transpose(T); for (int k = 0; k < nz; k++) { int t = ri_[k]; ri_[k] = rj[k]; rj[k] = t; } int t = n; n = m; m = t; break; }
		default: { int i = ri(0, 9), j = ri(0, 9); i64 x = coin(1, 4) ? ri(-2, 2) * P : (i64)rnd() >> ri(0, 40); note("add %d %d %lld\n", i, j, (long long)x); spasm_add_entry(T, i, j, x); if (!vals || md(x % P, P)) { ri_[nz] = i; rj[nz] = j; rx[nz] = cn(md(x % P, P), P); nz++; if (i >= n) n = i + 1; if (j >= m) m = j + 1; } }
	}
	CHECK(T->nz == nz && T->nzmax >= nz && T->n == n && T->m == m, "triplet state: nz %lld/%d n %d/%d m %d/%d", (long long)T->nz, nz, T->n, n, T->m, m);
	for (int k = 0; k < nz; k++) { CHECK(T->i[k] == ri_[k] && T->j[k] == rj[k], "entry %d", k); if (vals) CHECK(T->x[k] == rx[k], "value %d", k); }
	spasm_triplet_free(T);
	n = ri(0, 7); m = ri(0, 7); struct spasm_csr *A = gen(n, m, P, 1, 2, 3 | (vals ? 0 : 4)), *B = clone(A); show("A", A); CHECK(spasm_nnz(A) == A->p[n], "nnz");
	for (int s = ri(1, 6); s; s--) {
		i64 nn = spasm_nnz(A);
		if (coin(1, 2)) { i64 k = coin(1, 2) ? -1 : nn + ri(0, 9); note("csr realloc %lld\n", (long long)k); spasm_csr_realloc(A, k); CHECK(A->nzmax == (k < 0 ? nn : k), "capacity"); for (i64 t = nn; t < A->nzmax; t++) { A->j[t] = 0; if (A->x) A->x[t] = 0; } }
		else { int n2 = A->n + ri(0, 3), o = A->n; note("csr resize %d\n", n2); spasm_csr_resize(A, n2, m); CHECK(A->n == n2 && A->m == m, "resize"); for (int i = o + 1; i <= n2; i++) CHECK(A->p[i] == nn, "new row %d is not empty", i); }
		for (int i = 0; i <= B->n; i++) CHECK(A->p[i] == B->p[i], "row pointer"); for (i64 k = 0; k < B->p[B->n]; k++) { CHECK(A->j[k] == B->j[k], "entry lost"); if (A->x) CHECK(A->x[k] == B->x[k], "value lost"); } CHECK((A->x != NULL) == vals, "x");
	}
	if (n > 0) { int n3 = ri(0, n - 1); note("shrink to %d\n", n3); spasm_csr_resize(A, n3, m); CHECK(A->n == n3 && A->p[n3] == B->p[n3], "shrink"); spasm_csr_realloc(A, -1); CHECK(A->nzmax == B->p[n3], "trim"); for (i64 k = 0; k < B->p[n3]; k++) CHECK(A->j[k] == B->j[k], "entry lost"); }
	spasm_csr_free(A); spasm_csr_free(B); spasm_csr_free(NULL);
	struct spasm_dm *D = spasm_dm_alloc(n, m); for (int k = 0; k < n; k++) D->p[k] = k; for (int k = 0; k < m; k++) D->q[k] = k; for (int k = 0; k < n + 6; k++) D->r[k] = k; for (int k = 0; k < m + 6; k++) D->c[k] = k; spasm_dm_free(D);
	char buf[16]; spasm_human_format(rnd() >> ri(1, 63), buf); CHECK(strlen(buf) < 8, "human_format wrote %zu bytes", strlen(buf));
}
