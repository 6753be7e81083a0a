#include "h.h"
static int n, m; static char adj[64][64]; static int mt[64], vis[64];
static int aug(int i) { for (int j = 0; j < m; j++) if (adj[i][j] && !vis[j]) { vis[j] = 1; if (mt[j] < 0 || aug(mt[j])) { mt[j] = i; return 1; } } return 0; }
static void tests(long it) {
	(void)it; n = ri(0, 14); m = ri(0, 14); i64 P = rprime();
	struct spasm_csr *A = gen(n, m, P, 1, ri(1, 6), 3 | (coin(1, 2) ? 4 : 0)), *B = clone(A); show("A", A);
	memset(adj, 0, sizeof adj); for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) adj[i][A->j[k]] = 1;
	int *jm = malloc(4 * n + 4), *im = malloc(4 * m + 4); int k = spasm_maximum_matching(A, jm, im); unchanged(A, B, "A"); showv("jmatch", jm, n); showv("imatch", im, m);
	int best = 0; for (int j = 0; j < m; j++) mt[j] = -1; for (int i = 0; i < n; i++) { memset(vis, 0, sizeof vis); best += aug(i); }
	CHECK(k == best, "size %d, maximum %d", k, best); int c = 0;
	for (int i = 0; i < n; i++) { CHECK(jm[i] >= -1 && jm[i] < m, "range"); if (jm[i] >= 0) { c++; CHECK(adj[i][jm[i]], "(%d,%d) is not an entry", i, jm[i]); CHECK(im[jm[i]] == i, "maps are not inverse"); } }
	for (int j = 0; j < m; j++) { CHECK(im[j] >= -1 && im[j] < n, "range"); if (im[j] >= 0) CHECK(jm[im[j]] == j, "maps are not inverse"); } CHECK(c == k, "returned size %d, matched %d", k, c);
	int *p = rperm(n), *q = rperm(m), *pi = spasm_pinv(p, n), *qi = spasm_pinv(q, m); showv("p", p, n); showv("q", q, m);
	int *a = spasm_permute_row_matching(n, jm, p, qi), *b = spasm_permute_column_matching(m, im, pi, q);
	for (int i = 0; i < n; i++) CHECK(a[i] == (jm[p[i]] < 0 ? -1 : qi[jm[p[i]]]), "permuted row matching at %d", i);
	for (int j = 0; j < m; j++) CHECK(b[j] == (im[q[j]] < 0 ? -1 : pi[im[q[j]]]), "permuted column matching at %d", j);
	int x = ri(0, n), y = ri(x, n), lo = m, hi = 0; for (int i = x; i < y; i++) if (jm[i] >= 0) { if (jm[i] < lo) lo = jm[i]; if (jm[i] + 1 > hi) hi = jm[i] + 1; }
	if (lo > hi) lo = hi; int *s = spasm_submatching(jm, x, y, lo, hi); for (int i = x; i < y; i++) CHECK(s[i - x] == (jm[i] < 0 ? -1 : jm[i] - lo), "submatching at %d", i);
	free(p); free(q); free(pi); free(qi); free(a); free(b); free(s); free(jm); free(im); spasm_csr_free(A); spasm_csr_free(B);
}
