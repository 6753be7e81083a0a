#include "h.h"
static char adj[64][64];
static int mt[64], vis[64], N, M;
static int aug(int i) { for (int j = 0; j < M; j++) if (adj[i][j] && !vis[j]) { vis[j] = 1; if (mt[j] < 0 || aug(mt[j])) { mt[j] = i; return 1; } } return 0; }
static int maxm(void) { int b = 0; for (int j = 0; j < M; j++) mt[j] = -1; for (int i = 0; i < N; i++) { memset(vis, 0, sizeof vis); b += aug(i); } return b; }
static void load(const struct spasm_csr *A) { memset(adj, 0, sizeof adj); N = A->n; M = A->m; for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) adj[i][A->j[k]] = 1; }
static void tests(long it) {
	(void)it; int n = ri(0, 12); struct spasm_csr *A = gen(n, n, 7, 1, ri(2, 8), 4 | coin(1, 2)); show("A", A); load(A);
	struct spasm_csr *B = clone(A); struct spasm_dm *D = spasm_strongly_connected_components(A); unchanged(A, B, "A"); showv("p", D->p, n); showv("r", D->r, D->nb + 1);
	char R[64][64]; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] = i == j || adj[i][j]; for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (R[i][k] && R[k][j]) R[i][j] = 1;
	CHECK(isperm(D->p, n), "p is not a permutation"); for (int i = 0; i < n; i++) CHECK(D->q[i] == D->p[i], "q differs from p"); CHECK(D->nb >= 0 && D->nb <= n, "nb");
	CHECK(D->r[0] == 0 && D->r[D->nb] == n, "boundaries"); for (int k = 0; k < D->nb; k++) CHECK(D->r[k] < D->r[k + 1], "empty block %d", k); for (int k = 0; k <= D->nb; k++) CHECK(D->c[k] == D->r[k], "c differs from r");
	int blk[64]; for (int k = 0; k < D->nb; k++) for (int i = D->r[k]; i < D->r[k + 1]; i++) blk[i] = k;
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { int a = D->p[i], b = D->p[j]; CHECK((blk[i] == blk[j]) == (R[a][b] && R[b][a]), "blocks are not the components (%d,%d)", a, b); if (adj[a][b]) CHECK(blk[i] <= blk[j], "entry (%d,%d) below the block diagonal", a, b); }
	spasm_dm_free(D); spasm_csr_free(A); spasm_csr_free(B);
	/* Dulmage-Mendelsohn */
	n = ri(0, 10); int m = ri(0, 10); A = gen(n, m, 7, 1, ri(1, 7), 4 | coin(1, 2)); h_nl = 0; show("A", A); load(A); B = clone(A); int best = maxm();
	/* rows / columns missed by some maximum matching, by deletion */
	char un[64], um[64]; for (int i = 0; i < n; i++) { char s[64]; memcpy(s, adj[i], 64); memset(adj[i], 0, 64); un[i] = maxm() == best; memcpy(adj[i], s, 64); }
	for (int j = 0; j < m; j++) { char s[64]; for (int i = 0; i < n; i++) { s[i] = adj[i][j]; adj[i][j] = 0; } um[j] = maxm() == best; for (int i = 0; i < n; i++) adj[i][j] = s[i]; }
	D = spasm_dulmage_mendelsohn(A); unchanged(A, B, "A"); showv("p", D->p, n); showv("q", D->q, m); showv("rr", D->rr, 5); showv("cc", D->cc, 5);
	CHECK(isperm(D->p, n) && isperm(D->q, m), "not permutations"); const int *rr = D->rr, *cc = D->cc;
	CHECK(rr[0] == 0 && cc[0] == 0 && rr[4] == n && cc[4] == m, "coarse boundaries"); for (int k = 0; k < 4; k++) CHECK(rr[k] <= rr[k + 1] && cc[k] <= cc[k + 1], "coarse boundaries decrease");
	CHECK(cc[1] == m - best && rr[4] - rr[3] == n - best, "unmatched parts"); CHECK(rr[1] == cc[2] - cc[1] && rr[2] - rr[1] == cc[3] - cc[2] && rr[3] - rr[2] == cc[4] - cc[3], "matched parts are square");
	for (int i = 0; i < n; i++) CHECK((i >= rr[2]) == un[D->p[i]], "row %d is in the wrong part (R3/R0)", D->p[i]);
	for (int j = 0; j < m; j++) CHECK((j < cc[2]) == um[D->q[j]], "column %d is in the wrong part (C0/C1)", D->q[j]);
	int rp[64], cp[64]; for (int i = 0; i < n; i++) rp[i] = i < rr[1] ? 0 : i < rr[2] ? 1 : 2; for (int j = 0; j < m; j++) cp[j] = j < cc[2] ? 0 : j < cc[3] ? 1 : 2;
	for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) if (adj[D->p[i]][D->q[j]]) CHECK(rp[i] <= cp[j], "entry (%d,%d) below the coarse block diagonal", D->p[i], D->q[j]);
	/* the diagonals of the three square parts hold entries */
	if (rr[2] > rr[1]) {
		showv("r", D->r, D->nb + 1); showv("c", D->c, D->nb + 1); CHECK(D->nb >= 3, "nb");
		CHECK(D->r[0] == 0 && D->c[0] == 0 && D->r[D->nb] == n && D->c[D->nb] == m, "fine boundaries"); for (int k = 0; k < D->nb; k++) CHECK(D->r[k] <= D->r[k + 1] && D->c[k] <= D->c[k + 1], "fine boundaries decrease");
		CHECK(D->r[1] == rr[1] && D->r[D->nb - 1] == rr[2] && D->c[1] == cc[2] && D->c[D->nb - 1] == cc[3], "fine boundaries vs coarse");
		int s = rr[2] - rr[1], b[64]; char Q[64][64]; for (int k = 1; k < D->nb - 1; k++) { CHECK(D->r[k + 1] - D->r[k] == D->c[k + 1] - D->c[k] && D->r[k] < D->r[k + 1], "block %d is not square", k); CHECK(D->r[k] - rr[1] == D->c[k] - cc[2], "block %d is off the diagonal", k); for (int i = D->r[k]; i < D->r[k + 1]; i++) b[i - rr[1]] = k; }
		/* blocks = components of S for the matching on its diagonal.  Any perfect matching gives the same blocks: take one */
		char sv[64][64]; memcpy(sv, adj, sizeof adj); memset(adj, 0, sizeof adj); for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) adj[i][j] = sv[D->p[rr[1] + i]][D->q[cc[2] + j]];
		N = M = s; CHECK(maxm() == s, "S has no perfect matching");
		for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { Q[i][j] = 0; } for (int i = 0; i < s; i++) { Q[i][i] = 1; for (int j = 0; j < s; j++) if (adj[i][j]) Q[i][mt[j]] = 1; }
		for (int k = 0; k < s; k++) for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) if (Q[i][k] && Q[k][j]) Q[i][j] = 1;
		for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) { CHECK((b[i] == b[j]) == (Q[i][j] && Q[j][i]), "fine blocks are not the components"); if (adj[i][j]) CHECK(b[i] <= b[j], "entry below the fine block diagonal"); }
		for (int j = 0; j < s; j++) CHECK(b[mt[j]] == b[j], "fine block without a perfect matching");
	}
	spasm_dm_free(D); spasm_csr_free(A); spasm_csr_free(B);
}
