#include "h.h"
static double rdd(void *S, i64 i, spasm_datatype t) { return t == SPASM_DOUBLE ? ((double *)S)[i] : t == SPASM_FLOAT ? ((float *)S)[i] : (double)((i64 *)S)[i]; }
static void tests(long it) {
	omp_set_num_threads(1 + it % 3);
	i64 P = coin(1, 3) ? 2147483647 : rprime(); int m = ri(1, 9), r = ri(0, m), n = ri(0, 7), norig = n + ri(0, 4), mode = ri(0, 2);
	struct spasm_lu f; memset(&f, 0, sizeof f); f.qinv = malloc(4 * m + 4);
	f.U = mode == 2 ? genU(r, m, P, 1, f.qinv) : genUshuf(r, m, P, coin(1, 2), f.qinv);
	struct spasm_csr *A = gen(n, m, P, 1, ri(1, 4), coin(1, 3) ? 3 : 0); show("U", f.U); show("A", A); showv("qinv", f.qinv, m);
	int *sel = rperm(n), k = ri(0, n), *orig = rperm(norig), *p_in = coin(1, 2) ? orig : NULL, *p_out = malloc(4 * n + 4); showv("selected rows", sel, k); note("mode %d\n", mode);
	i64 *DA = dense(A), *DU = dense(f.U);
	/* exact remainders and coefficients */
	i64 *R = newd(n, m); for (int i = 0; i < n; i++) { memcpy(R + i * m, DA + i * m, 8 * m); for (int ch = 1, g = 0; ch && g < 100; g++) { ch = 0; for (int j = 0; j < m; j++) if (f.qinv[j] >= 0 && R[i * m + j]) { ch = 1; i64 c = R[i * m + j]; for (int l = 0; l < m; l++) R[i * m + l] = md(R[i * m + l] - mm(c, DU[f.qinv[j] * m + l], P), P); } } }
	struct spasm_triplet *L = coin(2, 3) ? spasm_triplet_alloc(norig, r, ri(0, 3), P, true) : NULL; int l0 = 0;
	if (L && coin(1, 3) && r) { spasm_add_entry(L, 0, 0, 1); l0 = L->nz; }
	double est = spasm_schur_estimate_density(A, sel, k, f.U, f.qinv, ri(1, 20)); CHECK(est >= 0 && est <= 1, "estimated density %f", est);
	if (mode == 0) {
		f.Ltmp = NULL; struct spasm_csr *S = spasm_schur(A, sel, k, &f, coin(1, 3) ? -1 : ri(0, 100) / 100.0, L, p_in, p_out);
		wellformed(S, "S"); CHECK(S->n == k && S->m == m, "dimensions"); i64 *DS = dense(S), *acc = newd(k, m); char *used = calloc(n + 1, 1);
		for (int i = 0; i < k; i++) {
			int row = -1; for (int t = 0; t < k; t++) if ((p_in ? p_in[sel[t]] : sel[t]) == p_out[i]) row = sel[t];
			CHECK(row >= 0 && !used[row], "row %d of S: bad origin %d", i, p_out[i]); used[row] = 1;
			memcpy(acc + i * m, DS + i * m, 8 * m);
			for (i64 q = S->p[i]; q < S->p[i + 1]; q++) CHECK(f.qinv[S->j[q]] < 0 && S->x[q] != 0, "entry on a pivotal column or stored zero in row %d", i);
			for (int j = 0; j < m; j++) CHECK(DS[i * m + j] == R[row * m + j], "S row %d differs from the remainder of row %d in column %d", i, row, j);
			if (L) { for (i64 q = l0; q < L->nz; q++) if (L->i[q] == p_out[i]) { CHECK(L->j[q] >= 0 && L->j[q] < r, "L column"); for (int j = 0; j < m; j++) acc[i * m + j] = md(acc[i * m + j] + mm(md(L->x[q], P), DU[L->j[q] * m + j], P), P); }
				for (int j = 0; j < m; j++) CHECK(acc[i * m + j] == DA[row * m + j], "coefficients of row %d do not rebuild row %d of A (column %d)", i, row, j); }
		}
		if (L) for (i64 q = 0; q < L->nz; q++) CHECK(L->x[q] != 0 && canonical(L->x[q], P), "value in L");
		free(DS); free(acc); free(used); spasm_csr_free(S);
	} else if (mode == 1) {
		f.Ltmp = L; int Sm = m - r; spasm_datatype t = P < 8192 ? ri(0, 2) : P < 189812508 ? (coin(1, 2) ? SPASM_DOUBLE : SPASM_I64) : (coin(1, 2) ? SPASM_I64 : SPASM_DOUBLE);
		void *S = malloc((i64)k * Sm * 8 + 8); int *q = malloc(4 * Sm + 4);
		spasm_schur_dense(A, sel, k, p_in, &f, S, t, q, p_out);
		int c = 0; for (int j = 0; j < m; j++) if (f.qinv[j] < 0) { CHECK(q[c] == j, "q[%d] = %d", c, q[c]); c++; }
		for (int i = 0; i < k; i++) {
			CHECK(p_out[i] == (p_in ? p_in[sel[i]] : sel[i]), "origin of row %d", i);
			for (c = 0; c < Sm; c++) CHECK(rdd(S, (i64)i * Sm + c, t) == (double)cn(R[sel[i] * m + q[c]], P), "S[%d][%d] = %f, expected %lld (type %d)", i, c, rdd(S, (i64)i * Sm + c, t), (long long)cn(R[sel[i] * m + q[c]], P), t);
			if (L) for (int j = 0; j < m; j++) { i64 s = f.qinv[j] < 0 ? R[sel[i] * m + j] : 0; for (i64 e = l0; e < L->nz; e++) if (L->i[e] == p_out[i]) s = md(s + mm(md(L->x[e], P), DU[L->j[e] * m + j], P), P); CHECK(s == DA[sel[i] * m + j], "coefficients of row %d (column %d)", i, j); }
		}
		free(S); free(q);
	} else if (k > 0) {
		int Sm = m - r, N = ri(0, 6), w = coin(1, 2) ? 0 : ri(1, 4); spasm_datatype t = P < 8192 ? ri(0, 2) : SPASM_I64; void *S = malloc((i64)N * Sm * 8 + 8); int *q = malloc(4 * Sm + 4);
		spasm_schur_dense_randomized(A, sel, k, f.U, f.qinv, S, t, q, N, w);
		i64 *E = newd(k, m); for (int i = 0; i < k; i++) memcpy(E + i * m, R + sel[i] * m, 8 * m); int rk = drank(E, k, m, P);
		i64 *G = newd(k + N, m); memcpy(G, E, 8 * k * m); for (int i = 0; i < N; i++) for (int c = 0; c < Sm; c++) { double v = rdd(S, (i64)i * Sm + c, t); CHECK(canonical((i64)v, P) && v == floor(v), "not canonical"); CHECK(f.qinv[q[c]] < 0, "q"); G[(k + i) * m + q[c]] = md((i64)v, P); }
		CHECK(drank(G, k + N, m, P) == rk, "a random combination is outside the span of the Schur complement");
		if (P > 2000000000 && w == 0 && N >= rk) CHECK(drank(G + k * m, N, m, P) == rk, "random combinations do not span: rank %d of %d", drank(G + k * m, N, m, P), rk);
		free(E); free(G); free(S); free(q);
	}
	free(R); free(DA); free(DU); free(sel); free(orig); free(p_out); free(f.qinv); spasm_csr_free(f.U); spasm_csr_free(A); if (L) spasm_triplet_free(L);
}
