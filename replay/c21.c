#include "h.h"
#include "sharef.h"
static void loadcheck(FILE *f, i64 P, int n, int m, const i64 *D, const char *w, int vals, int dims) {
	rewind(f); fseek(f, 0, SEEK_END); long len = ftell(f); rewind(f); u8 *b = malloc(len + 1), h[32], r[32]; if (fread(b, 1, len, f) != (size_t)len) abort(); b[len] = 0; note("%s: file <<%.*s>>\n", w, (int)(len < 1500 ? len : 1500), b); rewind(f); memset(h, 0, 32);
	struct spasm_triplet *T = spasm_triplet_load(f, vals ? P : -1, coin(2, 3) ? h : NULL); int anyh = 0; for (int k = 0; k < 32; k++) anyh |= h[k]; sha_ref(b, len, r); if (anyh) CHECK(!memcmp(h, r, 32), "%s: hash", w);
	if (dims) CHECK(T->n == n && T->m == m, "%s: dimensions %d x %d, expected %d x %d", w, T->n, T->m, n, m); CHECK(T->nz <= T->nzmax && (T->x != NULL) == vals, "%s: triplet", w); i64 *E = newd(n, m);
	for (i64 k = 0; k < T->nz; k++) { CHECK(0 <= T->i[k] && T->i[k] < n && 0 <= T->j[k] && T->j[k] < m, "%s: index", w); i64 *e = &E[T->i[k] * m + T->j[k]]; if (vals) { CHECK(canonical(T->x[k], P), "%s: not canonical", w); *e = md(*e + T->x[k], P); } else *e = 1; }
	for (int k = 0; k < n * m; k++) CHECK(E[k] == D[k], "%s: entry (%d,%d) is %lld, expected %lld", w, k / m, k % m, (long long)E[k], (long long)D[k]); free(E); free(b); spasm_triplet_free(T); fclose(f);
}
static int rejects(const char *txt, i64 P) {      /* in a child: must end with a nonzero status */
	fflush(0); pid_t c = fork(); if (!c) { h_done = 1; signal(SIGABRT, SIG_DFL); alarm(20); FILE *f = fmemopen((void *)txt, strlen(txt), "r"); if (!f) _exit(77); spasm_triplet_load(f, P, NULL); _exit(0); } int st; waitpid(c, &st, 0); return !WIFEXITED(st) ? 2 : WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 77 ? 77 : WEXITSTATUS(st) == 1 ? 1 : 2;
}
static void tests(long it) {
	i64 P = rprime(); int n = ri(0, 7), m = ri(0, 7); struct spasm_csr *A = gen(n, m, P, 1, ri(1, 5), 1 | (coin(1, 5) ? 4 : 0)); show("A", A);
	i64 *D = newd(n, m); for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) D[i * m + A->j[k]] = md(D[i * m + A->j[k]] + (A->x ? A->x[k] : 1), P);
	FILE *f = tmpfile(); spasm_csr_save(A, f); loadcheck(f, P, n, m, D, "csr_save", 1, 1);
	int pat = coin(1, 5); struct spasm_triplet *T = spasm_triplet_alloc(n, m, A->p[n], P, A->x != NULL && !pat); i64 *DT = newd(n, m), *D1 = newd(n, m);
	for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { T->i[T->nz] = i; T->j[T->nz] = A->j[k]; if (T->x) T->x[T->nz] = A->x[k]; i64 *e = &DT[i * m + A->j[k]]; *e = md(*e + (T->x ? A->x[k] : 1), P); D1[i * m + A->j[k]] = 1; T->nz++; }
	f = tmpfile(); spasm_triplet_save(T, f); loadcheck(f, P, n, m, DT, "triplet_save", 1, 1);
	f = tmpfile(); spasm_triplet_save(T, f); loadcheck(f, P, n, m, D1, "pattern load", 0, 1);
	/* SMS and MatrixMarket text with arbitrary 64-bit values */
	for (int mmf = 0; mmf < 2; mmf++) {
		f = tmpfile(); memset(DT, 0, sizeof(i64) * n * m); int nz = n && m ? ri(0, 12) : 0;
		if (mmf) { fprintf(f, coin(1, 2) ? "%%%%MatrixMarket matrix coordinate integer general\n" : "%%%%MatrixMarket MATRIX Coordinate Integer General\n"); for (int k = ri(0, 2); k; k--) fprintf(f, "%% comment %d\n", k); fprintf(f, "%d %d %d\n", n, m, nz); } else fprintf(f, "%d %d M\n", n, m);
		for (int k = 0; k < nz; k++) { int i = ri(0, n - 1), j = ri(0, m - 1); i64 x = coin(1, 3) ? (i64)rnd() : coin(1, 2) ? ri(-9, 9) : ri(-3, 3) * P; if (coin(1, 50)) x = INT64_MIN; fprintf(f, coin(1, 3) ? "  %d   %d  %lld \n" : "%d %d %lld\n", i + 1, j + 1, (long long)x); DT[i * m + j] = md(DT[i * m + j] + md(x % P, P), P); }
		if (!mmf) fprintf(f, "0 0 0\n"); loadcheck(f, P, n, m, DT, mmf ? "MatrixMarket" : "SMS", 1, 1);
	}
	if (it % 8 == 1) {
		static const char *bad[] = {"", "hello\n", "2 2 R\n0 0 0\n", "2 2 M\n1 1 1\n", "2 2 M\n1 1\n0 0 0\n", "2 2 M\n1 x 1\n0 0 0\n", "%%MatrixMarket matrix coordinate real general\n2 2 1\n1 1 1\n", "%%MatrixMarket matrix array integer general\n2 2 1\n1 1 1\n", "%%MatrixMarket matrix coordinate integer symmetric\n2 2 1\n1 1 1\n", "%%MatrixMarket vector coordinate integer general\n2 2 1\n1 1 1\n", "%%MatrixMarket matrix coordinate integer general\n2 2 2\n1 1 1\n", "%%MatrixMarket matrix coordinate integer general\n2 2 2\n1 1 1\n0 0 0\n", "%%MatrixMarket matrix coordinate integer general\n2 2\n", "%%MatrixMarket matrix coordinate integer general\n% c\n", "%%MatrixMarket matrix\n", "2 2\n"};
		for (unsigned k = 1; k < sizeof bad / sizeof *bad; k++) { note("malformed <<%s>>\n", bad[k]); CHECK(rejects(bad[k], P) == 1, "malformed file is not rejected with an error exit"); }
	}
	free(D); free(DT); free(D1); spasm_csr_free(A); spasm_triplet_free(T);
}
