/* Bounded replay harness: generators, independent dense oracles, failure reporting.  Used only as a stand-in / to look for a
 * concrete failing input when a proof obligation fails; never counted as proof. */
#ifndef H_H
#define H_H
#define _GNU_SOURCE
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <math.h>
#include <sys/wait.h>
#include "spasm.h"
typedef __int128 i128;
static FILE *h_out;
static u64 h_s;
static char h_note[1 << 20];
static size_t h_nl;
static long h_iter; static u64 h_seed; static int h_done; static long h_evals;
static u64 rnd(void) { u64 z = (h_s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static i64 ri(i64 a, i64 b) { return a + (i64)(rnd() % (u64)(b - a + 1)); }       /* inclusive */
static int coin(int num, int den) { return ri(1, den) <= num; }
static void note(const char *f, ...) { va_list ap; va_start(ap, f); if (h_nl < sizeof(h_note) - 4096) h_nl += vsnprintf(h_note + h_nl, 4096, f, ap); va_end(ap); }
static void h_report(const char *what) { fprintf(h_out, "FAILED-CASE seed=%llu iter=%ld : %s\n%s\n", (unsigned long long)h_seed, h_iter, what, h_note); fflush(h_out); }
static void fail(const char *f, ...) { char b[2048]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); h_done = 1; h_report(b); _exit(3); }
#define CHECK(c, ...) do { if (!(c)) fail("check " #c ": " __VA_ARGS__); } while (0)
static void h_sig(int s) { signal(s, SIG_DFL); h_done = 1; h_report(s == SIGALRM ? "no answer within the time limit" : "crash or failed assertion"); _exit(3); }
static void h_exit(void) { if (!h_done) { h_report("the program ended (error exit) on a valid input"); _exit(3); } }
void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void h_death(void) { h_done = 1; h_report("memory error or undefined behaviour (see the sanitizer report)"); }
static void tests(long it);
int main(int argc, char **argv) {
	h_out = fdopen(dup(1), "w");
	h_seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
	double secs = argc > 2 ? atof(argv[2]) : 5;
	long only = argc > 3 ? atol(argv[3]) : -1;
	long maxit = argc > 4 ? atol(argv[4]) : 1000000000L;
	freopen("/dev/null", "w", stdout);
	stderr = fopen("/dev/null", "w");
	signal(SIGABRT, h_sig); signal(SIGALRM, h_sig);
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(h_death); else { signal(SIGSEGV, h_sig); signal(SIGFPE, h_sig); }
	atexit(h_exit);
	struct timespec t0, t; clock_gettime(CLOCK_MONOTONIC, &t0);
	for (h_iter = only >= 0 ? only : 0; h_iter < maxit; h_iter++) {
		h_s = h_seed * 0x1000003ull + h_iter * 0x9E3779B97F4A7C15ull; rnd(); srand(h_seed + h_iter);
		h_nl = 0; h_note[0] = 0; alarm(60);
		tests(h_iter);
		alarm(0); h_evals++;
		clock_gettime(CLOCK_MONOTONIC, &t);
		if (only >= 0 || (t.tv_sec - t0.tv_sec) + 1e-9 * (t.tv_nsec - t0.tv_nsec) > secs) break;
	}
	h_done = 1;
	fprintf(h_out, "OK cases=%ld\n", h_evals); fflush(h_out);
	_exit(0);
}
/* ---------------------------------------------------------------- arithmetic oracle */
static i64 md(i64 x, i64 p) { i64 r = x % p; return r < 0 ? r + p : r; }
static i64 mm(i64 a, i64 b, i64 p) { i64 r = (i64)(((i128)a * b) % p); return r < 0 ? r + p : r; }
static i64 pw(i64 a, i64 e, i64 p) { i64 r = 1 % p; a = md(a, p); while (e) { if (e & 1) r = mm(r, a, p); a = mm(a, a, p); e >>= 1; } return r; }
static i64 inv(i64 a, i64 p) { return pw(a, p - 2, p); }
static int canonical(i64 x, i64 p) { return 2 * x < p && -2 * x < p; }
static i64 cn(i64 x, i64 p) { x = md(x, p); return 2 * x > p ? x - p : x; }
static const i64 H_P[] = {3, 5, 7, 11, 13, 101, 257, 42013, 65537, 189812507, 2147483647, 4294967291};
static i64 rprime(void) { return coin(1, 3) ? H_P[ri(0, 2)] : H_P[ri(0, sizeof(H_P) / sizeof(*H_P) - 1)]; }
static i64 rval(i64 p) { switch (ri(0, 3)) { case 0: return cn(ri(-2, 2), p); case 1: return coin(1, 2) ? (p - 1) / 2 : -(p - 1) / 2; default: return cn((i64)(rnd() >> 1) % p, p); } }
static i64 rnz(i64 p) { for (;;) { i64 x = rval(p); if (x) return x; } }
/* ---------------------------------------------------------------- matrices */
static void show(const char *name, const struct spasm_csr *A) {
	note("%s: %d x %d mod %lld:", name, A->n, A->m, (long long)A->field->p);
	for (int i = 0; i < A->n; i++) { note(" ["); for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { if (A->x) note("%d:%d ", A->j[k], A->x[k]); else note("%d ", A->j[k]); } note("]"); }
	note("\n");
}
static void showv(const char *name, const int *v, int n) { note("%s:", name); for (int i = 0; i < n; i++) note(" %d", v[i]); note("\n"); }
static void wellformed(const struct spasm_csr *A, const char *what) {
	CHECK(A->n >= 0 && A->m >= 0, "%s dimensions", what);
	CHECK(A->p[0] == 0, "%s p[0]", what);
	for (int i = 0; i < A->n; i++) CHECK(A->p[i] <= A->p[i + 1], "%s row pointers decrease at %d", what, i);
	CHECK(A->p[A->n] <= A->nzmax, "%s nzmax", what);
	for (i64 k = 0; k < A->p[A->n]; k++) { CHECK(0 <= A->j[k] && A->j[k] < A->m, "%s column out of range", what); if (A->x) CHECK(canonical(A->x[k], A->field->p), "%s value not canonical (%d)", what, A->x[k]); }
}
/* arbitrary rows; flags: 1 = repeated positions allowed, 2 = stored zeros allowed, 4 = pattern only */
static struct spasm_csr *gen(int n, int m, i64 p, int dnum, int dden, int flags) {
	int cap = n * m * 2 + 1;
	struct spasm_csr *A = spasm_csr_alloc(n, m, cap, p, !(flags & 4));
	i64 nz = 0; A->p[0] = 0;
	int *perm = malloc((m + 1) * sizeof(int));
	for (int i = 0; i < n; i++) {
		for (int j = 0; j < m; j++) { int k = ri(0, j); perm[j] = perm[k]; perm[k] = j; }
		if (!coin(1, 10)) for (int jj = 0; jj < m; jj++) {
			int reps = coin(dnum, dden) ? 1 + ((flags & 1) && coin(1, 8)) : 0;
			while (reps--) { A->j[nz] = perm[jj]; if (A->x) A->x[nz] = (flags & 2) && coin(1, 8) ? 0 : rnz(p); nz++; }
		}
		A->p[i + 1] = nz;
	}
	free(perm);
	spasm_csr_realloc(A, coin(1, 2) ? nz : cap);
	return A;
}
static i64 *newd(int n, int m) { i64 *D = calloc((size_t)n * m + 1, sizeof(i64)); return D; }
static i64 *dense(const struct spasm_csr *A) {
	i64 *D = newd(A->n, A->m), p = A->field->p;
	for (int i = 0; i < A->n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { i64 *d = &D[(i64)i * A->m + A->j[k]]; *d = A->x ? md(*d + A->x[k], p) : 1; }
	return D;
}
static struct spasm_csr *sparse(const i64 *D, int n, int m, i64 p) {
	struct spasm_csr *A = spasm_csr_alloc(n, m, (i64)n * m, p, true); i64 nz = 0; A->p[0] = 0;
	for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) if (D[(i64)i * m + j]) { A->j[nz] = j; A->x[nz++] = cn(D[(i64)i * m + j], p); }
		for (i64 k = A->p[i] + 1; k < nz; k++) { i64 l = ri(A->p[i], k); int tj = A->j[l]; spasm_ZZp tx = A->x[l]; A->j[l] = A->j[k]; A->x[l] = A->x[k]; A->j[k] = tj; A->x[k] = tx; }
		A->p[i + 1] = nz; }
	return A;
}
/* random matrix with a structure: sparse, dense, low rank product, duplicated / zero / scaled rows, no stored zeros, no repeated positions */
static struct spasm_csr *genrank(int n, int m, i64 p) {
	i64 *D = newd(n, m);
	int kind = ri(0, 4), r = ri(0, n < m ? n : m);
	if (kind <= 1) { int d = ri(1, 6); for (int i = 0; i < n * m; i++) D[i] = coin(1, d) ? md(rnz(p), p) : 0; }
	else if (kind == 2) { i64 *B = newd(n, r), *C = newd(r, m); for (int i = 0; i < n * r; i++) B[i] = coin(1, 2) ? md(rval(p), p) : 0; for (int i = 0; i < r * m; i++) C[i] = coin(1, 2) ? md(rval(p), p) : 0;
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < r; k++) D[i * m + j] = md(D[i * m + j] + mm(B[i * r + k], C[k * m + j], p), p); free(B); free(C); }
	else { for (int i = 0; i < n; i++) { if (i && coin(1, 2)) { int k = ri(0, i - 1); i64 c = md(rval(p), p); for (int j = 0; j < m; j++) D[i * m + j] = mm(c, D[k * m + j], p); } else for (int j = 0; j < m; j++) D[i * m + j] = coin(1, 3) ? md(rnz(p), p) : 0; }
		if (kind == 4) for (int j = 1; j < m; j++) if (coin(1, 3)) for (int i = 0; i < n; i++) D[i * m + j] = D[i * m + ri(0, 0)]; }
	struct spasm_csr *A = sparse(D, n, m, p); free(D); return A;
}
/* reduced row echelon form in place (values in [0,p)); returns the rank; piv[k] = column of row k */
static int drref(i64 *D, int n, int m, i64 p, int *piv) {
	int r = 0;
	for (int j = 0; j < m && r < n; j++) {
		int k = r; while (k < n && !D[(i64)k * m + j]) k++;
		if (k == n) continue;
		i64 c = inv(D[(i64)k * m + j], p);
		for (int l = 0; l < m; l++) { i64 t = D[(i64)k * m + l]; D[(i64)k * m + l] = D[(i64)r * m + l]; D[(i64)r * m + l] = mm(c, t, p); }
		for (int i = 0; i < n; i++) if (i != r && D[(i64)i * m + j]) { i64 f = D[(i64)i * m + j]; for (int l = 0; l < m; l++) D[(i64)i * m + l] = md(D[(i64)i * m + l] - mm(f, D[(i64)r * m + l], p), p); }
		if (piv) piv[r] = j;
		r++;
	}
	return r;
}
static i64 *dcopy(const i64 *D, int n, int m) { i64 *E = newd(n, m); memcpy(E, D, sizeof(i64) * n * m); return E; }
static int drank(const i64 *D, int n, int m, i64 p) { i64 *E = dcopy(D, n, m); int r = drref(E, n, m, p, 0); free(E); return r; }
static int same_rowspace(const i64 *A, int na, const i64 *B, int nb, int m, i64 p) {
	i64 *E = newd(na, m), *F = newd(nb, m); memcpy(E, A, sizeof(i64) * na * m); memcpy(F, B, sizeof(i64) * nb * m);
	int ra = drref(E, na, m, p, 0), rb = drref(F, nb, m, p, 0), ok = ra == rb && (ra == 0 || !memcmp(E, F, sizeof(i64) * ra * m));
	free(E); free(F); return ok;
}
static int *rperm(int n) { int *q = malloc((n + 1) * sizeof(int)); for (int j = 0; j < n; j++) { int k = ri(0, j); q[j] = q[k]; q[k] = j; } return q; }
static int isperm(const int *p, int n) { char *s = calloc(n + 1, 1); int ok = 1; for (int i = 0; i < n; i++) { if (p[i] < 0 || p[i] >= n || s[p[i]]) { ok = 0; break; } s[p[i]] = 1; } free(s); return ok; }
static struct spasm_csr *clone(const struct spasm_csr *A) {
	struct spasm_csr *B = spasm_csr_alloc(A->n, A->m, A->nzmax, A->field->p, A->x != NULL);
	memcpy(B->p, A->p, sizeof(i64) * (A->n + 1)); i64 nz = A->p[A->n]; memcpy(B->j, A->j, sizeof(int) * nz); if (A->x) memcpy(B->x, A->x, sizeof(spasm_ZZp) * nz);
	return B;
}
static void unchanged(const struct spasm_csr *A, const struct spasm_csr *B, const char *w) {
	CHECK(A->n == B->n && A->m == B->m && A->nzmax == B->nzmax && A->field->p == B->field->p, "%s header changed", w);
	CHECK(!memcmp(A->p, B->p, sizeof(i64) * (A->n + 1)), "%s row pointers changed", w);
	i64 nz = B->p[B->n];
	CHECK(!memcmp(A->j, B->j, sizeof(int) * nz), "%s columns changed", w); CHECK((A->x == NULL) == (B->x == NULL), "%s values", w);
	if (A->x) CHECK(!memcmp(A->x, B->x, sizeof(spasm_ZZp) * nz), "%s values changed", w);
}
/* random U: r rows of length m, unit pivots, triangular after a column permutation; pivots first in their row when first != 0.
 * qinv filled.  Row i has entries only on columns whose pivot row is > i, or non-pivotal columns */
static struct spasm_csr *genU(int r, int m, i64 p, int first, int *qinv) {
	int *q = rperm(m);
	for (int j = 0; j < m; j++) qinv[j] = -1;
	for (int i = 0; i < r; i++) qinv[q[i]] = i;
	struct spasm_csr *U = spasm_csr_alloc(r, m, (i64)r * m, p, true); i64 nz = 0; U->p[0] = 0; int den = ri(1, 4);
	for (int i = 0; i < r; i++) {
		i64 s = nz;
		U->j[nz] = q[i]; U->x[nz++] = 1;
		for (int k = i + 1; k < m; k++) if (coin(1, den)) { U->j[nz] = q[k]; U->x[nz++] = rnz(p); }
		for (i64 k = s + 1; k < nz; k++) { i64 l = ri(first ? s + 1 : s, k); int tj = U->j[l]; spasm_ZZp tx = U->x[l]; U->j[l] = U->j[k]; U->x[l] = U->x[k]; U->j[k] = tj; U->x[k] = tx; }
		U->p[i + 1] = nz;
	}
	free(q); return U;
}
/* same but rows stored in an arbitrary order (row pivots not in elimination order) */
static struct spasm_csr *genUshuf(int r, int m, i64 p, int first, int *qinv) {
	struct spasm_csr *U = genU(r, m, p, first, qinv); int *s = rperm(r), *si = malloc((r + 1) * sizeof(int));
	struct spasm_csr *V = spasm_csr_alloc(r, m, U->p[r], p, true); i64 nz = 0;
	for (int i = 0; i < r; i++) { si[s[i]] = i; for (i64 k = U->p[s[i]]; k < U->p[s[i] + 1]; k++) { V->j[nz] = U->j[k]; V->x[nz++] = U->x[k]; } V->p[i + 1] = nz; }
	for (int j = 0; j < m; j++) if (qinv[j] >= 0) qinv[j] = si[qinv[j]];
	free(s); free(si); spasm_csr_free(U); return V;
}
/* random L: n x r, column j has a nonzero "diagonal" entry on row p[j]; other entries of row p[j] on columns < j */
static struct spasm_csr *genL(int n, int r, i64 pr, int *p) {
	int *q = rperm(n), *col = malloc((n + 1) * sizeof(int));
	for (int i = 0; i < n; i++) col[i] = -1;
	for (int j = 0; j < r; j++) { p[j] = q[j]; col[q[j]] = j; }
	struct spasm_csr *L = spasm_csr_alloc(n, r, (i64)n * r, pr, true); i64 nz = 0; L->p[0] = 0; int den = ri(1, 4);
	for (int i = 0; i < n; i++) {
		i64 s = nz; int top = col[i] >= 0 ? col[i] : r;
		for (int k = 0; k < top; k++) if (coin(1, den)) { L->j[nz] = k; L->x[nz++] = rnz(pr); }
		if (col[i] >= 0) { L->j[nz] = col[i]; L->x[nz++] = rnz(pr); }
		for (i64 k = s + 1; k < nz; k++) { i64 l = ri(s, k); int tj = L->j[l]; spasm_ZZp tx = L->x[l]; L->j[l] = L->j[k]; L->x[l] = L->x[k]; L->j[k] = tj; L->x[k] = tx; }
		L->p[i + 1] = nz;
	}
	free(q); free(col); return L;
}
static i64 *dmul(const i64 *A, const i64 *B, int n, int k, int m, i64 p) { i64 *C = newd(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int l = 0; l < k; l++) C[i * m + j] = md(C[i * m + j] + mm(A[i * k + l], B[l * m + j], p), p); return C; }
static void showlu(struct spasm_lu *f) { show("U", f->U); if (f->L) show("L", f->L); }
#endif
