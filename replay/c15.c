#include "ech.h"
static int verdict(const struct spasm_csr *A, const u8 *hash, const struct spasm_rank_certificate *c) {
	int n = A->n, m = A->m, r = c->r; i64 P = A->field->p; if (memcmp(hash, c->hash, 32) || P != c->prime) return 0;
	for (int k = 0; k < r; k++) if (c->i[k] < 0 || c->i[k] >= n || c->j[k] < 0 || c->j[k] >= m) return 0;
	i64 *D = dense(A), *x = newd(1, n); int ok = 1; char *in = calloc(n + 1, 1); spasm_prng_ctx g; spasm_prng_seed(hash, P, 0, &g);
	for (int k = 0; k < r; k++) { x[c->i[k]] = md(c->x[k], P); in[c->i[k]] = 1; }
	i64 *y = dmul(x, D, 1, n, m, P); for (int k = 0; k < r; k++) if (y[c->j[k]] != md(spasm_prng_ZZp(&g), P)) ok = 0;
	for (int k = 0; k < r; k++) x[c->i[k]] = md(c->y[k], P); for (int i = 0; i < n; i++) if (!in[i]) x[i] = md(spasm_prng_ZZp(&g), P);
	free(y); y = dmul(x, D, 1, n, m, P); for (int j = 0; j < m; j++) if (y[j]) ok = 0; free(x); free(y); free(D); free(in); return ok;
}
static int tool(const char *t, const struct spasm_csr *A, const char *mf, const char *cf) {
	FILE *f = fopen(mf, "w"); spasm_csr_save(A, f); fclose(f); char cmd[2048]; snprintf(cmd, sizeof cmd, "%s --modulus %lld --certificate %s < %s > /dev/null 2>&1", t, (long long)A->field->p, cf, mf); int s = system(cmd); return WIFEXITED(s) ? WEXITSTATUS(s) : 255;
}
static void tests(long it) {
	omp_set_num_threads(1);
	i64 P = rprime(); int n = ri(1, 8), m = ri(1, 8); struct spasm_csr *A = genrank(n, m, P); show("A", A);
	struct echelonize_opts o = ro(1); o.complete = 1; struct spasm_lu *f = spasm_echelonize(A, &o); u8 hash[32]; for (int k = 0; k < 32; k++) hash[k] = rnd();
	const char *tl = getenv("CHECK_CERT"), *dir = getenv("H_DIR"); char mf[512], cf[512]; snprintf(mf, sizeof mf, "%s/m.%d", dir ? dir : "/tmp", getpid()); snprintf(cf, sizeof cf, "%s/c.%d", dir ? dir : "/tmp", getpid());
	int usetool = tl && it % 40 == 3;
	if (usetool) { FILE *g = fopen(mf, "w"); spasm_csr_save(A, g); fclose(g); g = fopen(mf, "r"); spasm_triplet_free(spasm_triplet_load(g, P, hash)); fclose(g); }
	struct spasm_rank_certificate *c = spasm_certificate_rank_create(A, hash, f); int r = c->r;
	note("rank %d hash ", r); for (int k = 0; k < 32; k++) note("%02x", hash[k]); note("\n"); showv("i", c->i, r); showv("j", c->j, r); showv("x", c->x, r); showv("y", c->y, r);
	CHECK(r == f->U->n && c->prime == P && !memcmp(c->hash, hash, 32), "header of the certificate"); CHECK(verdict(A, hash, c) == 1, "created certificate does not satisfy the identities"); CHECK(spasm_certificate_rank_verify(A, hash, c), "honest certificate rejected");
	for (int t = 0; t < 10; t++) {
		struct spasm_rank_certificate d = *c; d.i = malloc(4 * r + 4); d.j = malloc(4 * r + 4); d.x = malloc(4 * r + 4); d.y = malloc(4 * r + 4); memcpy(d.i, c->i, 4 * r); memcpy(d.j, c->j, 4 * r); memcpy(d.x, c->x, 4 * r); memcpy(d.y, c->y, 4 * r);
		u8 h2[32]; memcpy(h2, hash, 32); int what = ri(0, 8), k = r ? ri(0, r - 1) : 0; i64 bad[] = {-1, -2147483647 - 1, 2147483647, n, m, 0, n - 1, m - 1};
		switch (what) { case 0: d.hash[ri(0, 31)] ^= 1 << ri(0, 7); break; case 1: d.prime = rprime(); break; case 2: if (r) d.i[k] = bad[ri(0, 7)]; break; case 3: if (r) d.j[k] = bad[ri(0, 7)]; break; case 4: if (r) d.x[k] = rval(P); break; case 5: if (r) d.y[k] = rval(P); break; case 6: h2[ri(0, 31)] ^= 1; break; case 7: if (r) d.r = ri(0, r - 1); break; case 8: { int i = ri(0, n - 1), l = r ? ri(0, r - 1) : 0; if (r) d.i[l] = i; break; } }
		note("corruption %d at %d\n", what, k);
		CHECK(spasm_certificate_rank_verify(A, h2, &d) == verdict(A, h2, &d), "verdict %d, expected %d", spasm_certificate_rank_verify(A, h2, &d), verdict(A, h2, &d));
		if (usetool && what >= 2 && what != 6) { FILE *g = fopen(cf, "w"); spasm_rank_certificate_save(&d, g); fclose(g); int s = tool(tl, A, mf, cf); CHECK((s == 0) == verdict(A, hash, &d), "check_cert exits with %d", s); }
		free(d.i); free(d.j); free(d.x); free(d.y);
	}
	FILE *g = tmpfile(); spasm_rank_certificate_save(c, g); rewind(g); struct spasm_rank_certificate d; memset(&d, 0, sizeof d); CHECK(spasm_rank_certificate_load(g, &d), "load fails"); fclose(g);
	CHECK(d.r == r && d.prime == c->prime && !memcmp(d.hash, c->hash, 32), "header after a round trip"); CHECK(!memcmp(d.i, c->i, 4 * r), "i"); CHECK(!memcmp(d.j, c->j, 4 * r), "j"); CHECK(!memcmp(d.x, c->x, 4 * r), "x"); CHECK(!memcmp(d.y, c->y, 4 * r), "y");
	if (usetool) { FILE *g = fopen(cf, "w"); spasm_rank_certificate_save(c, g); fclose(g); int s = tool(tl, A, mf, cf); CHECK(s == 0, "check_cert exits with %d on an honest certificate", s); unlink(mf); unlink(cf); }
	free(d.i); free(d.j); free(d.x); free(d.y); free(c->i); free(c->j); free(c->x); free(c->y); free(c); spasm_lu_free(f); spasm_csr_free(A);
}
