From 6a7923b7940e992b5578141bf3ca2f50409c5d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:20 +0000
Subject: [PATCH 01/20] fix: remove_explicit_zeroes keeps scanning from the
 original row start

Ap[i + 1] was overwritten with the compacted position before row i + 1 was
scanned, so stale entries of the previous row leaked into the next one.
---
 src/spasm_triplet.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 9c1cb58..91fe268 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -42,8 +42,11 @@ static void remove_explicit_zeroes(struct spasm_csr *A)
 	if (Ax == NULL)
 		return;
 	i64 nz = 0;
+	i64 next = 0;                  /* start of the next row, before it is moved */
 	for (int i = 0; i < n; i++) {
-		for (i64 it = Ap[i]; it < Ap[i + 1]; it++) {
+		i64 start = next;
+		next = Ap[i + 1];
+		for (i64 it = start; it < next; it++) {
 			int j = Aj[it];
 			spasm_ZZp x = Ax[it];
 			if (x == 0)
-- 
2.43.0


From 1ce155bc32896a402f3d8ecb4776f5a82a7fed55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 02/20] fix: spasm_rank_certificate_load reads the column
 indices into proof->j

The second index list was read over proof->i, so a loaded certificate had
its columns in place of its rows and uninitialised columns.
---
 src/spasm_certificate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index c5aa5ae..366388d 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -262,7 +262,7 @@ bool spasm_rank_certificate_load(FILE *f, struct spasm_rank_certificate *proof)
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->i[k]);
 	for (int k = 0; k < r; k++)
-		fscanf(f, "%d", &proof->i[k]);
+		fscanf(f, "%d", &proof->j[k]);
 	for (int k = 0; k < r; k++)
 		fscanf(f, "%d", &proof->x[k]);
 	for (int k = 0; k < r; k++)
-- 
2.43.0


From c865d1d8720d7ab04e79a36715b1c0115101be30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 03/20] fix: check_cert reports the verifier's verdict

The message was inverted and the exit status was 1 for accepted
certificates; an unreadable certificate was passed on to the verifier.
---
 tools/check_cert.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tools/check_cert.c b/tools/check_cert.c
index 2f6d717..c38403d 100644
--- a/tools/check_cert.c
+++ b/tools/check_cert.c
@@ -70,13 +70,12 @@ int main(int argc, char **argv)
 	/* load certificate */
 	FILE *f = open_input(args.cert_file);
 	struct spasm_rank_certificate proof;
-	spasm_rank_certificate_load(f, &proof);
+	bool correct = spasm_rank_certificate_load(f, &proof)
+		&& spasm_certificate_rank_verify(A, hash, &proof);
 
-	bool correct = spasm_certificate_rank_verify(A, hash, &proof);
-	
-	if (!correct)
+	if (correct)
 		fprintf(stderr, "CORRECT certificate\n");
 	else
-		fprintf(stderr, "INCORRECT certificate\n");	
-	return correct;
+		fprintf(stderr, "INCORRECT certificate\n");
+	return correct ? EXIT_SUCCESS : EXIT_FAILURE;
 }
\ No newline at end of file
-- 
2.43.0


From 005cef18b67b43ca1d2bf77e2ad11d05f3877360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 04/20] fix: spasm_kernel_from_rref stores the canonical
 representative of -1

prime - 1 is outside the balanced range (and outside int for primes above
2^31): products with it were wrong.
---
 src/spasm_kernel.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 7bc4a06..71ba2a9 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -160,7 +160,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 		if (qinv[j] >= 0)
 			continue;           /* skip pivotal columns of R */
 		Kj[nnz] = j;
-		Kx[nnz] = prime - 1;
+		Kx[nnz] = -1;
 		nnz += 1;
 		for (i64 px = Rtp[j]; px < Rtp[j + 1]; px++) {
 			int i = Rtj[px];
-- 
2.43.0


From 87d05e1abb849f5901348a4f408f1ef1bb5d95c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:42 +0000
Subject: [PATCH 05/20] fix: row pointers are not truncated to int in
 kernel_from_rref and rref

---
 src/spasm_kernel.c | 2 +-
 src/spasm_rref.c   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_kernel.c b/src/spasm_kernel.c
index 71ba2a9..00c105f 100644
--- a/src/spasm_kernel.c
+++ b/src/spasm_kernel.c
@@ -146,7 +146,7 @@ struct spasm_csr * spasm_kernel_from_rref(const struct spasm_csr *R, const int *
 	const i64 *Rp = R->p;
 	const int *Rj = R->j;
 	for (int i = 0; i < n; i++) {
-		int px = Rp[i];
+		i64 px = Rp[i];
 		int j = Rj[px];
 		p[i] = j;
 	}
diff --git a/src/spasm_rref.c b/src/spasm_rref.c
index 21d7b9f..5c19ae7 100644
--- a/src/spasm_rref.c
+++ b/src/spasm_rref.c
@@ -134,7 +134,7 @@ struct spasm_csr * spasm_rref(const struct spasm_lu *fact, int *Rqinv)
 
 		#pragma omp for
 		for (int i = 0; i < n; i++) {
-			int px = Rp[i];
+			i64 px = Rp[i];
 			int j = Rj[px];
 			Rqinv[j] = i;
 		}
-- 
2.43.0


From 67e3380c4e7113829b7c35f2af442ec4b2bc717e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 06/20] fix: GPLU does not stop before the rank is reached

A may be a Schur complement with fewer rows than the pivots already in U;
the bound on the final rank is the current rank plus the remaining rows.
---
 src/spasm_echelonize.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 8c0778c..9de19fe 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -56,7 +56,7 @@ static void echelonize_GPLU(const struct spasm_csr *A, const int *p, int n, cons
 	(void) opts;
 	assert(p != NULL);
 	int m = A->m;
-	int r = spasm_min(A->n, m);  /* upper-bound on rank */
+	int r = spasm_min(fact->U->n + n, m);  /* upper-bound on rank */
 	int verbose_step = spasm_max(1, n / 1000);
 	fprintf(stderr, "[echelonize/GPLU] processing matrix of dimension %d x %d\n", n, m);
 	
-- 
2.43.0


From d90b3679a08c4ca7b1bc575fceaeb64fd9302c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 07/20] fix: echelonize_dense bounds the remaining rank by the
 unprocessed rows

A->n - U->n is unrelated to them when A is a Schur complement: remaining
rows were dropped when switching to low-rank mode.
---
 src/spasm_echelonize.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 9de19fe..f0f4c3f 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -407,7 +407,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	fprintf(stderr, "[echelonize/dense] processing dense schur complement of dimension %d x %d; block size=%d, type %s\n", 
 		n, Sm, opts->dense_block_size, spasm_datatype_name(datatype));
 	bool lowrank_mode = 0;
-	int rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+	int rank_ub = spasm_min(n, A->m - U->n);
 
 	for (;;) {
 		/* compute a chunk of the schur complement, then echelonize with FFPACK */
@@ -436,7 +436,7 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 		processed += Sn;
 		p += Sn;
 		Sm = m - U->n;
-		rank_ub = spasm_min(A->n - U->n, A->m - U->n);
+		rank_ub = spasm_min(n - processed, A->m - U->n);
 		fprintf(stderr, "[echelonize/dense] found %d new pivots\n", rr);
 
 		/* 
-- 
2.43.0


From a707848e7b1378805d8c7aa34210f766e69ac6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 08/20] fix: the pivotal flags of echelonize_dense cover all
 rows of the input matrix

They are indexed by original row numbers, but had only as many entries as
the current Schur complement has rows (heap overflow).
---
 src/spasm_echelonize.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index f0f4c3f..5c4cae0 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -396,8 +396,9 @@ static void echelonize_dense(const struct spasm_csr *A, const int *p, int n, con
 	int *q = spasm_malloc(Sm * sizeof(*q));
 	size_t *Sqinv = spasm_malloc(Sm * sizeof(*Sqinv));                   /* for FFPACK */
 	size_t *Sp = spasm_malloc(opts->dense_block_size * sizeof(*Sp));     /* for FFPACK / LU only */
-	bool *pivotal = spasm_malloc(A->n * sizeof(*pivotal));
-	for (int i = 0; i < A->n; i++)
+	int Ln = (fact->Ltmp != NULL) ? fact->Ltmp->n : 0;                   /* #rows of the original matrix */
+	bool *pivotal = spasm_malloc(Ln * sizeof(*pivotal));
+	for (int i = 0; i < Ln; i++)
 		pivotal[i] = 0;
 
 	int processed = 0;
-- 
2.43.0


From 89c375a924413568aa7927ffafa912a33c0b7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 09/20] fix: the low-rank mode keeps sampling all remaining
 rows

Shrinking n after each round dropped the last rows of the matrix, not the
redundant ones, so that pivots could be missed.
---
 src/spasm_echelonize.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 5c4cae0..03d7a00 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -366,7 +366,6 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 			fprintf(stderr, "[echelonize/dense/low-rank] Not enough pivots, increasing weight to %d\n", w);
 		}
 		update_U_after_rref(rr, Sm, S, datatype, Sp, q, fact);
-		n -= rr;
 		Sm -= rr;
 		rank_ub -= rr;
 		round += 1;
-- 
2.43.0


From c63fa53449d2e8d3c4d8504c52fd5c07c44b1501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 10/20] fix: spasm_schur_estimate_density returns 0 when every
 column is pivotal

0 / 0 gave a NaN that callers convert to an integer.
---
 src/spasm_schur.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 80b3423..00d8fab 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -10,11 +10,9 @@
  */
 double spasm_schur_estimate_density(const struct spasm_csr *A, const int *p, int n, const struct spasm_csr *U, const int *qinv, int R)
 {
-	if (n == 0)
-		return 0;
 	int m = A->m;
 	i64 nnz = 0;
-	if (n == 0)
+	if (n == 0 || U->n == m)
 		return 0;
 
 	#pragma omp parallel
-- 
2.43.0


From 0bd465921fafcc665e462f3b3ec719fe9c6d330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 11/20] fix: echelonize_dense_lowrank with no remaining rank

The starting weight was computed with a division by zero.
---
 src/spasm_echelonize.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spasm_echelonize.c b/src/spasm_echelonize.c
index 03d7a00..93c73a6 100644
--- a/src/spasm_echelonize.c
+++ b/src/spasm_echelonize.c
@@ -342,6 +342,12 @@ static void echelonize_dense_lowrank(const struct spasm_csr *A, const int *p, in
 	 * - this is approximately w >= log 0.01 * n / rank_ub
 	 */
 	int rank_ub = spasm_min(n, Sm);
+	if (rank_ub == 0) {       /* nothing left to find */
+		free(S);
+		free(q);
+		free(Sp);
+		return;
+	}
 	int w = (opts->low_rank_start_weight < 0) ? ceil(-log(0.01) * n / rank_ub) : opts->low_rank_start_weight;
 
 	for (;;) {
-- 
2.43.0


From 355a271854731d610872eaf210453a772d8feb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 12/20] fix: spasm_compress counts entries with a 64-bit index

---
 src/spasm_triplet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index 91fe268..cac5cad 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -124,7 +124,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 	spasm_ZZp *Cx = C->x;
 
 	/* compute row counts */
-	for (int it = 0; it < nz; it++) {
+	for (i64 it = 0; it < nz; it++) {
 		int i = Ti[it];
 		assert(i < n);
 		w[i] += 1;
-- 
2.43.0


From e14f375ea5a504d154cdaa2e4a3fbc7fce523291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:28 +0000
Subject: [PATCH 13/20] fix: spasm_submatrix does not truncate the entry count
 to int

---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 78bd92f..9350d82 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -14,7 +14,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 
 	int Bn = spasm_max(0, r_1 - r_0);
 	int Bm = spasm_max(0, c_1 - c_0);
-	i64 Bnz = spasm_max(0, Ap[r_1] - Ap[r_0]);
+	i64 Bnz = (r_1 > r_0) ? Ap[r_1] - Ap[r_0] : 0;
 	struct spasm_csr *B = spasm_csr_alloc(Bn, Bm, Bnz, prime, (A->x != NULL) && with_values);
 	i64 *Bp = B->p;
 	int *Bj = B->j;
-- 
2.43.0


From 239dd5addcc3d071740a727e0e4d6e5573119819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 14/20] fix: MatrixMarket files without entries can be loaded

The end of the entry list was only detected after reading an entry, so an
empty matrix was rejected as truncated.
---
 src/spasm_io.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_io.c b/src/spasm_io.c
index 162470d..8593b7d 100644
--- a/src/spasm_io.c
+++ b/src/spasm_io.c
@@ -111,7 +111,7 @@ struct spasm_triplet *spasm_triplet_load(FILE * f, i64 prime, u8 *hash)
 	struct spasm_triplet *T = spasm_triplet_alloc(i, j, nnz, prime, prime != -1);
 
 	i64 x;
-	bool end = 0;
+	bool end = mm && (nnz == 0);
 	i64 entries = 0;
 	for (;;) { 
 		line += 1;
-- 
2.43.0


From 0feafafdab7f7c6bb15cd4e3299436dcc217b0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 15/20] fix: spasm_realloc to zero bytes keeps the block, and
 failures are reported

Trimming a matrix without entries turned its arrays into NULL, so that a
matrix with values became a pattern; a failed realloc(NULL, n) went unnoticed.
---
 src/spasm_util.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 5ac2909..63ce413 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -80,8 +80,8 @@ void *spasm_calloc(i64 count, i64 size)
 
 void *spasm_realloc(void *ptr, i64 size)
 {
-	void *x = realloc(ptr, size);
-	if (ptr != NULL && x == NULL && size != 0)
+	void *x = realloc(ptr, (size != 0) ? size : 1);   /* realloc(ptr, 0) could free the block */
+	if (x == NULL)
 		err(1, "realloc failed");
 	return x;
 }
-- 
2.43.0


From 36b70dcebf3918f0a1b96e0cff46d1b0b769abaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 16/20] fix: spasm_human_format always writes its target

---
 src/spasm_util.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spasm_util.c b/src/spasm_util.c
index 63ce413..d5c9412 100644
--- a/src/spasm_util.c
+++ b/src/spasm_util.c
@@ -60,6 +60,7 @@ void spasm_human_format(i64 n, char *target)
 		snprintf(target, 8, "%.1ft", n / 1e12);
 		return;
 	}
+	snprintf(target, 8, "%.1fp", n / 1e15);
 }
 
 void *spasm_malloc(i64 size)
-- 
2.43.0


From f48d4199797cb9419400e96d9acee3c87536237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:11 +0000
Subject: [PATCH 17/20] fix: the size reported by spasm_compress does not
 overflow an int

---
 src/spasm_triplet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_triplet.c b/src/spasm_triplet.c
index cac5cad..a6eb1b7 100644
--- a/src/spasm_triplet.c
+++ b/src/spasm_triplet.c
@@ -154,7 +154,7 @@ struct spasm_csr *spasm_compress(const struct spasm_triplet * T)
 
 	/* success; free w and return C */
 	char mem[16];
-	int size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
+	i64 size = sizeof(int) * (n + nz) + sizeof(spasm_ZZp) * ((Cx != NULL) ? nz : 0);
 	spasm_human_format(size, mem);
 	fprintf(stderr, "%" PRId64 " actual NZ, Mem usage = %sbyte [%.2fs]\n", spasm_nnz(C), mem, spasm_wtime() - start);
 	return C;
-- 
2.43.0


From 88d5b48c8ad4a22694d28e291391643424c10d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:53 +0000
Subject: [PATCH 18/20] fix: the low-rank mode draws fresh random combinations
 at each round

---
 src/spasm_schur.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/spasm_schur.c b/src/spasm_schur.c
index 00d8fab..eb548a2 100644
--- a/src/spasm_schur.c
+++ b/src/spasm_schur.c
@@ -355,6 +355,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 	fprintf(stderr, "[schur/dense/random] dimension %d x %d, weight %d...\n", N, Sm, w);
 	double start = spasm_wtime();
 	int verbose_step = spasm_max(1, N / 1000);
+	u64 seed = ((u64) rand()) << 32;       /* successive invokations must not repeat the same combinations */
 
 	#pragma omp parallel
 	{
@@ -364,7 +365,7 @@ void spasm_schur_dense_randomized(const struct spasm_csr *A, const int *p, int n
 		#pragma omp for schedule(dynamic, verbose_step)
 		for (i64 k = 0; k < N; k++) {
 			spasm_prng_ctx ctx;
-			spasm_prng_seed_simple(prime, k, 0, &ctx);
+			spasm_prng_seed_simple(prime, seed + k, 0, &ctx);
 
 			for (int j = 0; j < m; j++)
 				y[j] = 0;
-- 
2.43.0


From 646c46e79ad250685d897a6e043427d02ecdeac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 19/20] fix: spasm_submatrix with r_1 < r_0 does not write
 before its row pointers

---
 src/spasm_submatrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spasm_submatrix.c b/src/spasm_submatrix.c
index 9350d82..e079d89 100644
--- a/src/spasm_submatrix.c
+++ b/src/spasm_submatrix.c
@@ -35,7 +35,7 @@ struct spasm_csr *spasm_submatrix(const struct spasm_csr * A, int r_0, int r_1,
 	}
 
 	/* finalize */
-	Bp[r_1 - r_0] = k;
+	Bp[Bn] = k;
 
 	/* shrink */
 	spasm_csr_realloc(B, -1);
-- 
2.43.0


From 40bc6fd7fd842f8b10e0fd264c04d07bbb926a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 20/20] fix: check allocations in spasm_factorization_verify

---
 src/spasm_certificate.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spasm_certificate.c b/src/spasm_certificate.c
index 366388d..d09d952 100644
--- a/src/spasm_certificate.c
+++ b/src/spasm_certificate.c
@@ -172,10 +172,10 @@ bool spasm_factorization_verify(const struct spasm_csr *A, const struct spasm_lu
 	int n = A->n;
 	int m = A->m;
 	int r = U->n;
-	spasm_ZZp *x = malloc(n * sizeof(*x));
-	spasm_ZZp *y = malloc(r * sizeof(*y));
-	spasm_ZZp *z = malloc(m * sizeof(*z));
-	spasm_ZZp *t = malloc(m * sizeof(*t));
+	spasm_ZZp *x = spasm_malloc(n * sizeof(*x));
+	spasm_ZZp *y = spasm_malloc(r * sizeof(*y));
+	spasm_ZZp *z = spasm_malloc(m * sizeof(*z));
+	spasm_ZZp *t = spasm_malloc(m * sizeof(*t));
 	bool correct = 1;
 	bool complete = 0;
 	
-- 
2.43.0

