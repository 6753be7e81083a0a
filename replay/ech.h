#include "h.h"
static struct echelonize_opts ro(int L) {
	struct echelonize_opts o; spasm_echelonize_init_opts(&o);
	o.enable_greedy_pivot_search = coin(1, 2); o.enable_tall_and_skinny = coin(1, 2); o.enable_dense = coin(1, 2); o.enable_GPLU = coin(2, 3);
	o.L = L; o.complete = L && coin(1, 2);
	static const double mp[] = {-1, 0, 0.1, 0.5, 1.1}; o.min_pivot_proportion = mp[ri(0, 4)]; o.max_round = ri(0, 4);
	static const double st[] = {-1, 0.05, 0.3, 2}; o.sparsity_threshold = st[ri(0, 3)]; o.dense_block_size = coin(1, 2) ? ri(1, 5) : 1000;
	static const double ts[] = {-1, 0.3, 1, 5}; o.tall_and_skinny_ratio = ts[ri(0, 3)]; static const double lr[] = {-1, 0.5, 1.1}; o.low_rank_ratio = lr[ri(0, 2)]; o.low_rank_start_weight = coin(1, 2) ? -1 : ri(1, 4);
	if (!o.enable_GPLU) { o.enable_dense = 1; o.sparsity_threshold = -1; }
	note("opts greedy=%d ts=%d dense=%d gplu=%d L=%d complete=%d minpiv=%g rounds=%d sparsity=%g block=%d lowrank=%g tsr=%g weight=%g\n", o.enable_greedy_pivot_search, o.enable_tall_and_skinny, o.enable_dense, o.enable_GPLU, o.L, o.complete, o.min_pivot_proportion, o.max_round, o.sparsity_threshold, o.dense_block_size, o.low_rank_ratio, o.tall_and_skinny_ratio, o.low_rank_start_weight);
	return o;
}
/* U: unit pivots, triangular, right rank and row space */
static void checkU(const struct spasm_csr *A, const struct spasm_lu *f, int order) {
	int n = A->n, m = A->m; i64 P = A->field->p; const struct spasm_csr *U = f->U; wellformed(U, "U"); CHECK(U->m == m, "columns of U"); CHECK(f->r == U->n, "r = %d but U has %d rows", f->r, U->n);
	i64 *DA = dense(A), *DU = dense(U); int rk = drank(DA, n, m, P);
	CHECK(U->n == rk, "rank %d, expected %d", U->n, rk); CHECK(same_rowspace(DA, n, DU, U->n, m, P), "row spaces differ");
	int *col = malloc(4 * rk + 4); for (int i = 0; i < rk; i++) col[i] = -1;
	for (int j = 0; j < m; j++) { CHECK(f->qinv[j] >= -1 && f->qinv[j] < rk, "qinv[%d]=%d", j, f->qinv[j]); if (f->qinv[j] >= 0) { CHECK(col[f->qinv[j]] < 0, "two pivots on a row"); col[f->qinv[j]] = j; } }
	for (int i = 0; i < rk; i++) { CHECK(col[i] >= 0, "row %d has no pivot", i); CHECK(DU[i * m + col[i]] == 1, "pivot of row %d is %lld", i, (long long)DU[i * m + col[i]]); if (order) for (int h = 0; h < i; h++) CHECK(DU[i * m + col[h]] == 0, "row %d has an entry on the pivotal column of row %d", i, h);
		for (i64 k = U->p[i]; k < U->p[i + 1]; k++) for (i64 l = U->p[i]; l < k; l++) CHECK(U->j[k] != U->j[l], "column repeated in row %d of U", i); }
	free(col); free(DA); free(DU);
}
