H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <malloc.h>\n#include "spasm.h"\n#define REQ(c) do { if (!(c)) { printf("BROKEN: %s (line %d)\\n", #c, __LINE__); return 1; } } while (0)\n'
MK = '''static struct spasm_csr *mk(int n, int m, i64 p, const int *D) { struct spasm_csr *A = spasm_csr_alloc(n, m, n * m + 1, p, 1); i64 z = 0; A->p[0] = 0;
	for (int i = 0; i < n; i++) { for (int j = 0; j < m; j++) if (D[i * m + j]) { A->j[z] = j; A->x[z] = D[i * m + j]; z++; } A->p[i + 1] = z; } return A; }
'''
ASAN = '''#!/bin/sh
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
export OMP_NUM_THREADS=1 ASAN_OPTIONS=detect_leaks=0
gcc -O1 -g -std=gnu99 -w -fopenmp -fsanitize=address -Isrc "$here/demo.c" $(ls src/*.c) -o "$d/demo" -lm 2>"$d/cc" || gcc -O1 -g -std=gnu99 -w -fopenmp -fsanitize=address -Isrc "$here/demo.c" $(ls src/*.c | grep -v echelonize) -o "$d/demo" -lm || exit 98
cd "$d" && timeout 120 ./demo 2>"$d/err"; r=$?; grep -m1 ERROR "$d/err"; exit $r
'''
SEEDS = [
dict(id="C04-range-chain", property="C04", edits=[("src/spasm_permutation.c", "\tfor (i = 0; i < b - a; i++) {\n\t\tp[i] = x[a + p[i]];\n\t}\n\tfor (i = 0; i < b - a; i++) {\n\t\tx[a + i] = p[i];\n\t}\n",
  "\tfor (i = 0; i < b - a; i++) {\n\t\tint j = p[i];\n\t\tif (j < i)\n\t\t\tj = p[j];\n\t\tif (j < i)\n\t\t\tj = p[j];\n\t\tint tmp = x[a + i];\n\t\tx[a + i] = x[a + j];\n\t\tx[a + j] = tmp;\n\t}\n")],
  demo=H + '''int main() { for (int n = 1; n <= 6; n++) { int f = 1; for (int i = 2; i <= n; i++) f *= i;
	for (int k = 0; k < f; k++) { int l[8], p[8], q[8], x[10], c = k; for (int i = 0; i < n; i++) l[i] = i; for (int i = 0; i < n; i++) { int t = c % (n - i); c /= n - i; q[i] = p[i] = l[t]; l[t] = l[n - i - 1]; }
	for (int i = 0; i < 10; i++) x[i] = 100 + i; spasm_range_pvec(x, 2, 2 + n, p); REQ(x[0] == 100 && x[1] == 101); for (int i = 0; i < n; i++) REQ(x[2 + i] == 102 + q[i]); } } return 0; }''',
  needs="a permutation with a long cycle", breaks="the in-place algorithm follows displaced elements through at most two exchanges, so long cycles scramble the range"),
dict(id="C04-permute-cols", property="C04", edits=[("src/spasm_permutation.c", "int jj = (qinv != NULL) ? qinv[j] : j;", "int jj = (p != NULL && qinv != NULL) ? qinv[j] : j;")],
  demo=H + MK + '''int main() { int D[] = {1, 2, 0, 0, 0, 3}; struct spasm_csr *A = mk(2, 3, 257, D); int q[] = {2, 0, 1}; struct spasm_csr *C = spasm_permute(A, NULL, q, 1); REQ(C->j[0] == 2); REQ(C->j[1] == 0); REQ(C->j[2] == 1); return 0; }''',
  needs="permuting the columns only (row permutation NULL)", breaks="the column permutation is ignored when no row permutation is given"),
dict(id="C06-delayed", property="C06", edits=[("src/spasm_spmv.c", "\tfor (int i = 0; i < n; i++)\n\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) {\n\t\t\tint j = Aj[px];\n\t\t\ty[i] = spasm_ZZp_axpy(A->field, x[j], Ax[px], y[i]);\n\t\t}\n",
  "\tfor (int i = 0; i < n; i++) {\n\t\ti64 acc = y[i];\n\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) {\n\t\t\tint j = Aj[px];\n\t\t\tacc += (i64) x[j] * Ax[px];\n\t\t}\n\t\ty[i] = spasm_ZZp_init(A->field, acc);\n\t}\n")],
  demo=H + '''int main() { i64 P = 4294967291LL; struct spasm_csr *A = spasm_csr_alloc(1, 3, 3, P, 1); A->p[0] = 0; A->p[1] = 3; spasm_ZZp x[3], y[1] = {0}; for (int j = 0; j < 3; j++) { A->j[j] = j; A->x[j] = 2147483645; x[j] = 2147483645 - j; }
	__int128 e = 0; for (int j = 0; j < 3; j++) e += (__int128) A->x[j] * x[j]; spasm_Axpy(A, x, y); REQ((e - y[0]) % P == 0); return 0; }''',
  needs="a prime close to 2^32 and a row with three large entries", breaks="the products of a row are accumulated in 64 bits without reduction and overflow"),
dict(id="C07-check-from-n", property="C07", edits=[("src/spasm_triangular.c", "\tfor (int j = 0; j < m; j++)   /* check that everything has been eliminated */", "\tfor (int j = (n == m) ? m : (q == NULL || q[0] == 0) ? n : 0; j < m; j++)   /* check that everything has been eliminated */")],
  demo=H + MK + '''int main() { int D[] = {1, 0, 0, 0, 0, 0, 1, 0}; struct spasm_csr *U = mk(2, 4, 257, D); int q[] = {0, 2}; spasm_ZZp b[] = {3, 5, 4, 0}, x[2]; REQ(!spasm_dense_forward_solve(U, b, x, q)); return 0; }''',
  needs="first pivot on column 0 but another pivot beyond the leading square block, and a residue on a column left of it", breaks="columns among the first n that carry no pivot are not checked, so unsolvable systems are reported as solved"),
dict(id="C08-assign", property="C08", edits=[("src/spasm_triangular.c", "\tspasm_scatter(B, k, 1, x);\n", "\tfor (i64 px = B->p[k]; px < B->p[k + 1]; px++)\n\t\tx[B->j[px]] = B->x[px];\n")],
  demo=H + '''int main() { struct spasm_csr *U = spasm_csr_alloc(1, 3, 2, 257, 1), *B = spasm_csr_alloc(1, 3, 3, 257, 1); U->p[0] = 0; U->p[1] = 2; U->j[0] = 0; U->x[0] = 1; U->j[1] = 2; U->x[1] = 4;
	B->p[0] = 0; B->p[1] = 3; int J[] = {0, 1, 0}, X[] = {5, 7, 6}; for (int k = 0; k < 3; k++) { B->j[k] = J[k]; B->x[k] = X[k]; } int qinv[] = {0, -1, -1}, xj[9] = {0}; spasm_ZZp x[3]; spasm_sparse_triangular_solve(U, B, 0, xj, x, qinv);
	REQ(x[0] == 11); REQ(x[1] == 7); REQ((x[2] + 44) % 257 == 0); return 0; }''',
  needs="a right-hand side row in which a column occurs twice", breaks="repeated entries of the row B[k] overwrite each other instead of being added"),
dict(id="C08-unmark", property="C08", edits=[("src/spasm_reach.c", "\tfor (int px = top; px < l; px++) {\n", "\tif (top == 0 && l == 1)\n\t\treturn top;\n\tfor (int px = top; px < l; px++) {\n")],
  demo=H + MK + '''int main() { int D[] = {1}; struct spasm_csr *U = mk(1, 1, 257, D); U->n = 0; int E[] = {3, 4}; struct spasm_csr *B = mk(2, 1, 257, E); int qinv[] = {-1}, xj[3] = {0}; spasm_ZZp x[1]; REQ(spasm_sparse_triangular_solve(U, B, 0, xj, x, qinv) == 0 && x[0] == 3); REQ(spasm_sparse_triangular_solve(U, B, 1, xj, x, qinv) == 0 && x[0] == 4); return 0; }''',
  needs="two solves in a row with one workspace on a matrix with a single column", breaks="the marks are not reset when the only column was reached: the next search finds nothing"),
dict(id="C09-rank-zero", property="C09", edits=[("src/spasm_solve.c", "\t/* get workspace */\n", "\tif (r == 0) {            /* nothing to solve */\n\t\tfor (int i = 0; i < L->n; i++)\n\t\t\tx[i] = 0;\n\t\treturn 1;\n\t}\n\n\t/* get workspace */\n")],
  demo=H + MK + '''int main() { int D[6] = {0}; struct spasm_csr *A = mk(2, 3, 257, D); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; struct spasm_lu *f = spasm_echelonize(A, &o); REQ(f->U->n == 0); spasm_ZZp b[] = {0, 1, 0}, x[2]; REQ(!spasm_solve(f, b, x)); b[1] = 0; REQ(spasm_solve(f, b, x)); return 0; }''',
  needs="a matrix of rank zero and a nonzero right-hand side", breaks="the shortcut for rank zero reports every right-hand side as solvable"),
dict(id="C10-pout-empty", property="C10", edits=[("src/spasm_schur.c", "\t\t\tif (p_out != NULL)\n", "\t\t\tif (p_out != NULL && row_snz + row_lnz > 0)\n")],
  demo=H + MK + '''int main() { int D[] = {1, 0, 2, 0, 0, 0, 0, 3, 0}; struct spasm_csr *A = mk(3, 3, 257, D); struct spasm_csr *U = spasm_csr_alloc(3, 3, 9, 257, 1); U->n = 0; U->p[0] = 0; int qinv[] = {-1, -1, -1}; struct spasm_lu f = {0}; f.U = U; f.qinv = qinv; int p[] = {0, 1, 2}, in[] = {7, 5, 6}, out[] = {-9, -9, -9};
	struct spasm_csr *S = spasm_schur(A, p, 3, &f, 0.5, NULL, in, out); REQ(S->n == 3); int seen = 0; for (int i = 0; i < 3; i++) { REQ(out[i] >= 5 && out[i] <= 7); seen |= 1 << (out[i] - 5); } REQ(seen == 7); return 0; }''',
  needs="an empty row among the selected ones", breaks="the original row number of an empty row of the Schur complement is not recorded"),
dict(id="C10-random-rows", property="C10", edits=[("src/spasm_schur.c", "\t\t\t\t\tint inew = p[rand() % n];\n", "\t\t\t\t\tint inew = (w == 1) ? p[k % n] : rand() % n;\n")],
  demo=H + MK + '''int main() { int D[] = {1, 0, 0, 0, 1, 0, 0, 0, 1}; struct spasm_csr *A = mk(3, 3, 257, D); struct spasm_csr *U = spasm_csr_alloc(3, 3, 9, 257, 1); U->n = 0; U->p[0] = 0; int qinv[] = {-1, -1, -1}, p[] = {2, 0, 1}, q[3]; i64 S[20 * 3];
	spasm_schur_dense_randomized(A, p, 1, U, qinv, S, SPASM_I64, q, 20, 2); for (int k = 0; k < 20; k++) { REQ(S[3 * k] == 0); REQ(S[3 * k + 1] == 0); } return 0; }''',
  needs="combinations of two or more rows of a strict selection of the rows", breaks="the random combinations are taken from the first rows of the matrix and not from the selected rows"),
dict(id="C11-obstruct", property="C11", edits=[("src/spasm_pivots.c", "\t\t\t/* mark the columns occuring on this row as unavailable */\n\t\t\tfor (i64 px = Ap[i]; px < Ap[i + 1]; px++) \n", "\t\t\t/* mark the columns occuring on this row as unavailable */\n\t\t\tfor (; px < Ap[i + 1]; px++) \n")],
  demo=H + MK + '''int main() { srand(1); for (int t = 0; t < 4000; t++) { int n = 4 + rand() % 4, D[64]; struct spasm_csr *A; for (int k = 0; k < n * n; k++) D[k] = rand() % 3 == 0 ? 1 + rand() % 3 : 0; A = mk(n, n, 257, D);
	for (int i = 0; i < n; i++) for (i64 k = A->p[i]; k < A->p[i + 1]; k++) { i64 l = A->p[i] + rand() % (A->p[i + 1] - A->p[i]); int a = A->j[k]; A->j[k] = A->j[l]; A->j[l] = a; a = A->x[k]; A->x[k] = A->x[l]; A->x[l] = a; }
	struct spasm_lu f = {0}; f.U = spasm_csr_alloc(n, n, n * n, 257, 1); f.U->n = 0; f.U->p[0] = 0; int qi[8], p[8]; for (int j = 0; j < n; j++) qi[j] = -1; f.qinv = qi; struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_greedy_pivot_search = 0;
	int np = spasm_pivots_extract_structural(A, NULL, &f, p, &o); for (int i = 0; i < np; i++) for (i64 k = f.U->p[i] + 1; k < f.U->p[i + 1]; k++) { int I = qi[f.U->j[k]]; REQ(I < 0 || I > i); } } return 0; }''',
  needs="several column pivots, the columns of whose rows are not stored in increasing order", breaks="columns stored before the new pivot on its row stay available, so later pivots may close an alternating cycle"),
dict(id="C12-early-abort", property="C12", edits=[("src/spasm_echelonize.c", "\t\t\tif (spasm_echelonize_test_completion(A, p, n, U, Uqinv))\n\t\t\t\tbreak;\n\t\t\tearly_abort_done = 1;", "\t\t\tif (spasm_echelonize_test_completion(A, p, spasm_min(n, 8 * i), U, Uqinv))\n\t\t\t\tbreak;\n\t\t\tearly_abort_done = 1;")],
  demo=H + '''int main() { int n = 200, m = 200; struct spasm_csr *A = spasm_csr_alloc(n, m, 3 * n, 257, 1); i64 z = 0; A->p[0] = 0; for (int i = 0; i < n; i++) { if (i == 0) { A->j[z] = 3; A->x[z++] = 1; A->j[z] = 4; A->x[z++] = 1; } else if (i < 20) { A->j[z] = 3; A->x[z++] = i; A->j[z] = 4; A->x[z++] = i; } else if (i == n - 1) { A->j[z] = 7; A->x[z++] = 5; } A->p[i + 1] = z; }
	struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.enable_dense = 0; o.enable_tall_and_skinny = 0; o.max_round = 0; REQ(spasm_echelonize(A, &o)->U->n == 2); return 0; }''',
  needs="no L requested, sparse elimination, more than ten dependent rows in a row early in a long matrix, followed much later by independent rows", breaks="the early-abort test only samples the first rows, so elimination may stop before the rank is reached"),
dict(id="C13-stale", property="C13", edits=[("src/spasm_kernel.c", "\tconst int *Rj = R->j;\n\tfor (int i = 0; i < n; i++) {\n\t\ti64 px = Rp[i];\n\t\tint j = Rj[px];\n\t\tp[i] = j;\n\t}\n", "\tconst int *Rj = R->j;\n\tfor (int i = 0; i < n; i++) {\n\t\ti64 px = Rp[i];\n\t\tint j = Rj[px];\n\t\tp[i] = (qinv[i % m] == i) ? i % m : j;\n\t\tif (R->x[px] != 1)\n\t\t\tp[i] = Rj[px + 1];\n\t}\n"), ("src/spasm_kernel.c", "\t\t\tKj[nnz] = p[i];\n\t\t\tKx[nnz] = Rtx[px];\n", "\t\t\tif (px > Rtp[j] && Rtx[px] == Rtx[px - 1] && p[i] == p[Rtj[px - 1]] + 2 && nnz > Kp[K->n] + 3) {\n\t\t\t\tKj[nnz] = p[i];\n\t\t\t\tKx[nnz] = -Rtx[px];\n\t\t\t} else {\n\t\t\t\tKj[nnz] = p[i];\n\t\t\t\tKx[nnz] = Rtx[px];\n\t\t\t}\n")],
  demo=H, needs="-", breaks="-"),
dict(id="C13-kernel-cap", property="C13", edits=[("src/spasm_kernel.c", "if (nnz + row_nz > K->nzmax) {", "if (nnz + row_nz > K->nzmax + 1) {")],
  demo_sh=ASAN, demo=H + MK + '''int spasm_ffpack_rref(i64 a, int b, int c, void *d, int e, spasm_datatype f, size_t *g) { return 0; } int spasm_ffpack_LU(i64 a, int b, int c, void *d, int e, spasm_datatype f, size_t *g, size_t *h) { return 0; } spasm_ZZp spasm_datatype_read(const void *A, size_t i, spasm_datatype d) { return 0; } size_t spasm_datatype_size(spasm_datatype d) { return 8; } spasm_datatype spasm_datatype_choose(i64 p) { return 0; } const char *spasm_datatype_name(spasm_datatype d) { return ""; }
int main() { int D[] = {1, 0, 2, 0, 0, 0, 1, 0, 3, 0}; struct spasm_csr *U = mk(2, 5, 257, D); spasm_csr_realloc(U, 4); U->nzmax = 4; int q[] = {0, 1, -1, -1, -1}; struct spasm_lu f = {0}; f.U = U; f.qinv = q; struct spasm_csr *K = spasm_kernel(&f); REQ(spasm_nnz(K) == 5); return 0; }''',
  needs="a kernel with exactly one entry more than the space reserved for it", breaks="the last entry of the kernel is written past the end of the arrays"),
dict(id="C14-cancel", property="C14", edits=[("src/spasm_rref.c", "\t\t\t\tif (qinv_local[j] < 0 && x[j] != 0) {\n", "\t\t\t\tif (qinv_local[j] < 0) {\n")],
  demo=H + MK + '''int main() { int D[] = {1, 1, 1, 0, 0, 1, 1, 0, 0, 0, 0, 1}; struct spasm_csr *U = mk(3, 4, 257, D); int q[] = {0, 1, -1, 2}, rq[4]; struct spasm_lu f = {0}; f.U = U; f.qinv = q; struct spasm_csr *R = spasm_rref(&f, rq);
	for (int i = 0; i < 3; i++) for (i64 k = R->p[i]; k < R->p[i + 1]; k++) { REQ(R->x[k] != 0); REQ(k > R->p[i] ? rq[R->j[k]] < 0 : R->x[k] == 1); } REQ(spasm_nnz(R) == 4); return 0; }''',
  needs="an entry of the reduced form that vanishes by numerical cancellation", breaks="cancelled entries are written although no room was counted for them"),
dict(id="C15-hash-cmp", property="C15", edits=[("src/spasm_certificate.c", "\tfor (int i = 0; i < 32; i++)\n\t\tif (hash[i] != proof->hash[i])\n\t\t\treturn 0;\n", "\tfor (int i = 0; i < 32 && (hash[i] | proof->hash[i]); i++)\n\t\tif (hash[i] != proof->hash[i])\n\t\t\treturn 0;\n")],
  demo=H + MK + '''int main() { int D[] = {1, 2, 0, 1}; struct spasm_csr *A = mk(2, 2, 257, D); u8 h[32]; for (int i = 0; i < 32; i++) h[i] = i == 5 ? 0 : i + 1; struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; o.complete = 1; struct spasm_lu *f = spasm_echelonize(A, &o);
	struct spasm_rank_certificate *c = spasm_certificate_rank_create(A, h, f); REQ(spasm_certificate_rank_verify(A, h, c)); h[9] ^= 1; REQ(!spasm_certificate_rank_verify(A, h, c)); return 0; }''',
  needs="two hashes that agree up to a common zero byte and differ after it", breaks="the comparison of the hashes stops at the first zero byte"),
dict(id="C15-save-prime", property="C15", edits=[("src/spasm_certificate.c", "\tfprintf(f, \"%\" PRId64 \"\\n\", proof->prime);\n", "\tfprintf(f, \"%d\\n\", (int) proof->prime);\n")],
  demo=H + '''int main() { int i[] = {0}, j[] = {1}; spasm_ZZp x[] = {-5}, y[] = {7}; struct spasm_rank_certificate c = {1, 4294967291LL, {1, 2, 3}, i, j, x, y}, d; FILE *f = fopen("cert", "w+"); spasm_rank_certificate_save(&c, f); rewind(f); REQ(spasm_rank_certificate_load(f, &d)); REQ(d.prime == c.prime); REQ(d.i[0] == 0 && d.j[0] == 1 && d.x[0] == -5 && d.y[0] == 7); return 0; }''',
  needs="a certificate for a prime larger than 2^31", breaks="the prime is truncated to 32 bits when a certificate is saved"),
dict(id="C16-verify-pivotal", property="C16", edits=[("src/spasm_certificate.c", "\t\tif (z[j] != t[j])\n", "\t\tif (fact->qinv[j] >= 0 && z[j] != t[j])\n")],
  demo=H + MK + '''int main() { int D[] = {1, 2, 3, 0, 1, 4}; struct spasm_csr *A = mk(2, 3, 257, D); struct echelonize_opts o; spasm_echelonize_init_opts(&o); o.L = 1; struct spasm_lu *f = spasm_echelonize(A, &o); REQ(spasm_factorization_verify(A, f, 42)); for (i64 k = 0; k < spasm_nnz(f->U); k++) if (f->qinv[f->U->j[k]] < 0) { f->U->x[k] = f->U->x[k] == 5 ? 6 : 5; break; } REQ(!spasm_factorization_verify(A, f, 42)); return 0; }''',
  needs="a factorization that is wrong on non-pivotal columns only", breaks="the verification compares the two products on the pivotal columns only"),
dict(id="C17-revisit", property="C17", edits=[("src/spasm_matching.c", "\t\t\tif (marks[inew] == istart)\n\t\t\t\tcontinue;\n", "\t\t\tif (marks[inew] == istart || (marks[inew] >= 0 && plookahead[inew] == Ap[inew + 1] - Ap[inew] && px + 1 == Ap[i + 1]))\n\t\t\t\tcontinue;\n")],
  demo=H + MK + '''static int best(int n, int m, const int *D, int i, int used) { if (i == n) return 0; int b = best(n, m, D, i + 1, used); for (int j = 0; j < m; j++) if (D[i * m + j] && !(used >> j & 1)) { int c = 1 + best(n, m, D, i + 1, used | 1 << j); if (c > b) b = c; } return b; }
int main() { srand(2); for (int t = 0; t < 60000; t++) { int n = 2 + rand() % 4, m = 2 + rand() % 4, D[40]; for (int k = 0; k < n * m; k++) D[k] = rand() % 3 == 0; struct spasm_csr *A = mk(n, m, 257, D); int p[8], q[8]; REQ(spasm_maximum_matching(A, p, q) == best(n, m, D, 0, 0)); spasm_csr_free(A); } return 0; }''',
  needs="an augmenting path whose only continuation goes through a row already explored by an earlier search", breaks="rows explored during earlier searches are skipped, so the matching may not be maximum"),
dict(id="C17-row-col0", property="C17", edits=[("src/spasm_matching.c", "\t\tif (jmatch[p[i]] == -1) {\n", "\t\tif (jmatch[p[i]] <= 0 && p[i] != 0) {\n")],
  demo=H + '''int main() { int jm[] = {-1, 0, 1}, p[] = {2, 1, 0}, q[] = {1, 2, 0}; int *r = spasm_permute_row_matching(3, jm, p, q); REQ(r[0] == 2); REQ(r[1] == 1); REQ(r[2] == -1); return 0; }''',
  needs="a row other than the first matched to column 0", breaks="a row matched to column 0 is reported as unmatched by the permuted matching"),
dict(id="C18-tiny", property="C18", edits=[("src/spasm_dm.c", "\tif (rr[2] - rr[1] == 0)\n\t\treturn DM;", "\tif (rr[2] - rr[1] <= 1)\n\t\treturn DM;")],
  demo=H + MK + '''int main() { int D[] = {1}; struct spasm_csr *A = mk(1, 1, 257, D); struct spasm_dm *d = spasm_dulmage_mendelsohn(A); REQ(d->nb == 3); REQ(d->r[0] == 0 && d->r[1] == 0 && d->r[2] == 1 && d->r[3] == 1); return 0; }''',
  needs="a square part made of a single row and column", breaks="the fine decomposition is skipped when the square part has a single row"),
dict(id="C18-scc-low", property="C18", edits=[("src/spasm_scc.c", "\t\t\t\t\tlowlink[j] = n;\n", "\t\t\t\t\tlowlink[j] = (p_top == 1) ? marks[j] : n;\n")],
  demo=H + '''int main() { srand(3); for (int t = 0; t < 20000; t++) { int n = 2 + rand() % 5; struct spasm_csr *A = spasm_csr_alloc(n, n, n * n, -1, 0); char R[6][6] = {{0}}; i64 z = 0; A->p[0] = 0; for (int i = 0; i < n; i++) { R[i][i] = 1; for (int j = 0; j < n; j++) if (rand() % 4 == 0) { A->j[z++] = j; R[i][j] = 1; } A->p[i + 1] = z; }
	for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) R[i][j] |= R[i][k] & R[k][j]; struct spasm_dm *d = spasm_strongly_connected_components(A); int b[6], seen = 0; for (int k = 0; k < d->nb; k++) for (int i = d->r[k]; i < d->r[k + 1]; i++) { b[d->p[i]] = k; seen++; } REQ(seen == n);
	for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { REQ((b[i] == b[j]) == (R[i][j] && R[j][i])); REQ(!R[i][j] || b[i] <= b[j]); } } return 0; }''',
  needs="a sink node visited first of all with later arcs into it", breaks="the first closed component is still considered open, so later nodes are attached to it"),
dict(id="C19-huge-len", property="C19", edits=[("src/sha256.c", "    c->Nh += (HASH_LONG) (len >> 29); /* might cause compiler warning on\n                                       * 16-bit */\n", "    c->Nh += (HASH_LONG) (len >> 32); /* the upper half of the length */\n")],
  demo=H + '''int main() { size_t n = (1u << 29) + 3; u8 *b = calloc(n, 1), a[32], d[32]; spasm_sha256_ctx c; spasm_SHA256_init(&c); spasm_SHA256_update(&c, b, n); spasm_SHA256_final(a, &c); spasm_SHA256_init(&c); for (size_t k = 0; k < n; k += 1 << 20) spasm_SHA256_update(&c, b + k, n - k < 1 << 20 ? n - k : 1 << 20); spasm_SHA256_final(d, &c); REQ(!memcmp(a, d, 32)); return 0; }''',
  needs="a single update of 512 megabytes or more", breaks="the high word of the bit length is wrong for long updates"),
dict(id="C20-reject", property="C20", edits=[("src/spasm_prng.c", "if (x < ctx->prime)", "if (x <= ctx->prime)")],
  demo=H + '''int main() { spasm_prng_ctx c, d; spasm_prng_seed_simple(3, 1, 0, &c); d = c; int k = 0; for (int t = 0; t < 1000; t++) { u32 w; do w = spasm_prng_u32(&d) & 3; while (w >= 3); REQ(spasm_prng_ZZp(&c) == (w == 2 ? -1 : (int) w)); } return 0; }''',
  needs="a masked word equal to the prime (likely only for tiny primes)", breaks="a word equal to the prime is accepted as zero instead of being rejected: the distribution is biased"),
dict(id="C20-counter", property="C20", edits=[("src/spasm_prng.c", "        ctx->block[9] = htonl(ctx->counter);\n", "        ctx->block[9] = htonl(ctx->counter & 0xffff);\n")],
  demo=H + '''int main() { spasm_prng_ctx c; spasm_prng_seed_simple(257, 1, 0, &c); u32 f[8]; for (int k = 0; k < 8; k++) f[k] = spasm_prng_u32(&c); for (int k = 8; k < 8 * 65536; k++) spasm_prng_u32(&c); int same = 1; for (int k = 0; k < 8; k++) same &= f[k] == spasm_prng_u32(&c); REQ(!same); return 0; }''',
  needs="more than half a million words drawn from one generator", breaks="the block counter wraps after 65536 blocks, so the sequence repeats"),
dict(id="C21-int-value", property="C21", edits=[("src/spasm_io.c", "\t\tif (sscanf(buffer, \"%d %d %\" SCNd64 \"\\n\", &i, &j, &x) != 3)\n\t\t\terrx(1, \"parse error line %\" PRId64, line);\n", "\t\tint v;\n\t\tif (sscanf(buffer, \"%d %d %d\\n\", &i, &j, &v) != 3)\n\t\t\terrx(1, \"parse error line %\" PRId64, line);\n\t\tx = v;\n")],
  demo=H + '''int main() { FILE *f = fopen("m", "w+"); fprintf(f, "1 1 M\\n1 1 1000000000000\\n0 0 0\\n"); rewind(f); struct spasm_triplet *T = spasm_triplet_load(f, 257, NULL); REQ(T->nz == 1 && (1000000000000LL - T->x[0]) % 257 == 0); return 0; }''',
  needs="a text file with an entry that does not fit in 32 bits", breaks="large entries are truncated before being reduced"),
dict(id="C21-comment-hash", property="C21", edits=[("src/spasm_io.c", "\t\t\tline += 1;\n\t\t\teof = read_line(\"spasm_triplet_load\", line, buffer, 1024, ctx, f);\n\t\t\tif (eof)\n\t\t\t\terrx(1, \"premature EOF", "\t\t\tline += 1;\n\t\t\tint c = getc(f);\n\t\t\tungetc(c, f);\n\t\t\teof = read_line(\"spasm_triplet_load\", line, buffer, 1024, (c == '%') ? NULL : ctx, f);\n\t\t\tif (eof)\n\t\t\t\terrx(1, \"premature EOF")],
  demo=H + '''int main() { const char *t = "%%MatrixMarket matrix coordinate integer general\\n% a comment\\n1 1 1\\n1 1 5\\n"; FILE *f = fopen("m", "w+"); fputs(t, f); rewind(f); u8 h[32], e[32]; spasm_triplet_load(f, 257, h); spasm_sha256_ctx c; spasm_SHA256_init(&c); spasm_SHA256_update(&c, t, strlen(t)); spasm_SHA256_final(e, &c); REQ(!memcmp(h, e, 32)); return 0; }''',
  needs="a MatrixMarket file with comment lines whose hash is requested", breaks="comment lines are not part of the hash"),
]
SEEDS = [s for s in SEEDS if s["needs"] != "-"]
