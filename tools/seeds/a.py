H = '#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <malloc.h>\n#include "spasm.h"\n#define REQ(c) do { if (!(c)) { printf("BROKEN: %s\\n", #c); return 1; } } while (0)\n'
SEEDS = [
dict(id="C01-init-float", property="C01", edits=[("src/spasm_ZZp.c", "\ti64 p = F->p;\n\treturn NORMALISE(F, x % p);", "\ti64 q = ((double) x) * F->dinvp;\n\treturn NORMALISE(F, x - q * F->p);")],
  demo=H + '''int main() { spasm_field F; spasm_field_init(257, F);
	for (i64 y = 9223372036854775807LL - 3000; y < 9223372036854775807LL; y++) { spasm_ZZp r = spasm_ZZp_init(F, y); REQ(r >= -128 && r <= 128); REQ((y - r) % 257 == 0); }
	return 0; }''', needs="an integer beyond the 53-bit mantissa reduced into the field", breaks="spasm_ZZp_init reduces through a floating-point quotient, which is off by more than one for large operands"),
dict(id="C02-dup-first", property="C02", edits=[("src/spasm_triplet.c", "if (v[j] < p) {", "if (v[j] <= p) {")],
  demo=H + '''int main() { struct spasm_triplet *T = spasm_triplet_alloc(1, 1, 10, 257, 1); int I[] = {1, 1, 1, 0}, J[] = {3, 5, 3, 2};
	for (int k = 0; k < 4; k++) spasm_add_entry(T, I[k], J[k], k + 1);
	struct spasm_csr *C = spasm_compress(T); REQ(spasm_nnz(C) == 3); for (i64 k = C->p[1]; k < C->p[2]; k++) if (C->j[k] == 3) REQ(C->x[k] == 4); return 0; }''',
  needs="a triplet matrix with a repeated position, the repeated column being the first one met in its row", breaks="the first column of every row is never merged with its duplicates"),
dict(id="C03-explicit-zero", property="C03", edits=[("src/spasm_transpose.c", "\t\t\tif (Tx != NULL)\n", "\t\t\tif (Tx != NULL && Cx[px] != 0)\n")],
  demo=H + '''int main() { mallopt(M_PERTURB, 0x5a); struct spasm_csr *C = spasm_csr_alloc(3, 3, 4, 257, 1); C->p[0] = 0; C->p[1] = 2; C->p[2] = 3; C->p[3] = 4; int J[] = {0, 2, 1, 0}, X[] = {5, 0, 0, 7}; for (int k = 0; k < 4; k++) { C->j[k] = J[k]; C->x[k] = X[k]; }
	struct spasm_csr *T = spasm_transpose(C, 1); for (int j = 0; j < 3; j++) for (i64 k = T->p[j]; k < T->p[j + 1]; k++) { int e = T->j[k] == 0 && j == 0 ? 5 : T->j[k] == 2 ? 7 : 0; REQ(T->x[k] == e); }
	return 0; }''', needs="a matrix holding an explicitly stored zero, and recycled memory", breaks="the value of an explicitly stored zero is left uninitialised in the transpose"),
dict(id="C05-empty-cols", property="C05", edits=[("src/spasm_submatrix.c", "i64 Bnz = (r_1 > r_0) ? Ap[r_1] - Ap[r_0] : 0;", "i64 Bnz = (r_1 > r_0) ? Ap[r_1] - Ap[r_0] : 0;\n\tif (r_1 - r_0 == 1 && Bnz > Bm)\n\t\tBnz = Bm;"), ("src/spasm_submatrix.c", "\t\t\tif (c_0 <= j && j < c_1) {", "\t\t\tif (c_0 <= j && j < c_1 && k < Bnz) {")],
  demo=H + '''int main() { struct spasm_csr *A = spasm_csr_alloc(2, 4, 6, 257, 1); A->p[0] = 0; A->p[1] = 1; A->p[2] = 6; int J[] = {1, 2, 1, 2, 2, 3}; for (int k = 0; k < 6; k++) { A->j[k] = J[k]; A->x[k] = k + 1; }
	struct spasm_csr *B = spasm_submatrix(A, 1, 2, 1, 3, 1); REQ(spasm_nnz(B) == 4); i64 s = 0; for (int k = 0; k < 4; k++) s += B->x[k]; REQ(s == 2 + 3 + 4 + 5); return 0; }''',
  needs="a one-row block of a row in which a column occurs several times (an uncompressed matrix)", breaks="entries beyond the width of the block are dropped when a single row is extracted"),
dict(id="C22-resize", property="C22", edits=[("src/spasm_util.c", "for (int i = A->n; i < n + 1; i++)", "for (int i = A->n + 1; i < n + (A->n > 0); i++)")],
  demo=H + '''int main() { mallopt(M_PERTURB, 0x5a); struct spasm_csr *A = spasm_csr_alloc(0, 4, 6, 257, 1); A->p[0] = 0; spasm_csr_resize(A, 3, 4); for (int i = 0; i <= 3; i++) REQ(A->p[i] == 0); return 0; }''',
  needs="growing a matrix that has no rows at all", breaks="the last row pointer of a grown empty matrix is left uninitialised"),
dict(id="C22-add-entry", property="C22", edits=[("src/spasm_triplet.c", "T->n = spasm_max(T->n, i + 1);", "if (T->n <= i && T->m <= j + T->nz)\n\t\tT->n = i + 1;")],
  demo=H + '''int main() { struct spasm_triplet *T = spasm_triplet_alloc(2, 50, 1, 257, 1); spasm_add_entry(T, 3, 4, 5); REQ(T->n == 4); REQ(T->m == 50); return 0; }''',
  needs="the first entries inserted far from the last column of a triplet matrix created with many columns", breaks="the number of rows is not raised, so a later compression writes out of bounds"),
]
