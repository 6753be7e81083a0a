#include "h.h"
#include "sharef.h"
static void tests(long it) {
	size_t len = it < 300 ? (size_t)it : coin(1, 30) ? (size_t)ri(1000, 70000) : (size_t)ri(0, 400); u8 *b = malloc(len + 1); for (size_t i = 0; i < len; i++) b[i] = rnd();
	u8 r[32], o[32]; sha_ref(b, len, r); spasm_sha256_ctx c; memset(&c, 0xA5, sizeof c); spasm_SHA256_init(&c); note("length %zu chunks", len); size_t pos = 0; int maxc = coin(1, 2) ? 70 : coin(1, 2) ? 5 : 100000;
	if (it >= 300 || it % 2) while (pos < len) { size_t k = (size_t)ri(0, maxc); if (k > len - pos) k = len - pos; note(" %zu", k); u8 *t = malloc(k); memcpy(t, b + pos, k); spasm_SHA256_update(&c, t, k); free(t); pos += k; }
	else spasm_SHA256_update(&c, b, len);
	spasm_SHA256_final(o, &c); CHECK(!memcmp(o, r, 32), "digest differs"); free(b);
	if (it == 5 || it == 1000) { /* more than 2^32 bits */ size_t L = 1 << 20; u8 *z = calloc(L, 1); spasm_SHA256_init(&c); for (int k = 0; k < 20; k++) spasm_SHA256_update(&c, z, L); spasm_SHA256_final(o, &c); u8 *zz = calloc(20 * L, 1); sha_ref(zz, 20 * L, r); CHECK(!memcmp(o, r, 32), "digest of a long message"); free(z); free(zz); }
}
