#include "h.h"
#include "sharef.h"
static void tests(long it) {
	(void)it; i64 P = coin(1, 3) ? H_P[ri(0, 11)] : H_P[ri(0, 4)]; u8 seed[32]; for (int k = 0; k < 32; k++) seed[k] = rnd(); u32 seq = coin(1, 2) ? ri(0, 3) : rnd(); int simple = coin(1, 2); u64 sd = coin(1, 2) ? rnd() : (u64)ri(0, 100);
	if (simple) { memset(seed, 0, 32); for (int k = 0; k < 4; k++) { seed[k] = sd >> (24 - 8 * k); seed[4 + k] = sd >> (56 - 8 * k); } }
	note("prime %lld seq %u simple %d seed %llu\n", (long long)P, seq, simple, (unsigned long long)sd);
	spasm_prng_ctx c, d; memset(&c, 0x5A, sizeof c); memset(&d, 0, sizeof d); if (simple) { spasm_prng_seed_simple(P, sd, seq, &c); spasm_prng_seed_simple(P, sd, seq, &d); } else { spasm_prng_seed(seed, P, seq, &c); spasm_prng_seed(seed, P, seq, &d); }
	u8 blk[44]; memcpy(blk, seed, 32); for (int k = 0; k < 4; k++) { blk[32 + k] = (u64)P >> (24 - 8 * k); blk[40 + k] = seq >> (24 - 8 * k); }
	u32 mask = 1; { i64 q = 1; while (q < P) q <<= 1; mask = (u32)(q - 1); }
	u32 w[80]; for (u32 ctr = 0; ctr < 10; ctr++) { for (int k = 0; k < 4; k++) blk[36 + k] = ctr >> (24 - 8 * k); u8 o[32]; sha_ref(blk, 44, o); for (int k = 0; k < 8; k++) w[ctr * 8 + k] = (u32)o[4 * k] << 24 | o[4 * k + 1] << 16 | o[4 * k + 2] << 8 | o[4 * k + 3]; }
	int a = 0; for (int t = 0; t < 30 && a < 70; t++) {
		if (coin(1, 3)) { u32 x = spasm_prng_u32(&c); CHECK(x == w[a], "word %d is %08x, expected %08x", a, x, w[a]); CHECK(spasm_prng_u32(&d) == x, "not reproducible"); a++; }
		else { int b = a; while (b < 80 && (w[b] & mask) >= P) b++; if (b >= 80) break; spasm_ZZp x = spasm_prng_ZZp(&c); CHECK(canonical(x, P), "not canonical"); CHECK(x == cn(w[b] & mask, P), "element after word %d is %d, expected %lld", a, x, (long long)cn(w[b] & mask, P)); CHECK(spasm_prng_ZZp(&d) == x, "not reproducible"); a = b + 1; }
	}
}
