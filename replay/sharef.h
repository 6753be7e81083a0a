/* straightforward FIPS 180-4 SHA-256 of a whole message */
static u32 ror_(u32 x, int n) { return (x >> n) | (x << (32 - n)); }
static void sha_ref(const u8 *msg, size_t len, u8 out[32]) {
	static u32 K[64]; static int init; u32 H[8]; static u32 H0[8];
	if (!init) { int np = 0; for (int p = 2; np < 64; p++) { int ok = 1; for (int d = 2; d * d <= p; d++) if (p % d == 0) ok = 0; if (!ok) continue;
			/* fractional parts of cube / square roots, by integer search */
			u64 lo = 0, hi = (u64)1 << 36; while (lo + 1 < hi) { u64 mid = (lo + hi) / 2; unsigned __int128 sq = (unsigned __int128)mid * mid; if (sq <= (((unsigned __int128)p << 96) / mid)) lo = mid; else hi = mid; } K[np] = (u32)lo;
			if (np < 8) { lo = 0; hi = (u64)1 << 37; while (lo + 1 < hi) { u64 mid = (lo + hi) / 2; if ((unsigned __int128)mid * mid <= ((unsigned __int128)p << 64)) lo = mid; else hi = mid; } H0[np] = (u32)lo; } np++; } init = 1; }
	memcpy(H, H0, sizeof H); size_t tot = ((len + 8) / 64 + 1) * 64; u8 *b = calloc(tot, 1); memcpy(b, msg, len); b[len] = 0x80; u64 bits = (u64)len * 8; for (int i = 0; i < 8; i++) b[tot - 1 - i] = bits >> (8 * i);
	for (size_t o = 0; o < tot; o += 64) { u32 w[64]; for (int i = 0; i < 16; i++) w[i] = (u32)b[o + 4 * i] << 24 | b[o + 4 * i + 1] << 16 | b[o + 4 * i + 2] << 8 | b[o + 4 * i + 3]; for (int i = 16; i < 64; i++) w[i] = (ror_(w[i - 2], 17) ^ ror_(w[i - 2], 19) ^ (w[i - 2] >> 10)) + w[i - 7] + (ror_(w[i - 15], 7) ^ ror_(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 16];
		u32 v[8]; memcpy(v, H, sizeof v); for (int i = 0; i < 64; i++) { u32 t1 = v[7] + (ror_(v[4], 6) ^ ror_(v[4], 11) ^ ror_(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + K[i] + w[i], t2 = (ror_(v[0], 2) ^ ror_(v[0], 13) ^ ror_(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2])); for (int k = 7; k > 0; k--) v[k] = v[k - 1]; v[4] += t1; v[0] = t1 + t2; } for (int k = 0; k < 8; k++) H[k] += v[k]; }
	for (int k = 0; k < 32; k++) out[k] = H[k / 4] >> (24 - 8 * (k % 4)); free(b);
}
