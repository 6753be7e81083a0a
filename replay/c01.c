#include "h.h"
static void one(i64 p, i64 a, i64 b, i64 y, i64 x) {
	spasm_field F; spasm_field_init(p, F);
	h_nl = 0; note("p=%lld a=%lld b=%lld y=%lld x=%lld\n", (long long)p, (long long)a, (long long)b, (long long)y, (long long)x);
	CHECK(F->p == p && F->halfp == (p - 1) / 2 && F->mhalfp == -(p - 1) / 2, "field_init");
	CHECK(spasm_ZZp_add(F, a, b) == cn(a + b, p), "add gives %d", spasm_ZZp_add(F, a, b));
	CHECK(spasm_ZZp_sub(F, a, b) == cn(a - b, p), "sub gives %d", spasm_ZZp_sub(F, a, b));
	CHECK(spasm_ZZp_mul(F, a, b) == cn(mm(a, b, p), p), "mul gives %d", spasm_ZZp_mul(F, a, b));
	CHECK(spasm_ZZp_axpy(F, a, b, y) == cn(md(mm(a, b, p) + y, p), p), "axpy gives %d", spasm_ZZp_axpy(F, a, b, y));
	CHECK(spasm_ZZp_init(F, x) == cn(md(x % p, p), p), "init gives %d", spasm_ZZp_init(F, x));
	if (a) CHECK(canonical(spasm_ZZp_inverse(F, a), p) && mm(spasm_ZZp_inverse(F, a), a, p) == 1, "inverse gives %d", spasm_ZZp_inverse(F, a));
}
static void tests(long it) {
	if (it < 60) {                       /* exhaustive over small primes */
		static const i64 S[] = {3, 5, 7, 11, 13, 17};
		if (it >= 6) goto rnd_;
		i64 p = S[it], h = (p - 1) / 2;
		for (i64 a = -h; a <= h; a++) for (i64 b = -h; b <= h; b++) for (i64 y = -h; y <= h; y++) one(p, a, b, y, a * b + y * p * 3);
		return;
	}
rnd_:;
	static const i64 E[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, 0, 1, -1};
	for (int k = 0; k < 200; k++) {
		i64 p = H_P[ri(0, 11)], x = coin(1, 3) ? E[ri(0, 6)] : coin(1, 2) ? (i64)rnd() : ri(-4, 4) * p + ri(-1, 1) + (coin(1, 2) ? p / 2 : -(p / 2));
		one(p, rval(p), rval(p), rval(p), x);
		/* quotients near half integers: a*b + y close to (k + 1/2) p */
		i64 a = rnz(p), t = md((i64)(rnd() >> 1), p), y = coin(1, 2) ? (p - 1) / 2 : -(p - 1) / 2; (void)t;
		one(p, a, cn(mm(inv(md(a, p), p), md((p - 1) / 2 + ri(-2, 2) - y, p), p), p), y, x);
	}
}
