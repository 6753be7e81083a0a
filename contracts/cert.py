"""C15/C16: rank certificates and the randomized check of a factorization.
last(a, v, n): last k < n with a[k] == v (-1: none); fr(a, n, t): number of rows below t that do not occur in a[0..n)
Ghosts: CW[d], CV[d]: number of the word that gives the d-th challenge, and the challenge; MK: the mask of the generator"""
from dv.lib import *
from contracts.sha import seeded, stream, WD, wd, BLK, BLK44, Dg44, band, POW2, ZZp
from contracts.solve import Comb3, FS
from contracts.product import xl, xl_def, coef, lu, mat, Exch1, ProdStep, XZeroL
from contracts.sha import be
from contracts.solve import fact_pre, A_is_LU, Solve, solves
from contracts.kernel import npc, NpcMono, NpcTotal
from contracts.rref import Compr
last = Def("last", [ARR, Int], lambda a, v: (I(0), I(-1)), lambda prev, a, v, n: z3.If(rd(a, n) == v, n, prev))
fr = Def("free_rows", [ARR, Int], lambda a, n: (I(0), I(0)), lambda prev, a, n, t: prev + z3.If(last(a, t, n) < 0, 1, 0))
LastRange = Lemma("last_range", [ARR, Int, Int], lambda a, v, n: land(-1 <= last(a, v, n), last(a, v, n) < n, imp(last(a, v, n) >= 0, rd(a, last(a, v, n)) == v)), lo=lambda a, v: I(0), uses_base=lambda a, v: [last.zero(a, v)], uses_step=lambda a, v, n: [last.unfold(a, v, n)])
CanonEq = Lemma("canon_equal", [Int, Int, Int], lambda p, a, b: imp(land(p > 0, canonp(p, a), canonp(p, b), z0(p, a - b)), a == b), uses=lambda p, a, b: [z0_elim(p, a - b)], induct=False)
BOT = 0x7fffffff
MX = z3.Function("nonneg_part", Int, Int)
def mx(x): return MX(x)
def mx_def(x): return MX(x) == z3.If(x > 0, x, 0)
def drawn(v, S, Q, P, mask, K, CV, CW):
    """the first K challenges: the accepted words, in order, nothing skipped"""
    prev = z3.If(k_ == 0, -1, rd(CW, k_ - 1)); x = band(WD(S, P, Q, rd(CW, k_)), mask)
    return [("challenges: accepted words", forall(k_, imp(land(0 <= k_, k_ < K), land(rd(CW, k_) > prev, x < P, z0(P, x - rd(CV, k_)), canonp(P, rd(CV, k_)))), [[rd(CW, k_)], [rd(CV, k_)]])),
            ("challenges: the words in between were rejected", forall([k_, t_], imp(land(0 <= k_, k_ < K, prev < t_, t_ < rd(CW, k_)), band(WD(S, P, Q, t_), mask) >= P), [z3.MultiPattern(rd(CW, k_), WD(S, P, Q, t_))]))]
def at_stream(v, ctx, S, Q, P, K, CV, CW):
    """the generator stands just after challenge K - 1"""
    return stream(ctx, S, Q) + seeded(ctx) + [("same modulus", ctx.prime == P), ("word", ZZp.at(ctx) == z3.If(K == 0, 0, rd(CW, K - 1) + 1))] + drawn(v, S, Q, P, ctx.mask, K, CV, CW)
def drawcut(K, S, Q):
    """cut of a loop that draws challenge number K(h)"""
    def cut(h, e):
        if not e.calls("spasm_prng_ZZp"): return []
        c = e.calls("spasm_prng_ZZp")[-1]; P = h.old.A.field.p; k0, k1 = K(h), K(e); s_ = S(h); mask = e.ctx.mask; a = dict(drawn(h, s_, Q, P, h.ctx.mask, k0, h.g("CV"), h.g("CW"))); b = dict(drawn(e, s_, Q, P, mask, k1, e.g("CV"), e.g("CW"))); n1, n2 = a.keys(); T = ZZp.at(e.ctx) - 1; prev = z3.If(k0 == 0, -1, rd(h.g("CW"), k0 - 1))
        return [("one more", land(k1 == k0 + 1, k0 >= 0)), ("mask", land(mask == h.ctx.mask)), ("this challenge", land(T > prev, band(WD(s_, P, Q, T), mask) < P, z0(P, band(WD(s_, P, Q, T), mask) - c.r), canonp(P, c.r))), ("words rejected", forall(t_, imp(land(prev < t_, t_ < T), band(WD(s_, P, Q, t_), mask) >= P), [WD(s_, P, Q, t_)])),
                (n1, b[n1], ["one more", "mask", "this challenge", a[n1]]), (n2, b[n2], ["one more", "mask", "words rejected", a[n2]])]
    return cut
class Verify(Contract):
    name = "spasm_certificate_rank_verify"; file = "spasm_certificate.c"; params = ["A", "hash", "proof"]
    shapes = {"A.x": "nonnull"}; ghost_out = {"CV": ARR, "CW": ARR, "X1": ARR, "X2": ARR, "MK": Int}
    def pre(s, v):
        A, pr = v.A, v.proof; r = pr.r
        return csr_ok(A) + field_ok(A.field) + [canon_vals(A), ("r", r < (1 << 31) - 1), ("hash", land(v.hash.len >= 32, v.hash.ok, *[land(0 <= rd(v.hash.A, k), rd(v.hash.A, k) < 256) for k in range(32)]))] + [("size of " + a, land(x.ok, x.len >= r)) for a, x in (("i", pr.i), ("j", pr.j), ("x", pr.x), ("y", pr.y))] + [
            ("no committed value is the mark of an uncommitted one", forall(k_, imp(land(0 <= k_, k_ < r), rd(pr.y.A, k_) != BOT), [rd(pr.y.A, k_)]))]
    def ok(o):
        A, pr = o.A, o.proof
        return land(*[rd(o.hash.A, k) == rd(pr.hash.A, k) for k in range(32)], A.field.p == pr.prime, Verify.in_range(o, pr.r))
    def vec1(o, X, t, k): l = last(o.proof.i.A, t, k); return rd(X, t) == z3.If(l < 0, 0, rd(o.proof.x.A, l))
    def vec2(o, X, CV, t): pr = o.proof; l = last(pr.i.A, t, mx(pr.r)); return rd(X, t) == z3.If(l < 0, rd(CV, mx(pr.r) + fr(pr.i.A, mx(pr.r), t)), rd(pr.y.A, l))
    def vecs(o, g): n = o.A.n; return [("first vector", forall(t_, imp(land(0 <= t_, t_ < n), Verify.vec1(o, g("X1"), t_, mx(o.proof.r))), [rd(g("X1"), t_)])), ("second vector", forall(t_, imp(land(0 <= t_, t_ < n), Verify.vec2(o, g("X2"), g("CV"), t_)), [rd(g("X2"), t_)]))]
    def prod(o, X, j): A = o.A; return xA(X, A.p.A, A.j.A, A.x.A, j, A.n)
    def post(s, o, n, r):
        A, pr = o.A, o.proof; p = A.field.p; g = n.g; ok = Verify.ok(o); S = pr.hash.A; R = mx(pr.r)
        return [("rejected when the hash, the prime or an index is wrong", imp(lnot(ok), r == 0))] + [(a, imp(ok, b)) for a, b in [("mask", land(lor(*[g("MK") == q - 1 for q in POW2]), g("MK") + 1 >= p, g("MK") + 1 < 2 * p))] + drawn(n, S, I(0), p, g("MK"), R + fr(pr.i.A, R, A.n), g("CV"), g("CW")) + Verify.vecs(o, g) + [
            ("accepted exactly when both identities hold", (r != 0) == land(forall(k_, imp(land(0 <= k_, k_ < pr.r), z0(p, Verify.prod(o, g("X1"), rd(pr.j.A, k_)) - rd(g("CV"), k_))), [rd(pr.j.A, k_)]), forall(j_, imp(land(0 <= j_, j_ < A.m), z0(p, Verify.prod(o, g("X2"), j_))), [Verify.prod(o, g("X2"), j_)])))]]
    def facts_entry(s, v): return [mx_def(v.proof.r)]
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"CV": Z, "CW": Z, "B1": I(-1), "B2": I(-1)}
    def witness(s, v):
        cs = v.calls("spasm_xApy"); Z = z3.K(Int, I(0))
        return {"CV": v.g("CV"), "CW": v.g("CW"), "X1": cs[0].o.x.A if cs else Z, "X2": cs[1].o.x.A if len(cs) > 1 else Z, "MK": v.ctx.mask if cs else I(0)}
    def cuts(s, o, v, r):
        cs = v.calls("spasm_xApy")
        if len(cs) < 2: return []
        A, pr = o.A, o.proof; p = A.field.p; n, m, R = A.n, A.m, pr.r; c1, c2 = cs[0], cs[1]; y1, y2 = c1.n.y, c2.n.y; J = rd(pr.j.A, k_); CV = v.g("CV"); a1 = Verify.prod(o, c1.o.x.A, J); a2 = Verify.prod(o, c2.o.x.A, j_); P1 = [[J], [rd(CV, k_)]]; P2 = [[rd(y2.A, j_)], [a2]]; B1, B2 = v.g("B1"), v.g("B2"); cv = rd(CV, k_)
        k1 = land(0 <= k_, k_ < R); k2 = land(0 <= j_, j_ < m)
        return [("+c1", cong(p, y1)), ("+c2", cong(p, y2)), ("first product", forall(k_, imp(k1, z0(p, a1 - rd(y1.A, J))), P1), ["c1", c1.post["exact value"], Verify.zeroed(o, c1.o.y), Verify.in_range(o, R)]), ("second product", forall(j_, imp(k2, z0(p, a2 - rd(y2.A, j_))), P2), ["c2", c2.post["exact value"], Verify.zeroed(o, c2.o.y)]), ("products canonical", land(forall(k_, imp(k1, land(canonp(p, rd(y1.A, J)), canonp(p, cv))), P1), forall(j_, imp(k2, canonp(p, rd(y2.A, j_))), P2))),
                ("+e1", forall(k_, land(Comb3.inst(p, a1, rd(y1.A, J), cv), CanonEq.inst(p, rd(y1.A, J), cv)), P1)), ("+e2", forall(j_, land(Comb3.inst(p, a2, rd(y2.A, j_), I(0)), CanonZero.inst(p, rd(y2.A, j_))), P2)),
                ("first identity", forall(k_, imp(k1, (rd(y1.A, J) == cv) == z0(p, a1 - cv)), P1), ["first product", "products canonical", "e1", p >= 3]), ("second identity", forall(j_, imp(k2, (rd(y2.A, j_) == 0) == z0(p, a2)), P2), ["second product", "products canonical", "e2", p >= 3])]
    def spec_spasm_prng_seed(s, v, o): return {"S": v.old.proof.hash.A}
    def spec_spasm_prng_ZZp(s, v, o): return {"S": v.old.proof.hash.A, "Q": I(0)}
    def draw(h, e, K):
        c = e.calls("spasm_prng_ZZp")[-1]
        return {"CV": z3.Store(h.g("CV"), K, c.r), "CW": z3.Store(h.g("CW"), K, ZZp.at(e.ctx) - 1)}
    def rng(v, K): o = v.old; return at_stream(v, v.ctx, o.proof.hash.A, I(0), o.A.field.p, K, v.g("CV"), v.g("CW"))
    def l_hash(v): o = v.old; return [("same so far", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(o.hash.A, k_) == rd(o.proof.hash.A, k_)), [[rd(o.hash.A, k_)], [rd(o.proof.hash.A, k_)]])), ("i", land(v.i <= 32))]
    def in_range(o, hi): a, b = rd(o.proof.i.A, k_), rd(o.proof.j.A, k_); return forall(k_, imp(land(0 <= k_, k_ < hi), land(0 <= a, a < o.A.n, 0 <= b, b < o.A.m)), [[a], [b]])
    def l_range(v): return [("in range so far", Verify.in_range(v.old, v.k))]
    def zero(a): return lambda v: [("zero so far", forall(t_, imp(land(0 <= t_, t_ < (v.i if a == "x" else v.j)), land(rd(getattr(v, a).A, t_) == 0, rd(getattr(v, a).S, t_) == 0)), [[rd(getattr(v, a).A, t_)], [rd(getattr(v, a).S, t_)]]))]
    def l_x(v): return [Verify.kk(v), ("committed so far", forall(t_, imp(land(0 <= t_, t_ < v.old.A.n), Verify.vec1(v.old, v.x.A, t_, v.k)), [rd(v.x.A, t_)]))]
    def zeroed(o, y): return forall(t_, imp(land(0 <= t_, t_ < o.A.m), rd(y.S, t_) == 0), [rd(y.S, t_)])
    def kk(v): return ("k", land(0 <= v.k, v.k <= mx(v.old.proof.r)))
    def seen(v): o = v.old; c = v.calls("spasm_xApy")[0]; return c.n.y.A
    def l_cmp(v):
        o = v.old; y = Verify.seen(v); J = o.proof.j.A; B = v.g("B1"); CV = v.g("CV"); hi = v.k
        return [Verify.kk(v), ("correct", land(0 <= v.correct, v.correct <= 1, imp(v.correct == 0, land(0 <= B, B < hi, rd(y, rd(J, B)) != rd(CV, B))))), ("all equal", imp(v.correct != 0, forall(k_, imp(land(0 <= k_, k_ < hi), rd(y, rd(J, k_)) == rd(CV, k_)), [[rd(J, k_)], [rd(CV, k_)]])))]
    loops = {"0": Loop(inv=lambda v: Verify.l_hash(v)), "1": Loop(inv=lambda v: Verify.l_range(v), cut_exit=lambda v: [("all in range", Verify.in_range(v.old, v.old.proof.r))]), "2": Loop(inv=zero("x")), "3": Loop(inv=lambda v: Verify.l_x(v), pre=lambda v: [forall(t_, last.zero(v.old.proof.i.A, t_), [rd(v.x.A, t_)])], end=lambda h, e: [forall(t_, last.unfold(h.old.proof.i.A, t_, h.k), [rd(e.x.A, t_)])]),
             "4": Loop(inv=zero("y"), cut_exit=lambda v: [("all zero", Verify.zeroed(v.old, v.y))]),
             "5": Loop(inv=lambda v: Verify.l_cmp(v) + Verify.rng(v, v.k), ghost={"CV": ARR, "CW": ARR, "B1": Int}, cut=drawcut(lambda v: v.k, lambda v: v.old.proof.hash.A, I(0)), ghost_end=lambda h, e: {**Verify.draw(h, e, h.k), "B1": z3.If(land(h.correct != 0, e.correct == 0), h.k, h.g("B1"))}),
             "6": Loop(inv=lambda v: [("marked so far", forall(t_, imp(land(0 <= t_, t_ < v.i), rd(v.x.A, t_) == BOT), [rd(v.x.A, t_)]))]),
             "7": Loop(inv=lambda v: Verify.l_y(v), pre=lambda v: [forall(t_, last.zero(v.old.proof.i.A, t_), [rd(v.x.A, t_)])], end=lambda h, e: [forall(t_, last.unfold(h.old.proof.i.A, t_, h.k), [rd(e.x.A, t_)])]),
             "8": Loop(inv=lambda v: Verify.l_fill(v) + Verify.rng(v, Verify.count(v)), pre=lambda v: [fr.zero(v.old.proof.i.A, mx(v.old.proof.r))], head=lambda v: [fr.unfold(v.old.proof.i.A, mx(v.old.proof.r), v.i), LastRange.inst(v.old.proof.i.A, v.i, mx(v.old.proof.r))], cut=drawcut(lambda v: Verify.count(v), lambda v: v.old.proof.hash.A, I(0)), ghost={"CV": ARR, "CW": ARR},
                       ghost_end=lambda h, e: Verify.draw(h, e, Verify.count(h)) if e.calls("spasm_prng_ZZp") else {}),
             "9": Loop(inv=zero("y"), cut_exit=lambda v: [("all zero", Verify.zeroed(v.old, v.y))]),
             "10": Loop(inv=lambda v: Verify.l_zero(v), ghost={"B2": Int}, ghost_end=lambda h, e: {"B2": z3.If(land(h.correct != 0, e.correct == 0), h.j, h.g("B2"))})}
    def l_y(v): l = last(v.old.proof.i.A, t_, v.k); return [Verify.kk(v), ("committed so far", forall(t_, imp(land(0 <= t_, t_ < v.old.A.n), rd(v.x.A, t_) == z3.If(l < 0, BOT, rd(v.old.proof.y.A, l))), [rd(v.x.A, t_)]))]
    def count(v): r = mx(v.old.proof.r); return r + fr(v.old.proof.i.A, r, v.i)
    def l_fill(v):
        o = v.old; I_ = o.proof.i.A; r = mx(o.proof.r); l = last(I_, t_, r); f = fr(I_, r, t_)
        return [("i", land(0 <= v.i, v.i <= o.A.n, fr(I_, r, v.i) >= 0)), ("filled", forall(t_, imp(land(0 <= t_, t_ < v.i), land(Verify.vec2(o, v.x.A, v.g("CV"), t_), imp(l < 0, land(0 <= f, f < fr(I_, r, v.i))))), [rd(v.x.A, t_)])), ("to fill", forall(t_, imp(land(v.i <= t_, t_ < o.A.n), rd(v.x.A, t_) == z3.If(l < 0, BOT, rd(o.proof.y.A, l))), [rd(v.x.A, t_)])), ("first challenges kept", Verify.first(v)), ("first failure kept", imp(v.correct == 0, Verify.bad1(v))), ("correct", land(0 <= v.correct, v.correct <= 1))]
    def bad1(v): y = Verify.seen(v); o = v.old; B1 = v.g("B1"); return land(0 <= B1, B1 < o.proof.r, rd(y, rd(o.proof.j.A, B1)) != rd(v.g("CV"), B1))
    def first(v): y = Verify.seen(v); o = v.old; J = o.proof.j.A; B1 = v.g("B1"); return land(imp(v.correct != 0, forall(k_, imp(land(0 <= k_, k_ < o.proof.r), rd(y, rd(J, k_)) == rd(v.g("CV"), k_)), [[rd(J, k_)], [rd(v.g("CV"), k_)]])))
    def l_zero(v):
        o = v.old; y = v.calls("spasm_xApy")[1].n.y.A; B = v.g("B2"); B1 = v.g("B1"); y1 = Verify.seen(v)
        return [("j", land(0 <= v.j, v.j <= o.A.m)), ("correct", land(0 <= v.correct, v.correct <= 1, imp(v.correct == 0, lor(land(0 <= B, B < v.j, rd(y, B) != 0), Verify.bad1(v))))), ("zero so far", imp(v.correct != 0, forall(j_, imp(land(0 <= j_, j_ < v.j), rd(y, j_) == 0), [rd(y, j_)]))), ("first identity", Verify.first(v))]

def lu_on(p, x, A, L, U, n, r, j):
    """column j of A is column j of LU (mod p) on the rows where x is not zero"""
    return forall(i_, imp(land(0 <= i_, i_ < n, rd(x, i_) != 0), z0(p, coef(A, i_, j) - lu(*L, *U, i_, j, r))), [[rd(A[0], i_)], [rd(L[0], i_)]])
M3 = [ARR, ARR, ARR]
# x A = (x L) U  (mod p) when A = L U on the rows where x is not zero
ProdOn = Lemma("xA_is_xLU_on", [Int, ARR] + M3 + M3 + M3 + [Int, Int, Int],
    lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r, n: imp(land(r >= 0, monotone(ap, n), monotone(lp, n), monotone(up, r), lu_on(p, x, (ap, aj, ax), (lp, lj, lx), (up, uj, ux), n, r, j)), z0(p, xA(x, ap, aj, ax, j, n) - xA(xl(x, (lp, lj, lx), n), up, uj, ux, j, r))),
    lo=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r: I(0),
    uses_base=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r: [xA.zero(x, ap, aj, ax, j), XZeroL.inst(x, lp, lj, lx, up, uj, ux, j, r), z0_intro(p, xA(x, ap, aj, ax, j, I(0)) - xA(xl(x, (lp, lj, lx), I(0)), up, uj, ux, j, r), I(0))],
    uses_step=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r, n: (lambda A, L, U: [xA.unfold(x, *A, j, n), RsmRs.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), Exch1.inst(x, *L, *U, j, n, r), rd(ap, n) <= rd(ap, n + 1), imp(z0(p, coef(A, n, j) - lu(*L, *U, n, j, r)), TRUE),
        ProdStep.inst(p, xA(x, *A, j, n), xA(xl(x, L, n), *U, j, r), rd(x, n), coef(A, n, j), lu(*L, *U, n, j, r)), ZeroMul.inst(rd(x, n), coef(A, n, j)), ZeroMul.inst(rd(x, n), lu(*L, *U, n, j, r)),
        xA(x, *A, j, n + 1) - xA(xl(x, L, n + 1), *U, j, r) == (xA(x, *A, j, n) + fmul(rd(x, n), coef(A, n, j))) - (xA(xl(x, L, n), *U, j, r) + fmul(rd(x, n), lu(*L, *U, n, j, r)))])((ap, aj, ax), (lp, lj, lx), (up, uj, ux)))
ZeroMul = Lemma("zero_mul", [Int, Int], lambda x, a: imp(x == 0, fmul(x, a) == 0), uses=lambda x, a: [fmul_def(x, a)], induct=False)
Chain1 = Z0Lemma("verify_chain", 5, lambda a, t, b, c, z: [a - t, b - c, c - z], lambda a, t, b, c, z: a - b, lambda w1, w2, w3, *a: w1 - w2 - w3, cond=lambda a, t, b, c, z: t == z)
Chain2 = Z0Lemma("verify_chain2", 5, lambda a, t, b, c, z: [a - t, b - c, c - z, a - b], lambda a, t, b, c, z: t - z, lambda w1, w2, w3, w4, *a: w4 + w2 + w3 - w1)
class FactVerify(Contract):
    """the pivotal rows get the challenges of their row number, the others 0; S: the bytes of the seed"""
    name = "spasm_factorization_verify"; file = "spasm_certificate.c"; params = ["A", "fact", "seed"]
    shapes = {"A.x": "nonnull", **FS}; ghost_out = {"CV": ARR, "CW": ARR, "X": ARR, "MK": Int}; spec = {"S": ARR}
    def pre(s, v):
        A, f = v.A, v.fact; L, U, P = f.L, f.U, f.p; S = v.g("S"); lo, hi = v.seed % (1 << 32), v.seed / I(1 << 32); r = []
        for nm, M in (("A", A), ("L", L), ("U", U)): r += [(f"{nm}: {a}", b) for a, b in csr_ok(M)] + [(f"{nm}: {a}", b) for a, b in field_ok(M.field)] + [(f"{nm}: canonical", canon_vals(M)[1])]
        return r + [("same field", land(L.field.p == A.field.p, U.field.p == A.field.p)), ("sizes", land(L.n == A.n, L.m == U.n, U.m == A.m)), ("p", land(P.len >= U.n, P.ok, forall(k_, imp(land(0 <= k_, k_ < U.n), land(0 <= rd(P.A, k_), rd(P.A, k_) < A.n)), [rd(P.A, k_)]))),
            ("bytes of the seed", land(*[rd(S, k) == be(lo, k) for k in range(4)], *[rd(S, 4 + k) == be(hi, k) for k in range(4)], *[rd(S, k) == 0 for k in range(8, 32)]))]
    def test(o, X): f = o.fact; A = o.A; p = A.field.p; a = xA(X, *mat(A), j_, A.n); b = xA(xl(X, mat(f.L), A.n), *mat(f.U), j_, f.U.n); return forall(j_, imp(land(0 <= j_, j_ < A.m), z0(p, a - b)), [[a], [b]])
    def is_lu(o):
        """A = LU on the pivotal rows"""
        f = o.fact; A = o.A; a, b = coef(mat(A), i_, j_), lu(*mat(f.L), *mat(f.U), i_, j_, f.U.n)
        return forall([i_, j_], imp(land(0 <= i_, i_ < A.n, last(f.p.A, i_, f.U.n) >= 0, 0 <= j_, j_ < A.m), z0(A.field.p, a - b)), [[a], [b]])
    def vec(o, X, CV): f = o.fact; return forall(t_, imp(land(0 <= t_, t_ < o.A.n), rd(X, t_) == z3.If(last(f.p.A, t_, f.U.n) >= 0, rd(CV, t_), 0)), [rd(X, t_)])
    def post(s, o, n, r):
        A = o.A; p = A.field.p; g = n.g
        return [("mask", land(lor(*[g("MK") == q - 1 for q in POW2]), g("MK") + 1 >= p, g("MK") + 1 < 2 * p))] + drawn(n, g("S"), I(0), p, g("MK"), A.n, g("CV"), g("CW")) + [("random vector", FactVerify.vec(o, g("X"), g("CV"))), ("true exactly when xA = (xL)U", (r != 0) == FactVerify.test(o, g("X"))), ("factorizations are accepted", imp(FactVerify.is_lu(o), r != 0))]
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"CV": Z, "CW": Z, "B": I(-1)}
    def witness(s, v): return {"CV": v.g("CV"), "CW": v.g("CW"), "X": v.calls("spasm_xApy")[0].o.x.A, "MK": v.ctx.mask}
    def spec_spasm_prng_seed_simple(s, v, o): return {"S": v.g("S")}
    def spec_spasm_prng_ZZp(s, v, o): return {"S": v.g("S"), "Q": I(0)}
    def cuts(s, o, v, r):
        c1, c2, c3 = v.calls("spasm_xApy"); A, f = o.A, o.fact; p = A.field.p; n, m, R = A.n, A.m, f.U.n; X = c1.o.x.A; xL = xl(X, mat(f.L), n); y = c2.n.y; a = xA(X, *mat(A), j_, n); b = xA(xL, *mat(f.U), j_, R); c = xA(y.A, *mat(f.U), j_, R); t, z = c1.n.y, c3.n.y
        P = [[a], [b], [rd(t.A, j_)]]; jj = land(0 <= j_, j_ < m); q = lambda e: forall(j_, imp(jj, e), P); Z = FactVerify.zeroed
        return [("+c1", cong(p, t)), ("+c2", cong(p, y)), ("+c3", cong(p, z)), ("+xl", xl_def(X, mat(f.L), n)), ("xA", q(z0(p, a - rd(t.A, j_))), ["c1", c1.post["exact value"], Z(c1.o.y, m)]),
                ("y is xL", forall(t_, imp(land(0 <= t_, t_ < R), z0(p, rd(xL, t_) - rd(y.A, t_))), [[rd(xL, t_)], [rd(y.A, t_)]]), ["c2", "xl", c2.post["exact value"], Z(c2.o.y, R)]), ("yU", q(z0(p, c - rd(z.A, j_))), ["c3", c3.post["exact value"], Z(c3.o.y, m)]),
                ("+cg", forall(j_, XACong.inst(p, xL, y.A, *mat(f.U), j_, R), P)), ("xLU", q(z0(p, b - c)), ["cg", "y is xL", monotone(f.U.p.A, R), R >= 0]), ("canonical", q(land(canonp(p, rd(t.A, j_)), canonp(p, rd(z.A, j_))))), 
                ("+e", forall(j_, land(Chain1.inst(p, a, rd(t.A, j_), b, c, rd(z.A, j_)), Chain2.inst(p, a, rd(t.A, j_), b, c, rd(z.A, j_)), CanonEq.inst(p, rd(t.A, j_), rd(z.A, j_))), P)), ("same entry", q((rd(t.A, j_) == rd(z.A, j_)) == z0(p, a - b)), ["e", "xA", "yU", "xLU", "canonical", p >= 3]),
                ("+prod", forall(j_, ProdOn.inst(p, X, *mat(A), *mat(f.L), *mat(f.U), j_, R, n), P)), ("vector", FactVerify.vec(o, X, v.g("CV"))), ("is LU", imp(FactVerify.is_lu(o), q(lu_on(p, X, mat(A), mat(f.L), mat(f.U), n, R, j_))), ["vector"]),
                ("test", imp(FactVerify.is_lu(o), FactVerify.test(o, X)), ["is LU", "prod", monotone(A.p.A, n), monotone(f.L.p.A, f.L.n), f.L.n == n, monotone(f.U.p.A, R), R >= 0, n >= 0])]
    def zeroed(y, m): return forall(t_, imp(land(0 <= t_, t_ < m), rd(y.S, t_) == 0), [rd(y.S, t_)])
    def rng(v, K): return at_stream(v, v.ctx, v.g("S"), I(0), v.old.A.field.p, K, v.g("CV"), v.g("CW"))
    def zero(a, hi): return lambda v: [("zero so far: " + x, forall(t_, imp(land(0 <= t_, t_ < hi(v)), rd(getattr(v, x).S, t_) == 0), [rd(getattr(v, x).S, t_)])) for x in a] + [("canonical so far: " + x, forall(t_, imp(land(0 <= t_, t_ < hi(v)), rd(getattr(v, x).A, t_) == 0), [rd(getattr(v, x).A, t_)])) for x in a]
    def marks(v, hi): P = v.old.fact.p.A; n = v.old.A.n; return forall(t_, imp(land(0 <= t_, t_ < n), rd(v.pivotal_row.A, t_) == z3.If(last(P, t_, hi) >= 0, 1, 0)), [rd(v.pivotal_row.A, t_)])
    def l_x(v): o = v.old; f = o.fact; return [("i", land(0 <= v.i, v.i <= o.A.n)), ("vector so far", forall(t_, imp(land(0 <= t_, t_ < v.i), rd(v.x.A, t_) == z3.If(last(f.p.A, t_, f.U.n) >= 0, rd(v.g("CV"), t_), 0)), [rd(v.x.A, t_)]))]
    def l_cmp(v):
        c1, c2, c3 = v.calls("spasm_xApy"); t, z = c1.n.y.A, c3.n.y.A; B = v.g("B")
        return [("j", land(0 <= v.j, v.j <= v.old.A.m)), ("correct", land(0 <= v.correct, v.correct <= 1, imp(v.correct == 0, land(0 <= B, B < v.j, rd(z, B) != rd(t, B))))), ("equal so far", imp(v.correct != 0, forall(j_, imp(land(0 <= j_, j_ < v.j), rd(z, j_) == rd(t, j_)), [[rd(z, j_)], [rd(t, j_)]])))]
    loops = {"0": Loop(inv=lambda v: [("clear so far", forall(t_, imp(land(0 <= t_, t_ < v.i), rd(v.pivotal_row.A, t_) == 0), [rd(v.pivotal_row.A, t_)]))]),
             "1": Loop(inv=lambda v: [("j", land(0 <= v.j, v.j <= v.old.fact.U.n)), ("marked so far", FactVerify.marks(v, v.j))], pre=lambda v: [forall(t_, last.zero(v.old.fact.p.A, t_), [rd(v.pivotal_row.A, t_)])], end=lambda h, e: [forall(t_, land(last.unfold(h.old.fact.p.A, t_, h.j), LastRange.inst(h.old.fact.p.A, t_, h.j)), [rd(e.pivotal_row.A, t_)])], cut_exit=lambda v: [("marked", FactVerify.marks(v, v.old.fact.U.n))]),
             "2": Loop(inv=lambda v: FactVerify.zero("zt", lambda v: v.j)(v), cut_exit=lambda v: [("all zero: " + x, FactVerify.zeroed(getattr(v, x), v.old.A.m)) for x in "zt"]), "3": Loop(inv=lambda v: FactVerify.zero("y", lambda v: v.k)(v), cut_exit=lambda v: [("all zero: y", FactVerify.zeroed(v.y, v.old.fact.U.n))]),
             "4": Loop(inv=lambda v: FactVerify.l_x(v) + FactVerify.rng(v, v.i), ghost={"CV": ARR, "CW": ARR}, cut=drawcut(lambda v: v.i, lambda v: v.g("S"), I(0)), ghost_end=lambda h, e: Verify.draw(h, e, h.i)),
             "5": Loop(inv=lambda v: FactVerify.l_cmp(v), ghost={"B": Int}, ghost_end=lambda h, e: {"B": z3.If(land(h.correct != 0, e.correct == 0), h.j, h.g("B"))})}

VSUB = Compr("vec_sub", [ARR, ARR], lambda a, b, k: rd(a, k) - rd(b, k))
MulSub = Lemma("mul_sub", [Int] * 4, lambda c, a, b, x: imp(c == a - b, fmul(c, x) == fmul(a, x) - fmul(b, x)), uses=lambda c, a, b, x: [fmul_def(c, x), fmul_def(a, x), fmul_def(b, x)], induct=False)
RsmSub = Lemma("rsm_sub", [Int, Int, Int, ARR, ARR, Int, Int, Int], lambda c, a, b, aj, ax, lo, j, n: imp(c == a - b, rsm(c, aj, ax, lo, j, n) == rsm(a, aj, ax, lo, j, n) - rsm(b, aj, ax, lo, j, n)), lo=lambda c, a, b, aj, ax, lo, j: lo, uses_base=lambda c, a, b, aj, ax, lo, j: [rsm.zero(x, aj, ax, lo, j) for x in (a, b, c)],
    uses_step=lambda c, a, b, aj, ax, lo, j, n: [rsm.unfold(x, aj, ax, lo, j, n) for x in (a, b, c)] + [MulSub.inst(c, a, b, rd(ax, n))])
XaSub = Lemma("xA_sub", [ARR, ARR, ARR, ARR, ARR, Int, Int], lambda x, w, ap, aj, ax, j, n: imp(monotone(ap, n), xA(VSUB(x, w), ap, aj, ax, j, n) == xA(x, ap, aj, ax, j, n) - xA(w, ap, aj, ax, j, n)), lo=lambda *a: I(0), uses_base=lambda x, w, ap, aj, ax, j: [xA.zero(z, ap, aj, ax, j) for z in (x, w, VSUB(x, w))],
    uses_step=lambda x, w, ap, aj, ax, j, n: [xA.unfold(z, ap, aj, ax, j, n) for z in (x, w, VSUB(x, w))] + [VSUB.at(x, w), RsmSub.inst(rd(VSUB(x, w), n), rd(x, n), rd(w, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), rd(ap, n) <= rd(ap, n + 1)])
LastFound = Lemma("last_found", [ARR, Int, Int, Int], lambda a, v, w, n: imp(land(0 <= w, rd(a, w) == v), land(imp(w < n, last(a, v, n) >= w))), lo=lambda a, v, w: I(0), uses_base=lambda a, v, w: [last.zero(a, v)], uses_step=lambda a, v, w, n: [last.unfold(a, v, n)])
LastExt = Lemma("last_ext", [ARR, ARR, Int, Int], lambda a, b, v, n: imp(forall(k_, imp(land(0 <= k_, k_ < n), rd(a, k_) == rd(b, k_)), [rd(a, k_)]), last(a, v, n) == last(b, v, n)), lo=lambda *a: I(0), uses_base=lambda a, b, v: [last.zero(a, v), last.zero(b, v)], uses_step=lambda a, b, v, n: [last.unfold(a, v, n), last.unfold(b, v, n), rd(a, n) == rd(a, n)])
FrExt = Lemma("free_rows_ext", [ARR, ARR, Int, Int], lambda a, b, n, t: imp(land(n >= 0, forall(k_, imp(land(0 <= k_, k_ < n), rd(a, k_) == rd(b, k_)), [rd(a, k_)])), fr(a, n, t) == fr(b, n, t)), lo=lambda *a: I(0), uses_base=lambda a, b, n: [fr.zero(a, n), fr.zero(b, n)], uses_step=lambda a, b, n, t: [fr.unfold(a, n, t), fr.unfold(b, n, t), LastExt.inst(a, b, t, n)])
WdExt = Lemma("word_ext", [ARR, ARR, Int, Int, Int], lambda S, S2, P, Q, T: imp(land(*[rd(S, k) == rd(S2, k) for k in range(32)]), WD(S, P, Q, T) == WD(S2, P, Q, T)), uses=lambda S, S2, P, Q, T: [WD(S, P, Q, T) == wd(S, P, Q, T), WD(S2, P, Q, T) == wd(S2, P, Q, T), BLK44(S, P, Q, T / 8), BLK44(S2, P, Q, T / 8), Dg44.inst(BLK(S, P, Q, T / 8), BLK(S2, P, Q, T / 8))], induct=False)
NegZ = Z0Lemma("z0_neg_diff", 2, lambda a, b: [a - b], lambda a, b: b - a, lambda w, a, b: -w)
class Create(Contract):
    """from a complete factorization (A = LU): the conditions under which spasm_certificate_rank_verify accepts"""
    name = "spasm_certificate_rank_create"; file = "spasm_certificate.c"; params = ["A", "hash", "fact"]
    shapes = {"A.x": "nonnull", **FS}; spec = {"D": ARR, "UQ": ARR}; ghost_out = {"CV": ARR, "CW": ARR, "X1": ARR, "X2": ARR, "MK": Int}
    def pre(s, v):
        A, f = v.A, v.fact
        return [("A: " + a, b) for a, b in csr_ok(A)] + [("A: " + a, b) for a, b in field_ok(A.field)] + [("A: canonical", canon_vals(A)[1])] + fact_pre(f, v.g("UQ"), v.g("D"), A.p.A) + [("A: field", A.field.p == f.U.field.p), ("sizes", land(f.L.n == A.n, f.U.m == A.m)), ("complete", A_is_LU(f, mat(A))), ("hash", land(v.hash.len >= 32, v.hash.ok, *[land(0 <= rd(v.hash.A, k), rd(v.hash.A, k) < 256) for k in range(32)]))]
    class O:
        def __init__(s, A, hash, proof): s.A, s.hash, s.proof = A, hash, proof
    def post(s, o, n, r):
        A, f = o.A, o.fact; p = A.field.p; g = n.g; R = f.U.n; sh = Create.O(A, o.hash, r)
        return [("claims the rank", r.r == R), ("sizes", land(*[land(x.ok, x.len >= R) for x in (r.i, r.j, r.x, r.y)])), ("rows of the pivots", forall(k_, imp(land(0 <= k_, k_ < R), rd(r.i.A, k_) == rd(f.p.A, k_)), [rd(r.i.A, k_)])), ("values canonical", land(canon_arr(p, r.x.A, R), canon_arr(p, r.y.A, R))), ("pivotal columns, in order", land(forall(k_, imp(land(0 <= k_, k_ < R), rd(f.qinv.A, rd(r.j.A, k_)) >= 0), [rd(r.j.A, k_)]), Create.incr(r.j.A, R))),
                ("hash, prime and indices", Verify.ok(sh)), ("mask", land(lor(*[g("MK") == q - 1 for q in POW2]), g("MK") + 1 >= p, g("MK") + 1 < 2 * p))] + drawn(n, r.hash.A, I(0), p, g("MK"), mx(R) + fr(r.i.A, mx(R), A.n), g("CV"), g("CW")) + Create.vecs(sh, g) + Create.ids(sh, g)
    def vecs(sh, g): return Verify.vecs(sh, g)
    def ids(sh, g):
        p = sh.A.field.p; return [("first identity", forall(k_, imp(land(0 <= k_, k_ < sh.proof.r), z0(p, Verify.prod(sh, g("X1"), rd(sh.proof.j.A, k_)) - rd(g("CV"), k_))), [rd(sh.proof.j.A, k_)])), ("second identity", forall(j_, imp(land(0 <= j_, j_ < sh.A.m), z0(p, Verify.prod(sh, g("X2"), j_))), [Verify.prod(sh, g("X2"), j_)]))]
    def incr(j, R): a, b = z3.Ints("a! b!"); return forall([a, b], imp(land(0 <= a, a < b, b < R), rd(j, a) < rd(j, b)), [z3.MultiPattern(rd(j, a), rd(j, b))])
    def facts_entry(s, v): return [mx_def(v.fact.U.n), npc.zero(v.fact.qinv.A)] + NpcTotal(v.fact.qinv.A, v.g("UQ"), v.fact.U.n, v.fact.U.m)
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"CV": Z, "CW": Z}
    def X(v): a = v.calls("spasm_solve"); return a[0].n.x.A, a[1].n.x.A, a[1].o.x.A
    def witness(s, v): X1, x2, w = Create.X(v); return {"CV": v.g("CV"), "CW": v.g("CW"), "X1": X1, "X2": VSUB(x2, w), "MK": v.ctx.mask}
    def spec_spasm_prng_seed(s, v, o): return {"S": v.old.hash.A}
    def spec_spasm_prng_ZZp(s, v, o): return {"S": v.old.hash.A, "Q": I(0)}
    def spec_spasm_solve(s, v, o): A = v.old.A; return {"Y": v.x.A, "D": v.g("D"), "UQ": v.g("UQ"), "AP": A.p.A, "AJ": A.j.A, "AX": A.x.A}
    def rng(v, K): return at_stream(v, v.ctx, v.old.hash.A, I(0), v.old.A.field.p, K, v.g("CV"), v.g("CW"))
    def P(v): return v.old.fact.p.A
    def cuts(s, o, v, r):
        A, f = o.A, o.fact; p = A.field.p; n, m, R = A.n, A.m, f.U.n; P = f.p.A; ii = r.i.A; (c1, c2), ax = v.calls("spasm_solve"), v.call("spasm_xApy"); X1, x2, W = Create.X(v); X2 = VSUB(x2, W); sh = Create.O(A, o.hash, r); g = lambda k: {"X1": X1, "X2": X2, "CV": v.g("CV")}[k]; CV = v.g("CV"); M = mat(A)
        lp, li = last(P, t_, mx(R)), last(ii, t_, mx(R)); fp, fi = fr(P, mx(R), t_), fr(ii, mx(R), t_); tn = lambda e: imp(land(0 <= t_, t_ < n), e); kr = lambda e: imp(land(0 <= k_, k_ < R), e); OW = lambda c: [x for x in [c.post["zero outside the pivotal rows"]]][0]
        PT = [[lp], [li], [rd(X1, t_)], [rd(x2, t_)], [rd(X2, t_)]]; J = rd(r.j.A, k_); b1, b2 = c1.o.b, c2.o.b; pre = dict(fact_pre(f, v.g("UQ"), v.g("D"), A.p.A)); lu = A_is_LU(f, M); xw, xx2 = xA(W, *M, j_, n), xA(x2, *M, j_, n); PJ = [[xA(X2, *M, j_, n)], [rd(b2.S, j_)]]; jm = lambda e: imp(land(0 <= j_, j_ < m), e)
        same = forall(k_, kr(rd(ii, k_) == rd(P, k_)), [rd(ii, k_)]); sol = lambda x: solves(o, M, x, b2.S, n, m, p)
        return [("R", land(mx(R) == R, R >= 0, n >= 0)), ("rows of the pivots", same), ("+ext", forall(t_, land(LastExt.inst(ii, P, t_, mx(R)), FrExt.inst(ii, P, mx(R), t_)), [[li], [fi]])), ("same last", forall(t_, li == lp, [li]), ["ext", "R", "rows of the pivots"]), ("same free rows", forall(t_, imp(t_ >= 0, fi == fp), [fi]), ["ext", "R", "rows of the pivots"]),
                ("+rng", forall(t_, land(LastRange.inst(P, t_, mx(R)), LastFound.inst(P, t_, rd(c1.g("OWN"), t_), mx(R)), LastFound.inst(P, t_, rd(c2.g("OWN"), t_), mx(R))), PT)), ("last", forall(t_, land(-1 <= lp, lp < R, imp(lp >= 0, rd(P, lp) == t_)), PT), ["rng", "R"]),
                ("first solution", forall(t_, tn(imp(lp < 0, rd(X1, t_) == 0)), PT), ["rng", "R", OW(c1), f.L.n == n]), ("second solution", forall(t_, tn(imp(lp < 0, rd(x2, t_) == 0)), PT), ["rng", "R", OW(c2), f.L.n == n]),
                ("xx", forall(k_, kr(rd(r.x.A, k_) == rd(X1, rd(P, k_))), [rd(r.x.A, k_)])), ("yy", forall(k_, kr(rd(r.y.A, k_) == rd(x2, rd(P, k_))), [rd(r.y.A, k_)])), ("first vector", dict(Verify.vecs(sh, g))["first vector"], ["xx", "first solution", "last", "same last", "R"]),
                ("w", forall(t_, tn(rd(W, t_) == z3.If(lp < 0, -rd(CV, mx(R) + fp), 0)), [rd(W, t_)])), ("+sub", VSUB.at(x2, W)), ("second vector", dict(Verify.vecs(sh, g))["second vector"], ["yy", "second solution", "last", "same last", "same free rows", "R", "w", "sub"]),
                ("right-hand side", forall(k_, kr(land(rd(b1.S, J) == rd(CV, k_), 0 <= J, J < m, rd(f.qinv.A, J) >= 0)), [J])), ("column of a pivot", forall(k_, kr(land(rd(v.g("UQ"), rd(f.qinv.A, J)) == J, 0 <= rd(f.qinv.A, J), rd(f.qinv.A, J) < R)), [J]), ["right-hand side", pre["qinv"], f.U.m == m]), ("+lu", lu), ("first pivots", forall(k_, kr(z0(p, rd(b1.S, J) - xA(X1, *M, J, n))), [J]), ["column of a pivot", "lu", f.L.n == n, A.field.p == f.U.field.p, c1.post["x A = b on the pivot columns, always"]]), ("+neg", forall(k_, NegZ.inst(p, rd(b1.S, J), xA(X1, *M, J, n)), [J])), ("first identity", dict(Create.ids(sh, g))["first identity"], ["right-hand side", "first pivots", "neg"]),
                ("image", forall(j_, jm(rd(b2.S, j_) == xw), [[rd(b2.S, j_)], [xw]])), ("+z", forall(j_, land(z0_intro(p, rd(b2.S, j_) - xw, I(0)), NegZ.inst(p, rd(b2.S, j_), xx2), XaSub.inst(x2, W, *M, j_, n)), PJ)), ("the second system has a solution", sol(W), ["image", "z"]), ("the second system is solved", sol(x2)),
                ("second identity", dict(Create.ids(sh, g))["second identity"], ["the second system is solved", "image", "z", monotone(A.p.A, n), n >= 0]),
                ("number of challenges", fr(ii, mx(R), n) == fr(P, mx(R), n)), ("hash", land(*[rd(r.hash.A, k) == rd(o.hash.A, k) for k in range(32)])), ("+wd", forall(t_, WdExt.inst(r.hash.A, o.hash.A, p, I(0), t_), [WD(r.hash.A, p, I(0), t_)])), ("same words", forall(t_, WD(r.hash.A, p, I(0), t_) == WD(o.hash.A, p, I(0), t_), [WD(r.hash.A, p, I(0), t_)]), ["hash", "wd"])] + [
                ("the " + a, b, [dict(drawn(v, o.hash.A, I(0), p, v.ctx.mask, mx(R) + fr(P, mx(R), n), CV, v.g("CW")))[a], "same words", "number of challenges"]) for a, b in drawn(v, r.hash.A, I(0), p, v.ctx.mask, mx(R) + fr(ii, mx(R), n), CV, v.g("CW"))]
    def l_jj(v):
        f = v.old.fact; q = f.qinv.A
        return [("k", land(v.k == v.j - npc(q, v.j), 0 <= v.k, v.k <= f.U.n, v.j <= f.U.m)), ("pivotal", forall(k_, imp(land(0 <= k_, k_ < v.k), land(0 <= rd(v.jj.A, k_), rd(v.jj.A, k_) < v.j, rd(q, rd(v.jj.A, k_)) >= 0)), [rd(v.jj.A, k_)])), ("increasing", Create.incr(v.jj.A, v.k))]
    def l_draw(v):
        J = rd(v.jj.A, k_); r = v.old.fact.U.n
        return [("k", land(0 <= v.k, v.k <= r)), ("right-hand side", forall(k_, imp(land(0 <= k_, k_ < v.k), land(rd(v.y.A, J) == rd(v.g("CV"), k_), rd(v.y.S, J) == rd(v.g("CV"), k_))), [[J], [rd(v.g("CV"), k_)]])), ("canonical", canon_arr(v.old.A.field.p, v.y.A, v.old.A.m))]
    def l_out(a, b):
        return lambda v: [("k", land(0 <= v.k, v.k <= v.old.fact.U.n)), ("copied", forall(k_, imp(land(0 <= k_, k_ < v.k), rd(getattr(v, a).A, k_) == rd(v.x.A, rd(v.ii.A, k_))), [rd(getattr(v, a).A, k_)]))]
    def l_fill(v):
        o = v.old; I_ = Create.P(v); r = mx(o.fact.U.n); l = last(I_, t_, r); f = fr(I_, r, t_)
        return [("i", land(0 <= v.i, v.i <= o.A.n, fr(I_, r, v.i) >= 0)), ("filled", forall(t_, imp(land(0 <= t_, t_ < v.i), land(rd(v.x.A, t_) == z3.If(l < 0, -rd(v.g("CV"), r + f), 0), imp(l < 0, land(0 <= f, f < fr(I_, r, v.i))))), [rd(v.x.A, t_)])), ("to fill", forall(t_, imp(land(v.i <= t_, t_ < o.A.n), rd(v.x.A, t_) == z3.If(l < 0, BOT, 0)), [rd(v.x.A, t_)])),
                ("first challenges kept", forall(k_, imp(land(0 <= k_, k_ < o.fact.U.n), rd(v.calls("spasm_solve")[0].o.b.S, rd(v.jj.A, k_)) == rd(v.g("CV"), k_)), [[rd(v.jj.A, k_)], [rd(v.g("CV"), k_)]]))]
    def count(v): r = mx(v.old.fact.U.n); return r + fr(Create.P(v), r, v.i)
    zero = lambda v: [("zero so far", forall(t_, imp(land(0 <= t_, t_ < v.j), land(rd(v.y.A, t_) == 0, rd(v.y.S, t_) == 0)), [[rd(v.y.A, t_)], [rd(v.y.S, t_)]]))]
    loops = {"0": Loop(inv=lambda v: [("copied", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.proof.hash.A, k_) == rd(v.old.hash.A, k_)), [rd(v.proof.hash.A, k_)])), ("i", v.i <= 32)]),
             "1": Loop(inv=lambda v: [("copied", forall(k_, imp(land(0 <= k_, k_ < v.k), rd(v.ii.A, k_) == rd(Create.P(v), k_)), [rd(v.ii.A, k_)])), ("k", v.k <= v.old.fact.U.n)]),
             "2": Loop(inv=lambda v: Create.l_jj(v), head=lambda v: [npc.unfold(v.old.fact.qinv.A, v.j), NpcMono.inst(v.old.fact.qinv.A, v.j + 1, v.old.fact.U.m), rd(v.old.fact.qinv.A, v.j) == rd(v.old.fact.qinv.A, v.j)]),
             "3": Loop(inv=zero),
             "4": Loop(inv=lambda v: Create.l_draw(v) + Create.rng(v, v.k), ghost={"CV": ARR, "CW": ARR}, cut=drawcut(lambda v: v.k, lambda v: v.old.hash.A, I(0)), ghost_end=lambda h, e: Verify.draw(h, e, h.k)),
             "5": Loop(inv=l_out("xx", "x")),
             "6": Loop(inv=lambda v: [("marked so far", forall(t_, imp(land(0 <= t_, t_ < v.i), rd(v.x.A, t_) == BOT), [rd(v.x.A, t_)]))]),
             "7": Loop(inv=lambda v: [("k", land(0 <= v.k, v.k <= v.old.fact.U.n)), ("cleared so far", forall(t_, imp(land(0 <= t_, t_ < v.old.A.n), rd(v.x.A, t_) == z3.If(last(Create.P(v), t_, v.k) < 0, BOT, 0)), [rd(v.x.A, t_)]))], pre=lambda v: [forall(t_, last.zero(Create.P(v), t_), [rd(v.x.A, t_)])], end=lambda h, e: [forall(t_, last.unfold(Create.P(h), t_, h.k), [rd(e.x.A, t_)])]),
             "8": Loop(inv=lambda v: Create.l_fill(v) + Create.rng(v, Create.count(v)), pre=lambda v: [fr.zero(Create.P(v), mx(v.old.fact.U.n))], head=lambda v: [fr.unfold(Create.P(v), mx(v.old.fact.U.n), v.i), LastRange.inst(Create.P(v), v.i, mx(v.old.fact.U.n))], cut=drawcut(lambda v: Create.count(v), lambda v: v.old.hash.A, I(0)), ghost={"CV": ARR, "CW": ARR},
                       cut_exit=lambda v: [("all " + a, b) for a, b in drawn(v, v.old.hash.A, I(0), v.old.A.field.p, v.ctx.mask, mx(v.old.fact.U.n) + fr(Create.P(v), mx(v.old.fact.U.n), v.old.A.n), v.g("CV"), v.g("CW"))],
                       ghost_end=lambda h, e: Verify.draw(h, e, Create.count(h)) if e.calls("spasm_prng_ZZp") else {}),
             "9": Loop(inv=zero),
             "10": Loop(inv=l_out("yy", "x"))}

# ------------------------------------------------------------------ closing lemma: what create promises is what verify accepts
def _dr(S, P, mask, K, CV, CW): return land(*[x[1] for x in drawn(None, S, I(0), P, mask, K, CV, CW)])
def _ismask(P, m): return land(lor(*[m == q - 1 for q in POW2]), m + 1 >= P, m + 1 < 2 * P)
MaskOne = Lemma("one_mask", [Int, Int, Int], lambda P, a, b: imp(land(_ismask(P, a), _ismask(P, b)), a == b), induct=False)
SameVal = Lemma("same_value", [Int] * 4, lambda p, x, a, b: imp(land(p >= 3, z0(p, x - a), z0(p, x - b), canonp(p, a), canonp(p, b)), a == b), uses=lambda p, x, a, b: [Z0Sub.inst(p, x - b, x - a), CanonEq.inst(p, a, b), z0_intro(p, a - b, I(0)), Z0Eq.inst(p, (x - b) - (x - a), a - b)], induct=False)
def _seq(K, CV, CW, CV2, CW2): return forall(k_, imp(land(0 <= k_, k_ < K), land(rd(CW, k_) == rd(CW2, k_), rd(CV, k_) == rd(CV2, k_))), [[rd(CW, k_)], [rd(CW2, k_)], [rd(CV, k_)], [rd(CV2, k_)]])
def _det_step(S, P, mask, CV, CW, CV2, CW2, K):
    xs = [(CV, CW), (CV2, CW2)]; ib = lambda w: band(WD(S, P, I(0), w), mask); prev = lambda w: z3.If(K == 0, -1, rd(w, K - 1)); out = [SameVal.inst(P, ib(rd(CW, K)), rd(CV, K), rd(CV2, K)), rd(CW, K - 1) == rd(CW, K - 1)]
    return out + [WD(S, P, I(0), rd(w, K)) == WD(S, P, I(0), rd(w, K)) for _, w in xs]
# two sequences of challenges drawn from the same seed and prime are the same
Determined = Lemma("challenges_determined", [ARR, Int, Int] + [ARR] * 4 + [Int], lambda S, P, mask, CV, CW, CV2, CW2, K: imp(land(P >= 3, _dr(S, P, mask, K, CV, CW), _dr(S, P, mask, K, CV2, CW2)), _seq(K, CV, CW, CV2, CW2)), lo=lambda *a: I(0), uses_base=lambda *a: [], uses_step=_det_step)
FrMono = Lemma("free_rows_mono", [ARR, Int, Int, Int], lambda a, r, t, n: imp(0 <= t, land(imp(t < n, fr(a, r, n) >= fr(a, r, t + 1)), imp(t <= n, fr(a, r, n) >= fr(a, r, t)), imp(t < n, fr(a, r, t + 1) == fr(a, r, t) + z3.If(last(a, t, r) < 0, 1, 0)), fr(a, r, n) >= 0)), lo=lambda *a: I(0), uses_base=lambda a, r, t: [fr.zero(a, r)], uses_step=lambda a, r, t, n: [fr.unfold(a, r, n), fr.unfold(a, r, t)])
FrPos = Lemma("free_rows_pos", [ARR, Int, Int], lambda a, r, n: fr(a, r, n) >= 0, lo=lambda *a: I(0), uses_base=lambda a, r: [fr.zero(a, r)], uses_step=lambda a, r, n: [fr.unfold(a, r, n)])
XaExt = Lemma("xA_ext", [ARR] * 5 + [Int, Int], lambda x, w, ap, aj, ax, j, n: imp(forall(k_, imp(land(0 <= k_, k_ < n), rd(x, k_) == rd(w, k_)), [[rd(x, k_)], [rd(w, k_)]]), xA(x, ap, aj, ax, j, n) == xA(w, ap, aj, ax, j, n)), lo=lambda *a: I(0), uses_base=lambda x, w, ap, aj, ax, j: [xA.zero(z, ap, aj, ax, j) for z in (x, w)], uses_step=lambda x, w, ap, aj, ax, j, n: [xA.unfold(z, ap, aj, ax, j, n) for z in (x, w)] + [rd(x, n) == rd(x, n)])
class _Obj:
    def __init__(s, **k): s.__dict__.update(k)
def _cert(p, S, ap, aj, ax, ii, jj, xx, yy, m, R, n):
    f = lambda a: _Obj(A=a); return _Obj(A=_Obj(n=n, m=m, p=f(ap), j=f(aj), x=f(ax), field=_Obj(p=p)), proof=_Obj(r=R, hash=f(S), i=f(ii), j=f(jj), x=f(xx), y=f(yy)))
def _G(**k): return lambda a: k[a]
def _claims(o, S, mask, CV, CW, X1, X2):
    """what create promises about a certificate (ghosts CV, CW, X1, X2), apart from the two identities"""
    p, R = o.A.field.p, mx(o.proof.r); g = _G(CV=CV, CW=CW, X1=X1, X2=X2); return land(_ismask(p, mask), _dr(S, p, mask, R + fr(o.proof.i.A, R, o.A.n), CV, CW), *[b for a, b in Verify.vecs(o, g)])
_AC = [Int] + [ARR] * 8 + [Int] * 5 + [ARR] * 8
def _split(p, S, ap, aj, ax, ii, jj, xx, yy, m, R, n, mask, mask2, *a): return _cert(p, S, ap, aj, ax, ii, jj, xx, yy, m, R, n), a[:4], a[4:]
def _hyp(*a): o, g, h = _split(*a); return land(o.A.field.p >= 3, o.A.n >= 0, monotone(o.A.p.A, o.A.n), _claims(o, a[1], a[12], *g), _claims(o, a[1], a[13], *h))
def _same(*a):
    o, g, h = _split(*a); n = o.A.n; R = mx(o.proof.r); return land(a[12] == a[13], _seq(R + fr(o.proof.i.A, R, n), g[0], g[1], h[0], h[1]))
def _det_uses(*a):
    o, g, h = _split(*a); n, p, R = o.A.n, o.A.field.p, mx(o.proof.r); return [mx_def(o.proof.r), MaskOne.inst(p, a[12], a[13]), Determined.inst(a[1], p, a[12], g[0], g[1], h[0], h[1], R + fr(o.proof.i.A, R, n)), FrPos.inst(o.proof.i.A, R, n)]
CertSeq = Lemma("certificate_challenges", _AC, lambda *a: imp(_hyp(*a), _same(*a)), uses=_det_uses, induct=False)
def _vec(*a):
    o, g, h = _split(*a); return land(*[forall(t_, imp(land(0 <= t_, t_ < o.A.n), rd(g[k], t_) == rd(h[k], t_)), [[rd(g[k], t_)], [rd(h[k], t_)]]) for k in (2, 3)])
def _vec_uses(*a):
    o, g, h = _split(*a); ii, R, n = o.proof.i.A, mx(o.proof.r), o.A.n; f = fr(ii, R, t_)
    return [mx_def(o.proof.r), CertSeq.inst(*a), forall(t_, land(FrMono.inst(ii, R, t_, n), FrPos.inst(ii, R, t_), rd(g[0], R + f) == rd(g[0], R + f)), [[rd(g[3], t_)], [rd(h[3], t_)]])]
CertVec = Lemma("certificate_vectors", _AC, lambda *a: imp(_hyp(*a), _vec(*a)), uses=_vec_uses, induct=False)
def _ids(o, v): return land(*[b for a, b in Create.ids(o, _G(CV=v[0], CW=v[1], X1=v[2], X2=v[3]))])
def _acc_uses(*a):
    o, g, h = _split(*a); n, m, p, R = o.A.n, o.A.m, o.A.field.p, mx(o.proof.r); M = mat(o.A); J = rd(o.proof.j.A, k_)
    return [mx_def(o.proof.r), CertSeq.inst(*a), CertVec.inst(*a), FrPos.inst(o.proof.i.A, R, n), forall(k_, land(XaExt.inst(g[2], h[2], *M, J, n), rd(g[0], k_) == rd(g[0], k_)), [J]), forall(j_, XaExt.inst(g[3], h[3], *M, j_, n), [[xA(h[3], *M, j_, n)]])]
# the verifier's vectors and challenges are those of the creator: the identities it tests hold
Accepted = Lemma("created_certificates_are_accepted", _AC, lambda *a: imp(land(_hyp(*a), _ids(_split(*a)[0], _split(*a)[1])), _ids(_split(*a)[0], _split(*a)[2])), uses=_acc_uses, induct=False)
ALL = [Verify(), FactVerify(), Create()]
