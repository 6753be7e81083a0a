"""contract of the sparse triangular solver"""
from dv.lib import *
from contracts.tri import rowcoef, rowmul
from contracts.reach import W_, search_pre, pattern, h_
# xbu(x, xj, qinv, U, c, top, t) = sum over the pivotal columns j = xj[s], top <= s < t, of x[j] * U[qinv[j]][c]
xbu = Def("xbu", [ARR, ARR, ARR, ARR, ARR, ARR, Int, Int], lambda x, xj, qi, ap, aj, ax, c, top: (top, I(0)),
          lambda prev, x, xj, qi, ap, aj, ax, c, top, t: prev + z3.If(rd(qi, rd(xj, t)) >= 0, rsm(rd(x, rd(xj, t)), aj, ax, rd(ap, rd(qi, rd(xj, t))), c, rd(ap, rd(qi, rd(xj, t)) + 1)), 0))
XbFrame = Lemma("xbu_frame", [ARR, ARR, ARR, ARR, ARR, ARR, ARR, Int, Int, Int], lambda x, y, xj, qi, ap, aj, ax, c, top, t: imp(forall(k_, imp(land(top <= k_, k_ < t), rd(x, rd(xj, k_)) == rd(y, rd(xj, k_))), [rd(xj, k_)]), xbu(x, xj, qi, ap, aj, ax, c, top, t) == xbu(y, xj, qi, ap, aj, ax, c, top, t)), lo=lambda x, y, xj, qi, ap, aj, ax, c, top: top,
    uses_base=lambda x, y, xj, qi, ap, aj, ax, c, top: [xbu.zero(x, xj, qi, ap, aj, ax, c, top), xbu.zero(y, xj, qi, ap, aj, ax, c, top)],
    uses_step=lambda x, y, xj, qi, ap, aj, ax, c, top, t: [xbu.unfold(x, xj, qi, ap, aj, ax, c, top, t), xbu.unfold(y, xj, qi, ap, aj, ax, c, top, t), rd(xj, t) == rd(xj, t)])
def xb_rows(xj, qi, ap, top, t): return forall(h_, imp(land(top <= h_, h_ < t, rd(qi, rd(xj, h_)) >= 0), rd(ap, rd(qi, rd(xj, h_))) <= rd(ap, rd(qi, rd(xj, h_)) + 1)), [rd(xj, h_)])
XbNone = Lemma("xbu_none", [ARR, ARR, ARR, ARR, ARR, ARR, Int, Int, Int], lambda x, xj, qi, ap, aj, ax, c, top, t: imp(land(xb_rows(xj, qi, ap, top, t), forall([h_, k_], imp(land(top <= h_, h_ < t, rd(qi, rd(xj, h_)) >= 0, rd(ap, rd(qi, rd(xj, h_))) <= k_, k_ < rd(ap, rd(qi, rd(xj, h_)) + 1)), rd(aj, k_) != c), [[rd(xj, h_), rd(aj, k_)]])), xbu(x, xj, qi, ap, aj, ax, c, top, t) == 0), lo=lambda x, xj, qi, ap, aj, ax, c, top: top,
    uses_base=lambda x, xj, qi, ap, aj, ax, c, top: [xbu.zero(x, xj, qi, ap, aj, ax, c, top)],
    uses_step=lambda x, xj, qi, ap, aj, ax, c, top, t: [xbu.unfold(x, xj, qi, ap, aj, ax, c, top, t), rd(xj, t) == rd(xj, t), RsmNone.inst(rd(x, rd(xj, t)), aj, ax, rd(ap, rd(qi, rd(xj, t))), c, rd(ap, rd(qi, rd(xj, t)) + 1))])
ElimRest = Z0Lemma("elim_rest", 3, lambda r, s, a: [r - 1, s - a], lambda r, s, a: s - fmul(a, r), lambda w1, w2, r, s, a: w2 - a * w1, lambda r, s, a: [fmul_def(a, r)])
# the coefficients of the combination as a vector indexed by the rows of U: cv(...)[qinv[xj[s]]] = x[xj[s]] for the pivotal columns among xj[top..t-1]
cv = Def("cv", [ARR, ARR, ARR, Int], lambda x, xj, qi, top: (top, z3.K(Int, I(0))), lambda prev, x, xj, qi, top, t: z3.If(rd(qi, rd(xj, t)) >= 0, z3.Store(prev, rd(qi, rd(xj, t)), rd(x, rd(xj, t))), prev), ret=ARR)
ID = z3.Const("identity", ARR)
ID_def = forall(k_, rd(ID, k_) == k_, [rd(ID, k_)])
g2_ = z3.Int("g2!")
def inj_pos(xj, qi, top, t): return forall([h_, g2_], imp(land(top <= h_, h_ < g2_, g2_ < t, rd(qi, rd(xj, h_)) >= 0), rd(qi, rd(xj, h_)) != rd(qi, rd(xj, g2_))), [z3.MultiPattern(rd(xj, h_), rd(xj, g2_))])
def inj_piv(qi, m): return forall([h_, g2_], imp(land(0 <= h_, h_ < g2_, g2_ < m, rd(qi, h_) >= 0), rd(qi, h_) != rd(qi, g2_)), [z3.MultiPattern(rd(qi, h_), rd(qi, g2_))])
CvUnset = Lemma("cv_unset", [ARR, ARR, ARR, Int, Int, Int], lambda x, xj, qi, top, i, t: imp(forall(h_, imp(land(top <= h_, h_ < t, rd(qi, rd(xj, h_)) >= 0), rd(qi, rd(xj, h_)) != i), [rd(xj, h_)]), rd(cv(x, xj, qi, top, t), i) == 0), lo=lambda x, xj, qi, top, i: top,
    uses_base=lambda x, xj, qi, top, i: [cv.zero(x, xj, qi, top)], uses_step=lambda x, xj, qi, top, i, t: [cv.unfold(x, xj, qi, top, t), rd(xj, t) == rd(xj, t)])
CvSet = Lemma("cv_set", [ARR, ARR, ARR, Int, Int, Int], lambda x, xj, qi, top, s, t: imp(land(top <= s, s < t, rd(qi, rd(xj, s)) >= 0, inj_pos(xj, qi, top, t)), rd(cv(x, xj, qi, top, t), rd(qi, rd(xj, s))) == rd(x, rd(xj, s))), lo=lambda x, xj, qi, top, s: top,
    uses_step=lambda x, xj, qi, top, s, t: [cv.unfold(x, xj, qi, top, t), imp(s < t, imp(inj_pos(xj, qi, top, t + 1), lor(rd(qi, rd(xj, t)) < 0, rd(qi, rd(xj, t)) != rd(qi, rd(xj, s))))) if False else TRUE])
CvFrom = Lemma("cv_from", [ARR, ARR, ARR, ARR, Int, Int, Int], lambda x, pos, xj, qi, top, i, t: imp(land(forall(h_, imp(land(top <= h_, h_ < t), rd(pos, rd(xj, h_)) == h_), [rd(xj, h_)]), rd(cv(x, xj, qi, top, t), i) != 0), (lambda w: land(top <= rd(pos, w), rd(pos, w) < t, rd(xj, rd(pos, w)) == w, rd(qi, w) == i, i >= 0, rd(cv(x, xj, qi, top, t), i) == rd(x, w)))(rd(cv(ID, xj, qi, top, t), i))), lo=lambda x, pos, xj, qi, top, i: top,
    uses_base=lambda x, pos, xj, qi, top, i: [cv.zero(x, xj, qi, top)], uses_step=lambda x, pos, xj, qi, top, i, t: [cv.unfold(x, xj, qi, top, t), cv.unfold(ID, xj, qi, top, t), ID_def])
XbXa = Lemma("xbu_is_xA", [ARR, ARR, ARR, ARR, ARR, ARR, Int, Int, Int, Int], lambda x, xj, qi, ap, aj, ax, c, N, top, t: imp(land(N >= 0, monotone(ap, N), inj_pos(xj, qi, top, t), forall(h_, imp(land(top <= h_, h_ < t), rd(qi, rd(xj, h_)) < N), [rd(xj, h_)])), xbu(x, xj, qi, ap, aj, ax, c, top, t) == xA(cv(x, xj, qi, top, t), ap, aj, ax, c, N)), lo=lambda x, xj, qi, ap, aj, ax, c, N, top: top,
    uses_base=lambda x, xj, qi, ap, aj, ax, c, N, top: [xbu.zero(x, xj, qi, ap, aj, ax, c, top), cv.zero(x, xj, qi, top), imp(N >= 0, XAZero.inst(cv(x, xj, qi, top, top), ap, aj, ax, c, N))],
    uses_step=lambda x, xj, qi, ap, aj, ax, c, N, top, t: [xbu.unfold(x, xj, qi, ap, aj, ax, c, top, t), cv.unfold(x, xj, qi, top, t), XAUpd.inst(cv(x, xj, qi, top, t), rd(qi, rd(xj, t)), rd(x, rd(xj, t)), ap, aj, ax, c, N), CvUnset.inst(x, xj, qi, top, rd(qi, rd(xj, t)), t)])
class STS(Contract):
    """x_b U + x_a = B[k] on every column, where x_b / x_a are the pivotal / other columns of the pattern"""
    name = "spasm_sparse_triangular_solve"; file = "spasm_triangular.c"; params = ["U", "B", "k", "xj", "x", "qinv"]
    shapes = {"U.x": "nonnull", "B.x": "nonnull"}; assigns = ("xj", "x"); spec = {"S": ARR, "RK": ARR}; ghost_out = {"POS": ARR, "C": ARR, "IC": ARR}
    def w(v): o = v.old if not v._fo else v; return W_(o.U, o.U.m, o.qinv, v.g("S"), v.g("RK"))
    def pre(s, v):
        U, B, q = v.U, v.B, v.qinv; w = W_(U, U.m, q, v.g("S"), v.g("RK")); p = U.field.p
        return search_pre(U, B, v.k, v.xj, q) + field_ok(U.field) + [("B: " + a, b) for a, b in field_ok(B.field)] + [canon_vals(U), ("B: canonical", canon_vals(B)[1]), ("same field", B.field.p == p), ("x size", land(v.x.len >= U.m, v.x.ok)),
            ("unit pivots", forall(j_, imp(land(0 <= j_, j_ < U.m, w.q(j_) >= 0), z0(p, rowcoef(U, w.q(j_), j_) - 1)), [w.q(j_)])), ("triangular", w.ranked())]
    def val(o, x, X, c, top, t): U = o.U; return xbu(x, X, o.qinv.A, U.p.A, U.j.A, U.x.A, c, top, t)
    def bk(o, c): B = o.B; return rs(B.j.A, B.x.A, rd(B.p.A, o.k), c, rd(B.p.A, o.k + 1))
    def post(s, o, n, r):
        U = o.U; w = W_(U, U.m, o.qinv, n.g("S"), n.g("RK")); X, POS, x = n.xj.A, n.g("POS"), n.x.A; p = U.field.p; m = U.m
        mem = lambda c: w.member(X, POS, r, c)
        return pattern(w, U, o.B, o.k, X, POS, r) + [("canonical", forall(h_, imp(land(r <= h_, h_ < m), canonp(p, rd(x, rd(X, h_)))), [rd(X, h_)])),
            ("solution", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(x, j_), 0) - STS.val(o, x, X, j_, r, m))), [[rd(POS, j_)], [rd(x, j_)], [STS.bk(o, j_)]])),
            ("elsewhere unchanged", forall(j_, imp(land(0 <= j_, j_ < m, lnot(mem(j_))), rd(x, j_) == rd(o.x.A, j_)), [rd(x, j_)])), ("beyond m unchanged", forall(j_, imp(lor(j_ < 0, j_ >= m), rd(x, j_) == rd(o.x.A, j_)), [rd(x, j_)]))] + STS.comb(o, x, X, POS, r, n.g("C"), n.g("IC"), w)
    def comb(o, x, X, POS, r, C, IC, w):
        """the same with the coefficients as a vector over the rows of U, where no two pivots share a row"""
        U = o.U; m = U.m; p = U.field.p; mem = lambda c: w.member(X, POS, r, c); inj = inj_piv(o.qinv.A, m)
        xac = xA(C, U.p.A, U.j.A, U.x.A, j_, U.n); w_ = rd(IC, i_)
        return [("combination of rows", imp(inj, forall(j_, imp(land(0 <= j_, j_ < m), z0(p, STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(x, j_), 0) - xac)), [[rd(POS, j_)], [rd(x, j_)], [STS.bk(o, j_)], [xac]]))),
            ("coefficients", imp(inj, forall(j_, imp(land(0 <= j_, j_ < m, mem(j_), w.q(j_) >= 0), rd(C, w.q(j_)) == rd(x, j_)), [[rd(POS, j_)], [w.q(j_)]]))),
            ("other coefficients are zero", forall(i_, imp(rd(C, i_) != 0, land(0 <= i_, i_ < U.n, 0 <= w_, w_ < m, mem(w_), w.q(w_) == i_)), [rd(C, i_)])), ("canonical coefficients", forall(i_, canonp(p, rd(C, i_)), [rd(C, i_)]))]
    def spec_spasm_reach(s, v, o): return {"S": v.g("S"), "RK": v.g("RK")}
    def POS(v): return v.call("spasm_reach").g("POS")
    def witness(s, v): return {"POS": STS.POS(v), "C": cv(v.x.A, v.xj.A, v.old.qinv.A, v.top, v.old.U.m), "IC": cv(ID, v.xj.A, v.old.qinv.A, v.top, v.old.U.m)}
    def frame(v, top):
        o = v.old; w = STS.w(v); m = w.m; POS = STS.POS(v); X = v.xj.A
        return [("elsewhere", forall(j_, imp(lor(j_ < 0, j_ >= m, lnot(w.member(X, POS, top, j_))), rd(v.x.A, j_) == rd(o.x.A, j_)), [rd(v.x.A, j_)]))]
    def clear(v):
        X = v.xj.A
        return STS.frame(v, v.top) + [("px", land(v.top <= v.px, v.px <= v.m)), ("cleared", forall(h_, imp(land(v.top <= h_, h_ < v.px), land(rd(v.x.A, rd(X, h_)) == 0, rd(v.x.S, rd(X, h_)) == 0)), [rd(X, h_)]))]
    def inv(v):
        o = v.old; w = STS.w(v); m = w.m; POS = STS.POS(v); X = v.xj.A; top, px = v.top, v.px; p = o.U.field.p; mem = lambda c: w.member(X, POS, top, c)
        return STS.frame(v, top) + [("px", land(top <= px, px <= m)), ("canonical", forall(h_, imp(land(top <= h_, h_ < m), canonp(p, rd(v.x.A, rd(X, h_)))), [rd(X, h_)])),
            ("remaining", forall(j_, imp(land(0 <= j_, j_ < m, mem(j_), lor(w.q(j_) < 0, rd(POS, j_) >= px)), rd(v.x.S, j_) == STS.bk(o, j_) - STS.val(o, v.x.A, X, j_, top, px)), [rd(v.x.S, j_)])),
            ("solved", forall(j_, imp(land(0 <= j_, j_ < m, mem(j_), w.q(j_) >= 0, rd(POS, j_) < px), z0(p, STS.bk(o, j_) - STS.val(o, v.x.A, X, j_, top, px))), [rd(POS, j_)]))]
    def cut0(v):
        o = v.old; U = o.U; X = v.xj.A; top = v.top; B = o.B; POS = STS.POS(v); w = STS.w(v)
        return [("+", forall(j_, RsmRs.inst(I(1), B.j.A, B.x.A, rd(B.p.A, o.k), j_, rd(B.p.A, o.k + 1)), [rd(v.x.S, j_)])), ("scattered", forall(j_, imp(land(0 <= j_, j_ < U.m, w.member(X, POS, top, j_)), rd(v.x.S, j_) == STS.bk(o, j_)), [rd(v.x.S, j_)])),
                ("+", forall(j_, xbu.zero(v.x.A, X, o.qinv.A, U.p.A, U.j.A, U.x.A, j_, v.top), [[STS.val(o, v.x.A, X, j_, top, top)]])),
                ("no sum yet", forall(j_, STS.val(o, v.x.A, X, j_, top, top) == 0, [[rd(v.x.S, j_)], [rd(POS, j_)], [STS.val(o, v.x.A, X, j_, top, top)]]))]
    def after_scatter(v, c):
        o = v.old; U = o.U; p = U.field.p; B = o.B
        if v.calls("spasm_scatter")[0] is c: return []
        i, j = v.i, v.j; b0, b1 = c.o.x, c.n.x
        return [cong(p, b1), cong(p, b0), RsmNeg.inst(rd(b0.A, j), U.j.A, U.x.A, rd(U.p.A, i), j, rd(U.p.A, i + 1)), RsmRs.inst(rd(b0.A, j), U.j.A, U.x.A, rd(U.p.A, i), j, rd(U.p.A, i + 1)),
                ElimUnit.inst(p, rowcoef(U, i, j), rd(b0.S, j), rd(b0.A, j), rd(b1.S, j), rd(b1.A, j)), CanonZero.inst(p, rd(b1.A, j)), w_trig(rd(o.qinv.A, j))]
    after = {"spasm_scatter": after_scatter}
    def cut(h, e):
        o = h.old; U = o.U; w = STS.w(h); X = h.xj.A; POS = STS.POS(h); px, top, m = h.px, h.top, w.m; j = rd(X, px); p = U.field.p; i = rd(o.qinv.A, j); b = rd(h.x.A, j); args = (X, o.qinv.A, U.p.A, U.j.A, U.x.A); Aj = U.j.A
        val = lambda y, c, t: STS.val(o, y, X, c, top, t)
        return [("row in the pattern", imp(i >= 0, forall(k_, imp(w.edge(j, k_), land(w.member(X, POS, top, rd(Aj, k_)), rd(POS, rd(Aj, k_)) >= px)), [rd(Aj, k_)]))),
                ("changes", forall(j_, lor(j_ == j, rd(e.x.A, j_) == rd(h.x.A, j_), land(w.member(X, POS, top, j_), rd(POS, j_) >= px)), [[rd(e.x.A, j_)], [rd(h.x.A, j_)]])), ("elsewhere", forall(j_, imp(lor(j_ < 0, j_ >= m, lnot(w.member(X, POS, top, j_))), rd(e.x.A, j_) == rd(o.x.A, j_)), [[rd(e.x.A, j_)], [rd(h.x.A, j_)]])), ("own value", land(rd(e.x.A, j) == b, rd(POS, j) == px)),
                ("earlier columns keep their value", forall(h_, imp(land(top <= h_, h_ < px), rd(e.x.A, rd(X, h_)) == rd(h.x.A, rd(X, h_))), [rd(X, h_)])),
                ("+", forall(j_, XbFrame.inst(e.x.A, h.x.A, *args, j_, top, px), [[val(e.x.A, j_, px)], [rd(e.x.S, j_)], [rd(POS, j_)]])),
                ("same sums", forall(j_, val(e.x.A, j_, px) == val(h.x.A, j_, px), [[val(e.x.A, j_, px + 1)], [rd(POS, j_)], [rd(e.x.S, j_)]])),
                ("+", cong(p, h.x)), ("+", forall(j_, land(xbu.unfold(e.x.A, *args, j_, top, px), imp(i >= 0, land(RsmNeg.inst(b, U.j.A, U.x.A, rd(U.p.A, i), j_, rd(U.p.A, i + 1)), RsmNone.inst(b, U.j.A, U.x.A, rd(U.p.A, i), j_, rd(U.p.A, i + 1))))), [[rd(e.x.S, j_)], [rd(POS, j_)]])),
                ("+", RsmRs.inst(b, U.j.A, U.x.A, rd(U.p.A, i), j, rd(U.p.A, i + 1))), ("+", ElimRest.inst(p, rowcoef(U, i, j), rd(h.x.S, j), b)), ("own column: unit", imp(i >= 0, z0(p, rd(h.x.S, j) - fmul(b, rowcoef(U, i, j))))), ("+", land(rd(h.x.S, j) == rd(h.x.S, j), rd(e.x.S, j) == rd(e.x.S, j))),
                ("sums of the solved columns", forall(j_, imp(land(0 <= j_, j_ < m, w.member(X, POS, top, j_), rd(POS, j_) < px), val(e.x.A, j_, px + 1) == val(h.x.A, j_, px)), [[val(e.x.A, j_, px + 1)], [rd(POS, j_)]])),
                ("own column: sum", imp(i >= 0, val(e.x.A, j, px + 1) == val(h.x.A, j, px) + fmul(b, rowcoef(U, i, j)))), ("own column: remaining", rd(h.x.S, j) == STS.bk(o, j) - val(h.x.A, j, px)),
                ("+", Z0Eq.inst(p, rd(h.x.S, j) - fmul(b, rowcoef(U, i, j)), STS.bk(o, j) - val(e.x.A, j, px + 1))), ("own column", imp(i >= 0, z0(p, STS.bk(o, j) - val(e.x.A, j, px + 1)))),
                ("remaining", forall(j_, imp(land(0 <= j_, j_ < m, w.member(X, POS, top, j_), lor(w.q(j_) < 0, rd(POS, j_) > px)), rd(e.x.S, j_) == STS.bk(o, j_) - val(e.x.A, j_, px + 1)), [rd(e.x.S, j_)])),
                ("at px", forall(j_, imp(land(w.member(X, POS, top, j_), rd(POS, j_) == px), j_ == j), [rd(POS, j_)])),
                ("+Z0", forall(j_, Z0Eq.inst(p, STS.bk(o, j_) - val(h.x.A, j_, px), STS.bk(o, j_) - val(e.x.A, j_, px + 1)), [rd(POS, j_)])),
                ("solved", dict(STS.inv(e))["solved"], ["Z0", "at px", "sums of the solved columns", "own column", dict(STS.inv(h))["solved"]])]
    def cuts(s, o, v, r):
        U = o.U; p = U.field.p; w = STS.w(v); X = v.xj.A; args = (X, o.qinv.A, U.p.A, U.j.A, U.x.A); B = o.B; POS = STS.POS(v); m = w.m
        mem = lambda c: w.member(X, POS, r, c); val = lambda c: STS.val(o, v.x.A, X, c, r, m); P = [[rd(POS, j_)], [rd(v.x.A, j_)], [STS.bk(o, j_)]]; C = cv(v.x.A, X, o.qinv.A, r, m); IC = cv(ID, X, o.qinv.A, r, m)
        return [("+", ID_def), ("+", forall(i_, CvFrom.inst(v.x.A, POS, X, o.qinv.A, r, i_, m), [rd(C, i_)])), ("other coefficients", forall(i_, imp(rd(C, i_) != 0, (lambda w_: land(0 <= i_, i_ < U.n, 0 <= w_, w_ < m, mem(w_), w.q(w_) == i_, rd(C, i_) == rd(v.x.A, w_)))(rd(IC, i_))), [rd(C, i_)])),
                ("member values", forall(j_, imp(mem(j_), canonp(p, rd(v.x.A, j_))), [rd(POS, j_)])), ("canonical coefficients", forall(i_, canonp(p, rd(C, i_)), [rd(C, i_)]), ["other coefficients", "member values"]),
                ("+", forall(j_, XbNone.inst(v.x.A, *args, j_, r, m), P)), ("+", forall(j_, RsNone.inst(B.j.A, B.x.A, rd(B.p.A, o.k), j_, rd(B.p.A, o.k + 1)), P)), ("+", forall(j_, rd(POS, j_) == rd(POS, j_), [rd(v.x.A, j_)])),
                ("other columns: row of B", forall(j_, imp(land(0 <= j_, j_ < m, lnot(mem(j_))), STS.bk(o, j_) == 0), P)), ("other columns: sum", forall(j_, imp(land(0 <= j_, j_ < m, lnot(mem(j_))), val(j_) == 0), P)),
                ("+", z0_intro(p, I(0), I(0))), ("+", cong(p, v.x)), ("+", forall(j_, land(Z0Eq.inst(p, rd(v.x.S, j_) - rd(v.x.A, j_), STS.bk(o, j_) - rd(v.x.A, j_) - val(j_)), Z0Eq.inst(p, I(0), STS.bk(o, j_) - val(j_)), rd(v.x.S, j_) == rd(v.x.S, j_)), P)),
                ("solution: pivotal", forall(j_, imp(land(0 <= j_, j_ < m, lor(lnot(mem(j_)), w.q(j_) >= 0)), z0(p, STS.bk(o, j_) - val(j_))), P)), ("solution: other", forall(j_, imp(land(0 <= j_, j_ < m, mem(j_), w.q(j_) < 0), z0(p, STS.bk(o, j_) - rd(v.x.A, j_) - val(j_))), P)), ("+Z0b", forall(j_, Z0Eq.inst(p, STS.bk(o, j_) - val(j_), STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(v.x.A, j_), 0) - val(j_)), P)),
                ("solution", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(v.x.A, j_), 0) - val(j_))), P), ["solution: pivotal", "solution: other", "Z0b"]),
                ("inj", imp(inj_piv(o.qinv.A, m), inj_pos(X, o.qinv.A, r, m))), ("rows in range", forall(h_, imp(land(r <= h_, h_ < m), rd(o.qinv.A, rd(X, h_)) < U.n), [rd(X, h_)])), ("+XbXa", forall(j_, XbXa.inst(v.x.A, *args, j_, U.n, r, m), P + [[xA(C, U.p.A, U.j.A, U.x.A, j_, U.n)]])),
                ("combination", imp(inj_piv(o.qinv.A, m), forall(j_, imp(land(0 <= j_, j_ < m), val(j_) == xA(C, U.p.A, U.j.A, U.x.A, j_, U.n)), P + [[xA(C, U.p.A, U.j.A, U.x.A, j_, U.n)]])), ["inj", "rows in range", "XbXa", monotone(U.p.A, U.n)]), ("+Z0c", forall(j_, Z0Eq.inst(p, STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(v.x.A, j_), 0) - val(j_), STS.bk(o, j_) - z3.If(land(mem(j_), w.q(j_) < 0), rd(v.x.A, j_), 0) - xA(C, U.p.A, U.j.A, U.x.A, j_, U.n)), P + [[xA(C, U.p.A, U.j.A, U.x.A, j_, U.n)]])),
                ("combination of rows", dict(STS.comb(o, v.x.A, X, POS, r, C, IC, w))["combination of rows"], ["solution", "combination", "Z0c"]),
                ("+", forall(j_, land(CvSet.inst(v.x.A, X, o.qinv.A, r, rd(POS, j_), m)), [[rd(POS, j_)], [w.q(j_)]])), ("coefficients", imp(inj_piv(o.qinv.A, m), forall(j_, imp(land(0 <= j_, j_ < m, mem(j_), w.q(j_) >= 0), rd(C, w.q(j_)) == rd(v.x.A, j_)), [[rd(POS, j_)], [w.q(j_)]])))]
    loops = {"0": Loop(inv=clear), "1": Loop(inv=inv, cut_pre=cut0, cut=cut)}
def w_trig(t): return t == t
ALL = [STS()]
