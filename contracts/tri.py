"""contracts of the triangular solvers"""
from dv.lib import *
Y_ = "Y"
def at(q, i): return z3.If(q.null, i, rd(q.A, i)) if not q.isnull() else i
def xa(x, M, j, n): return xA(x, M.p.A, M.j.A, M.x.A, j, n)
def rowcoef(M, i, j): return rs(M.j.A, M.x.A, rd(M.p.A, i), j, rd(M.p.A, i + 1))
def rowmul(b, M, i, j): return rsm(b, M.j.A, M.x.A, rd(M.p.A, i), j, rd(M.p.A, i + 1))
class Forward(Contract):
    """x U = b with unit pivots in upper-triangular position; Y is any candidate solution"""
    name = "spasm_dense_forward_solve"; file = "spasm_triangular.c"; params = ["U", "b", "x", "q"]
    shapes = {"U.x": "nonnull", "q": "nullable"}; assigns = ("b", "x"); spec = {"Y": ARR}
    def pre(s, v):
        U, b, x, q = v.U, v.b, v.x, v.q; i = z3.Int("i!")
        return csr_ok(U) + field_ok(U.field) + [canon_vals(U), ("b size", b.len >= U.m), ("b start", b.ok), ("x size", x.len >= U.n), ("x start", x.ok), ("b canonical", canon_arr(U.field.p, b.A, U.m)), ("rows <= columns", U.n <= U.m),
            ("q", land(imp(lnot(q.null), land(q.len >= U.n, q.ok)), forall(i, imp(land(0 <= i, i < U.n), land(0 <= at(q, i), at(q, i) < U.m)), [rd(q.A, i)]))),
            ("unit pivots", forall(i, imp(land(0 <= i, i < U.n), z0(U.field.p, rowcoef(U, i, at(q, i)) - 1)), [rd(q.A, i)])),
            ("upper triangular", forall([i, k_], imp(land(0 <= i, i < U.n, rd(U.p.A, i + 1) <= k_, k_ < rd(U.p.A, U.n)), rd(U.j.A, k_) != at(q, i)), [z3.MultiPattern(rd(q.A, i), rd(U.j.A, k_))]))]
    def sol(o, y, b): return forall(j_, imp(land(0 <= j_, j_ < o.U.m), z0(o.U.field.p, rd(b, j_) - xa(y, o.U, j_, o.U.n))), [rd(b, j_)])
    def post(s, o, n, r):
        U = o.U; p = U.field.p
        return [("remainder", forall(j_, imp(land(0 <= j_, j_ < U.m), rd(n.b.S, j_) == rd(o.b.S, j_) - xa(n.x.A, U, j_, U.n)), [rd(n.b.S, j_)])),
                ("canonical", land(canon_arr(p, n.x.A, U.n), canon_arr(p, n.b.A, U.m))),
                ("pivot columns cleared", Forward.cleared(o, n.b.A, U.n)),
                ("true means solved", imp(r != 0, Forward.sol(o, n.x.A, o.b.S))),
                ("true exactly when the remainder is zero", (r != 0) == forall(j_, imp(land(0 <= j_, j_ < U.m), rd(n.b.A, j_) == 0), [rd(n.b.A, j_)])),
                ("false means no solution exists", imp(Forward.sol(o, n.g("Y"), o.b.S), r != 0))]
    def cleared(o, b, hi): return forall(t_, imp(land(0 <= t_, t_ < hi), rd(b, at(o.q, t_)) == 0), [rd(o.q.A, t_)])
    def base(v, i):
        o = v.old; U = o.U; p = U.field.p; Y = v.g("Y")
        return [("pivot columns cleared", Forward.cleared(o, v.b.A, i)), ("remainder", forall(j_, imp(land(0 <= j_, j_ < U.m), rd(v.b.S, j_) == rd(o.b.S, j_) - xa(v.x.A, U, j_, U.n)), [rd(v.b.S, j_)])), ("canonical b", canon_arr(p, v.b.A, U.m)), ("canonical x", canon_arr(p, v.x.A, U.n)),
                ("not yet", forall(k_, imp(land(i <= k_, k_ < U.n), rd(v.x.A, k_) == 0), [rd(v.x.A, k_)])), ("bound", i <= U.n),
                ("agrees with any solution", imp(Forward.sol(o, Y, o.b.S), forall(k_, imp(land(0 <= k_, k_ < i), z0(p, rd(v.x.A, k_) - rd(Y, k_))), [rd(v.x.A, k_)])))]
    def head(v):
        o = v.old; U = o.U; p = U.field.p; Y = v.g("Y"); i = v.i; j = v.let("J", at(o.q, i)); X = v.x.A; bj = v.let("bj", rd(v.b.A, j)); xs = z3.Store(X, i, bj); r1 = rowcoef(U, i, j); sj = rd(v.b.S, j)
        yi = rd(Y, i); xj = xa(X, U, j, i); yj = xa(Y, U, j, i); b0 = rd(o.b.S, j)
        return [rd(o.q.A, i) == rd(o.q.A, i), forall(j_, XAUpd.inst(X, i, bj, U.p.A, U.j.A, U.x.A, j_, U.n), [xa(v.let("xs", xs), U, j_, U.n)]), forall(j_, RsmNeg.inst(bj, U.j.A, U.x.A, rd(U.p.A, i), j_, rd(U.p.A, i + 1)), [rowmul(-bj, U, i, j_)]),
                RsmRs.inst(bj, U.j.A, U.x.A, rd(U.p.A, i), j, rd(U.p.A, i + 1)), cong(p, v.b),
                # b[j] = b0[j] - (x U)[j], and (Y U)[j] = (x U)[j] + Y[i] up to multiples of p
                XATail.inst(X, U.p.A, U.j.A, U.x.A, j, i, U.n), XATail.inst(Y, U.p.A, U.j.A, U.x.A, j, i + 1, U.n), xA.unfold(Y, U.p.A, U.j.A, U.x.A, j, i), RsmRs.inst(yi, U.j.A, U.x.A, rd(U.p.A, i), j, rd(U.p.A, i + 1)),
                XACong.inst(p, X, Y, U.p.A, U.j.A, U.x.A, j, i), SolveStep.inst(p, b0, xj, yj, yi, r1, bj), xa(xs, U, j, U.n) == xa(xs, U, j, U.n)]
    def after_scatter(v, c):
        o = v.old; U = o.U; p = U.field.p; i = v.i; j = v.let("J", at(o.q, i)); b0, b1 = c.o.x, c.n.x
        return [cong(p, b1), cong(p, b0), ElimUnit.inst(p, rowcoef(U, i, j), rd(b0.S, j), rd(b0.A, j), rd(b1.S, j), rd(b1.A, j)), CanonZero.inst(p, rd(b1.A, j))]
    after = {"spasm_scatter": after_scatter}
    def scan(v):
        o = v.old; U = o.U
        return [("zero so far", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.b.A, j_) == 0), [rd(v.b.A, j_)])), ("bound", v.j <= U.m)]
    def fin(v):
        o = v.old; U = o.U; p = U.field.p; Y = v.g("Y")
        return [cong(p, v.b), forall(j_, land(XACong.inst(p, v.x.A, Y, U.p.A, U.j.A, U.x.A, j_, U.n), FinStep.inst(p, rd(o.b.S, j_), xa(v.x.A, U, j_, U.n), xa(Y, U, j_, U.n), rd(v.b.A, j_)), CanonZero.inst(p, rd(v.b.A, j_)),
                    FinStep2.inst(p, rd(o.b.S, j_), xa(v.x.A, U, j_, U.n), rd(v.b.A, j_)), rd(o.b.S, j_) == rd(o.b.S, j_)), [rd(v.b.A, j_)])]
    def facts_exit(s, o, v, r): return Forward.fin(v) + [rd(v.b.A, j_) == rd(v.b.A, j_)]
    loops = {"0": Loop(inv=lambda v: [("zero", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.x.A, k_) == 0), [rd(v.x.A, k_)]))]),
             "1": Loop(inv=lambda v: Forward.base(v, v.i), head=head, pre=lambda v: [forall(j_, XAZero.inst(v.x.A, v.old.U.p.A, v.old.U.j.A, v.old.U.x.A, j_, v.old.U.n), [rd(v.b.S, j_)])]),
             "2": Loop(inv=scan)}
SolveStep = Z0Lemma("solve_step", 6, lambda b0, xj, yj, yi, r, bj: [r - 1, xj - yj, (b0 - xj) - bj, b0 - (yj + fmul(yi, r))], lambda b0, xj, yj, yi, r, bj: bj - yi,
    lambda w1, w2, w3, w4, b0, xj, yj, yi, r, bj: w4 + yi * w1 - w3 - w2, lambda b0, xj, yj, yi, r, bj: [fmul_def(yi, r)])
FinStep = Z0Lemma("fin_step", 4, lambda b0, xj, yj, bj: [xj - yj, (b0 - xj) - bj, b0 - yj], lambda b0, xj, yj, bj: bj, lambda w2, w3, w4, b0, xj, yj, bj: w4 - w2 - w3)
FinStep2 = Lemma("fin_step2", [Int] * 4, lambda p, b0, xj, bj: imp(land(z0(p, (b0 - xj) - bj), bj == 0), z0(p, b0 - xj)), induct=False)
class Back(Contract):
    """x L = b; D[j] locates the pivot of column j"""
    name = "spasm_dense_back_solve"; file = "spasm_triangular.c"; params = ["L", "b", "x", "p"]
    shapes = {"L.x": "nonnull", "p": "nullable"}; assigns = ("b", "x"); spec = {"D": ARR}; ghost_out = {"OWN": ARR}
    def pre(s, v):
        L, b, x, q = v.L, v.b, v.x, v.p; D = v.g("D"); i2 = z3.Int("i2!")
        pj = at(q, j_); row = lambda k: land(rd(L.p.A, pj) <= k, k < rd(L.p.A, pj + 1))
        return csr_ok(L) + field_ok(L.field) + [canon_vals(L), ("prime", PRIME(L.field.p)), ("b size", b.len >= L.m), ("b start", b.ok), ("x size", x.len >= L.n), ("x start", x.ok), ("b canonical", canon_arr(L.field.p, b.A, L.m)),
            ("p", land(imp(lnot(q.null), land(q.len >= L.m, q.ok)), forall(j_, imp(land(0 <= j_, j_ < L.m), land(0 <= at(q, j_), at(q, j_) < L.n)), [rd(q.A, j_)]))), ("p distinct", imp(lnot(q.null), inj(q.A, L.m))),
            ("pivots", forall(j_, imp(land(0 <= j_, j_ < L.m), land(row(rd(D, j_)), rd(L.j.A, rd(D, j_)) == j_, rd(L.x.A, rd(D, j_)) != 0)), [[rd(q.A, j_)], [rd(D, j_)]])),
            ("lower triangular", forall([j_, k_], imp(land(0 <= j_, j_ < L.m, row(k_)), land(rd(L.j.A, k_) <= j_, imp(k_ != rd(D, j_), rd(L.j.A, k_) != j_))), [z3.MultiPattern(rd(D, j_), rd(L.j.A, k_))]))]
    def post(s, o, n, r):
        L = o.L; p = L.field.p
        return [("x solves the system", forall(j_, imp(land(0 <= j_, j_ < L.m), z0(p, rd(o.b.S, j_) - xa(n.x.A, L, j_, L.n))), [rd(o.b.S, j_)])), ("canonical", canon_arr(p, n.x.A, L.n)), ("zero outside the pivotal rows", Back.own(o, n.x.A, n.g("OWN")))]
    def own(o, x, OWN): w = rd(OWN, t_); return forall(t_, imp(land(0 <= t_, t_ < o.L.n), lor(rd(x, t_) == 0, land(0 <= w, w < o.L.m, at(o.p, w) == t_))), [[rd(x, t_)], [w]])
    def ghosts0(s, v): return {"OWN": z3.K(Int, I(-1))}
    def witness(s, v): return {"OWN": v.g("OWN")}
    def inv(v):
        o = v.old; L = o.L; p = L.field.p; j = v.j
        return [("set at pivotal rows", Back.own(o, v.x.A, v.g("OWN"))), ("remainder", forall(j_, imp(land(0 <= j_, j_ < L.m), rd(v.b.S, j_) == rd(o.b.S, j_) - xa(v.x.A, L, j_, L.n)), [rd(v.b.S, j_)])), ("canonical b", canon_arr(p, v.b.A, L.m)), ("canonical x", canon_arr(p, v.x.A, L.n)),
                ("unset", forall(j_, imp(land(0 <= j_, j_ <= j), rd(v.x.A, at(o.p, j_)) == 0), [rd(o.p.A, j_)])), ("j", land(-1 <= j, j < L.m)),
                ("solved columns", forall(j_, imp(land(j < j_, j_ < L.m), z0(p, rd(v.b.S, j_))), [rd(v.b.S, j_)]))]
    def after_scatter(v, c):
        o = v.old; L = o.L; p = L.field.p; j = v.j; i = at(o.p, j); D = rd(v.g("D"), j); b0, b1 = c.o.x, c.n.x; X = rd(v.x.A, i); X0 = v.x.A.arg(0) if z3.is_store(v.x.A) else v.x.A
        al = v.call("spasm_ZZp_inverse").r; d = rd(L.x.A, D); x = v.call("spasm_ZZp_mul").r
        row = (L.j.A, L.x.A, rd(L.p.A, i))
        return [cong(p, b1), cong(p, b0), forall(j_, land(RsmNeg.inst(x, *row, j_, rd(L.p.A, i + 1)), RsmNone.inst(x, *row, j_, rd(L.p.A, i + 1))), [rd(b1.S, j_)]), RsmRs.inst(x, *row, j, rd(L.p.A, i + 1)),
                RsOne.inst(L.j.A, L.x.A, D, rd(L.p.A, i), j, rd(L.p.A, i + 1)), ElimPivot.inst(p, al, d, x, rd(b0.S, j), rd(b0.A, j), rd(b1.S, j), rd(b1.A, j)), rd(b1.A, j) == rd(b1.A, j)]
    after = {"spasm_scatter": after_scatter}
    def head(v):
        o = v.old; L = o.L; i = at(o.p, v.j); a = z3.Int("a!")
        return [rd(v.g("D"), v.j) == rd(v.g("D"), v.j), rd(o.p.A, v.j) == rd(o.p.A, v.j)]
    def end(h, e):
        o = h.old; L = o.L; i = at(o.p, h.j); x = e.call("spasm_ZZp_mul").r
        return [forall(j_, XAUpd.inst(h.x.A, i, x, L.p.A, L.j.A, L.x.A, j_, L.n), [rd(e.b.S, j_)]), z3.Store(h.x.A, i, x) == e.x.A]
    def cut(h, e):
        o = h.old; L = o.L; p = L.field.p; i = at(o.p, h.j); x = e.call("spasm_ZZp_mul").r
        D = rd(h.g("D"), h.j); d = rd(L.x.A, D); al = e.call("spasm_ZZp_inverse").r; s0, a0 = rd(h.b.S, h.j), rd(h.b.A, h.j)
        return [("+", RsmNeg.inst(x, L.j.A, L.x.A, rd(L.p.A, i), h.j, rd(L.p.A, i + 1))), ("pivot", rowcoef(L, i, h.j) == d), ("c2", rowmul(-x, L, i, h.j) == -fmul(x, d)), ("c3", rd(e.b.S, h.j) == s0 - fmul(x, d)), ("c4", z0(p, fmul(al, d) - 1)), ("c5", z0(p, fmul(al, a0) - x)), ("c6", z0(p, s0 - a0)), ("own column", z0(p, rd(e.b.S, h.j))), ("no entry in later columns", forall(j_, imp(land(h.j < j_, j_ < L.m), rowmul(-x, L, i, j_) == 0), [rd(e.b.S, j_)])),
                ("later columns unchanged", forall(j_, imp(land(h.j < j_, j_ < L.m), rd(e.b.S, j_) == rd(h.b.S, j_)), [[rd(e.b.S, j_)], [rd(h.b.S, j_)]])), ("solved columns", forall(j_, imp(land(h.j - 1 < j_, j_ < L.m), z0(p, rd(e.b.S, j_))), [rd(e.b.S, j_)]))]
    loops = {"0": Loop(inv=lambda v: [("zero", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.x.A, k_) == 0), [rd(v.x.A, k_)]))]),
             "1": Loop(inv=inv, head=head, end=end, cut=cut, ghost={"OWN": ARR}, ghost_end=lambda h, e: {"OWN": z3.Store(h.g("OWN"), e.i, h.j)}, pre=lambda v: [forall(j_, XAZero.inst(v.x.A, v.old.L.p.A, v.old.L.j.A, v.old.L.x.A, j_, v.old.L.n), [rd(v.b.S, j_)])]),
             "1.0": Loop(inv=lambda v: [("not before", forall(k_, imp(land(rd(v.old.L.p.A, v.i) <= k_, k_ < v.px), rd(v.old.L.j.A, k_) != v.j), [rd(v.old.L.j.A, k_)])), ("px", land(rd(v.old.L.p.A, v.i) <= v.px, v.px <= rd(v.old.L.p.A, v.i + 1))), ("none found", v.diagonal_entry == 0)])}
ALL = [Forward(), Back()]
