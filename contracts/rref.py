"""C14: reduced row echelon form. CS[i]: the combination of rows of U subtracted from row i; PR[i][c]: place of column c in row i"""
from dv.lib import *
from contracts.tri import rowcoef
from contracts.reach import W_, h_
from contracts.sts import xbu, inj_piv
from contracts.solve import MulMono
from contracts.product import mat
AA = z3.ArraySort(Int, ARR)
# columns a row of U can reach: the nonpivotal ones and the pivots of this row and of the later ones
class Compr:
    """array given by its elements: name(args)[c] = body(args, c)"""
    def __init__(s, name, sorts, body, ret=ARR): s.f = z3.Function(name, *sorts, ret); s.body = body
    def __call__(s, *a): return s.f(*a)
    def at(s, *a): return forall(t_, rd(s.f(*a), t_) == s.body(*a, t_), [rd(s.f(*a), t_)])
SUP = Compr("support_from", [ARR, Int], lambda q, i, c: z3.If(lor(rd(q, c) < 0, rd(q, c) >= i), I(1), I(0)))
RANK = Compr("pivot_rank", [ARR, Int], lambda q, n, c: z3.If(rd(q, c) < 0, n, rd(q, c)))
# csel(X, q, x, top, t): number of columns X[s], top <= s < t, outside the pivots, with a nonzero value
csel = Def("csel", [ARR, ARR, ARR, Int], lambda X, q, x, top: (top, I(0)), lambda prev, X, q, x, top, t: prev + z3.If(land(rd(q, rd(X, t)) < 0, rd(x, rd(X, t)) != 0), 1, 0))
CanonOne = Lemma("canon_one", [Int, Int], lambda p, t: imp(land(p >= 3, canonp(p, t), z0(p, t - 1)), t == 1), uses=lambda p, t: [z0_elim(p, t - 1)], induct=False)
Z0Tri = Z0Lemma("z0_tri", 3, lambda u, x, a: [u - 1, u - x - a], lambda u, x, a: x - 1, lambda w1, w2, u, x, a: w1 - w2, cond=lambda u, x, a: a == 0)
def upper_pre(U, q, UQ):
    """rows of U: unit pivot first, upper triangular in the order of the rows; q locates the pivots"""
    p = U.field.p; i = z3.Int("i!")
    return [("U: " + a, b) for a, b in csr_ok(U)] + field_ok(U.field) + [("U: canonical", canon_vals(U)[1]), ("rank", U.n <= U.m),
        ("qinv size", land(q.len >= U.m, q.ok)), ("qinv", forall(j_, imp(land(0 <= j_, j_ < U.m), land(-1 <= rd(q.A, j_), rd(q.A, j_) < U.n, imp(rd(q.A, j_) >= 0, rd(UQ, rd(q.A, j_)) == j_))), [rd(q.A, j_)])),
        ("pivot columns", forall(i, imp(land(0 <= i, i < U.n), land(0 <= rd(UQ, i), rd(UQ, i) < U.m, rd(q.A, rd(UQ, i)) == i)), [rd(UQ, i)])),
        ("pivots first", forall(i, imp(land(0 <= i, i < U.n), land(rd(U.p.A, i) < rd(U.p.A, i + 1), rd(U.j.A, rd(U.p.A, i)) == rd(UQ, i))), [rd(U.p.A, i)])),
        ("unit pivots", forall(i, imp(land(0 <= i, i < U.n), z0(p, rowcoef(U, i, rd(UQ, i)) - 1)), [rd(UQ, i)])),
        ("U triangular", forall([i, k_], imp(land(0 <= i, i < U.n, rd(U.p.A, i + 1) <= k_, k_ < rd(U.p.A, U.n)), rd(U.j.A, k_) != rd(UQ, i)), [z3.MultiPattern(rd(UQ, i), rd(U.j.A, k_))]))]
i = z3.Int("i!")
def inrow(Rp, i, k): return land(rd(Rp, i) <= k, k < rd(Rp, i + 1))
class Rref(Contract):
    name = "spasm_rref"; file = "spasm_rref.c"; params = ["fact", "Rqinv"]
    shapes = {"fact.U.x": "nonnull"}; assigns = ("Rqinv",); spec = {"UQ": ARR}; ghost_out = {"CS": AA, "PR": AA}
    def pre(s, v):
        U = v.fact.U
        return upper_pre(U, v.fact.qinv, v.g("UQ")) + [("small", 3 * U.m < (1 << 31) - 1), ("row sizes fit an int", forall(j_, imp(land(0 <= j_, j_ < U.n), rd(U.p.A, j_ + 1) - rd(U.p.A, j_) < (1 << 31)), [rd(U.p.A, j_)])),
            ("size", land(U.n * U.m <= BIG / 4, rd(U.p.A, U.n) <= BIG / 4)), ("Rqinv", land(v.Rqinv.ok, v.Rqinv.len >= U.m))]
    def rows(o, R, Rp, hi, CS, PR, UQ):
        """the first hi rows of R"""
        U = o.fact.U; p = U.field.p; q = o.fact.qinv.A; Rj, Rx = R.j.A, R.x.A; c = j_; xac = xA(rd(CS, i), U.p.A, U.j.A, U.x.A, c, U.n); co = rs(Rj, Rx, rd(Rp, i), c, rd(Rp, i + 1)); ik = land(0 <= i, i < hi, inrow(Rp, i, k_)); MP = [z3.MultiPattern(rd(Rp, i), rd(Rj, k_))]
        return [("row = row of U minus a combination of rows of U", forall([i, c], imp(land(0 <= i, i < hi, 0 <= c, c < U.m), z0(p, rowcoef(U, i, c) - co - xac)), [[co], [xac]])),
                ("later rows only", forall([i, t_], imp(land(0 <= i, i < hi, rd(rd(CS, i), t_) != 0), land(i < t_, t_ < U.n)), [rd(rd(CS, i), t_)])),
                ("unit pivot first", forall(i, imp(land(0 <= i, i < hi), land(rd(Rp, i) < rd(Rp, i + 1), rd(Rj, rd(Rp, i)) == rd(UQ, i), rd(Rx, rd(Rp, i)) == 1)), [rd(Rp, i)])),
                ("other entries outside the pivots", forall([i, k_], imp(ik, lor(rd(Rj, k_) == rd(UQ, i), rd(q, rd(Rj, k_)) == -1)), MP)),
                ("each column once", forall([i, k_], imp(ik, rd(rd(PR, i), rd(Rj, k_)) == k_), MP))]
    def shape(o, R, Rp, hi):
        U = o.fact.U; n = rd(Rp, hi)
        return [("start", rd(Rp, I(0)) == 0), ("monotone", monotone(Rp, hi)), ("columns", forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(R.j.A, k_), rd(R.j.A, k_) < U.m)), [rd(R.j.A, k_)])), ("canonical", canon_arr(U.field.p, R.x.A, n)), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < n), rd(R.x.A, k_) != 0), [rd(R.x.A, k_)]))]
    def post(s, o, n, r):
        U = o.fact.U; UQ = n.g("UQ"); q = o.fact.qinv.A
        return [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == U.n, r.m == U.m)), ("field", r.field.p == U.field.p), ("has values", lnot(r.x.null)), ("canonical", canon_vals(r)[1]),
            ("nonzero", forall(k_, imp(land(0 <= k_, k_ < rd(r.p.A, r.n)), rd(r.x.A, k_) != 0), [rd(r.x.A, k_)]))] + Rref.rows(o, r, r.p.A, U.n, n.g("CS"), n.g("PR"), UQ) + [
            ("pivots located", forall(i, imp(land(0 <= i, i < U.n), rd(n.Rqinv.A, rd(UQ, i)) == i), [rd(UQ, i)])), ("no other pivots", forall(j_, imp(land(0 <= j_, j_ < U.m, rd(q, j_) < 0), rd(n.Rqinv.A, j_) == -1), [rd(n.Rqinv.A, j_)]))]
    def facts_entry(s, v): U = v.fact.U; q = v.fact.qinv.A; return [forall([i, t_], rd(SUP(q, i), t_) == SUP.body(q, i, t_), [rd(SUP(q, i), t_)]), RANK.at(q, U.n)]
    def spec_spasm_sparse_triangular_solve(s, v, o): q = v.old.fact.qinv.A; return {"S": SUP(q, v.i), "RK": RANK(q, v.old.fact.U.n)}
    def ghosts0(s, v): return {"CS": z3.K(Int, z3.K(Int, I(0))), "PR": z3.K(Int, z3.K(Int, I(0))), "CAP": I(0), "PRI": z3.K(Int, I(0))}
    def witness(s, v): return {"CS": v.g("CS"), "PR": v.g("PR")}
    def clear(v): m = v.m; return [("marks clear", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.xj.A, j_) == 0), [rd(v.xj.A, j_)])), ("j", v.j <= 3 * v.m)]
    def copied(v): return [("copied", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.qinv_local.A, j_) == rd(v.old.fact.qinv.A, j_)), [rd(v.qinv_local.A, j_)]))]
    def inv(v):
        o = v.old; U = o.fact.U; m = U.m; R = v.R; q = o.fact.qinv.A; Rp = v.Rp.A; CS, PR, CAP = v.g("CS"), v.g("PR"), v.g("CAP")
        return [("i", land(v.i <= U.n, v.Rn == v.i, v.writing == 0)), ("CAP", CAP == v.i * m), ("nnz", land(0 <= v.nnz, v.nnz <= CAP, v.nnz == rd(Rp, v.i), v.nnz <= R.nzmax)), ("R", land(R.n == U.n, R.m == m, R.nzmax >= 0, R.nzmax <= BIG, R.j.len >= R.nzmax, R.x.len >= R.nzmax)),
                ("marks clear", forall(j_, imp(land(0 <= j_, j_ < m), rd(v.xj.A, add(add(m, m), j_)) == 0), [rd(v.xj.A, add(add(m, m), j_))])),
                ("pivots", forall(j_, imp(land(0 <= j_, j_ < m), rd(v.qinv_local.A, j_) == rd(q, j_)), [rd(v.qinv_local.A, j_)]))] + Rref.shape(o, R, Rp, v.i) + Rref.rows(o, R, Rp, v.i, CS, PR, v.g("UQ"))
    # ---- the columns of the current row, after the pivot has been moved to the front
    def cur(v, i0=None):
        c = v.call("spasm_sparse_triangular_solve"); X, PO, top = c.n.xj.A, c.g("POS"), c.r; piv = rd(v.g("UQ"), v.i if i0 is None else i0); t0 = rd(PO, piv); a0 = rd(X, top)
        return c, z3.Store(z3.Store(X, t0, a0), top, piv), z3.Store(z3.Store(PO, a0, t0), piv, top), top, piv
    def before(v):
        """what the triangular solve says about the pivot of the row"""
        o = v.old; U = o.fact.U; c, X2, PO2, top, piv = Rref.cur(v); i = v.i; p = U.field.p; C = c.g("C"); xac = lambda n: xA(C, U.p.A, U.j.A, U.x.A, piv, n)
        u = rowcoef(U, i, piv); xp = rd(c.n.x.A, piv); POS = c.g("POS"); args = (C, U.p.A, U.j.A, U.x.A, piv)
        return [("injective", inj_piv(c.o.qinv.A, U.m)), ("pivot", land(v.pivot == piv, top <= rd(POS, piv), rd(POS, piv) < U.m, rd(c.n.xj.A, rd(POS, piv)) == piv)),
                ("later rows only", forall(t_, imp(rd(C, t_) != 0, land(i < t_, t_ < U.n)), [rd(C, t_)])),
                ("+", XATail.inst(*args, i + 1, U.n)), ("+", XAZero.inst(*args, i + 1)),
                ("no later row has the pivot", forall(k_, imp(land(rd(U.p.A, i + 1) <= k_, k_ < rd(U.p.A, U.n)), rd(U.j.A, k_) != piv), [rd(U.j.A, k_)])),
                ("combination vanishes on the pivot", xac(U.n) == 0), ("+", Z0Tri.inst(p, u, xp, xac(U.n))), ("pivot: equation", z0(p, u - xp - xac(U.n))), ("+", CanonOne.inst(p, xp)), ("unit pivot", xp == 1)]
    def swap(v):
        c, X2, PO2, top, piv = Rref.cur(v); X = c.n.xj.A
        return [("px", land(top + 1 <= v.px)), ("xj", forall(h_, rd(v.xj.A, h_) == rd(X, h_), [rd(v.xj.A, h_)])), ("not yet", forall(h_, imp(land(top < h_, h_ < v.px), rd(X, h_) != piv), [rd(X, h_)]))]
    def swapped(v):
        c, X2, PO2, top, piv = Rref.cur(v); m = v.m; POS, X = c.g("POS"), c.n.xj.A; Y = v.xj.A
        mem = lambda Po, x, j: land(top <= rd(Po, j), rd(Po, j) < m, rd(x, rd(Po, j)) == j)
        return [("pivot in front", forall(h_, rd(Y, h_) == rd(X2, h_), [rd(Y, h_)])), ("columns, each once", forall(h_, imp(land(top <= h_, h_ < m), land(0 <= rd(Y, h_), rd(Y, h_) < m, rd(PO2, rd(Y, h_)) == h_)), [rd(Y, h_)])),
                ("members", forall(j_, imp(land(0 <= j_, j_ < m), mem(PO2, Y, j_) == mem(POS, X, j_)), [[rd(PO2, j_)], [rd(POS, j_)]])), ("front", rd(Y, top) == piv)]
    def ns(v, t): c, X2, PO2, top, piv = Rref.cur(v); return csel(v.xj.A, v.qinv_local.A, v.x.A, top, t)
    def unf(v): c, X2, PO2, top, piv = Rref.cur(v); a = (v.xj.A, v.qinv_local.A, v.x.A, top); return [csel.zero(*a), csel.unfold(*a, v.px)]
    def count(v): c, X2, PO2, top, piv = Rref.cur(v); return [("px", land(top <= v.px)), ("counted", v.row_nz == Rref.ns(v, v.px)), ("small", land(0 <= v.row_nz, v.row_nz <= v.px - top))]
    def write(v, ve):
        o = v.old; U = o.fact.U; m = U.m; c, X2, PO2, top, piv = Rref.cur(v); R = v.R; Rj, Rx = R.j.A, R.x.A; n0, cu = rd(v.Rp.A, v.i), v.local_nnz; ql = v.qinv_local.A; x = v.x.A; X = v.xj.A; PRI = v.g("PRI")
        mem = lambda j: land(top <= rd(PO2, j), rd(PO2, j) < v.px, rd(X, rd(PO2, j)) == j); col = rd(Rj, k_); co = rs(Rj, Rx, n0, j_, cu)
        return [("px", land(top <= v.px)), ("written", cu == n0 + Rref.ns(v, v.px)), ("room", land(n0 <= cu, cu - n0 <= v.px - top)), ("first", imp(v.px > top, land(cu > n0, rd(Rj, n0) == piv, rd(Rx, n0) == 1))),
                ("entries", forall(k_, imp(land(n0 <= k_, k_ < cu), land(0 <= col, col < m, mem(col), rd(ql, col) < 0, rd(Rx, k_) == rd(x, col), rd(x, col) != 0, rd(PRI, col) == k_)), [col])),
                ("sums", forall(j_, imp(land(0 <= j_, j_ < m), co == z3.If(land(mem(j_), rd(ql, j_) < 0), rd(x, j_), 0)), [co])),
                ("earlier rows", forall(k_, imp(land(0 <= k_, k_ < n0), land(rd(Rj, k_) == rd(ve.R.j.A, k_), rd(Rx, k_) == rd(ve.R.x.A, k_))), [[rd(Rj, k_)], [rd(Rx, k_)]]))]
    def write_pre(v): n0 = rd(v.Rp.A, v.i); return Rref.unf(v)[:1] + [forall(j_, rs.zero(v.R.j.A, v.R.x.A, n0, j_), [rs(v.R.j.A, v.R.x.A, n0, j_, n0)])]
    def write_end(h, e):
        n0, cu = rd(h.Rp.A, h.i), h.local_nnz; j = rd(h.xj.A, h.px); w = e.local_nnz == cu + 1; E = (e.R.j.A, e.R.x.A)
        return Rref.unf(h) + [forall(j_, imp(w, land(rs.unfold(*E, n0, j_, cu), RsStore.inst(h.R.j.A, h.R.x.A, cu, j, rd(h.x.A, j), n0, j_, cu))), [rs(*E, n0, j_, e.local_nnz)])]
    def write_cut(h, e):
        n0, cu = rd(h.Rp.A, h.i), h.local_nnz; j = rd(h.xj.A, h.px); w = e.local_nnz == cu + 1; E = (e.R.j.A, e.R.x.A); c, X2, PO2, top, piv = Rref.cur(h)
        return [("one more at most", lor(w, e.local_nnz == cu)), ("new sums", forall(j_, rs(*E, n0, j_, e.local_nnz) == rs(h.R.j.A, h.R.x.A, n0, j_, cu) + z3.If(land(w, j_ == j), rd(h.x.A, j), 0), [rs(*E, n0, j_, e.local_nnz)])),
                ("place", land(rd(PO2, j) == h.px, 0 <= j, j < h.m, rd(h.xj.A, h.px) == j)),
                ("at px", forall(j_, land(rd(PO2, j_) == h.px, rd(h.xj.A, rd(PO2, j_)) == j_) == (j_ == j), [rd(PO2, j_)])), ("sums", dict(Rref.write(e, e))["sums"], ["new sums", "place", "at px", dict(Rref.write(h, h))["sums"]])]
    def cut(h, e):
        o = h.old; U = o.fact.U; p = U.field.p; m = U.m; i0 = h.i; c, X2, PO2, top, piv = Rref.cur(e, i0); C = c.g("C"); x = c.n.x.A; ql = c.o.qinv.A; POS, X = c.g("POS"), c.n.xj.A
        Rp = e.Rp.A; E = (e.R.j.A, e.R.x.A); H = (h.R.j.A, h.R.x.A); co = lambda a, i: rs(*a, rd(Rp, i), j_, rd(Rp, i + 1)); ch = rs(*H, rd(h.Rp.A, i), j_, rd(h.Rp.A, i + 1)); rows = dict(Rref.rows(o, e.R, Rp, i0 + 1, e.g("CS"), e.g("PR"), e.g("UQ"))); old = dict(Rref.rows(o, h.R, h.Rp.A, i0, h.g("CS"), h.g("PR"), h.g("UQ")))
        val = z3.If(land(top <= rd(POS, j_), rd(POS, j_) < m, rd(X, rd(POS, j_)) == j_, rd(ql, j_) < 0), rd(x, j_), 0); xac = xA(C, U.p.A, U.j.A, U.x.A, j_, U.n); u0 = rowcoef(U, i0, j_)
        return [("earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < h.nnz), land(rd(E[0], k_) == rd(H[0], k_), rd(E[1], k_) == rd(H[1], k_))), [[rd(E[0], k_)], [rd(E[1], k_)], [rd(H[0], k_)]])), ("row pointers kept", forall(t_, imp(land(0 <= t_, t_ <= i0), rd(Rp, t_) == rd(h.Rp.A, t_)), [rd(Rp, t_)])),
                ("+frame", forall([i, j_], RsFrame.inst(*E, *H, rd(Rp, i), j_, rd(Rp, i + 1)), [co(E, i)])), ("earlier rows", forall([i, j_], imp(land(0 <= i, i < i0), co(E, i) == ch), [co(E, i)]), ["frame", "earlier entries kept", "row pointers kept", monotone(h.Rp.A, i0)]),
                ("this row", forall(j_, imp(land(0 <= j_, j_ < m), co(E, i0) == val), [co(E, i0)])), ("+eq", forall(j_, Z0Eq.inst(p, u0 - val - xac, u0 - co(E, i0) - xac), [[co(E, i0)], [xac]])),
                ("new row", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, u0 - co(E, i0) - xac)), [[co(E, i0)], [xac]]), ["eq", "this row", c.post["combination of rows"], inj_piv(ql, m)]),
                ("member values", forall(j_, imp(land(0 <= j_, j_ < m, top <= rd(POS, j_), rd(POS, j_) < m, rd(X, rd(POS, j_)) == j_), canonp(p, rd(x, j_))), [rd(POS, j_)]), [c.post["canonical"]]),
                ("new entries canonical", forall(k_, imp(land(h.nnz <= k_, k_ < e.nnz), canonp(p, rd(E[1], k_))), [[rd(E[1], k_)], [rd(E[0], k_)]])), ("canonical", canon_arr(p, E[1], e.nnz), ["new entries canonical", "earlier entries kept", dict(Rref.shape(o, h.R, h.Rp.A, i0))["canonical"]]),
                ("rows", rows["row = row of U minus a combination of rows of U"], ["new row", "earlier rows", old["row = row of U minus a combination of rows of U"]])]
    loops = {"0": Loop(inv=clear), "1": Loop(inv=copied), "2": Loop(inv=inv, cut=cut, ghost={"CS": AA, "PR": AA, "CAP": Int}, ghost_end=lambda h, e: {"CS": z3.Store(h.g("CS"), h.i, e.call("spasm_sparse_triangular_solve").g("C")), "PR": z3.Store(h.g("PR"), h.i, e.g("PRI")), "CAP": h.g("CAP") + h.m}, head=lambda v: [MulMono.inst(v.i, v.n, v.m)]),
             "2.0": Loop(inv=swap, cut_pre=before, cut_exit=swapped), "2.1": Loop(inv=count, pre=lambda v: Rref.unf(v)[:1], end=lambda h, e: Rref.unf(h)),
             "2.3": Loop(inv=write, pre=write_pre, end=write_end, cut=write_cut, ghost={"PRI": ARR}, ghost_end=lambda h, e: {"PRI": z3.Store(h.g("PRI"), rd(h.xj.A, h.px), h.local_nnz)}),
             "3": Loop(inv=lambda v: [("cleared", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.Rqinv.A, j_) == -1), [rd(v.Rqinv.A, j_)]))]),
             "4": Loop(inv=lambda v: [("located", forall(i, imp(land(0 <= i, i < v.i), rd(v.Rqinv.A, rd(v.g("UQ"), i)) == i), [rd(v.g("UQ"), i)])), ("others", forall(j_, imp(land(0 <= j_, j_ < v.m, rd(v.old.fact.qinv.A, j_) < 0), rd(v.Rqinv.A, j_) == -1), [rd(v.Rqinv.A, j_)]))])}
ALL = [Rref()]
