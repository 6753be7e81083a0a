"""C13: kernel bases. NC[r]: the nonpivotal column of row r; KV[r]: row r as a vector; PR[r][c]: place of column c in row r"""
from dv.lib import *
from contracts.tri import rowcoef
from contracts.sts import inj_piv, xbu
from contracts.solve import MulMono
from contracts.product import mat, coef
from contracts.copy import CntRange, cs, CsZero, CsStep, CsTotal
from contracts.rref import Compr, csel, upper_pre, inrow, AA, i
# npc(q, t): number of nonpivotal columns below t
npc = Def("npc", [ARR], lambda q: (I(0), I(0)), lambda prev, q, t: prev + z3.If(rd(q, t) < 0, 1, 0))
NpcMono = Lemma("npc_mono", [ARR, Int, Int], lambda q, s, t: imp(0 <= s, land(npc(q, s) <= npc(q, t), npc(q, t) - npc(q, s) <= t - s)), lo=lambda q, s: s, uses_step=lambda q, s, t: [npc.unfold(q, t)])
CntNone = Lemma("cnt_none", [ARR, Int, Int], lambda a, v, n: imp(forall(k_, imp(land(0 <= k_, k_ < n), rd(a, k_) != v), [rd(a, k_)]), cnt(a, v, n) == 0), lo=lambda a, v: I(0), uses_base=lambda a, v: [cnt.zero(a, v)], uses_step=lambda a, v, n: [cnt.unfold(a, v, n), rd(a, n) == rd(a, n)])
CntOne = Lemma("cnt_one", [ARR, Int, Int, Int], lambda a, v, w, n: imp(land(forall(k_, imp(land(0 <= k_, k_ < n), (rd(a, k_) == v) == (k_ == w)), [rd(a, k_)])), cnt(a, v, n) == z3.If(land(0 <= w, w < n), 1, 0)), lo=lambda a, v, w: I(0), uses_base=lambda a, v, w: [cnt.zero(a, v)], uses_step=lambda a, v, w, n: [cnt.unfold(a, v, n), rd(a, n) == rd(a, n)])
def piv_maps(q, UQ, n, m): return land(forall(j_, imp(land(0 <= j_, j_ < m), land(-1 <= rd(q, j_), rd(q, j_) < n, imp(rd(q, j_) >= 0, rd(UQ, rd(q, j_)) == j_))), [rd(q, j_)]), forall(i, imp(land(0 <= i, i < n), land(0 <= rd(UQ, i), rd(UQ, i) < m, rd(q, rd(UQ, i)) == i)), [rd(UQ, i)]))
# among m columns with n pivots, m - n are not pivotal
NpcStep = Lemma("npc_total", [ARR, ARR, Int, Int, Int], lambda q, u, n, m, t: imp(land(n >= 0, piv_maps(q, u, n, m), t <= m), npc(q, t) == t - cs(u, n, t)), lo=lambda q, u, n, m: I(0), uses_base=lambda q, u, n, m: [npc.zero(q), cs.zero(u, n)],
    uses_step=lambda q, u, n, m, t: [npc.unfold(q, t), cs.unfold(u, n, t), CntNone.inst(u, t, n), CntOne.inst(u, t, rd(q, t), n)])
def NpcTotal(q, u, n, m): return [NpcStep.inst(q, u, n, m, m), CsTotal.inst(u, m, n)]
CselMono = Lemma("csel_mono", [ARR, ARR, ARR, Int, Int, Int], lambda X, q, x, top, s, t: imp(top <= s, csel(X, q, x, top, s) <= csel(X, q, x, top, t)), lo=lambda X, q, x, top, s: s, uses_step=lambda X, q, x, top, s, t: [csel.unfold(X, q, x, top, t)])
# vsum(v, aj, ax, lo, hi, C): sum over the columns c < C of v[c] times the entry of the row at c
vsum = Def("vsum", [ARR, ARR, ARR, Int, Int], lambda *a: (I(0), I(0)), lambda prev, v, aj, ax, lo, hi, c: prev + fmul(rd(v, c), rs(aj, ax, lo, c, hi)))
VsZero = Lemma("vsum_zero", [ARR, ARR, ARR, Int, Int], lambda v, aj, ax, lo, c: vsum(v, aj, ax, lo, lo, c) == 0, lo=lambda v, aj, ax, lo: I(0), uses_base=lambda v, aj, ax, lo: [vsum.zero(v, aj, ax, lo, lo)],
    uses_step=lambda v, aj, ax, lo, c: [vsum.unfold(v, aj, ax, lo, lo, c), rs.zero(aj, ax, lo, c), fmul_def(rd(v, c), I(0)), fmul_def(rd(v, c), rs(aj, ax, lo, c, lo))])
VsStep = Lemma("vsum_step", [ARR, ARR, ARR, Int, Int, Int], lambda v, aj, ax, lo, n, c: imp(lo <= n, vsum(v, aj, ax, lo, n + 1, c) == vsum(v, aj, ax, lo, n, c) + z3.If(land(0 <= rd(aj, n), rd(aj, n) < c), fmul(rd(v, rd(aj, n)), rd(ax, n)), 0)), lo=lambda v, aj, ax, lo, n: I(0),
    uses_base=lambda v, aj, ax, lo, n: [vsum.zero(v, aj, ax, lo, n), vsum.zero(v, aj, ax, lo, n + 1)], uses_step=lambda v, aj, ax, lo, n, c: [vsum.unfold(v, aj, ax, lo, n, c), vsum.unfold(v, aj, ax, lo, n + 1, c), rs.unfold(aj, ax, lo, c, n), fmul_def(rd(v, c), rs(aj, ax, lo, c, n)), fmul_def(rd(v, c), rs(aj, ax, lo, c, n + 1)), fmul_def(rd(v, c), rd(ax, n))])
DotVs = Lemma("dot_vsum", [ARR, ARR, ARR, Int, Int, Int], lambda v, aj, ax, lo, m, n: imp(land(m >= 0, forall(k_, imp(land(lo <= k_, k_ < n), land(0 <= rd(aj, k_), rd(aj, k_) < m)), [rd(aj, k_)])), dot(v, aj, ax, lo, n) == vsum(v, aj, ax, lo, n, m)), lo=lambda v, aj, ax, lo, m: lo,
    uses_base=lambda v, aj, ax, lo, m: [dot.zero(v, aj, ax, lo), VsZero.inst(v, aj, ax, lo, m)], uses_step=lambda v, aj, ax, lo, m, n: [dot.unfold(v, aj, ax, lo, n), VsStep.inst(v, aj, ax, lo, n, m), rd(aj, n) == rd(aj, n)])
# row sums against a transpose: v T = sum over c of v[c] U[i][c]
XaVs = Lemma("xA_vsum", [ARR, ARR, ARR, ARR, ARR, ARR, Int, Int, Int, Int], lambda v, tp, tj, tx, uj, ux, lo, hi, i, m: imp(land(monotone(tp, m), forall(t_, imp(land(0 <= t_, t_ < m), rs(tj, tx, rd(tp, t_), i, rd(tp, t_ + 1)) == rs(uj, ux, lo, t_, hi)), [rs(tj, tx, rd(tp, t_), i, rd(tp, t_ + 1))])), xA(v, tp, tj, tx, i, m) == vsum(v, uj, ux, lo, hi, m)), lo=lambda *a: I(0),
    uses_base=lambda v, tp, tj, tx, uj, ux, lo, hi, i: [xA.zero(v, tp, tj, tx, i), vsum.zero(v, uj, ux, lo, hi)], uses_step=lambda v, tp, tj, tx, uj, ux, lo, hi, i, m: [xA.unfold(v, tp, tj, tx, i, m), vsum.unfold(v, uj, ux, lo, hi, m), RsmRs.inst(rd(v, m), tj, tx, rd(tp, m), i, rd(tp, m + 1))])
NEGRANK = Compr("minus_index", [Int], lambda n, c: -c)
NegComb = Z0Lemma("neg_comb", 3, lambda u, a, k: [u - a], lambda u, a, k: k, lambda w, u, a, k: -w, cond=lambda u, a, k: k == a - u)
NOQ = z3.K(Int, I(-1))
class Kernel(Contract):
    name = "spasm_kernel"; file = "spasm_kernel.c"; params = ["fact"]
    shapes = {"fact.U.x": "nonnull"}; spec = {"UQ": ARR}; ghost_out = {"NC": ARR, "KV": AA, "PR": AA}
    def pre(s, v):
        U = v.fact.U; n, m = U.n, U.m
        return [x for x in upper_pre(U, v.fact.qinv, v.g("UQ")) if x[0] != "pivots first"] + [("small", land(3 * n < (1 << 31) - 1)), ("columns have fewer than 2^31 entries", forall(j_, imp(land(0 <= j_, j_ < m), cnt(U.j.A, j_, rd(U.p.A, n)) < (1 << 31)), [cnt(U.j.A, j_, rd(U.p.A, n))])), ("size", land(m * (n + 1) <= BIG / 4, rd(U.p.A, n) <= BIG / 4))]
    def rows(o, K, Kp, hi, NC, KV, PR):
        U = o.fact.U; p = U.field.p; q = o.fact.qinv.A; Kj = K.j.A; co = rs(Kj, K.x.A, rd(Kp, i), j_, rd(Kp, i + 1)); ik = land(0 <= i, i < hi, inrow(Kp, i, k_)); MP = [z3.MultiPattern(rd(Kp, i), rd(Kj, k_))]; dt = dot(rd(KV, i), U.j.A, U.x.A, rd(U.p.A, t_), rd(U.p.A, t_ + 1))
        return [("own column", forall(i, imp(land(0 <= i, i < hi), land(0 <= rd(NC, i), rd(NC, i) < U.m, rd(q, rd(NC, i)) < 0, rd(rd(KV, i), rd(NC, i)) == -1)), [rd(NC, i)])), ("rows in column order", forall([i, t_], imp(land(0 <= i, i < t_, t_ < hi), rd(NC, i) < rd(NC, t_)), [z3.MultiPattern(rd(NC, i), rd(NC, t_))])),
                ("rows as vectors", forall([i, j_], imp(land(0 <= i, i < hi, 0 <= j_, j_ < U.m), co == rd(rd(KV, i), j_)), [[co], [rd(rd(KV, i), j_)]])), ("otherwise pivotal columns only", forall([i, k_], imp(ik, lor(rd(Kj, k_) == rd(NC, i), rd(q, rd(Kj, k_)) >= 0)), MP)), ("each column once", forall([i, k_], imp(ik, rd(rd(PR, i), rd(Kj, k_)) == k_), MP)),
                ("orthogonal to every row", forall([i, t_], imp(land(0 <= i, i < hi, 0 <= t_, t_ < U.n), z0(p, dt)), [dt]))]
    def shape(o, K, Kp, hi):
        U = o.fact.U; n = rd(Kp, hi)
        return [("start", rd(Kp, I(0)) == 0), ("monotone", monotone(Kp, hi)), ("columns", forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(K.j.A, k_), rd(K.j.A, k_) < U.m)), [rd(K.j.A, k_)])), ("canonical", canon_arr(U.field.p, K.x.A, n)), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < n), rd(K.x.A, k_) != 0), [rd(K.x.A, k_)]))]
    def post(s, o, n, r):
        U = o.fact.U
        return [("well formed: " + a, b) for a, b in csr_ok(r)] + [("as many rows as nonpivotal columns", land(r.n == U.m - U.n, r.m == U.m)), ("field", r.field.p == U.field.p), ("has values", lnot(r.x.null)), ("canonical", canon_vals(r)[1]), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < rd(r.p.A, r.n)), rd(r.x.A, k_) != 0), [rd(r.x.A, k_)]))] + Kernel.rows(o, r, r.p.A, U.m - U.n, n.g("NC"), n.g("KV"), n.g("PR"))
    def facts_entry(s, v): U = v.fact.U; return [NEGRANK.at(I(0))] + NpcTotal(v.fact.qinv.A, v.g("UQ"), U.n, U.m)
    def spec_spasm_sparse_triangular_solve(s, v, o): return {"S": z3.K(Int, I(1)), "RK": NEGRANK(I(0))}
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"NC": Z, "KV": z3.K(Int, Z), "PR": z3.K(Int, Z), "CAP": I(0), "PRI": Z}
    def witness(s, v): return {k: v.g(k) for k in ("NC", "KV", "PR")}
    def located(v): q = v.old.fact.qinv.A; return [("located", forall(j_, imp(land(0 <= j_, j_ < v.j, rd(q, j_) >= 0), rd(v.Utqinv.A, rd(q, j_)) == j_), [rd(q, j_)]))]
    def all_located(v): U = v.old.fact.U; return [("pivots located", forall(i, imp(land(0 <= i, i < U.n), rd(v.Utqinv.A, i) == rd(v.g("UQ"), i)), [[rd(v.Utqinv.A, i)], [rd(v.g("UQ"), i)]]))] + Kernel.transposed(v)
    def transposed(v):
        """what the triangular solver needs to know about the transpose"""
        U = v.old.fact.U; T = v.Ut; UQ = v.g("UQ"); Q = v.Utqinv.A; c = v.call("spasm_transpose"); SRC = c.g("SRC"); W = rd(T.j.A, k_)
        return [("injective", inj_piv(Q, U.n)), ("source of an edge", forall([i, k_], imp(land(0 <= i, i < U.n, rd(T.p.A, rd(Q, i)) <= k_, k_ < rd(T.p.A, rd(Q, i) + 1)), land(rd(U.j.A, rd(SRC, k_)) == rd(UQ, i), rd(U.p.A, W) <= rd(SRC, k_), rd(SRC, k_) < rd(U.p.A, W + 1), 0 <= W, W < U.n)), [z3.MultiPattern(rd(Q, i), rd(T.j.A, k_))])),
                ("triangular", forall([i, k_], imp(land(0 <= i, i < U.n, rd(T.p.A, rd(Q, i)) <= k_, k_ < rd(T.p.A, rd(Q, i) + 1)), W <= i), [z3.MultiPattern(rd(Q, i), rd(T.j.A, k_))])),
                ("unit pivots", forall(i, imp(land(0 <= i, i < U.n), z0(U.field.p, rowcoef(T, rd(Q, i), i) - 1)), [rd(Q, i)])),
                ("canonical transpose", canon_vals(T)[1]), ("sizes of rows", forall(j_, imp(land(0 <= j_, j_ < U.m), rd(T.p.A, j_ + 1) - rd(T.p.A, j_) < (1 << 31)), [rd(T.p.A, j_)]))]
    def inv(v):
        o = v.old; U = o.fact.U; n, m = U.n, U.m; K = v.K; q = o.fact.qinv.A; Kp = v.Kp.A; NC, KV, PR, CAP = v.g("NC"), v.g("KV"), v.g("PR"), v.g("CAP")
        return [("Kn", land(v.Kn == npc(q, v.j), v.Kn >= 0, v.writing == 0, v.j <= m)), ("CAP", CAP == v.Kn * (n + 1)), ("nnz", land(0 <= v.nnz, v.nnz <= CAP, v.nnz == rd(Kp, v.Kn), v.nnz <= K.nzmax)), ("K", land(K.n == m - n, K.m == m, K.nzmax >= 0, K.nzmax <= BIG, K.j.len >= K.nzmax, K.x.len >= K.nzmax)),
                ("marks clear", forall(j_, imp(land(0 <= j_, j_ < n), rd(v.xj.A, add(add(n, n), j_)) == 0), [rd(v.xj.A, add(add(n, n), j_))])), ("own columns so far", forall(i, imp(land(0 <= i, i < v.Kn), rd(NC, i) < v.j), [rd(NC, i)]))] + Kernel.shape(o, K, Kp, v.Kn) + Kernel.rows(o, K, Kp, v.Kn, NC, KV, PR)
    def before(v):
        """the equation the solver leaves, with the coefficients by column of U"""
        o = v.old; U = o.fact.U; T = v.Ut; c = v.call("spasm_sparse_triangular_solve"); C = c.g("C"); x = c.n.x.A; q = o.fact.qinv.A; top = c.r; p = U.field.p; n = U.n; UQ = v.g("UQ"); xac = xA(C, T.p.A, T.j.A, T.x.A, t_, U.m); bk = rowcoef(T, v.j, t_)
        mem = lambda a: Kernel.mem(c, a, n)
        return [("coefficients", forall(j_, imp(rd(C, j_) != 0, land(0 <= j_, j_ < U.m, rd(q, j_) >= 0, mem(rd(q, j_)), rd(C, j_) == rd(x, rd(q, j_)))), [rd(C, j_)])), ("members", forall(j_, imp(land(0 <= j_, j_ < U.m, rd(q, j_) >= 0, mem(rd(q, j_))), rd(C, j_) == rd(x, rd(q, j_))), [[rd(q, j_)], [rd(C, j_)]])),
                ("+eq", forall(t_, Z0Eq.inst(p, bk - z3.If(land(mem(t_), rd(v.Utqinv.A, t_) < 0), rd(x, t_), 0) - xac, bk - xac), [[bk], [xac]])), ("not there", forall(t_, imp(land(0 <= t_, t_ < n), rd(v.Utqinv.A, t_) >= 0), [[rd(v.Utqinv.A, t_)], [bk], [xac]])),
                ("equation", forall(t_, imp(land(0 <= t_, t_ < n), z0(p, bk - xac)), [[bk], [xac]]), ["eq", "not there", c.post["combination of rows"], inj_piv(v.Utqinv.A, n)])]
    def mem(c, a, px): POS, X = c.g("POS"), c.n.xj.A; return land(c.r <= rd(POS, a), rd(POS, a) < px, rd(X, rd(POS, a)) == a)
    def cargs(v): c = v.call("spasm_sparse_triangular_solve"); return (v.xj.A, NOQ, v.x.A, c.r)
    def unf(v): a = Kernel.cargs(v); return [csel.zero(*a), csel.unfold(*a, v.px)]
    def count(v): c = v.call("spasm_sparse_triangular_solve"); return [("px", c.r <= v.px), ("counted", v.row_nz == 1 + csel(*Kernel.cargs(v), v.px)), ("small", land(1 <= v.row_nz, v.row_nz <= 1 + v.px - c.r))]
    def write(v, ve):
        o = v.old; U = o.fact.U; m = U.m; q = o.fact.qinv.A; c = v.call("spasm_sparse_triangular_solve"); K = v.K; Kj, Kx = K.j.A, K.x.A; n0, cu = rd(v.Kp.A, v.local_i), v.local_nnz; x = v.x.A; PRI = v.g("PRI"); col = rd(Kj, k_); co = rs(Kj, Kx, n0, j_, cu); mem = lambda a: Kernel.mem(c, a, v.px)
        return [("px", c.r <= v.px), ("written", cu == n0 + 1 + csel(*Kernel.cargs(v), v.px)), ("room", n0 < cu), ("first", land(rd(Kj, n0) == v.j, rd(Kx, n0) == -1, rd(PRI, v.j) == n0)),
                ("entries", forall(k_, imp(land(n0 < k_, k_ < cu), land(0 <= col, col < m, rd(q, col) >= 0, mem(rd(q, col)), rd(Kx, k_) == rd(x, rd(q, col)), rd(x, rd(q, col)) != 0, rd(PRI, col) == k_)), [col])),
                ("sums", forall(j_, imp(land(0 <= j_, j_ < m), co == z3.If(j_ == v.j, -1, z3.If(land(rd(q, j_) >= 0, mem(rd(q, j_))), rd(x, rd(q, j_)), 0))), [co])),
                ("earlier rows", forall(k_, imp(land(0 <= k_, k_ < n0), land(rd(Kj, k_) == rd(ve.K.j.A, k_), rd(Kx, k_) == rd(ve.K.x.A, k_))), [[rd(Kj, k_)], [rd(Kx, k_)]]))]
    def write_pre(v):
        n0 = rd(v.Kp.A, v.local_i); a = (v.K.j.A, v.K.x.A)
        return Kernel.unf(v)[:1] + [forall(j_, land(rs.zero(*a, n0, j_), rs.unfold(*a, n0, j_, n0)), [rs(*a, n0, j_, v.local_nnz)])]
    def write_end(h, e):
        n0, cu = rd(h.Kp.A, h.local_i), h.local_nnz; jj = rd(h.xj.A, h.px); w = e.local_nnz == cu + 1; E = (e.K.j.A, e.K.x.A); c = h.call("spasm_sparse_triangular_solve")
        return Kernel.unf(h) + [forall(j_, imp(w, land(rs.unfold(*E, n0, j_, cu), RsStore.inst(h.K.j.A, h.K.x.A, cu, rd(h.Utqinv.A, jj), rd(h.x.A, jj), n0, j_, cu))), [rs(*E, n0, j_, e.local_nnz)])]
    def write_head(h): c = h.call("spasm_sparse_triangular_solve"); a = Kernel.cargs(h); return [CselMono.inst(*a, h.px + 1, h.old.fact.U.n), csel.unfold(*a, h.px)]
    def write_cut(h, e):
        n0, cu = rd(h.Kp.A, h.local_i), h.local_nnz; jj = rd(h.xj.A, h.px); w = e.local_nnz == cu + 1; E = (e.K.j.A, e.K.x.A); c = h.call("spasm_sparse_triangular_solve"); POS = c.g("POS"); q = h.old.fact.qinv.A; Q = rd(h.Utqinv.A, jj); U = h.old.fact.U
        return [("one more at most", lor(w, e.local_nnz == cu)), ("place", land(rd(POS, jj) == h.px, 0 <= jj, jj < U.n, 0 <= Q, Q < U.m, rd(q, Q) == jj, rd(h.xj.A, h.px) == jj)), ("new sums", forall(j_, rs(*E, n0, j_, e.local_nnz) == rs(h.K.j.A, h.K.x.A, n0, j_, cu) + z3.If(land(w, j_ == Q), rd(h.x.A, jj), 0), [rs(*E, n0, j_, e.local_nnz)])),
                ("at px", forall(j_, imp(land(0 <= j_, j_ < U.m, rd(q, j_) >= 0), land(rd(POS, rd(q, j_)) == h.px, rd(h.xj.A, rd(POS, rd(q, j_))) == rd(q, j_)) == (j_ == Q)), [rd(q, j_)])), ("sums", dict(Kernel.write(e, e))["sums"], ["new sums", "place", "at px", dict(Kernel.write(h, h))["sums"]])]
    def ghost_end(h, e):
        cs_ = e.calls("spasm_sparse_triangular_solve")
        if not cs_: return {}
        c = cs_[0]; n = h.old.fact.U.n
        return {"NC": z3.Store(h.g("NC"), h.Kn, h.j), "KV": z3.Store(h.g("KV"), h.Kn, z3.Store(c.g("C"), h.j, I(-1))), "PR": z3.Store(h.g("PR"), h.Kn, e.g("PRI")), "CAP": h.g("CAP") + (n + 1)}
    def cut(h, e):
        cs_ = e.calls("spasm_sparse_triangular_solve")
        if not cs_: return []
        o = h.old; U = o.fact.U; p = U.field.p; m = U.m; r0 = h.Kn; c = cs_[0]; C = c.g("C"); x = c.n.x.A; q = o.fact.qinv.A; T = e.Ut; n = U.n; j0 = h.j; KV = z3.Store(C, j0, I(-1))
        Kp = e.Kp.A; E = (e.K.j.A, e.K.x.A); H = (h.K.j.A, h.K.x.A); co = lambda a, i: rs(*a, rd(Kp, i), j_, rd(Kp, i + 1)); ch = rs(*H, rd(h.Kp.A, i), j_, rd(h.Kp.A, i + 1)); rows = dict(Kernel.rows(o, e.K, Kp, r0 + 1, e.g("NC"), e.g("KV"), e.g("PR"))); old = dict(Kernel.rows(o, h.K, h.Kp.A, r0, h.g("NC"), h.g("KV"), h.g("PR")))
        POS, X = c.g("POS"), c.n.xj.A; top = c.r; xac = lambda v: xA(v, T.p.A, T.j.A, T.x.A, t_, m); bk = rowcoef(T, j0, t_); dt = dot(KV, U.j.A, U.x.A, rd(U.p.A, t_), rd(U.p.A, t_ + 1)); Tm = (T.p.A, T.j.A, T.x.A); PT = [[dt]]; vs = vsum(KV, U.j.A, U.x.A, rd(U.p.A, t_), rd(U.p.A, t_ + 1), m); ct = e.call("spasm_transpose")
        return [("earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < h.nnz), land(rd(E[0], k_) == rd(H[0], k_), rd(E[1], k_) == rd(H[1], k_))), [[rd(E[0], k_)], [rd(E[1], k_)], [rd(H[0], k_)]])), ("row pointers kept", forall(t_, imp(land(0 <= t_, t_ <= r0), rd(Kp, t_) == rd(h.Kp.A, t_)), [rd(Kp, t_)])),
                ("+frame", forall([i, j_], RsFrame.inst(*E, *H, rd(Kp, i), j_, rd(Kp, i + 1)), [co(E, i)])), ("earlier rows", forall([i, j_], imp(land(0 <= i, i < r0), co(E, i) == ch), [co(E, i)]), ["frame", "earlier entries kept", "row pointers kept", monotone(h.Kp.A, r0)]),
                ("this row", forall(j_, imp(land(0 <= j_, j_ < m), co(E, r0) == rd(KV, j_)), [[co(E, r0)], [rd(KV, j_)]])),
                ("member values", forall(j_, imp(land(0 <= j_, j_ < n, top <= rd(POS, j_), rd(POS, j_) < n, rd(X, rd(POS, j_)) == j_), canonp(p, rd(x, j_))), [rd(POS, j_)]), [c.post["canonical"]]),
                ("new entries canonical", forall(k_, imp(land(h.nnz <= k_, k_ < e.nnz), canonp(p, rd(E[1], k_))), [[rd(E[1], k_)], [rd(E[0], k_)]])), ("canonical", canon_arr(p, E[1], e.nnz), ["new entries canonical", "earlier entries kept", dict(Kernel.shape(o, h.K, h.Kp.A, r0))["canonical"]]),
                ("rows as vectors", rows["rows as vectors"], ["this row", "earlier rows", old["rows as vectors"]]),
                ("own coefficient was zero", rd(C, j0) == 0),
                ("+upd", forall(t_, land(XAUpd.inst(C, j0, I(-1), *Tm, t_, m), RsmNeg.inst(I(1), T.j.A, T.x.A, rd(T.p.A, j0), t_, rd(T.p.A, j0 + 1)), RsmRs.inst(I(1), T.j.A, T.x.A, rd(T.p.A, j0), t_, rd(T.p.A, j0 + 1))), PT)), ("+equation", forall(t_, imp(land(0 <= t_, t_ < n), z0(p, bk - xac(C))), [[bk], [xac(C)]])), ("transposed rows", forall(t_, imp(land(0 <= t_, t_ < n), xac(KV) == xac(C) - bk), PT), ["upd", "own coefficient was zero", monotone(T.p.A, T.n)]),
                ("+vs1", forall(t_, XaVs.inst(KV, *Tm, U.j.A, U.x.A, rd(U.p.A, t_), rd(U.p.A, t_ + 1), t_, m), PT + [[xac(KV)]])), ("xa", forall(t_, imp(land(0 <= t_, t_ < n), xac(KV) == vs), PT + [[xac(KV)]]), ["vs1", ct.post["same matrix"], monotone(T.p.A, T.n)]),
                ("+vs2", forall(t_, DotVs.inst(KV, U.j.A, U.x.A, rd(U.p.A, t_), m, rd(U.p.A, t_ + 1)), PT)), ("dv", forall(t_, imp(land(0 <= t_, t_ < n), dt == vs), PT), ["vs2", dict(csr_ok(U))["columns"], monotone(U.p.A, U.n)]),
                ("+neg", forall(t_, NegComb.inst(p, bk, xac(C), dt), PT)), ("this row: orthogonal", forall(t_, imp(land(0 <= t_, t_ < n), z0(p, dt)), PT), ["neg", "xa", "dv", "transposed rows", "equation"]), ("orthogonal", rows["orthogonal to every row"], ["this row: orthogonal", old["orthogonal to every row"]])]
    def done(v):
        o = v.old; U = o.fact.U; g = lambda hi: dict(Kernel.rows(o, v.K, v.Kp.A, hi, v.g("NC"), v.g("KV"), v.g("PR"))); a, b = g(v.Kn), g(U.m - U.n)
        return [("all rows", v.Kn == U.m - U.n)] + [(k, b[k], ["all rows", a[k]]) for k in a]
    def head(v): U = v.old.fact.U; q = v.old.fact.qinv.A; return [npc.unfold(q, v.j), NpcMono.inst(q, v.j, U.m), NpcMono.inst(q, v.j + 1, U.m), MulMono.inst(v.Kn, U.m, U.n + 1)]
    loops = {"0": Loop(inv=located, cut_exit=all_located), "1": Loop(inv=lambda v: [("marks clear", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.xj.A, j_) == 0), [rd(v.xj.A, j_)]))]),
             "2": Loop(inv=inv, pre=lambda v: [npc.zero(v.old.fact.qinv.A)], head=head, cut=cut, cut_exit=done, ghost={"NC": ARR, "KV": AA, "PR": AA, "CAP": Int}, ghost_end=ghost_end),
             "2.0": Loop(inv=count, cut_pre=before, pre=lambda v: Kernel.unf(v)[:1], end=lambda h, e: Kernel.unf(h)),
             "2.2": Loop(inv=write, pre=write_pre, head=write_head, end=write_end, cut=write_cut, ghost={"PRI": ARR}, ghost_init=lambda v: {"PRI": z3.Store(v.g("PRI"), v.j, v.local_nnz - 1)}, ghost_end=lambda h, e: {"PRI": z3.Store(h.g("PRI"), rd(h.Utqinv.A, rd(h.xj.A, h.px)), h.local_nnz)})}
# nonpivotal columns contribute their entries plus one, pivotal columns nothing
KCap = Lemma("kernel_capacity", [ARR, ARR, Int, Int, Int], lambda q, tp, m, s, t: imp(land(0 <= s, s <= t, t <= m, monotone(tp, m), forall(j_, imp(land(0 <= j_, j_ < m, rd(q, j_) >= 0), rd(tp, j_ + 1) - rd(tp, j_) >= 1), [rd(q, j_)])), 2 * npc(q, s) + rd(tp, s) - s <= 2 * npc(q, t) + rd(tp, t) - t), lo=lambda q, tp, m, s: s,
    uses_step=lambda q, tp, m, s, t: [npc.unfold(q, t), rd(q, t) == rd(q, t)])
# a sum over the columns with two nonzero terms
VsTwo = Lemma("vsum_two", [ARR, ARR, ARR, Int, Int, Int, Int, Int], lambda v, aj, ax, lo, hi, a, b, c: imp(land(0 <= a, 0 <= b, a != b, forall(t_, imp(land(0 <= t_, t_ < c, t_ != a, t_ != b), lor(rd(v, t_) == 0, rs(aj, ax, lo, t_, hi) == 0)), [rd(v, t_)])),
    vsum(v, aj, ax, lo, hi, c) == z3.If(a < c, fmul(rd(v, a), rs(aj, ax, lo, a, hi)), 0) + z3.If(b < c, fmul(rd(v, b), rs(aj, ax, lo, b, hi)), 0)), lo=lambda *a: I(0),
    uses_base=lambda v, aj, ax, lo, hi, a, b: [vsum.zero(v, aj, ax, lo, hi)], uses_step=lambda v, aj, ax, lo, hi, a, b, c: [vsum.unfold(v, aj, ax, lo, hi, c), rd(v, c) == rd(v, c), fmul_def(rd(v, c), rs(aj, ax, lo, c, hi))])
KVF = z3.Function("kernel_vector", ARR, ARR, ARR, ARR, Int, ARR)
def kvf(q, T, j):
    """-1 in column j, the entries of column j of R in the pivotal columns"""
    t = (q, T.p.A, T.j.A, T.x.A); return forall(t_, rd(KVF(*t, j), t_) == z3.If(t_ == j, -1, z3.If(rd(q, t_) >= 0, rs(T.j.A, T.x.A, rd(T.p.A, j), rd(q, t_), rd(T.p.A, j + 1)), 0)), [rd(KVF(*t, j), t_)])
class Shim: pass
StrictUp = Lemma("strict_up", [ARR, Int, Int], lambda a, n, t: imp(land(t <= n, rd(a, I(0)) >= 0, forall(k_, imp(land(0 <= k_, k_ < n), rd(a, k_) < rd(a, k_ + 1)), [rd(a, k_)])), rd(a, t) >= t), lo=lambda a, n: I(0), uses_step=lambda a, n, t: [rd(a, t) == rd(a, t)])
class FromRref(Contract):
    """R reduced: what spasm_rref guarantees (PR: place of column c in row i)"""
    name = "spasm_kernel_from_rref"; file = "spasm_kernel.c"; params = ["R", "qinv"]
    shapes = {"R.x": "nonnull"}; spec = {"UQ": ARR, "PR": AA}; ghost_out = {"NC": ARR, "KV": AA, "PK": AA}
    def pre(s, v):
        R, q, UQ, PR = v.R, v.qinv, v.g("UQ"), v.g("PR"); ik = land(0 <= i, i < R.n, inrow(R.p.A, i, k_)); MP = [z3.MultiPattern(rd(R.p.A, i), rd(R.j.A, k_))]
        return [("R: " + a, b) for a, b in csr_ok(R)] + field_ok(R.field) + [("R: canonical", canon_vals(R)[1]), ("R: nonzero", forall(k_, imp(land(0 <= k_, k_ < rd(R.p.A, R.n)), rd(R.x.A, k_) != 0), [rd(R.x.A, k_)])), ("rank", R.n <= R.m), ("qinv size", land(q.len >= R.m, q.ok)), ("pivots", piv_maps(q.A, UQ, R.n, R.m)),
            ("unit pivot first", forall(i, imp(land(0 <= i, i < R.n), land(rd(R.p.A, i) < rd(R.p.A, i + 1), rd(R.j.A, rd(R.p.A, i)) == rd(UQ, i), rd(R.x.A, rd(R.p.A, i)) == 1)), [rd(R.p.A, i)])),
            ("other entries outside the pivots", forall([i, k_], imp(ik, lor(rd(R.j.A, k_) == rd(UQ, i), rd(q.A, rd(R.j.A, k_)) == -1)), MP)), ("each column once", forall([i, k_], imp(ik, rd(rd(PR, i), rd(R.j.A, k_)) == k_), MP)), ("size", rd(R.p.A, R.n) <= BIG / 4)]
    def shim(o): f = Shim(); f.fact = Shim(); f.fact.U, f.fact.qinv = o.R, o.qinv; return f
    def shape(o, K, Kp, hi): return Kernel.shape(FromRref.shim(o), K, Kp, hi)
    def rows(o, K, Kp, hi, g): return Kernel.rows(FromRref.shim(o), K, Kp, hi, g("NC"), g("KV"), g("PK"))
    def post(s, o, n, r):
        R = o.R
        return [("well formed: " + a, b) for a, b in csr_ok(r)] + [("as many rows as nonpivotal columns", land(r.n == R.m - R.n, r.m == R.m)), ("field", r.field.p == R.field.p), ("has values", lnot(r.x.null)), ("canonical", canon_vals(r)[1]), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < rd(r.p.A, r.n)), rd(r.x.A, k_) != 0), [rd(r.x.A, k_)]))] + FromRref.rows(o, r, r.p.A, R.m - R.n, n.g)
    def facts_entry(s, v): return NpcTotal(v.qinv.A, v.g("UQ"), v.R.n, v.R.m) + [StrictUp.inst(v.R.p.A, v.R.n, v.R.n)]
    def ghosts0(s, v): Z = z3.K(Int, I(0)); AZ = z3.K(Int, Z); return {"NC": Z, "KV": AZ, "PK": AZ, "PRI": Z}
    def witness(s, v): return {k: v.g(k) for k in ("NC", "KV", "PK")}
    def pivots(v): return [("located", forall(i, imp(land(0 <= i, i < v.i), rd(v.p.A, i) == rd(v.g("UQ"), i)), [[rd(v.p.A, i)], [rd(v.g("UQ"), i)]]))]
    def trans(v):
        """about the transpose"""
        o = v.old; R = o.R; T = v.Rt; c = v.call("spasm_transpose"); SRC, POS, PR, UQ = c.g("SRC"), c.g("POS"), o.g("PR"), o.g("UQ"); q = o.qinv.A; n, m = R.n, R.m; nz = rd(R.p.A, n); ro = rowof(R.p.A, k_, n); W = rd(T.j.A, k_); f = rd(R.p.A, rd(q, j_))
        return [("source", forall([j_, k_], imp(land(0 <= j_, j_ < m, rd(T.p.A, j_) <= k_, k_ < rd(T.p.A, j_ + 1)), land(0 <= W, W < n, rd(R.j.A, rd(SRC, k_)) == j_, rd(rd(PR, W), j_) == rd(SRC, k_), rd(POS, rd(SRC, k_)) == k_)), [z3.MultiPattern(rd(T.p.A, j_), W)])),
                ("each row once", forall([j_, k_], imp(land(0 <= j_, j_ < m, rd(T.p.A, j_) <= k_, k_ < rd(T.p.A, j_ + 1)), rd(POS, rd(rd(PR, W), j_)) == k_), [z3.MultiPattern(rd(T.p.A, j_), W)])),
                ("+row", forall(k_, RowOf.inst(R.p.A, k_, n), [rd(R.j.A, k_)])), ("row of an entry", forall(k_, imp(land(0 <= k_, k_ < nz), land(0 <= ro, ro < n, inrow(R.p.A, ro, k_), rd(rd(PR, ro), rd(R.j.A, k_)) == k_, lor(rd(R.j.A, k_) == rd(UQ, ro), rd(q, rd(R.j.A, k_)) == -1))), [rd(R.j.A, k_)])),
                ("first entries", forall(i, imp(land(0 <= i, i < n), land(0 <= rd(R.p.A, i), rd(R.p.A, i) < nz, rd(rd(PR, i), rd(UQ, i)) == rd(R.p.A, i))), [[rd(UQ, i)], [rd(R.p.A, i)]])),
                ("pivotal columns hold the pivot only", forall([j_, k_], imp(land(0 <= j_, j_ < m, rd(q, j_) >= 0, 0 <= k_, k_ < nz), (rd(R.j.A, k_) == j_) == (k_ == f)), [z3.MultiPattern(rd(q, j_), rd(R.j.A, k_))])),
                ("+one", forall(j_, CntOne.inst(R.j.A, j_, f, nz), [rd(q, j_)])), ("one entry", forall(j_, imp(land(0 <= j_, j_ < m, rd(q, j_) >= 0), rd(T.p.A, j_ + 1) - rd(T.p.A, j_) == 1), [[rd(q, j_)], [rd(T.p.A, j_)]]), ["one", "pivotal columns hold the pivot only", "first entries", c.post["sizes of the rows"], piv_maps(q, UQ, n, m)]),
                ("sums", c.post["same matrix"]), ("canonical", canon_vals(T)[1]), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < nz), rd(T.x.A, k_) != 0), [rd(T.x.A, k_)])),
                ("total", land(npc(q, m) == m - n, rd(T.p.A, m) == nz, n <= m))]
    def inv(v):
        o = v.old; R = o.R; n, m = R.n, R.m; K = v.K; q = o.qinv.A; T = v.Rt; nz = rd(R.p.A, n)
        return [("rows", land(K.n == npc(q, v.j), K.n >= 0, v.j <= m)), ("nnz", land(v.nnz == 2 * K.n + rd(T.p.A, v.j) - v.j, v.nnz == rd(v.Kp.A, K.n), v.nnz >= 0)), ("K", land(K.m == m, K.nzmax == nz - n + m - n, K.j.len >= K.nzmax, K.x.len >= K.nzmax)), ("own columns so far", forall(i, imp(land(0 <= i, i < K.n), rd(v.g("NC"), i) < v.j), [rd(v.g("NC"), i)]))] + FromRref.shape(o, K, v.Kp.A, K.n) + FromRref.rows(o, K, v.Kp.A, K.n, v.g)
    def head(v): R = v.old.R; q = v.old.qinv.A; T = v.Rt; return [npc.unfold(q, v.j), NpcMono.inst(q, v.j, R.m), NpcMono.inst(q, v.j + 1, R.m), KCap.inst(q, T.p.A, R.m, v.j + 1, R.m), kvf(q, T, v.j), rd(q, v.j) == rd(q, v.j)]
    def write(v, ve):
        o = v.old; R = o.R; m = R.m; q = o.qinv.A; K = v.K; T = v.Rt; Kj, Kx = K.j.A, K.x.A; n0, cu = rd(v.Kp.A, K.n), v.nnz; PRI = v.g("PRI"); col = rd(Kj, k_); co = rs(Kj, Kx, n0, j_, cu); src = rd(T.p.A, v.j) + (k_ - n0 - 1); UQ = o.g("UQ")
        return [("px", land(rd(T.p.A, v.j) <= v.px, v.px <= rd(T.p.A, v.j + 1))), ("written", cu == n0 + 1 + (v.px - rd(T.p.A, v.j))), ("first", land(rd(Kj, n0) == v.j, rd(Kx, n0) == -1, rd(PRI, v.j) == n0)),
                ("entries", forall(k_, imp(land(n0 < k_, k_ < cu), land(0 <= col, col < m, rd(q, col) >= 0, rd(q, col) == rd(T.j.A, src), col == rd(UQ, rd(T.j.A, src)), rd(Kx, k_) == rd(T.x.A, src), rd(PRI, col) == k_)), [col])),
                ("sums", forall(j_, imp(land(0 <= j_, j_ < m), co == z3.If(j_ == v.j, -1, z3.If(rd(q, j_) >= 0, rs(T.j.A, T.x.A, rd(T.p.A, v.j), rd(q, j_), v.px), 0))), [co])),
                ("earlier rows", forall(k_, imp(land(0 <= k_, k_ < n0), land(rd(Kj, k_) == rd(ve.K.j.A, k_), rd(Kx, k_) == rd(ve.K.x.A, k_))), [[rd(Kj, k_)], [rd(Kx, k_)]]))]
    def write_pre(v):
        K, T = v.K, v.Rt; n0 = rd(v.Kp.A, K.n); a = (K.j.A, K.x.A); q = v.old.qinv.A
        return [forall(j_, land(rs.zero(*a, n0, j_), rs.unfold(*a, n0, j_, n0), rs.zero(T.j.A, T.x.A, rd(T.p.A, v.j), rd(q, j_))), [rs(*a, n0, j_, v.nnz)])]
    def write_exit(v):
        o = v.old; p = o.R.field.p; K, T = v.K, v.Rt; n0 = rd(v.Kp.A, K.n); nz = rd(o.R.p.A, o.R.n); w = dict(FromRref.write(v, v)); src = rd(T.p.A, v.j) + (k_ - n0 - 1); x = rd(K.x.A, k_)
        return [("range", land(0 <= rd(T.p.A, v.j), rd(T.p.A, v.j + 1) <= nz)), ("from the transpose", forall(k_, imp(land(n0 < k_, k_ < v.nnz), land(0 <= src, src < nz, x == rd(T.x.A, src))), [[x], [rd(K.j.A, k_)]]), ["range", w["px"], w["written"], w["entries"]]),
                ("entries canonical", forall(k_, imp(land(n0 <= k_, k_ < v.nnz), land(canonp(p, x), x != 0)), [[x], [rd(K.j.A, k_)]]), ["from the transpose", w["first"], canon_vals(T)[1], forall(k_, imp(land(0 <= k_, k_ < nz), rd(T.x.A, k_) != 0), [rd(T.x.A, k_)]), p >= 3])]
    def write_end(h, e):
        n0, cu = rd(h.Kp.A, h.K.n), h.nnz; T = h.Rt; c = rd(h.p.A, rd(T.j.A, h.px)); E = (e.K.j.A, e.K.x.A); q = h.old.qinv.A
        return [forall(j_, land(rs.unfold(*E, n0, j_, cu), RsStore.inst(h.K.j.A, h.K.x.A, cu, c, rd(T.x.A, h.px), n0, j_, cu), rs.unfold(T.j.A, T.x.A, rd(T.p.A, h.j), rd(q, j_), h.px)), [rs(*E, n0, j_, e.nnz)])]
    def write_cut(h, e):
        n0, cu = rd(h.Kp.A, h.K.n), h.nnz; T = h.Rt; w = rd(T.j.A, h.px); c = rd(h.p.A, w); E = (e.K.j.A, e.K.x.A); o = h.old; q = o.qinv.A; R = o.R; m = R.m
        return [("column", land(0 <= w, w < R.n, c == rd(o.g("UQ"), w), 0 <= c, c < m, rd(q, c) == w, c != h.j)), ("row new", forall(k_, imp(land(rd(T.p.A, h.j) <= k_, k_ < h.px), rd(T.j.A, k_) != w), [rd(T.j.A, k_)])), ("column new", forall(k_, imp(land(n0 <= k_, k_ < cu), rd(h.K.j.A, k_) != c), [rd(h.K.j.A, k_)])),
                ("new sums", forall(j_, rs(*E, n0, j_, e.nnz) == rs(h.K.j.A, h.K.x.A, n0, j_, cu) + z3.If(j_ == c, rd(T.x.A, h.px), 0), [rs(*E, n0, j_, e.nnz)])), ("at c", forall(j_, imp(land(0 <= j_, j_ < m, rd(q, j_) >= 0), (rd(q, j_) == w) == (j_ == c)), [rd(q, j_)])),
                ("+T", forall(j_, rs.unfold(T.j.A, T.x.A, rd(T.p.A, h.j), rd(q, j_), h.px), [rs(*E, n0, j_, e.nnz)])), ("sums", dict(FromRref.write(e, e))["sums"], ["new sums", "column", "at c", "T", dict(FromRref.write(h, h))["sums"]])]
    def ghost_end(h, e):
        if not FromRref.wrote(h, e): return {}
        q = h.old.qinv.A; T = h.Rt; r = h.K.n; return {"NC": z3.Store(h.g("NC"), r, h.j), "KV": z3.Store(h.g("KV"), r, KVF(q, T.p.A, T.j.A, T.x.A, h.j)), "PK": z3.Store(h.g("PK"), r, e.g("PRI"))}
    def wrote(h, e): return not e.K.n.eq(h.K.n)
    def cut(h, e):
        if not FromRref.wrote(h, e): return []
        o = h.old; R = o.R; p = R.field.p; m, n = R.m, R.n; r0 = h.K.n; q = o.qinv.A; T = e.Rt; j0 = h.j; KV = KVF(q, T.p.A, T.j.A, T.x.A, j0); UQ = o.g("UQ"); nz = rd(R.p.A, n)
        Kp = e.Kp.A; E = (e.K.j.A, e.K.x.A); H = (h.K.j.A, h.K.x.A); co = lambda a, i: rs(*a, rd(Kp, i), j_, rd(Kp, i + 1)); ch = rs(*H, rd(h.Kp.A, i), j_, rd(h.Kp.A, i + 1)); rows = dict(FromRref.rows(o, e.K, Kp, r0 + 1, e.g)); old = dict(FromRref.rows(o, h.K, h.Kp.A, r0, h.g))
        lo, hi = rd(R.p.A, t_), rd(R.p.A, t_ + 1); rw = (R.j.A, R.x.A, lo); a, b = rs(*rw, j0, hi), rs(*rw, rd(UQ, t_), hi); dt = dot(KV, R.j.A, R.x.A, lo, hi); vs = vsum(KV, R.j.A, R.x.A, lo, hi, m); PT = [[dt], [vs], [b]]; RP = [z3.MultiPattern(lo, rd(R.j.A, k_))]; inr = land(0 <= t_, t_ < n, lo <= k_, k_ < hi); rt = lambda f: imp(land(0 <= t_, t_ < n), f); cj = rs(*rw, j_, hi); tq = rs(T.j.A, T.x.A, rd(T.p.A, j0), t_, rd(T.p.A, j0 + 1)); ct = e.call("spasm_transpose")
        return [("earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < h.nnz), land(rd(E[0], k_) == rd(H[0], k_), rd(E[1], k_) == rd(H[1], k_))), [[rd(E[0], k_)], [rd(E[1], k_)], [rd(H[0], k_)]])), ("row pointers kept", forall(t_, imp(land(0 <= t_, t_ <= r0), rd(Kp, t_) == rd(h.Kp.A, t_)), [rd(Kp, t_)])),
                ("+frame", forall([i, j_], RsFrame.inst(*E, *H, rd(Kp, i), j_, rd(Kp, i + 1)), [co(E, i)])), ("earlier rows", forall([i, j_], imp(land(0 <= i, i < r0), co(E, i) == ch), [co(E, i)]), ["frame", "earlier entries kept", "row pointers kept", monotone(h.Kp.A, r0)]),
                ("this row", forall(j_, imp(land(0 <= j_, j_ < m), co(E, r0) == rd(KV, j_)), [[co(E, r0)], [rd(KV, j_)]])), ("rows as vectors", rows["rows as vectors"], ["this row", "earlier rows", old["rows as vectors"]]),
                ("new entries canonical", forall(k_, imp(land(h.nnz <= k_, k_ < e.nnz), land(canonp(p, rd(E[1], k_)), rd(E[1], k_) != 0)), [[rd(E[1], k_)], [rd(E[0], k_)]])), ("canonical", canon_arr(p, E[1], e.nnz), ["new entries canonical", "earlier entries kept", dict(FromRref.shape(o, h.K, h.Kp.A, r0))["canonical"]]),
                ("vector", land(rd(KV, j0) == -1, 0 <= j0, j0 < m, rd(q, j0) < 0)), ("vector at pivots", forall(t_, rt(land(rd(KV, rd(UQ, t_)) == tq, 0 <= rd(UQ, t_), rd(UQ, t_) < m, rd(UQ, t_) != j0)), [rd(UQ, t_)])), ("vector elsewhere", forall(t_, imp(land(0 <= t_, t_ < m, t_ != j0, rd(q, t_) < 0), rd(KV, t_) == 0), [rd(KV, t_)])),
                ("row range", forall([t_, k_], imp(inr, land(0 <= k_, k_ < nz, 0 <= lo, hi <= nz, 0 <= rd(R.j.A, k_), rd(R.j.A, k_) < m, lor(rd(R.j.A, k_) == rd(UQ, t_), rd(q, rd(R.j.A, k_)) == -1))), RP)), ("row starts", forall(t_, rt(land(lo < hi, rd(R.j.A, lo) == rd(UQ, t_), rd(R.x.A, lo) == 1)), [[lo]] + PT)), ("pivot once", forall([t_, k_], imp(land(inr, k_ != lo), rd(R.j.A, k_) != rd(UQ, t_)), RP)),
                ("+one", forall(t_, RsOne.inst(R.j.A, R.x.A, lo, lo, rd(UQ, t_), hi), PT)), ("pivot coefficient", forall(t_, rt(b == 1), PT), ["one", "row starts", "pivot once"]),
                ("+none", forall([t_, j_], RsNone.inst(*rw, j_, hi), [cj])), ("no other pivotal column", forall([t_, j_], imp(land(0 <= t_, t_ < n, 0 <= j_, j_ < m, rd(q, j_) >= 0, j_ != rd(UQ, t_)), cj == 0), [cj]), ["none", "row range", "row starts"]),
                ("two terms only", forall([t_, j_], imp(land(0 <= t_, t_ < n, 0 <= j_, j_ < m, j_ != j0, j_ != rd(UQ, t_)), lor(rd(KV, j_) == 0, cj == 0)), [[cj], [z3.MultiPattern(rd(UQ, t_), rd(KV, j_))]]), ["vector elsewhere", "no other pivotal column"]),
                ("+two", forall(t_, VsTwo.inst(KV, R.j.A, R.x.A, lo, hi, j0, rd(UQ, t_), m), PT)), ("+m1", forall(t_, fmul_def(rd(KV, j0), a), [a])), ("first product", forall(t_, rt(fmul(rd(KV, j0), a) == -a), [a]), ["m1", "vector"]), ("+m2", forall(t_, fmul_def(rd(KV, rd(UQ, t_)), b), [b])), ("second product", forall(t_, rt(fmul(rd(KV, rd(UQ, t_)), b) == rd(KV, rd(UQ, t_))), [b]), ["m2", "pivot coefficient"]),
                ("vs", forall(t_, rt(vs == fmul(I(-1), a) + fmul(tq, I(1))), PT), ["two", "two terms only", "vector", "vector at pivots", "first product", "second product"]),
                ("+dv0", forall(t_, DotVs.inst(KV, R.j.A, R.x.A, lo, m, hi), PT)), ("dv", forall(t_, rt(dt == vs), PT), ["dv0", "row range", "row starts"]), ("+mul", forall(t_, land(fmul_def(I(-1), a), fmul_def(tq, I(1))), PT)), ("same entry", forall(t_, rt(tq == a), PT), ["vector", ct.post["same matrix"]]),
                ("orthogonal exactly", forall(t_, rt(dt == 0), PT), ["dv", "vs", "mul", "same entry"]), ("+zero", forall(t_, z0_intro(p, dt, I(0)), PT)), ("this row: orthogonal", forall(t_, rt(z0(p, dt)), PT), ["zero", "orthogonal exactly"]), ("orthogonal", rows["orthogonal to every row"], ["this row: orthogonal", old["orthogonal to every row"]])]
    def done(v):
        o = v.old; R = o.R; K = v.K; g = lambda hi: dict(FromRref.rows(o, K, v.Kp.A, hi, v.g)); a, b = g(K.n), g(R.m - R.n)
        return [("all rows", K.n == R.m - R.n)] + [(k, b[k], ["all rows", a[k]]) for k in a]
    loops = {"0": Loop(inv=pivots, cut_exit=trans), "1": Loop(inv=inv, pre=lambda v: [npc.zero(v.old.qinv.A)], head=head, cut=cut, cut_exit=done, ghost={"NC": ARR, "KV": AA, "PK": AA}, ghost_end=ghost_end),
             "1.0": Loop(inv=write, pre=write_pre, cut_exit=lambda v: FromRref.write_exit(v), end=write_end, cut=write_cut, ghost={"PRI": ARR}, ghost_init=lambda v: {"PRI": z3.Store(v.g("PRI"), v.j, v.nnz - 1)}, ghost_end=lambda h, e: {"PRI": z3.Store(h.g("PRI"), rd(h.p.A, rd(h.Rt.j.A, h.px)), h.nnz)})}
ALL = [Kernel(), FromRref()]
