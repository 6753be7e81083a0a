"""C10: Schur complements.  CS[k]: the combination of rows of U subtracted from the k-th selected row; PR[k][c]: place of column c in row k of S;
   LP[k]: start of the entries of row k in L.  UQ[i]: the pivot column of row i of U; RK: a rank function of the elimination order"""
from dv.lib import *
from contracts.tri import rowcoef
from contracts.sts import STS, inj_piv
from contracts.reach import W_, search_pre, h_, off2
from contracts.solve import MulMono
from contracts.rref import Compr, csel, inrow, AA, i, upper_pre
from contracts.sha import stream as STREAM, seeded as SEEDED, be
from contracts.kernel import piv_maps, CselMono, npc, NpcMono, NpcTotal
psel = Def("psel", [ARR, ARR, ARR, Int], lambda X, q, x, top: (top, I(0)), lambda prev, X, q, x, top, t: prev + z3.If(land(rd(q, rd(X, t)) >= 0, rd(x, rd(X, t)) != 0), 1, 0))
PselMono = Lemma("psel_mono", [ARR, ARR, ARR, Int, Int, Int], lambda X, q, x, top, s, t: imp(top <= s, psel(X, q, x, top, s) <= psel(X, q, x, top, t)), lo=lambda X, q, x, top, s: s, uses_step=lambda X, q, x, top, s, t: [psel.unfold(X, q, x, top, t)])
CONCAT = Compr("concat", [ARR, Int, ARR], lambda a, n, b, t: z3.If(t < n, rd(a, t), rd(b, t - n)))
ONES = z3.K(Int, I(1))
def elim_pre(U, B, q, UQ, RK):
    """U: rows with unit pivots located by q, in an order (RK) compatible with elimination; B: rows to be eliminated"""
    m = U.m; w = W_(U, m, q, ONES, RK); p = U.field.p
    return [("U: " + a, b) for a, b in csr_ok(U)] + [("A: " + a, b) for a, b in csr_ok(B)] + [("same width", B.m == m), ("rank", U.n <= m)] + [("U: " + a, b) for a, b in field_ok(U.field)] + [("A: " + a, b) for a, b in field_ok(B.field)] + [
        ("U: canonical", canon_vals(U)[1]), ("A: canonical", canon_vals(B)[1]), ("same field", B.field.p == p), ("qinv size", land(q.len >= m, q.ok)), ("pivots", piv_maps(q.A, UQ, U.n, m)), ("small", 3 * m < (1 << 31) - 1),
        ("row sizes fit an int", forall(j_, imp(land(0 <= j_, j_ < U.n), rd(U.p.A, j_ + 1) - rd(U.p.A, j_) < (1 << 31)), [rd(U.p.A, j_)])),
        ("unit pivots", forall(j_, imp(land(0 <= j_, j_ < m, w.q(j_) >= 0), z0(p, rowcoef(U, w.q(j_), j_) - 1)), [w.q(j_)])), ("triangular", w.ranked())]
def sel_pre(A, p, n): return [("selected rows", land(n >= 0, p.ok, p.len >= n, forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(p.A, k_), rd(p.A, k_) < A.n)), [rd(p.A, k_)])))]
def marks(v, m): return ("marks clear", forall(j_, imp(land(0 <= j_, j_ < m), rd(v.xj.A, add(off2(m), j_)) == 0), [rd(v.xj.A, add(off2(m), j_))]))
def clear(v): m = v.m; return [("marks clear", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.xj.A, j_) == 0), [rd(v.xj.A, j_)])), ("j", v.j <= 3 * m)]
SOLVE = "spasm_sparse_triangular_solve"
class Density(Contract):
    name = "spasm_schur_estimate_density"; file = "spasm_schur.c"; params = ["A", "p", "n", "U", "qinv", "R"]
    shapes = {"U.x": "nonnull", "A.x": "nonnull"}; spec = {"UQ": ARR, "RK": ARR}
    def pre(s, v): return elim_pre(v.U, v.A, v.qinv, v.g("UQ"), v.g("RK")) + sel_pre(v.A, v.p, v.n) + [("R", v.R >= 1), ("size", v.R * v.U.m <= BIG / 4)]
    def post(s, o, n, r): return [("between 0 and 2", land(r >= 0, r <= 2))]
    def spec_spasm_sparse_triangular_solve(s, v, o): return {"S": ONES, "RK": v.g("RK")}
    def ghosts0(s, v): return {"CAP": I(0), "SEQ": z3.K(Int, I(0)), "K": I(0)}
    def inv(v): U = v.old.U; return [marks(v, U.m), ("CAP", v.g("CAP") == v.i * (U.m - U.n)), ("nnz", land(0 <= v.nnz, v.nnz <= v.g("CAP"))), ("i", v.i <= v.R)]
    def count(v, ve):
        c = v.call(SOLVE); POS, X = c.g("POS"), c.n.xj.A; SEQ = v.g("SEQ"); q = v.old.qinv.A; k = v.g("K"); s_ = rd(SEQ, t_); m = v.old.U.m
        return [("px", land(c.r <= v.px, v.px <= m)), ("counted", land(v.nnz == ve.nnz + k, 0 <= k, k <= v.px - c.r)), ("distinct", inj(SEQ, k)), ("nonpivotal", forall(t_, imp(land(0 <= t_, t_ < k), land(0 <= s_, s_ < m, rd(q, s_) < 0, c.r <= rd(POS, s_), rd(POS, s_) < v.px, rd(X, rd(POS, s_)) == s_)), [s_]))]
    def few(h, e):
        """the selected columns and the pivot columns are distinct"""
        U = h.old.U; n, m = U.n, U.m; UQ, SEQ = e.g("UQ"), e.g("SEQ"); k = e.g("K"); f = CONCAT(SEQ, k, UQ)
        return [("+", CONCAT.at(SEQ, k, UQ)), ("+", forall([i, t_], imp(land(0 <= i, i < t_, t_ < n), rd(UQ, i) != rd(UQ, t_)), [z3.MultiPattern(rd(UQ, i), rd(UQ, t_))])), ("+", Pigeon.inst(f, k + n, m)), ("distinct columns", inj(f, k + n)), ("columns", into(f, k + n, m)), ("at most m - n", k <= m - n)]
    def head(v): U = v.old.U; return [MulMono.inst(v.i, v.R, U.m - U.n)]
    loops = {"0": Loop(inv=clear), "1": Loop(inv=inv, head=head, cut=few, ghost={"CAP": Int}, ghost_end=lambda h, e: {"CAP": h.g("CAP") + (h.old.U.m - h.old.U.n)}),
             "1.0": Loop(inv=count, ghost={"SEQ": ARR, "K": Int}, ghost_init=lambda v: {"K": I(0)}, ghost_end=lambda h, e: {"SEQ": z3.Store(h.g("SEQ"), h.g("K"), rd(h.xj.A, h.px)), "K": h.g("K") + (e.nnz - h.nnz)})}
class Schur(Contract):
    """L is NULL in this variant"""
    name = "spasm_schur [L null]"; file = "spasm_schur.c"; params = ["A", "p", "n", "fact", "est_density", "L", "p_in", "p_out"]
    shapes = {"A.x": "nonnull", "fact.U.x": "nonnull", "L": "null", "p_in": "nullable", "p_out": "nullable"}; assigns = ("p_out",); spec = {"UQ": ARR, "RK": ARR}; ghost_out = {"CS": AA, "PR": AA}; merge = True; withL = False
    def pre(s, v):
        U = v.fact.U; A = v.A
        return elim_pre(U, A, v.fact.qinv, v.g("UQ"), v.g("RK")) + sel_pre(A, v.p, v.n) + [("n", v.n < (1 << 31) - 1), ("size", land(v.n * A.m <= BIG / 16, 100 * A.m <= BIG / 4)), ("est_density", v.est_density <= 2)] + Schur.preP(v) + (Schur.preL(v) if s.withL else [])
    def preP(v): return [("p_in", imp(lnot(v.p_in.null), land(v.p_in.ok, v.p_in.len >= v.A.n))), ("p_out", imp(lnot(v.p_out.null), land(v.p_out.ok, v.p_out.len >= v.n)))]
    def preL(v, L=None): L = v.L if L is None else L; return [("L", land(0 <= L.nz, L.nz <= L.nzmax, L.nzmax <= BIG / 16, L.i.ok, lnot(L.i.null), L.i.len >= L.nzmax, L.j.ok, lnot(L.j.null), L.j.len >= L.nzmax, L.x.ok, lnot(L.x.null), L.x.len >= L.nzmax))]
    def orig(o, r): return z3.If(o.p_in.null, r, rd(o.p_in.A, r))
    # ---- what the first hi rows of S (and of L) look like
    def rows(o, S, Sp, hi, CS, PR):
        U, A = o.fact.U, o.A; p = U.field.p; q = o.fact.qinv.A; Sj, Sx = S.j.A, S.x.A; c = j_; xac = xA(rd(CS, i), U.p.A, U.j.A, U.x.A, c, U.n); co = rs(Sj, Sx, rd(Sp, i), c, rd(Sp, i + 1)); ik = land(0 <= i, i < hi, inrow(Sp, i, k_)); MP = [z3.MultiPattern(rd(Sp, i), rd(Sj, k_))]
        return [("row = row of A minus a combination of rows of U", forall([i, c], imp(land(0 <= i, i < hi, 0 <= c, c < U.m), z0(p, rowcoef(A, rd(o.p.A, i), c) - co - xac)), [[co], [xac]])),
                ("rows of U only", forall([i, t_], imp(land(0 <= i, i < hi, rd(rd(CS, i), t_) != 0), land(0 <= t_, t_ < U.n)), [rd(rd(CS, i), t_)])),
                ("outside the pivots", forall([i, k_], imp(ik, rd(q, rd(Sj, k_)) < 0), MP)), ("each column once", forall([i, k_], imp(ik, rd(rd(PR, i), rd(Sj, k_)) == k_), MP))]
    def shape(o, S, Sp, hi):
        U = o.fact.U; n = rd(Sp, hi)
        return [("start", rd(Sp, I(0)) == 0), ("monotone", monotone(Sp, hi)), ("columns", forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(S.j.A, k_), rd(S.j.A, k_) < U.m)), [rd(S.j.A, k_)])), ("canonical", canon_arr(U.field.p, S.x.A, n)), ("nonzero", forall(k_, imp(land(0 <= k_, k_ < n), rd(S.x.A, k_) != 0), [rd(S.x.A, k_)]))]
    def out(o, v, hi): return [("original row numbers", imp(lnot(o.p_out.null), forall(i, imp(land(0 <= i, i < hi), rd(v.p_out.A, i) == Schur.orig(o, rd(o.p.A, i))), [rd(v.p_out.A, i)])))]
    def rowsL(o, L, LP, hi, CS, L0=None):
        L0 = o.L if L0 is None else L0; U = o.fact.U; Li, Lj, Lx = L.i.A, L.j.A, L.x.A; il = land(0 <= i, i < hi, inrow(LP, i, k_)); MP = [z3.MultiPattern(rd(LP, i), rd(Li, k_)), z3.MultiPattern(rd(LP, i), rd(Lj, k_))]; co = rs(Lj, Lx, rd(LP, i), t_, rd(LP, i + 1)); n = rd(LP, hi); l0 = L0.nz
        return [("L: start", rd(LP, I(0)) == l0), ("L: monotone", monotone(LP, hi)), ("L: row numbers", forall([i, k_], imp(il, rd(Li, k_) == Schur.orig(o, rd(o.p.A, i))), MP)), ("L: columns", forall(k_, imp(land(l0 <= k_, k_ < n), land(0 <= rd(Lj, k_), rd(Lj, k_) < U.n)), [rd(Lj, k_)])),
                ("L: canonical nonzero", forall(k_, imp(land(l0 <= k_, k_ < n), land(canonp(U.field.p, rd(Lx, k_)), rd(Lx, k_) != 0)), [rd(Lx, k_)])), ("L: coefficients of the combination", forall([i, t_], imp(land(0 <= i, i < hi, 0 <= t_, t_ < U.n), co == rd(rd(CS, i), t_)), [[co], [rd(rd(CS, i), t_)]])),
                ("L: earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < l0), land(rd(Li, k_) == rd(L0.i.A, k_), rd(Lj, k_) == rd(L0.j.A, k_), rd(Lx, k_) == rd(L0.x.A, k_))), [[rd(Li, k_)], [rd(Lj, k_)], [rd(Lx, k_)]]))]
    def post(s, o, n, r):
        U = o.fact.U
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == o.n, r.m == U.m)), ("field", r.field.p == U.field.p), ("has values", lnot(r.x.null)), ("canonical", canon_vals(r)[1]),
            ("nonzero", forall(k_, imp(land(0 <= k_, k_ < rd(r.p.A, r.n)), rd(r.x.A, k_) != 0), [rd(r.x.A, k_)]))] + Schur.rows(o, r, r.p.A, o.n, n.g("CS"), n.g("PR")) + Schur.out(o, n, o.n)
        if s.withL: L = n.L; P += Schur.rowsL(o, L, n.g("LP"), o.n, n.g("CS")) + [("L: count", L.nz == rd(n.g("LP"), o.n)), ("L: room", land(L.nz <= L.nzmax, L.i.ok, L.j.ok, L.x.ok, L.i.len >= L.nzmax, L.j.len >= L.nzmax, L.x.len >= L.nzmax))]
        return P
    def spec_spasm_sparse_triangular_solve(s, v, o): return {"S": ONES, "RK": v.g("RK")}
    def spec_spasm_schur_estimate_density(s, v, o): return {"UQ": v.g("UQ"), "RK": v.g("RK")}
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"CS": z3.K(Int, Z), "PR": z3.K(Int, Z), "CAP": I(0), "PRI": Z, "LP": z3.Store(Z, I(0), v.L.nz if s.withL else I(0))}
    def witness(s, v): return {k: v.g(k) for k in s.ghost_out}
    def cuts(s, o, v, r):
        """the last reallocation keeps the entries"""
        c = v.calls("spasm_csr_realloc")[-1]; S = c.o.A; Sp = S.p.A; co = lambda M: rs(M.j.A, M.x.A, rd(Sp, i), j_, rd(Sp, i + 1)); n = rd(Sp, o.n); a, b = Schur.rows(o, S, Sp, o.n, v.g("CS"), v.g("PR"))[0][1], Schur.rows(o, r, r.p.A, o.n, v.g("CS"), v.g("PR"))[0]
        return [("same pointers", r.p.A == Sp), ("monotone", monotone(Sp, o.n)), ("kept", forall(k_, imp(land(0 <= k_, k_ < n), land(rd(r.j.A, k_) == rd(S.j.A, k_), rd(r.x.A, k_) == rd(S.x.A, k_))), [[rd(r.j.A, k_)], [rd(r.x.A, k_)], [rd(S.j.A, k_)]])), ("rows before", a), ("+frame", forall([i, j_], RsFrame.inst(r.j.A, r.x.A, S.j.A, S.x.A, rd(Sp, i), j_, rd(Sp, i + 1)), [co(r)])),
                ("same sums", forall([i, j_], imp(land(0 <= i, i < o.n), co(r) == co(S)), [co(r)]), ["frame", "kept", "monotone"]), ("rows", b[1], ["rows before", "same sums", "same pointers"])]
    def inv(s, v):
        o = v.old; U = o.fact.U; m = U.m; S = v.S; Sp = v.Sp.A; CS, PR, CAP = v.g("CS"), v.g("PR"), v.g("CAP")
        r = [("i", land(v.i <= o.n, v.Sn == v.i, v.writing == 0)), ("CAP", CAP == v.i * m), ("nnz", land(0 <= v.snz, v.snz <= CAP, v.snz == rd(Sp, v.i), v.snz <= S.nzmax)), ("S", land(S.n == o.n, S.m == m, S.nzmax >= 0, S.nzmax <= BIG, S.j.len >= S.nzmax, S.x.len >= S.nzmax)), marks(v, m)] + Schur.shape(o, S, Sp, v.i) + Schur.rows(o, S, Sp, v.i, CS, PR) + Schur.out(o, v, v.i)
        if not s.withL: r.append(("lnz", land(0 <= v.lnz, v.lnz <= CAP)))
        if s.withL: L = v.L; LP = v.g("LP"); r += [("lnz", land(o.L.nz <= v.lnz, v.lnz <= o.L.nz + CAP, v.lnz == rd(LP, v.i), v.lnz <= L.nzmax)), ("L", land(L.nz == o.L.nz, L.nzmax <= BIG, L.i.len >= L.nzmax, L.j.len >= L.nzmax, L.x.len >= L.nzmax))] + Schur.rowsL(o, L, LP, v.i, CS)
        return r
    def args(v): c = v.call(SOLVE); return (c.n.xj.A, v.old.fact.qinv.A, v.x.A, c.r)
    def unf(v): a = Schur.args(v); return [csel.zero(*a), csel.unfold(*a, v.px), psel.zero(*a), psel.unfold(*a, v.px)]
    def count(v): c = v.call(SOLVE); a = Schur.args(v); return [("px", c.r <= v.px), ("counted", land(v.row_snz == csel(*a, v.px), v.row_lnz == psel(*a, v.px))), ("small", land(0 <= v.row_snz, 0 <= v.row_lnz, v.row_snz + v.row_lnz <= v.px - c.r))]
    def mem(c, px, j): POS, X = c.g("POS"), c.n.xj.A; return land(c.r <= rd(POS, j), rd(POS, j) < px, rd(X, rd(POS, j)) == j)
    def write(s, v, ve):
        o = v.old; U = o.fact.U; m = U.m; c = v.call(SOLVE); S = v.S; Sj, Sx = S.j.A, S.x.A; n0, cu = rd(v.Sp.A, v.i), v.local_snz; q = o.fact.qinv.A; x = v.x.A; PRI = v.g("PRI"); mem = lambda j: Schur.mem(c, v.px, j); col = rd(Sj, k_); co = rs(Sj, Sx, n0, j_, cu); a = Schur.args(v)
        r = [("px", c.r <= v.px), ("written", cu == n0 + csel(*a, v.px)), ("room", land(n0 <= cu, cu - n0 <= v.px - c.r)),
                ("entries", forall(k_, imp(land(n0 <= k_, k_ < cu), land(0 <= col, col < m, mem(col), rd(q, col) < 0, rd(Sx, k_) == rd(x, col), rd(x, col) != 0, rd(PRI, col) == k_)), [col])),
                ("sums", forall(j_, imp(land(0 <= j_, j_ < m), co == z3.If(land(mem(j_), rd(q, j_) < 0), rd(x, j_), 0)), [co])),
                ("earlier rows", forall(k_, imp(land(0 <= k_, k_ < n0), land(rd(Sj, k_) == rd(ve.S.j.A, k_), rd(Sx, k_) == rd(ve.S.x.A, k_))), [[rd(Sj, k_)], [rd(Sx, k_)]]))]
        if s.withL:
            L = v.L; Li, Lj, Lx = L.i.A, L.j.A, L.x.A; l0, lu = rd(v.g("LP"), v.i), v.local_lnz; UQ = v.g("UQ"); row = rd(Lj, k_); w_ = rd(UQ, row); col_ = rs(Lj, Lx, l0, t_, lu); u = rd(UQ, t_)
            r += [("L: written", lu == l0 + psel(*a, v.px)), ("L: room", l0 <= lu),
                ("L: entries", forall(k_, imp(land(l0 <= k_, k_ < lu), land(0 <= row, row < U.n, mem(w_), rd(Lx, k_) == rd(x, w_), rd(x, w_) != 0, rd(Li, k_) == Schur.orig(o, rd(o.p.A, v.i)))), [[rd(Lj, k_)], [rd(Lx, k_)], [rd(Li, k_)]])),
                ("L: sums", forall(t_, imp(land(0 <= t_, t_ < U.n), col_ == z3.If(mem(u), rd(x, u), 0)), [col_])),
                ("L: earlier rows", forall(k_, imp(land(0 <= k_, k_ < l0), land(rd(Lj, k_) == rd(ve.L.j.A, k_), rd(Lx, k_) == rd(ve.L.x.A, k_), rd(Li, k_) == rd(ve.L.i.A, k_))), [[rd(Lj, k_)], [rd(Lx, k_)], [rd(Li, k_)]]))]
        return r
    def write_pre(s, v):
        n0 = rd(v.Sp.A, v.i); r = Schur.unf(v) + [forall(j_, rs.zero(v.S.j.A, v.S.x.A, n0, j_), [rs(v.S.j.A, v.S.x.A, n0, j_, n0)])]
        if s.withL: l0 = rd(v.g("LP"), v.i); L = (v.L.j.A, v.L.x.A); r.append(forall(j_, rs.zero(*L, l0, j_), [rs(*L, l0, j_, l0)]))
        return r
    def write_head(s, h): a = Schur.args(h); m = h.old.fact.U.m; return Schur.unf(h) + [CselMono.inst(*a, h.px + 1, m), PselMono.inst(*a, h.px + 1, m)]
    def write_end(s, h, e):
        n0, cu = rd(h.Sp.A, h.i), h.local_snz; j = rd(h.xj.A, h.px); w = e.local_snz == cu + 1; E = (e.S.j.A, e.S.x.A); r = Schur.unf(h) + [forall(j_, imp(w, land(rs.unfold(*E, n0, j_, cu), RsStore.inst(h.S.j.A, h.S.x.A, cu, j, rd(h.x.A, j), n0, j_, cu))), [rs(*E, n0, j_, e.local_snz)])]
        if s.withL: l0, lu = rd(h.g("LP"), h.i), h.local_lnz; wl = e.local_lnz == lu + 1; F = (e.L.j.A, e.L.x.A); r.append(forall(j_, imp(wl, land(rs.unfold(*F, l0, j_, lu), RsStore.inst(h.L.j.A, h.L.x.A, lu, rd(h.old.fact.qinv.A, j), rd(h.x.A, j), l0, j_, lu))), [rs(*F, l0, j_, e.local_lnz)]))
        return r
    def write_cut(s, h, e):
        n0, cu = rd(h.Sp.A, h.i), h.local_snz; j = rd(h.xj.A, h.px); w = e.local_snz == cu + 1; E = (e.S.j.A, e.S.x.A); c = h.call(SOLVE); POS = c.g("POS"); q = rd(h.old.fact.qinv.A, j); UQ = h.g("UQ"); U = h.old.fact.U
        r = [("one more at most", lor(w, e.local_snz == cu)), ("new sums", forall(j_, rs(*E, n0, j_, e.local_snz) == rs(h.S.j.A, h.S.x.A, n0, j_, cu) + z3.If(land(w, j_ == j), rd(h.x.A, j), 0), [rs(*E, n0, j_, e.local_snz)])),
             ("place", land(rd(POS, j) == h.px, 0 <= j, j < h.m, rd(h.xj.A, h.px) == j)), ("at px", forall(j_, land(rd(POS, j_) == h.px, rd(h.xj.A, rd(POS, j_)) == j_) == (j_ == j), [rd(POS, j_)])), ("sums", dict(s.write(e, e))["sums"], ["new sums", "place", "at px", dict(s.write(h, h))["sums"]])]
        if s.withL:
            l0, lu = rd(h.g("LP"), h.i), h.local_lnz; wl = e.local_lnz == lu + 1; F = (e.L.j.A, e.L.x.A)
            r += [("L: one more at most", lor(wl, e.local_lnz == lu)), ("L: row", imp(q >= 0, land(q < U.n, rd(UQ, q) == j))), ("L: new sums", forall(t_, rs(*F, l0, t_, e.local_lnz) == rs(h.L.j.A, h.L.x.A, l0, t_, lu) + z3.If(land(wl, t_ == q), rd(h.x.A, j), 0), [rs(*F, l0, t_, e.local_lnz)])),
                  ("L: at px", forall(t_, imp(land(0 <= t_, t_ < U.n), land(rd(POS, rd(UQ, t_)) == h.px, rd(h.xj.A, rd(POS, rd(UQ, t_))) == rd(UQ, t_)) == (t_ == q)), [rd(UQ, t_)])), ("L: sums", dict(s.write(e, e))["L: sums"], ["L: new sums", "L: row", "place", "L: at px", dict(s.write(h, h))["L: sums"]])]
        return r
    def cut(s, h, e):
        o = h.old; U = o.fact.U; p = U.field.p; m = U.m; i0 = h.i; c = e.call(SOLVE); C = c.g("C"); x = c.n.x.A; q = o.fact.qinv.A; POS, X = c.g("POS"), c.n.xj.A; A = o.A; UQ = h.g("UQ")
        Sp = e.Sp.A; E = (e.S.j.A, e.S.x.A); H = (h.S.j.A, h.S.x.A); co = lambda a, i: rs(*a, rd(Sp, i), j_, rd(Sp, i + 1)); ch = rs(*H, rd(h.Sp.A, i), j_, rd(h.Sp.A, i + 1)); rows = dict(Schur.rows(o, e.S, Sp, i0 + 1, e.g("CS"), e.g("PR"))); old = dict(Schur.rows(o, h.S, h.Sp.A, i0, h.g("CS"), h.g("PR")))
        val = z3.If(land(Schur.mem(c, m, j_), rd(q, j_) < 0), rd(x, j_), 0); xac = xA(C, U.p.A, U.j.A, U.x.A, j_, U.n); a0 = rowcoef(A, rd(o.p.A, i0), j_)
        r = [("earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < h.snz), land(rd(E[0], k_) == rd(H[0], k_), rd(E[1], k_) == rd(H[1], k_))), [[rd(E[0], k_)], [rd(E[1], k_)], [rd(H[0], k_)]])), ("row pointers kept", forall(t_, imp(land(0 <= t_, t_ <= i0), rd(Sp, t_) == rd(h.Sp.A, t_)), [rd(Sp, t_)])),
             ("+frame", forall([i, j_], RsFrame.inst(*E, *H, rd(Sp, i), j_, rd(Sp, i + 1)), [co(E, i)])), ("earlier rows", forall([i, j_], imp(land(0 <= i, i < i0), co(E, i) == ch), [co(E, i)]), ["frame", "earlier entries kept", "row pointers kept", monotone(h.Sp.A, i0)]),
             ("this row", forall(j_, imp(land(0 <= j_, j_ < m), co(E, i0) == val), [co(E, i0)])), ("+eq", forall(j_, Z0Eq.inst(p, a0 - val - xac, a0 - co(E, i0) - xac), [[co(E, i0)], [xac]])), ("injective", inj_piv(q, m)),
             ("new row", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, a0 - co(E, i0) - xac)), [[co(E, i0)], [xac]]), ["eq", "this row", c.post["combination of rows"], "injective"]),
             ("member values", forall(j_, imp(land(0 <= j_, j_ < m, Schur.mem(c, m, j_)), canonp(p, rd(x, j_))), [rd(POS, j_)]), [c.post["canonical"]]),
             ("new entries canonical", forall(k_, imp(land(h.snz <= k_, k_ < e.snz), canonp(p, rd(E[1], k_))), [[rd(E[1], k_)], [rd(E[0], k_)]])), ("canonical", canon_arr(p, E[1], e.snz), ["new entries canonical", "earlier entries kept", dict(Schur.shape(o, h.S, h.Sp.A, i0))["canonical"]]),
             ("rows", rows["row = row of A minus a combination of rows of U"], ["new row", "earlier rows", old["row = row of A minus a combination of rows of U"]])]
        if s.withL:
            LP, LH = e.g("LP"), h.g("LP"); F = (e.L.j.A, e.L.x.A); G = (h.L.j.A, h.L.x.A); cl = lambda a, P, i: rs(*a, rd(P, i), t_, rd(P, i + 1)); u = rd(UQ, t_); rl = dict(Schur.rowsL(o, e.L, LP, i0 + 1, e.g("CS"))); ol = dict(Schur.rowsL(o, h.L, LH, i0, h.g("CS")))
            r += [("L: earlier kept", forall(k_, imp(land(0 <= k_, k_ < h.lnz), land(rd(F[0], k_) == rd(G[0], k_), rd(F[1], k_) == rd(G[1], k_), rd(e.L.i.A, k_) == rd(h.L.i.A, k_))), [[rd(F[0], k_)], [rd(F[1], k_)], [rd(G[0], k_)], [rd(e.L.i.A, k_)]])), ("L: starts kept", forall(t_, imp(land(0 <= t_, t_ <= i0), rd(LP, t_) == rd(LH, t_)), [rd(LP, t_)])),
                  ("+L: frame", forall([i, t_], RsFrame.inst(*F, *G, rd(LP, i), t_, rd(LP, i + 1)), [cl(F, LP, i)])), ("L: earlier rows", forall([i, t_], imp(land(0 <= i, i < i0), cl(F, LP, i) == cl(G, LH, i)), [cl(F, LP, i)]), ["L: frame", "L: earlier kept", "L: starts kept", monotone(LH, i0)]),
                  ("L: this segment", land(rd(LP, i0) == rd(LH, i0), rd(LP, i0 + 1) == e.lnz)), ("L: all written", e.local_lnz == e.lnz), ("L: sums at the end", forall(t_, imp(land(0 <= t_, t_ < U.n), rs(*F, rd(LH, i0), t_, e.local_lnz) == z3.If(Schur.mem(c, m, u), rd(x, u), 0)), [rs(*F, rd(LH, i0), t_, e.local_lnz)])),
                  ("L: coefficients", forall(t_, imp(land(0 <= t_, t_ < U.n), rd(C, t_) == z3.If(Schur.mem(c, m, u), rd(x, u), 0)), [[u], [rd(C, t_)]])), ("L: this row", forall(t_, imp(land(0 <= t_, t_ < U.n), cl(F, LP, i0) == rd(C, t_)), [[cl(F, LP, i0)], [rd(C, t_)]]), ["L: coefficients", "L: sums at the end", "L: this segment", "L: all written"]),
                  ("L: combination", rl["L: coefficients of the combination"], ["L: this row", "L: earlier rows", ol["L: coefficients of the combination"]]),
                  ("L: new entries canonical", forall(k_, imp(land(h.lnz <= k_, k_ < e.lnz), land(canonp(p, rd(F[1], k_)), rd(F[1], k_) != 0)), [[rd(F[1], k_)], [rd(F[0], k_)]])), ("L: canonical", rl["L: canonical nonzero"], ["L: new entries canonical", "L: earlier kept", ol["L: canonical nonzero"]])]
        return r
    def ghost_end(s, h, e):
        c = e.call(SOLVE); r = {"CS": z3.Store(h.g("CS"), h.i, c.g("C")), "PR": z3.Store(h.g("PR"), h.i, e.g("PRI")), "CAP": h.g("CAP") + h.m}
        if s.withL: r["LP"] = z3.Store(h.g("LP"), h.i + 1, e.lnz)
        return r
    @property
    def loops(s):
        G = {"CS": AA, "PR": AA, "CAP": Int}
        if s.withL: G["LP"] = ARR
        return {"0": Loop(inv=clear), "1": Loop(inv=lambda v: s.inv(v), cut=s.cut, ghost=G, ghost_end=s.ghost_end, head=lambda v: [MulMono.inst(v.i, v.old.n, v.old.A.m)]),
             "1.0": Loop(inv=Schur.count, pre=lambda v: Schur.unf(v), end=lambda h, e: Schur.unf(h)),
             "1.3": Loop(inv=lambda v, ve: s.write(v, ve), pre=s.write_pre, head=s.write_head, end=s.write_end, cut=s.write_cut, ghost={"PRI": ARR}, ghost_end=lambda h, e: {"PRI": z3.Store(h.g("PRI"), rd(h.xj.A, h.px), h.local_snz)})}
class SchurL(Schur):
    """L is given: the coefficients of every row are appended to it"""
    name = "spasm_schur [L given]"; shapes = dict(Schur.shapes, **{"L": "nonnull", "L.x": "nonnull"}); assigns = ("p_out", "L.i()", "L.j()", "L.x()", "L.nzmax", "L.nz"); ghost_out = {"CS": AA, "PR": AA, "LP": ARR}; withL = True
FmulMono = Lemma("fmul_mono", [Int, Int, Int], lambda a, b, c: imp(land(0 <= a, a < b, 0 <= c), land(fmul(a, c) + c <= fmul(b, c), fmul(a + 1, c) == fmul(a, c) + c, 0 <= fmul(a, c))), uses=lambda a, b, c: [fmul_def(a, c), fmul_def(b, c), fmul_def(a + 1, c), imp(land(0 <= a, 0 <= c), a * c >= 0), imp(land(0 <= a, a < b, 0 <= c), (b - a - 1) * c >= 0)], induct=False)
class Cells(Contract):
    """dense output: S holds n rows of m - n(U) entries; cell t is at (RW[t], CL[t]) and holds the integer VAL[t]; q enumerates the nonpivotal columns"""
    def columns(o, q, qi, hi, QI):
        """q[0..hi) : the nonpivotal columns, in increasing order; QI: the inverse"""
        m = o.A.m; c = rd(q, t_)
        return [("columns of S are nonpivotal columns", forall(t_, imp(land(0 <= t_, t_ < hi), land(0 <= c, c < m, rd(qi, c) < 0, rd(QI, c) == t_)), [c])), ("every nonpivotal column is there", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) < 0), land(0 <= rd(QI, j_), rd(QI, j_) < hi, rd(q, rd(QI, j_)) == j_)), [[rd(qi, j_)], [rd(QI, j_)]]))]
    def collect(o, v, qi, QI):
        m = o.A.m; c = rd(v.q.A, t_)
        return [("collected", v.i == npc(qi, v.j)), ("range", land(0 <= v.i, v.i <= v.j, v.j <= m)), ("columns of S are nonpivotal columns", forall(t_, imp(land(0 <= t_, t_ < v.i), land(0 <= c, c < v.j, rd(qi, c) < 0, rd(QI, c) == t_)), [c])),
                ("every nonpivotal column is there", forall(j_, imp(land(0 <= j_, j_ < v.j, rd(qi, j_) < 0), land(0 <= rd(QI, j_), rd(QI, j_) < v.i, rd(v.q.A, rd(QI, j_)) == j_)), [[rd(qi, j_)], [rd(QI, j_)]]))]
    def real(dt, t): return t if dt == 2 else z3.ToReal(t)
    def cells(dt, p, S, hi, rows, Sm, VAL, RW, CL):
        r, c = rd(RW, t_), rd(CL, t_)
        return [("cells", forall(t_, imp(land(0 <= t_, t_ < hi), land(rd(S, t_) == Cells.real(dt, rd(VAL, t_)), canonp(p, rd(VAL, t_)), 0 <= r, r < rows, 0 <= c, c < Sm, t_ == fmul(r, Sm) + c)), [[rd(S, t_)], [rd(VAL, t_)]]))]
class Dense(Contract):
    """datatype: one contract per element type of S; L (fact.Ltmp) absent or given"""
    file = "spasm_schur.c"; params = ["A", "p", "n", "p_in", "fact", "S", "datatype", "q", "p_out"]; spec = {"UQ": ARR, "RK": ARR}; merge = True
    def __init__(s, dt, withL):
        s.dt, s.withL = dt, withL; s.name = f"spasm_schur_dense [{['double', 'float', 'i64'][dt]}{', L given' if withL else ''}]"
        s.shapes = {"A.x": "nonnull", "fact.U.x": "nonnull", "p_in": "nullable", "p_out": "nonnull", "S": "elem:" + ["double", "float", "i64"][dt], "datatype": dt, "fact.Ltmp": "nonnull" if withL else "null", "fact.Ltmp.x": "nonnull"}
        s.assigns = ("S", "q", "p_out") + (("fact.Ltmp.i()", "fact.Ltmp.j()", "fact.Ltmp.x()", "fact.Ltmp.nzmax", "fact.Ltmp.nz") if withL else ())
        s.ghost_out = {"CS": AA, "VAL": ARR, "RW": ARR, "CL": ARR, "QI": ARR}
        if withL: s.ghost_out["LP"] = ARR
    def L(s, v): return v.fact.Ltmp
    def pre(s, v):
        U = v.fact.U; A = v.A; Sm = A.m - U.n
        r = elim_pre(U, A, v.fact.qinv, v.g("UQ"), v.g("RK")) + sel_pre(A, v.p, v.n) + [("n", land(v.n >= 0, v.n < (1 << 31) - 1)), ("p_in", imp(lnot(v.p_in.null), land(v.p_in.ok, v.p_in.len >= A.n))), ("p_out", land(v.p_out.ok, v.p_out.len >= v.n)), ("q", land(v.q.ok, v.q.len >= Sm)), ("S", land(v.S.ok, v.S.len >= v.n * Sm, v.n * Sm <= BIG)), ("size", v.n * U.n <= BIG / 16)]
        if s.dt == 1: r.append(("float holds the field", U.field.p <= (1 << 24)))
        if s.withL: r += Schur.preL(v, s.L(v))
        return r
    def facts_entry(s, v): U = v.fact.U; return NpcTotal(v.fact.qinv.A, v.g("UQ"), U.n, U.m) + [fmul_def(v.n, v.A.m - U.n), fmul_def(v.n, U.n), fmul_def(I(0), v.A.m - U.n), fmul_def(I(0), U.n)]
    def values(o, q, hi, rows, CS, VAL, RW, CL):
        U, A = o.fact.U, o.A; p = U.field.p; r, c = rd(RW, t_), rd(q, rd(CL, t_)); xac = lambda i, j: xA(rd(CS, i), U.p.A, U.j.A, U.x.A, j, U.n); qi = o.fact.qinv.A
        return [("entry = entry of A minus a combination of rows of U", forall(t_, imp(land(0 <= t_, t_ < hi), z0(p, rowcoef(A, rd(o.p.A, r), c) - rd(VAL, t_) - xac(r, c))), [rd(VAL, t_)])),
                ("the combination cancels the pivotal columns", forall([i, j_], imp(land(0 <= i, i < rows, 0 <= j_, j_ < A.m, rd(qi, j_) >= 0), z0(p, rowcoef(A, rd(o.p.A, i), j_) - xac(i, j_))), [xac(i, j_)])),
                ("rows of U only", forall([i, t_], imp(land(0 <= i, i < rows, rd(rd(CS, i), t_) != 0), land(0 <= t_, t_ < U.n)), [rd(rd(CS, i), t_)]))]
    def out(o, v, hi): return [("original row numbers", forall(i, imp(land(0 <= i, i < hi), rd(v.p_out.A, i) == Schur.orig(o, rd(o.p.A, i))), [rd(v.p_out.A, i)]))]
    def post(s, o, n, r):
        Sm = o.A.m - o.fact.U.n; N = fmul(o.n, Sm); g = n.g
        P = [("size", N == o.n * Sm)] + Cells.columns(o, n.q.A, o.fact.qinv.A, Sm, g("QI")) + Cells.cells(s.dt, o.A.field.p, n.S.A, N, o.n, Sm, g("VAL"), g("RW"), g("CL")) + Dense.values(o, n.q.A, N, o.n, g("CS"), g("VAL"), g("RW"), g("CL")) + Dense.out(o, n, o.n)
        if s.withL: L = s.L(n); P += Schur.rowsL(o, L, g("LP"), o.n, g("CS"), s.L(o)) + [("L: count", L.nz == rd(g("LP"), o.n)), ("L: room", land(L.nz <= L.nzmax, L.i.ok, L.j.ok, L.x.ok, L.i.len >= L.nzmax, L.j.len >= L.nzmax, L.x.len >= L.nzmax))]
        return P
    def spec_spasm_sparse_triangular_solve(s, v, o): return {"S": ONES, "RK": v.g("RK")}
    def ghosts0(s, v):
        Z = z3.K(Int, I(0)); r = {"CS": z3.K(Int, Z), "VAL": Z, "RW": Z, "CL": Z, "QI": Z, "KK": I(0), "BASE": I(0), "SEQ": Z, "K": I(0)}
        if s.withL: r.update({"LP": z3.Store(Z, I(0), s.L(v).nz), "LCAP": I(0)})
        return r
    def witness(s, v): return {k: v.g(k) for k in s.ghost_out}
    def inv(s, v):
        o = v.old; U = o.fact.U; Sm = o.A.m - U.n; g = v.g; B = g("BASE")
        r = [("k", land(v.k <= o.n, g("KK") == v.k, v.r == v.k)), ("BASE", land(B == fmul(v.k, Sm), 0 <= B, B <= fmul(o.n, Sm))), marks(v, o.A.m)] + Cells.cells(s.dt, o.A.field.p, v.S.A, B, v.k, Sm, g("VAL"), g("RW"), g("CL")) + Dense.values(o, v.q.A, B, v.k, g("CS"), g("VAL"), g("RW"), g("CL")) + Dense.out(o, v, v.k)
        if s.withL: L = s.L(v); L0 = s.L(o); LP = g("LP"); r += [("lnz", land(L.nz == rd(LP, v.k), L0.nz <= L.nz, L.nz <= L0.nz + g("LCAP"), g("LCAP") == fmul(v.k, U.n), 0 <= g("LCAP"), g("LCAP") <= fmul(o.n, U.n)))] + Schur.rowsL(o, L, LP, v.k, g("CS"), L0)
        return r
    def gather(s, v, ve):
        o = v.old; U = o.fact.U; Sm = o.A.m - U.n; g = v.g; B = g("BASE"); S = v.S.A; VAL, RW, CL = g("VAL"), g("RW"), g("CL"); x = v.call(SOLVE).n.x.A; KK = g("KK")
        return [("written", v.k <= Sm), ("new cells", forall(t_, imp(land(B <= t_, t_ < B + v.k), land(rd(S, t_) == Cells.real(s.dt, rd(VAL, t_)), rd(VAL, t_) == rd(x, rd(v.q.A, rd(CL, t_))), rd(RW, t_) == KK, rd(CL, t_) == t_ - B)), [[rd(S, t_)], [rd(VAL, t_)]])),
                ("earlier cells", forall(t_, imp(land(0 <= t_, t_ < B), land(rd(S, t_) == rd(ve.S.A, t_), rd(VAL, t_) == rd(ve.g("VAL"), t_), rd(RW, t_) == rd(ve.g("RW"), t_), rd(CL, t_) == rd(ve.g("CL"), t_))), [[rd(S, t_)], [rd(VAL, t_)], [rd(RW, t_)], [rd(CL, t_)]]))]
    def gather_end(s, h, e):
        pos = h.g("BASE") + h.k; x = h.call(SOLVE).n.x.A
        return {"VAL": z3.Store(h.g("VAL"), pos, rd(x, rd(h.q.A, h.k))), "RW": z3.Store(h.g("RW"), pos, h.g("KK")), "CL": z3.Store(h.g("CL"), pos, h.k)}
    def gather_head(s, h):
        x = h.call(SOLVE).n.x.A; c = rd(h.q.A, h.k); POS = h.call(SOLVE).g("POS"); o = h.old; Sm = o.A.m - o.fact.U.n
        return [rd(POS, c) == rd(POS, c), fmul_def(h.g("KK"), Sm)]
    def zeroed(v): return [("zero", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.x.A, j_) == 0), [rd(v.x.A, j_)]))]
    def head(s, v): o = v.old; U = o.fact.U; Sm = o.A.m - U.n; return [FmulMono.inst(v.k, o.n, Sm), FmulMono.inst(v.k, o.n, U.n), fmul_def(v.k, Sm)]
    def cut(s, h, e):
        o = h.old; U = o.fact.U; p = U.field.p; m = U.m; k0 = h.k; c = e.call(SOLVE); C = c.g("C"); x = c.n.x.A; qi = o.fact.qinv.A; POS, X = c.g("POS"), c.n.xj.A; A = o.A; g = e.g; B0 = h.g("BASE"); Sm = m - U.n; B1 = B0 + Sm; VAL, RW, CL = g("VAL"), g("RW"), g("CL"); mem = Schur.mem(c, m, j_)
        a0 = rowcoef(A, rd(o.p.A, k0), j_); xac = xA(C, U.p.A, U.j.A, U.x.A, j_, U.n); val = z3.If(land(mem, rd(qi, j_) < 0), rd(x, j_), 0); a = lambda hi, rows, CS: dict(Dense.values(o, e.q.A, hi, rows, CS, VAL, RW, CL)); new, old = a(B1, k0 + 1, z3.Store(h.g("CS"), k0, C)), dict(Dense.values(o, h.q.A, B0, k0, h.g("CS"), h.g("VAL"), h.g("RW"), h.g("CL")))
        E = "entry = entry of A minus a combination of rows of U"; P = "the combination cancels the pivotal columns"; PT = [[rd(x, j_)], [xac], [a0]]; cc = rd(e.q.A, rd(CL, t_)); xr = lambda CS, i, j: xA(rd(CS, i), U.p.A, U.j.A, U.x.A, j, U.n); CS1 = z3.Store(h.g("CS"), k0, C)
        def ent(g, CS): r, c = rd(g("RW"), t_), rd(e.q.A, rd(g("CL"), t_)); return rowcoef(A, rd(o.p.A, r), c) - rd(g("VAL"), t_) - xr(CS, r, c)
        r = [("injective", inj_piv(qi, m)), ("value", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) < 0), val == rd(x, j_)), [[rd(x, j_)], [rd(POS, j_)]])), ("+eq", forall(j_, Z0Eq.inst(p, a0 - val - xac, a0 - rd(x, j_) - xac), PT)), ("+eq0", forall(j_, Z0Eq.inst(p, a0 - val - xac, a0 - xac), PT)),
             ("nonpivotal", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) < 0), z0(p, a0 - rd(x, j_) - xac)), PT), ["eq", "value", c.post["combination of rows"], "injective"]), ("pivotal", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) >= 0), z0(p, a0 - xac)), PT), ["eq0", c.post["combination of rows"], "injective"]),
             ("member values", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) < 0), canonp(p, rd(x, j_))), [[rd(x, j_)], [rd(POS, j_)]])),
             ("+cells", forall(t_, land(rd(VAL, t_) == rd(VAL, t_), rd(e.S.A, t_) == rd(e.S.A, t_)), [[rd(VAL, t_)], [rd(e.S.A, t_)]])), ("new cells", forall(t_, imp(land(B0 <= t_, t_ < B1), land(rd(e.S.A, t_) == Cells.real(s.dt, rd(VAL, t_)), rd(VAL, t_) == rd(x, cc), canonp(p, rd(VAL, t_)), rd(RW, t_) == k0, rd(CL, t_) == t_ - B0, 0 <= cc, cc < m, rd(qi, cc) < 0)), [[rd(e.S.A, t_)], [rd(VAL, t_)]])),
             ("old cells", forall(t_, imp(land(0 <= t_, t_ < B0), land(rd(e.S.A, t_) == rd(h.S.A, t_), rd(VAL, t_) == rd(h.g("VAL"), t_), rd(RW, t_) == rd(h.g("RW"), t_), rd(CL, t_) == rd(h.g("CL"), t_))), [[rd(e.S.A, t_)], [rd(VAL, t_)]])),
             ("values: new", forall(t_, imp(land(B0 <= t_, t_ < B1), z0(p, rowcoef(A, rd(o.p.A, k0), cc) - rd(VAL, t_) - xr(CS1, k0, cc))), [rd(VAL, t_)]), ["nonpivotal", "new cells"]),
             ("rows so far", forall(t_, imp(land(0 <= t_, t_ < B0), land(0 <= rd(h.g("RW"), t_), rd(h.g("RW"), t_) < k0, rd(h.g("VAL"), t_) == rd(VAL, t_))), [rd(VAL, t_)])), ("+eqo", forall(t_, Z0Eq.inst(p, ent(h.g, h.g("CS")), ent(g, CS1)), [rd(VAL, t_)])), ("same rows", forall(t_, imp(land(0 <= t_, t_ < B0), ent(h.g, h.g("CS")) == ent(g, CS1)), [rd(VAL, t_)]), ["old cells", "rows so far"]), ("values: old", forall(t_, imp(land(0 <= t_, t_ < B0), z0(p, ent(g, CS1))), [rd(VAL, t_)]), ["eqo", "same rows", "old cells", old[E]]),
             ("+eqn", forall(t_, Z0Eq.inst(p, rowcoef(A, rd(o.p.A, k0), cc) - rd(VAL, t_) - xr(CS1, k0, cc), ent(g, CS1)), [rd(VAL, t_)])), ("values: new row", forall(t_, imp(land(B0 <= t_, t_ < B1), z0(p, ent(g, CS1))), [rd(VAL, t_)]), ["eqn", "new cells", "values: new"]),
             ("values", new[E], ["values: old", "values: new row"]), ("cancel", new[P], ["pivotal", old[P]])]
        if s.withL: r += s.cutL(h, e)
        return r
    def coefs(s, h, e):
        o = h.old; k0 = h.k; r = {"CS": z3.Store(h.g("CS"), k0, e.call(SOLVE).g("C")), "KK": h.g("KK") + 1, "BASE": h.g("BASE") + (o.A.m - o.fact.U.n)}
        if s.withL: r.update({"LP": z3.Store(h.g("LP"), k0 + 1, s.L(e).nz), "LCAP": h.g("LCAP") + o.fact.U.n})
        return r
    def writeL(s, v, ve):
        o = v.old; U = o.fact.U; m = U.m; c = v.call(SOLVE); g = v.g; KK = g("KK"); L, Le = s.L(v), s.L(ve); Li, Lj, Lx = L.i.A, L.j.A, L.x.A; l0, lu = rd(g("LP"), KK), L.nz; UQ = g("UQ"); row = rd(Lj, k_); w_ = rd(UQ, row); x = v.x.A; mem = lambda j: Schur.mem(c, v.k, j); co = rs(Lj, Lx, l0, t_, lu); u = rd(UQ, t_); SEQ, K = g("SEQ"), g("K"); sq = rd(SEQ, t_)
        return [("px", c.r <= v.k), ("counted", land(lu == l0 + K, 0 <= K)), ("distinct", inj(SEQ, K)), ("rows", forall(t_, imp(land(0 <= t_, t_ < K), land(0 <= sq, sq < U.n, mem(rd(UQ, sq)))), [sq])),
                ("L: entries", forall(k_, imp(land(l0 <= k_, k_ < lu), land(0 <= row, row < U.n, mem(w_), rd(Lx, k_) == rd(x, w_), rd(x, w_) != 0, rd(Li, k_) == Schur.orig(o, rd(o.p.A, KK)))), [[rd(Lj, k_)], [rd(Lx, k_)], [rd(Li, k_)]])),
                ("L: sums", forall(t_, imp(land(0 <= t_, t_ < U.n), co == z3.If(mem(u), rd(x, u), 0)), [co])),
                ("L: earlier rows", forall(k_, imp(land(0 <= k_, k_ < l0), land(rd(Lj, k_) == rd(Le.j.A, k_), rd(Lx, k_) == rd(Le.x.A, k_), rd(Li, k_) == rd(Le.i.A, k_))), [[rd(Lj, k_)], [rd(Lx, k_)], [rd(Li, k_)]]))]
    def few(s, v, q): U = v.old.fact.U; return Pigeon.inst(z3.Store(v.g("SEQ"), v.g("K"), q), v.g("K") + 1, U.n)
    def writeL_head(s, h): q = rd(h.old.fact.qinv.A, rd(h.xj.A, h.k)); return [s.few(h, q), Pigeon.inst(h.g("SEQ"), h.g("K"), h.old.fact.U.n), rd(h.g("UQ"), q) == rd(h.g("UQ"), q)]
    def writeL_pre(s, v): l0 = rd(v.g("LP"), v.g("KK")); L = s.L(v); a = (L.j.A, L.x.A); return [forall(j_, rs.zero(*a, l0, j_), [rs(*a, l0, j_, L.nz)])]
    def writeL_end(s, h, e):
        l0, lu = rd(h.g("LP"), h.g("KK")), s.L(h).nz; j = rd(h.xj.A, h.k); F = (s.L(e).j.A, s.L(e).x.A); G = (s.L(h).j.A, s.L(h).x.A); w = s.L(e).nz == lu + 1
        return [forall(j_, imp(w, land(rs.unfold(*F, l0, j_, lu), RsStore.inst(*G, lu, rd(h.old.fact.qinv.A, j), rd(h.x.A, j), l0, j_, lu))), [rs(*F, l0, j_, s.L(e).nz)])]
    def writeL_cut(s, h, e):
        l0, lu = rd(h.g("LP"), h.g("KK")), s.L(h).nz; j = rd(h.xj.A, h.k); F = (s.L(e).j.A, s.L(e).x.A); G = (s.L(h).j.A, s.L(h).x.A); ln = s.L(e).nz; w = ln == lu + 1; c = h.call(SOLVE); POS = c.g("POS"); q = rd(h.old.fact.qinv.A, j); UQ = h.g("UQ"); U = h.old.fact.U
        return [("one more at most", lor(w, ln == lu)), ("place", land(rd(POS, j) == h.k, 0 <= j, j < U.m, rd(h.xj.A, h.k) == j)), ("L: row", imp(q >= 0, land(q < U.n, rd(UQ, q) == j))), ("L: new sums", forall(t_, rs(*F, l0, t_, ln) == rs(*G, l0, t_, lu) + z3.If(land(w, t_ == q), rd(h.x.A, j), 0), [rs(*F, l0, t_, ln)])),
                ("L: at px", forall(t_, imp(land(0 <= t_, t_ < U.n), land(rd(POS, rd(UQ, t_)) == h.k, rd(h.xj.A, rd(POS, rd(UQ, t_))) == rd(UQ, t_)) == (t_ == q)), [rd(UQ, t_)])), ("L: sums", dict(s.writeL(e, e))["L: sums"], ["L: new sums", "L: row", "place", "L: at px", dict(s.writeL(h, h))["L: sums"]])]
    def cutL(s, h, e):
        o = h.old; U = o.fact.U; p = U.field.p; m = U.m; i0 = h.k; c = e.call(SOLVE); C = c.g("C"); x = c.n.x.A; UQ = h.g("UQ"); LH = h.g("LP"); le, lh = s.L(e), s.L(h); LP = z3.Store(LH, i0 + 1, le.nz); F = (le.j.A, le.x.A); G = (lh.j.A, lh.x.A); cl = lambda a, P, i: rs(*a, rd(P, i), t_, rd(P, i + 1)); u = rd(UQ, t_); CS1 = z3.Store(h.g("CS"), i0, C); rl = dict(Schur.rowsL(o, le, LP, i0 + 1, CS1, s.L(o))); ol = dict(Schur.rowsL(o, lh, LH, i0, h.g("CS"), s.L(o)))
        return [("+L: few", Pigeon.inst(e.g("SEQ"), e.g("K"), U.n)), ("L: not too many", le.nz <= lh.nz + U.n), ("L: earlier kept", forall(k_, imp(land(0 <= k_, k_ < lh.nz), land(rd(F[0], k_) == rd(G[0], k_), rd(F[1], k_) == rd(G[1], k_), rd(le.i.A, k_) == rd(lh.i.A, k_))), [[rd(F[0], k_)], [rd(F[1], k_)], [rd(G[0], k_)], [rd(le.i.A, k_)]])), ("L: starts kept", forall(t_, imp(land(0 <= t_, t_ <= i0), rd(LP, t_) == rd(LH, t_)), [rd(LP, t_)])),
                ("+L: frame", forall([i, t_], RsFrame.inst(*F, *G, rd(LP, i), t_, rd(LP, i + 1)), [cl(F, LP, i)])), ("L: earlier rows", forall([i, t_], imp(land(0 <= i, i < i0), cl(F, LP, i) == cl(G, LH, i)), [cl(F, LP, i)]), ["L: frame", "L: earlier kept", "L: starts kept", monotone(LH, i0)]),
                ("L: this segment", land(rd(LP, i0) == rd(LH, i0), rd(LP, i0 + 1) == le.nz)), ("L: sums at the end", forall(t_, imp(land(0 <= t_, t_ < U.n), rs(*F, rd(LH, i0), t_, le.nz) == z3.If(Schur.mem(c, m, u), rd(x, u), 0)), [rs(*F, rd(LH, i0), t_, le.nz)])),
                ("L: coefficients", forall(t_, imp(land(0 <= t_, t_ < U.n), rd(C, t_) == z3.If(Schur.mem(c, m, u), rd(x, u), 0)), [[u], [rd(C, t_)]])), ("L: this row", forall(t_, imp(land(0 <= t_, t_ < U.n), cl(F, LP, i0) == rd(C, t_)), [[cl(F, LP, i0)], [rd(C, t_)]]), ["L: coefficients", "L: sums at the end", "L: this segment"]),
                ("L: combination", rl["L: coefficients of the combination"], ["L: this row", "L: earlier rows", ol["L: coefficients of the combination"]]),
                ("L: new entries canonical", forall(k_, imp(land(lh.nz <= k_, k_ < le.nz), land(canonp(p, rd(F[1], k_)), rd(F[1], k_) != 0)), [[rd(F[1], k_)], [rd(F[0], k_)]])), ("L: canonical", rl["L: canonical nonzero"], ["L: new entries canonical", "L: earlier kept", ol["L: canonical nonzero"]])]
    @property
    def loops(s):
        G = {"CS": AA, "KK": Int, "BASE": Int}
        if s.withL: G.update({"LP": ARR, "LCAP": Int})
        ga = Loop(inv=lambda v, ve: s.gather(v, ve), head=s.gather_head, ghost={"VAL": ARR, "RW": ARR, "CL": ARR}, ghost_end=s.gather_end)
        d = {"0": Loop(inv=lambda v: Cells.collect(v.old, v, v.old.fact.qinv.A, v.g("QI")), pre=lambda v: [npc.zero(v.old.fact.qinv.A)], head=lambda v: (lambda q, m: [npc.unfold(q, v.j), NpcMono.inst(q, v.j, m), NpcMono.inst(q, v.j + 1, m)])(v.old.fact.qinv.A, v.old.A.m), ghost={"QI": ARR}, ghost_end=lambda h, e: {"QI": z3.Store(h.g("QI"), h.j, h.i)}, cut_exit=lambda v: [("all columns", v.i == v.old.A.m - v.old.fact.U.n)]),
             "1": Loop(inv=clear), "2": Loop(inv=lambda v: s.inv(v), cut=s.cut, head=s.head, ghost=G, ghost_end=s.coefs), "2.0": Loop(inv=Dense.zeroed), "2.1": ga, "2.2": ga, "2.3": ga}
        if s.withL: d["2.4"] = Loop(inv=lambda v, ve: s.writeL(v, ve), pre=s.writeL_pre, head=s.writeL_head, end=s.writeL_end, cut=s.writeL_cut, ghost={"SEQ": ARR, "K": Int}, ghost_init=lambda v: {"K": I(0)}, ghost_end=lambda h, e: {"SEQ": z3.Store(h.g("SEQ"), h.g("K"), rd(h.old.fact.qinv.A, rd(h.xj.A, h.k))), "K": h.g("K") + (s.L(e).nz - s.L(h).nz)})
        return d
# rtot(SI, CO, A, c, n): column c of the sum over t < n of CO[t] * (row SI[t] of A)
rtot = Def("rtot", [ARR, ARR, ARR, ARR, ARR, Int], lambda *a: (I(0), I(0)), lambda prev, si, co, ap, aj, ax, c, t: prev + rsm(rd(co, t), aj, ax, rd(ap, rd(si, t)), c, rd(ap, rd(si, t) + 1)))
def chosen(p, n, r): x = z3.Int("x!"); return z3.Exists([x], land(0 <= x, x < n, rd(p, x) == r), patterns=[rd(p, x)])
RtotStore = Lemma("rtot_store", [ARR, ARR, Int, Int, Int, ARR, ARR, ARR, Int, Int], lambda si, co, q, a, b, ap, aj, ax, c, n: imp(q >= n, rtot(z3.Store(si, q, a), z3.Store(co, q, b), ap, aj, ax, c, n) == rtot(si, co, ap, aj, ax, c, n)), lo=lambda *a: I(0),
    uses_base=lambda si, co, q, a, b, ap, aj, ax, c: [rtot.zero(si, co, ap, aj, ax, c), rtot.zero(z3.Store(si, q, a), z3.Store(co, q, b), ap, aj, ax, c)],
    uses_step=lambda si, co, q, a, b, ap, aj, ax, c, n: [rtot.unfold(si, co, ap, aj, ax, c, n), rtot.unfold(z3.Store(si, q, a), z3.Store(co, q, b), ap, aj, ax, c, n)])
SC = "spasm_scatter"
NTF = z3.Function("rows_combined", Int, Int, Int)
class Random(Contract):
    """SI[k][t], CO[k][t], t < NT: the rows of A and the coefficients that are combined into row k of S"""
    file = "spasm_schur.c"; params = ["A", "p", "n", "U", "qinv", "S", "datatype", "q", "N", "w"]; spec = {"UQ": ARR}; assigns = ("S", "q"); ghost_out = {"CS": AA, "SI": AA, "CO": AA, "VAL": ARR, "RW": ARR, "CL": ARR, "QI": ARR}
    def __init__(s, dt): s.dt = dt; t = ["double", "float", "i64"][dt]; s.name = f"spasm_schur_dense_randomized [{t}]"; s.shapes = {"A.x": "nonnull", "U.x": "nonnull", "S": "elem:" + t, "datatype": dt}
    def pre(s, v):
        U, A = v.U, v.A; Sm = A.m - U.n
        r = upper_pre(U, v.qinv, v.g("UQ")) + [("A: " + a, b) for a, b in csr_ok(A)] + [("A: " + a, b) for a, b in field_ok(A.field)] + [("A: canonical", canon_vals(A)[1]), ("same width", A.m == U.m), ("same field", A.field.p == U.field.p)] + sel_pre(A, v.p, v.n) + [("some rows", v.n > 0), ("N", land(v.N >= 0, v.N < (1 << 31) - 1)), ("q", land(v.q.ok, v.q.len >= Sm)), ("S", land(v.S.ok, v.S.len >= v.N * Sm, v.N * Sm <= BIG))]
        if s.dt == 1: r.append(("float holds the field", U.field.p <= (1 << 24)))
        return r
    def facts_entry(s, v): U = v.U; Sm = v.A.m - U.n; return NpcTotal(v.qinv.A, v.g("UQ"), U.n, U.m) + [NTF(v.n, v.w) == z3.If(v.w <= 0, v.n, v.w), fmul_def(v.N, Sm), fmul_def(I(0), Sm)]
    def NT(o): return NTF(o.n, o.w)
    def comb(o, SI, CO, c, t): A = o.A; return rtot(SI, CO, A.p.A, A.j.A, A.x.A, c, t)
    def values(o, q, hi, rows, g):
        U, A = o.U, o.A; p = U.field.p; CS, VAL, RW, CL, SI, CO = [g(k) for k in ("CS", "VAL", "RW", "CL", "SI", "CO")]; r, c = rd(RW, t_), rd(q, rd(CL, t_)); xac = lambda i, j: xA(rd(CS, i), U.p.A, U.j.A, U.x.A, j, U.n); qi = o.qinv.A; NT = Random.NT(o); co = lambda i, j: Random.comb(o, rd(SI, i), rd(CO, i), j, NT)
        return [("entry = entry of a combination of selected rows, minus a combination of rows of U", forall(t_, imp(land(0 <= t_, t_ < hi), z0(p, co(r, c) - rd(VAL, t_) - xac(r, c))), [rd(VAL, t_)])),
                ("the combination cancels the pivotal columns", forall([i, j_], imp(land(0 <= i, i < rows, 0 <= j_, j_ < A.m, rd(qi, j_) >= 0), z0(p, co(i, j_) - xac(i, j_))), [[xac(i, j_)], [co(i, j_)]])),
                ("selected rows only", forall([i, t_], imp(land(0 <= i, i < rows, 0 <= t_, t_ < NT), land(chosen(o.p.A, o.n, rd(rd(SI, i), t_)), imp(o.w <= 0, rd(rd(SI, i), t_) == rd(o.p.A, t_)), imp(land(o.w > 0, t_ == 0), rd(rd(CO, i), t_) == 1), canonp(p, rd(rd(CO, i), t_)))), [[rd(rd(SI, i), t_)], [rd(rd(CO, i), t_)]]))]
    def post(s, o, n, r):
        Sm = o.A.m - o.U.n; N = fmul(o.N, Sm); g = n.g
        return [("size", N == o.N * Sm), ("rows combined", Random.NT(o) == z3.If(o.w <= 0, o.n, o.w))] + Cells.columns(o, n.q.A, o.qinv.A, Sm, g("QI")) + Cells.cells(s.dt, o.A.field.p, n.S.A, N, o.N, Sm, g("VAL"), g("RW"), g("CL")) + Random.values(o, n.q.A, N, o.N, g)
    def spec_spasm_prng_seed_simple(s, v, o):
        S = z3.K(Int, I(0)); lo, hi = o.seed % (1 << 32), o.seed / I(1 << 32)
        for k in range(4): S = z3.Store(z3.Store(S, I(k), be(lo, k)), I(4 + k), be(hi, k))
        return {"S": S}
    def spec_spasm_prng_ZZp(s, v, o): c = v.call("spasm_prng_seed_simple"); return {"S": c.g("S"), "Q": I(0)}
    def ghosts0(s, v): Z = z3.K(Int, I(0)); AZ = z3.K(Int, Z); return {"CS": AZ, "SI": AZ, "CO": AZ, "VAL": Z, "RW": Z, "CL": Z, "QI": Z, "KK": I(0), "BASE": I(0), "SIk": Z, "COk": Z, "D": Z}
    def witness(s, v): return {k: v.g(k) for k in s.ghost_out}
    def inv(s, v):
        o = v.old; Sm = o.A.m - o.U.n; g = v.g; B = g("BASE")
        return [("k", land(v.k <= o.N, g("KK") == v.k)), ("BASE", land(B == fmul(v.k, Sm), 0 <= B, B <= fmul(o.N, Sm)))] + Cells.cells(s.dt, o.A.field.p, v.S.A, B, v.k, Sm, g("VAL"), g("RW"), g("CL")) + Random.values(o, v.q.A, B, v.k, g)
    def zeroed(v): return [("zero", forall(j_, imp(land(0 <= j_, j_ < v.j), land(rd(v.y.A, j_) == 0, rd(v.y.S, j_) == 0)), [[rd(v.y.A, j_)], [rd(v.y.S, j_)]]))]
    def summing(s, v):
        """sums so far"""
        o = v.old; m = o.A.m; SI, CO = v.g("SIk"), v.g("COk"); c = v.call("spasm_prng_seed_simple")
        return STREAM(v.ctx, c.g("S"), I(0)) + SEEDED(v.ctx) + [("prime", land(v.ctx.prime == o.A.field.p, v.ctx.field.p == o.A.field.p)), ("i", land(0 <= v.i, v.i <= Random.NT(o)))] + Random.summed(o, v.y, SI, CO, v.i)
    def summed(o, y, SI, CO, n):
        m = o.A.m; co = Random.comb(o, SI, CO, j_, n)
        return [("sum", forall(j_, imp(land(0 <= j_, j_ < m), rd(y.S, j_) == co), [[rd(y.S, j_)], [co]])), ("canonical", canon_arr(o.A.field.p, y.A, m)),
                ("selected", forall(t_, imp(land(0 <= t_, t_ < n), land(chosen(o.p.A, o.n, rd(SI, t_)), imp(o.w <= 0, rd(SI, t_) == rd(o.p.A, t_)), imp(land(o.w > 0, t_ == 0), rd(CO, t_) == 1), canonp(o.A.field.p, rd(CO, t_)))), [[rd(SI, t_)], [rd(CO, t_)]]))]
    def sum_pre(s, v): A = v.old.A; c = Random.comb(v.old, v.g("SIk"), v.g("COk"), j_, I(0)); return [forall(j_, rtot.zero(v.g("SIk"), v.g("COk"), A.p.A, A.j.A, A.x.A, j_), [[rd(v.y.S, j_)], [c]])]
    def sum_end(s, h, e):
        o = h.old; A = o.A; c = e.calls(SC)[-1]; si, co = h.g("SIk"), h.g("COk"); a = (A.p.A, A.j.A, A.x.A); S1, C1 = z3.Store(si, h.i, c.o.i), z3.Store(co, h.i, c.o.beta)
        return [forall(j_, land(rtot.unfold(S1, C1, *a, j_, h.i), RtotStore.inst(si, co, h.i, c.o.i, c.o.beta, *a, j_, h.i)), [[Random.comb(o, S1, C1, j_, h.i + 1)], [rd(e.y.S, j_)]])]
    def sum_ghost(s, h, e): c = e.calls(SC)[-1]; return {"SIk": z3.Store(h.g("SIk"), h.i, c.o.i), "COk": z3.Store(h.g("COk"), h.i, c.o.beta)}
    def elim(s, v, ve):
        o = v.old; U = o.U; m = U.m; UQ = v.g("UQ"); D = v.g("D"); y = v.y; p = U.field.p; co = Random.comb(o, v.g("SIk"), v.g("COk"), j_, Random.NT(o)); xac = xA(D, U.p.A, U.j.A, U.x.A, j_, v.i)
        return [("i", land(0 <= v.i, v.i <= U.n)), ("remaining", forall(j_, imp(land(0 <= j_, j_ < m), rd(y.S, j_) == co - xac), [rd(y.S, j_)])), ("canonical", canon_arr(p, y.A, m)), ("eliminated", forall(t_, imp(land(0 <= t_, t_ < v.i), rd(y.A, rd(UQ, t_)) == 0), [rd(UQ, t_)]))]
    def elim_pre(s, v): U = v.old.U; return [forall(j_, xA.zero(v.g("D"), U.p.A, U.j.A, U.x.A, j_), [rd(v.y.S, j_)])]
    def coefD(h): U = h.old.U; return rd(h.y.A, rd(U.j.A, rd(U.p.A, h.i)))
    def elim_end(s, h, e):
        U = h.old.U; a = (U.p.A, U.j.A, U.x.A); D = h.g("D"); b = Random.coefD(h); D1 = z3.Store(D, h.i, b); row = (U.j.A, U.x.A, rd(U.p.A, h.i)); hi = rd(U.p.A, h.i + 1)
        return [forall(j_, land(xA.unfold(D1, *a, j_, h.i), XAUpd.inst(D, h.i, b, *a, j_, h.i), RsmNeg.inst(b, *row, j_, hi), RsmZero.inst(b, *row, j_, hi)), [[rd(e.y.S, j_)], [xA(D1, *a, j_, h.i + 1)]])]
    def elim_cut(s, h, e):
        o = h.old; U = o.U; p = U.field.p; UQ = h.g("UQ"); j = rd(U.j.A, rd(U.p.A, h.i)); b = Random.coefD(h); row = (U.j.A, U.x.A, rd(U.p.A, h.i)); hi = rd(U.p.A, h.i + 1)
        return [("pivot", land(j == rd(UQ, h.i), 0 <= j, j < U.m)), ("unit", z0(p, rowcoef(U, h.i, j) - 1)), ("+", cong(p, h.y)), ("+", cong(p, e.y)), ("+", RsmRs.inst(b, *row, j, hi)), ("+", RsmNeg.inst(b, *row, j, hi)), ("+", RsmZero.inst(b, *row, j, hi)), ("row subtracted", rd(e.y.S, j) == rd(h.y.S, j) - fmul(b, rowcoef(U, h.i, j))),
                ("+", ElimUnit.inst(p, rowcoef(U, h.i, j), rd(h.y.S, j), b, rd(e.y.S, j), rd(e.y.A, j))), ("+", CanonZero.inst(p, rd(e.y.A, j))), ("entry eliminated", rd(e.y.A, j) == 0), ("pivotal entry eliminated", rd(e.y.A, rd(UQ, h.i)) == 0),
                ("earlier rows end before", forall(t_, imp(land(0 <= t_, t_ < h.i), rd(U.p.A, t_ + 1) <= rd(U.p.A, h.i)), [rd(UQ, t_)])), ("earlier pivots not in this row", forall([t_, k_], imp(land(0 <= t_, t_ < h.i, rd(U.p.A, h.i) <= k_, k_ < hi), rd(U.j.A, k_) != rd(UQ, t_)), [z3.MultiPattern(rd(UQ, t_), rd(U.j.A, k_))])),
                ("earlier pivots untouched", forall(t_, imp(land(0 <= t_, t_ < h.i), rd(e.y.A, rd(UQ, t_)) == rd(h.y.A, rd(UQ, t_))), [rd(UQ, t_)]), *([[e.calls(SC)[-1].post["only columns of the row change"], "earlier pivots not in this row"]] if len(e.calls(SC)) > len(h.calls(SC)) else []))]
    def gather(s, v, ve):
        o = v.old; U = o.U; Sm = o.A.m - U.n; g = v.g; B = g("BASE"); S = v.S.A; VAL, RW, CL = g("VAL"), g("RW"), g("CL"); y = v.y.A; KK = g("KK")
        return [("written", v.k <= Sm), ("new cells", forall(t_, imp(land(B <= t_, t_ < B + v.k), land(rd(S, t_) == Cells.real(s.dt, rd(VAL, t_)), rd(VAL, t_) == rd(y, rd(v.q.A, rd(CL, t_))), rd(RW, t_) == KK, rd(CL, t_) == t_ - B)), [[rd(S, t_)], [rd(VAL, t_)]])),
                ("earlier cells", forall(t_, imp(land(0 <= t_, t_ < B), land(rd(S, t_) == rd(ve.S.A, t_), rd(VAL, t_) == rd(ve.g("VAL"), t_), rd(RW, t_) == rd(ve.g("RW"), t_), rd(CL, t_) == rd(ve.g("CL"), t_))), [[rd(S, t_)], [rd(VAL, t_)], [rd(RW, t_)], [rd(CL, t_)]]))]
    def gather_end(s, h, e): pos = h.g("BASE") + h.k; return {"VAL": z3.Store(h.g("VAL"), pos, rd(h.y.A, rd(h.q.A, h.k))), "RW": z3.Store(h.g("RW"), pos, h.g("KK")), "CL": z3.Store(h.g("CL"), pos, h.k)}
    def gather_head(s, h): return [fmul_def(h.g("KK"), h.old.A.m - h.old.U.n)]
    def head(s, v): o = v.old; Sm = o.A.m - o.U.n; return [FmulMono.inst(v.k, o.N, Sm), fmul_def(v.k, Sm)]
    def coefs(s, h, e): return {"CS": z3.Store(h.g("CS"), h.k, e.g("D")), "SI": z3.Store(h.g("SI"), h.k, e.g("SIk")), "CO": z3.Store(h.g("CO"), h.k, e.g("COk")), "KK": h.g("KK") + 1, "BASE": h.g("BASE") + (h.old.A.m - h.old.U.n)}
    def cut(s, h, e):
        o = h.old; U = o.U; p = U.field.p; m = U.m; k0 = h.k; y = e.y; qi = o.qinv.A; A = o.A; g = e.g; B0 = h.g("BASE"); Sm = m - U.n; B1 = B0 + Sm; VAL, RW, CL, D = g("VAL"), g("RW"), g("CL"), g("D"); NT = Random.NT(o)
        a0 = Random.comb(o, g("SIk"), g("COk"), j_, NT); xac = xA(D, U.p.A, U.j.A, U.x.A, j_, U.n); new, old = dict(Random.values(o, e.q.A, B1, k0 + 1, g)), dict(Random.values(o, h.q.A, B0, k0, h.g))
        E, P, Q = list(new); PT = [[rd(y.A, j_)], [xac], [a0]]; cc = rd(e.q.A, rd(CL, t_)); at = lambda f, c: z3.substitute(f, (j_, c)); UQ = h.g("UQ")
        def ent(g): r, c = rd(g("RW"), t_), rd(e.q.A, rd(g("CL"), t_)); return Random.comb(o, rd(g("SI"), r), rd(g("CO"), r), c, NT) - rd(g("VAL"), t_) - xA(rd(g("CS"), r), U.p.A, U.j.A, U.x.A, c, U.n)
        return [("exact", forall(j_, imp(land(0 <= j_, j_ < m), rd(y.S, j_) == a0 - xac), [[rd(y.S, j_)], [rd(y.A, j_)], [xac], [a0]])), ("+cong", forall(j_, z0(p, rd(y.S, j_) - rd(y.A, j_)), PT) if not y.S.eq(y.A) else TRUE), ("+eq", forall(j_, Z0Eq.inst(p, rd(y.S, j_) - rd(y.A, j_), a0 - rd(y.A, j_) - xac), PT)),
             ("values of this row", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, a0 - rd(y.A, j_) - xac)), PT), ["eq", "exact", "cong"]), ("pivots eliminated", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) >= 0), rd(y.A, j_) == 0), [[rd(y.A, j_)], [rd(qi, j_)], [xac], [a0]])), ("+eq0", forall(j_, Z0Eq.inst(p, a0 - rd(y.A, j_) - xac, a0 - xac), PT)),
             ("pivotal", forall(j_, imp(land(0 <= j_, j_ < m, rd(qi, j_) >= 0), z0(p, a0 - xac)), PT), ["eq0", "values of this row", "pivots eliminated"]),
             ("+cells", forall(t_, land(rd(VAL, t_) == rd(VAL, t_), rd(e.S.A, t_) == rd(e.S.A, t_)), [[rd(VAL, t_)], [rd(e.S.A, t_)]])), ("new cells", forall(t_, imp(land(B0 <= t_, t_ < B1), land(rd(e.S.A, t_) == Cells.real(s.dt, rd(VAL, t_)), rd(VAL, t_) == rd(y.A, cc), canonp(p, rd(VAL, t_)), rd(RW, t_) == k0, rd(CL, t_) == t_ - B0, 0 <= cc, cc < m, rd(qi, cc) < 0)), [[rd(e.S.A, t_)], [rd(VAL, t_)]])),
             ("old cells", forall(t_, imp(land(0 <= t_, t_ < B0), land(rd(e.S.A, t_) == rd(h.S.A, t_), rd(VAL, t_) == rd(h.g("VAL"), t_), rd(RW, t_) == rd(h.g("RW"), t_), rd(CL, t_) == rd(h.g("CL"), t_))), [[rd(e.S.A, t_)], [rd(VAL, t_)]])),
             ("values: new", forall(t_, imp(land(B0 <= t_, t_ < B1), z0(p, at(a0, cc) - rd(VAL, t_) - at(xac, cc))), [rd(VAL, t_)]), ["values of this row", "new cells"]),
             ("+eqo", forall(t_, Z0Eq.inst(p, ent(h.g), ent(g)), [rd(VAL, t_)])), ("same rows", forall(t_, imp(land(0 <= t_, t_ < B0), ent(h.g) == ent(g)), [rd(VAL, t_)])), ("values: old", forall(t_, imp(land(0 <= t_, t_ < B0), z0(p, ent(g))), [rd(VAL, t_)]), ["eqo", "same rows", "old cells", old[E]]),
             ("+eqn", forall(t_, Z0Eq.inst(p, at(a0, cc) - rd(VAL, t_) - at(xac, cc), ent(g)), [rd(VAL, t_)])), ("this row", forall(t_, imp(land(B0 <= t_, t_ < B1), at(a0, cc) - rd(VAL, t_) - at(xac, cc) == ent(g)), [rd(VAL, t_)])), ("values: new row", forall(t_, imp(land(B0 <= t_, t_ < B1), z0(p, ent(g))), [rd(VAL, t_)]), ["eqn", "this row", "values: new"]),
             ("values", new[E], ["values: old", "values: new row"]), ("cancel", new[P], ["pivotal", old[P]])]
    @property
    def loops(s):
        ga = Loop(inv=lambda v, ve: s.gather(v, ve), head=s.gather_head, ghost={"VAL": ARR, "RW": ARR, "CL": ARR}, ghost_end=s.gather_end); su = Loop(inv=lambda v: s.summing(v), pre=s.sum_pre, cut_exit=lambda v: [("all selected", v.i == Random.NT(v.old)), ("total", Random.summed(v.old, v.y, v.g("SIk"), v.g("COk"), Random.NT(v.old))[0][1])], end=s.sum_end, ghost={"SIk": ARR, "COk": ARR}, ghost_end=s.sum_ghost)
        return {"0": Loop(inv=lambda v: Cells.collect(v.old, v, v.old.qinv.A, v.g("QI")), pre=lambda v: [npc.zero(v.old.qinv.A)], head=lambda v: (lambda q, m: [npc.unfold(q, v.j), NpcMono.inst(q, v.j, m), NpcMono.inst(q, v.j + 1, m)])(v.old.qinv.A, v.old.A.m), ghost={"QI": ARR}, ghost_end=lambda h, e: {"QI": z3.Store(h.g("QI"), h.j, h.i)}, cut_exit=lambda v: [("all columns", v.i == v.old.A.m - v.old.U.n)]),
             "1": Loop(inv=lambda v: s.inv(v), cut=s.cut, head=s.head, ghost={"CS": AA, "SI": AA, "CO": AA, "KK": Int, "BASE": Int}, ghost_end=s.coefs), "1.0": Loop(inv=Random.zeroed), "1.1": su, "1.2": su,
             "1.3": Loop(inv=lambda v, ve: s.elim(v, ve), pre=s.elim_pre, end=s.elim_end, cut=s.elim_cut, ghost={"D": ARR}, ghost_end=lambda h, e: {"D": z3.Store(h.g("D"), h.i, Random.coefD(h))}), "1.4": ga, "1.5": ga, "1.6": ga}
ALL = [Density(), Schur(), SchurL()] + [Dense(dt, w) for w in (False, True) for dt in (0, 1, 2)] + [Random(dt) for dt in (0, 1, 2)]
