"""C03, C05: filtering copy and transposition"""
from dv.lib import *

class Submatrix(Contract):
    name = "spasm_submatrix"; file = "spasm_submatrix.c"; params = ["A", "r_0", "r_1", "c_0", "c_1", "with_values"]
    def pre(s, v):
        return csr_ok(v.A) + [("modulus", modulus(v.A)), ("rows", land(0 <= v.r_0, v.r_1 <= v.A.n, v.r_0 <= v.A.n, v.r_1 >= 0)), ("columns", land(0 <= v.c_0, v.c_1 <= v.A.m, v.c_0 <= v.A.m, v.c_1 >= 0))]
    def ghosts0(s, v): return {"SRC": z3.K(Int, I(-1)), "DST": z3.K(Int, I(-1)), "ROW": z3.K(Int, I(-1))}
    def post(s, o, n, r):
        A = o.A; SRC, DST = n.g("SRC"), n.g("DST"); i = z3.Int("i!")
        nn = z3.If(o.r_1 > o.r_0, o.r_1 - o.r_0, I(0)); nnz = rd(r.p.A, nn)
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == nn, r.m == z3.If(o.c_1 > o.c_0, o.c_1 - o.c_0, I(0)))), ("field", r.field.p == A.field.p)]
        P += [("every entry comes from the block", forall([i, k_], imp(land(0 <= i, i < nn, rd(r.p.A, i) <= k_, k_ < rd(r.p.A, i + 1)), land(rd(A.p.A, o.r_0 + i) <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, o.r_0 + i + 1),
                    rd(r.j.A, k_) + o.c_0 == rd(A.j.A, rd(SRC, k_)))), [z3.MultiPattern(rd(r.p.A, i), rd(SRC, k_))])),
              ("same order", forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < nnz), rd(SRC, k_) < rd(SRC, t_)), [z3.MultiPattern(rd(SRC, k_), rd(SRC, t_))])),
              ("nothing is lost", imp(o.r_0 < o.r_1, forall(t_, imp(land(rd(A.p.A, o.r_0) <= t_, t_ < rd(A.p.A, o.r_1), o.c_0 <= rd(A.j.A, t_), rd(A.j.A, t_) < o.c_1),
                    land(0 <= rd(DST, t_), rd(DST, t_) < nnz, rd(SRC, rd(DST, t_)) == t_)), [rd(DST, t_)])))]
        if not r.x.isnull() and not A.x.isnull():
            P += [("values iff requested", r.x.null == lor(A.x.null, o.with_values == 0)), ("values kept", imp(lnot(r.x.null), forall(k_, imp(land(0 <= k_, k_ < nnz), rd(r.x.A, k_) == rd(A.x.A, rd(SRC, k_))), [rd(r.x.A, k_)])))]
        return P
    ghost_out = {"SRC": ARR, "DST": ARR}
    def witness(s, v): return {"SRC": v._st.ghost["SRC"], "DST": v._st.ghost["DST"]}
    def inv(v, done, px):
        """rows before done are copied; px: end of the scanned part of row done (None between rows)"""
        o = v.old; A = o.A; i = z3.Int("i!"); k = v.k
        SRC, DST, ROW = v.g("SRC"), v.g("DST"), v.g("ROW"); Bp = v.B.p.A
        d = done - o.r_0; top = d if px is None else d + 1
        end = rd(A.p.A, done) if px is None else px
        nn = z3.If(o.r_1 > o.r_0, o.r_1 - o.r_0, I(0))
        R = [("B", land(v.B.n == nn, v.B.m == z3.If(o.c_1 > o.c_0, o.c_1 - o.c_0, I(0)))),
             ("k bound", land(0 <= k, imp(o.r_0 < o.r_1, k <= end - rd(A.p.A, o.r_0)), imp(o.r_0 >= o.r_1, k == 0))),
             ("row starts", forall(i, imp(land(0 <= i, i < top), land(0 <= rd(Bp, i), rd(Bp, i) <= k)), [rd(Bp, i)])), ("monotone", monotone(Bp, top - 1)), ("first", imp(0 < top, rd(Bp, I(0)) == 0)),
             ("entries", forall(k_, imp(land(0 <= k_, k_ < k), land(rd(SRC, k_) < end, 0 <= rd(ROW, k_), rd(ROW, k_) < top, rd(A.p.A, o.r_0 + rd(ROW, k_)) <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, o.r_0 + rd(ROW, k_) + 1), 0 <= rd(SRC, k_),
                 rd(v.B.j.A, k_) + o.c_0 == rd(A.j.A, rd(SRC, k_)), o.c_0 <= rd(A.j.A, rd(SRC, k_)), rd(A.j.A, rd(SRC, k_)) < o.c_1)), [rd(SRC, k_)])),
             ("row of entry", forall([i, k_], imp(land(0 <= i, i < top, rd(Bp, i) <= k_, k_ < z3.If(i + 1 < top, rd(Bp, i + 1), k)), rd(ROW, k_) == i), [z3.MultiPattern(rd(Bp, i), rd(ROW, k_))])),
             ("same order", forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < k), rd(SRC, k_) < rd(SRC, t_)), [z3.MultiPattern(rd(SRC, k_), rd(SRC, t_))])),
             ("nothing lost", imp(o.r_0 < o.r_1, forall(t_, imp(land(rd(A.p.A, o.r_0) <= t_, t_ < end, o.c_0 <= rd(A.j.A, t_), rd(A.j.A, t_) < o.c_1), land(0 <= rd(DST, t_), rd(DST, t_) < k, rd(SRC, rd(DST, t_)) == t_)), [rd(DST, t_)])))]
        R += [("columns in range", forall(k_, imp(land(0 <= k_, k_ < k), land(0 <= rd(v.B.j.A, k_), rd(v.B.j.A, k_) < o.c_1 - o.c_0)), [rd(v.B.j.A, k_)]))]
        if not v.B.x.isnull() and not A.x.isnull():
            R += [("values", imp(lnot(v.B.x.null), forall(k_, imp(land(0 <= k_, k_ < k), rd(v.B.x.A, k_) == rd(A.x.A, rd(SRC, k_))), [rd(v.B.x.A, k_)])))]
        return R
    def step(h, e):
        took = e.k > h.k
        return {"SRC": z3.If(took, z3.Store(h.g("SRC"), h.k, h.px), h.g("SRC")), "ROW": z3.If(took, z3.Store(h.g("ROW"), h.k, h.i - h.old.r_0), h.g("ROW")), "DST": z3.Store(h.g("DST"), h.px, h.k)}
    G = {"SRC": ARR, "DST": ARR, "ROW": ARR}
    loops = {"0": Loop(inv=lambda v: Submatrix.inv(v, v.i, None) + [("i", v.i <= mx(v.old.r_0, v.old.r_1))], ghost=G),
             "0.0": Loop(inv=lambda v: Submatrix.inv(v, v.i, v.px) + [("px", v.px <= rd(v.old.A.p.A, v.i + 1))], ghost=G, ghost_end=step)}
def mx(a, b): return z3.If(a > b, a, b)
def modulus(A): return lor(A.field.p < 0, land(A.field.p >= 3, A.field.p <= 4294967291, A.field.p % 2 == 1))

# cs(a, n, j) = number of k < n with 0 <= a[k] < j, as the running sum of the counts
cs = Def("cs", [ARR, Int], lambda a, n: (I(0), I(0)), lambda prev, a, n, j: prev + cnt(a, j, n))
CntRange = Lemma("cnt_range", [ARR, Int, Int], lambda a, v, n: land(0 <= cnt(a, v, n), cnt(a, v, n) <= n), lo=lambda a, v: I(0),
                 uses_base=lambda a, v: [cnt.zero(a, v)], uses_step=lambda a, v, n: [cnt.unfold(a, v, n)])
CntMono = Lemma("cnt_mono", [ARR, Int, Int, Int], lambda a, v, s, n: imp(land(0 <= s, s <= n), cnt(a, v, s) <= cnt(a, v, n)), lo=lambda a, v, s: I(0),
                 uses_step=lambda a, v, s, n: [cnt.unfold(a, v, n)])
CsZero = Lemma("cs_zero", [ARR, Int], lambda a, j: cs(a, I(0), j) == 0, lo=lambda a: I(0), uses_base=lambda a: [cs.zero(a, I(0))], uses_step=lambda a, j: [cs.unfold(a, I(0), j), cnt.zero(a, j)])
CsStep = Lemma("cs_step", [ARR, Int, Int], lambda a, n, j: imp(n >= 0, cs(a, n + 1, j) == cs(a, n, j) + z3.If(land(0 <= rd(a, n), rd(a, n) < j), 1, 0)), lo=lambda a, n: I(0),
                 uses_base=lambda a, n: [cs.zero(a, n), cs.zero(a, n + 1)], uses_step=lambda a, n, j: [cs.unfold(a, n, j), cs.unfold(a, n + 1, j), cnt.unfold(a, j, n)])
CsTotal = Lemma("cs_total", [ARR, Int, Int], lambda a, j, n: imp(j >= 0, land(0 <= cs(a, n, j), cs(a, n, j) <= n, imp(forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(a, k_), rd(a, k_) < j)), [rd(a, k_)]), cs(a, n, j) == n))), lo=lambda a, j: I(0),
                 uses_base=lambda a, j: [CsZero.inst(a, j)], uses_step=lambda a, j, n: [CsStep.inst(a, n, j)])

class Transpose(Contract):
    """POS[t]: position of entry t of C in T;  entry t is (ROW[t], Cj[t])"""
    name = "spasm_transpose"; file = "spasm_transpose.c"; params = ["C", "keep_values"]
    ghost_out = {"POS": ARR, "SRC": ARR}
    def pre(s, v): return csr_ok(v.C) + [("modulus", modulus(v.C))]
    def ghosts0(s, v): return {"POS": z3.K(Int, I(-1)), "ROW": z3.K(Int, I(-1))}
    def witness(s, v):
        src = z3.Const("transpose.SRC", ARR)
        return {"POS": v._st.ghost["POS"], "SRC": src}
    def facts_exit(s, o, v, r):     # SRC is the inverse of POS (exists because POS is a bijection of [0,nnz))
        nz = rd(o.C.p.A, o.C.n); POS, SRC = v.g("POS"), v.g("SRC")
        return [forall(k_, land(imp(land(0 <= k_, k_ < nz), rd(SRC, k_) == Onto.pre_(POS, nz, k_)), Onto.inst(POS, nz, k_)), [rd(SRC, k_), rd(r.j.A, k_)]), forall(k_, cnt.f(o.C.j.A, k_, I(0)) == 0), Transpose.total(o)]
    def total(o): return CsTotal.inst(o.C.j.A, o.C.m, rd(o.C.p.A, o.C.n))
    def post(s, o, n, r):
        C = o.C; nz = rd(C.p.A, C.n); POS, SRC = n.g("POS"), n.g("SRC"); i, j = z3.Ints("i! jj!")
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == C.m, r.m == C.n)), ("field", r.field.p == C.field.p)] + [(a, imp(C.field.p >= 0, b)) for a, b in field_ok(r.field)] + [("same number of entries", rd(r.p.A, r.n) == nz),
             ("every entry (i,j) is found as (j,i)", forall([i, t_], imp(land(0 <= i, i < C.n, rd(C.p.A, i) <= t_, t_ < rd(C.p.A, i + 1)),
                   land(rd(r.p.A, rd(C.j.A, t_)) <= rd(POS, t_), rd(POS, t_) < rd(r.p.A, rd(C.j.A, t_) + 1), rd(r.j.A, rd(POS, t_)) == i)), [z3.MultiPattern(rd(C.p.A, i), rd(POS, t_))])),
             ("sizes of the rows", forall(j_, imp(land(0 <= j_, j_ < C.m), rd(r.p.A, j_ + 1) - rd(r.p.A, j_) == cnt(C.j.A, j_, nz)), [rd(r.p.A, j_)])),
             ("entry (j,i) was (i,j)", forall([j_, k_], imp(land(0 <= j_, j_ < C.m, rd(r.p.A, j_) <= k_, k_ < rd(r.p.A, j_ + 1)), land(rd(C.j.A, rd(SRC, k_)) == j_, rd(C.p.A, rd(r.j.A, k_)) <= rd(SRC, k_), rd(SRC, k_) < rd(C.p.A, rd(r.j.A, k_) + 1))), [z3.MultiPattern(rd(r.p.A, j_), rd(r.j.A, k_)), z3.MultiPattern(rd(r.p.A, j_), rd(SRC, k_))])),
             ("positions distinct", inj(POS, nz)),
             ("every entry of the transpose is one", forall(k_, imp(land(0 <= k_, k_ < nz), land(0 <= rd(SRC, k_), rd(SRC, k_) < nz, rd(POS, rd(SRC, k_)) == k_)), [rd(SRC, k_)])),
             ("scanning order", forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < nz, rd(C.j.A, k_) == rd(C.j.A, t_)), rd(POS, k_) < rd(POS, t_)), [z3.MultiPattern(rd(POS, k_), rd(POS, t_))]))]
        if not r.x.isnull() and not C.x.isnull():
            P += [("values iff requested", r.x.null == lor(C.x.null, o.keep_values == 0)), ("values kept", imp(lnot(r.x.null), forall(t_, imp(land(0 <= t_, t_ < nz), rd(r.x.A, rd(POS, t_)) == rd(C.x.A, t_)), [rd(POS, t_)]))),
                  ("values come from entries", imp(lnot(r.x.null), forall(k_, imp(land(0 <= k_, k_ < nz), land(0 <= rd(SRC, k_), rd(SRC, k_) < nz, rd(r.x.A, k_) == rd(C.x.A, rd(SRC, k_)))), [rd(r.x.A, k_)]))),
                  ("same matrix", imp(lnot(r.x.null), forall([i, j_], imp(land(0 <= i, i < C.n, 0 <= j_, j_ < C.m), rs(r.j.A, r.x.A, rd(r.p.A, j_), i, rd(r.p.A, j_ + 1)) == rs(C.j.A, C.x.A, rd(C.p.A, i), j_, rd(C.p.A, i + 1))), [[rs(r.j.A, r.x.A, rd(r.p.A, j_), i, rd(r.p.A, j_ + 1))], [rs(C.j.A, C.x.A, rd(C.p.A, i), j_, rd(C.p.A, i + 1))]])))]
        return P
    def cuts(s, o, v, r):
        C = o.C; nz = rd(C.p.A, C.n); POS = v.g("POS"); SRC = z3.Const("transpose.SRC", ARR); ro = rowof(C.p.A, rd(SRC, k_), C.n); rng = land(0 <= k_, k_ < nz)
        return [("sources", forall(k_, imp(rng, land(0 <= rd(SRC, k_), rd(SRC, k_) < nz, rd(POS, rd(SRC, k_)) == k_)), [[rd(SRC, k_)], [rd(r.j.A, k_)]])), ("+row", forall(k_, RowOf.inst(C.p.A, rd(SRC, k_), C.n), [rd(SRC, k_)])),
                ("row of the source", forall(k_, imp(rng, land(0 <= ro, ro < C.n, rd(C.p.A, ro) <= rd(SRC, k_), rd(SRC, k_) < rd(C.p.A, ro + 1), rd(r.j.A, k_) == ro)), [[rd(SRC, k_)], [rd(r.j.A, k_)]])),
                ("column of the source", forall(k_, imp(rng, land(rd(r.p.A, rd(C.j.A, rd(SRC, k_))) <= k_, k_ < rd(r.p.A, rd(C.j.A, rd(SRC, k_)) + 1), 0 <= rd(C.j.A, rd(SRC, k_)), rd(C.j.A, rd(SRC, k_)) < C.m)), [rd(SRC, k_)])),
                ("entry (j,i) was (i,j)", dict(s.post(o, v, r))["entry (j,i) was (i,j)"], ["row of the source", "column of the source"])]
    def T(v):
        C = v.old.C
        return [("T", land(v.T.n == C.m, v.T.m == C.n, v.T.nzmax == rd(C.p.A, C.n)))]
    def counts(v, px): return Transpose.T(v) + [("counts", forall(j_, imp(land(0 <= j_, j_ < v.old.C.m), rd(v.w.A, j_) == cnt(v.old.C.j.A, j_, px)), [rd(v.w.A, j_)]))]
    def prefix(v):
        C = v.old.C; nz = rd(C.p.A, C.n)
        return Transpose.T(v) + [("sum", land(v.sum == cs(C.j.A, nz, v.j), v.j <= C.m)),
            ("starts", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.Tp.A, j_) == cs(C.j.A, nz, j_)), [rd(v.Tp.A, j_)])), ("nonneg", v.sum >= 0), ("below", forall(j_, imp(land(0 <= j_, j_ < v.j), land(0 <= rd(v.Tp.A, j_), rd(v.Tp.A, j_) <= v.sum)), [rd(v.Tp.A, j_)])),
            ("monotone", monotone(v.Tp.A, v.j - 1)),
            ("steps", forall(j_, imp(land(0 <= j_, j_ < v.j), z3.If(j_ + 1 < v.j, rd(v.Tp.A, j_ + 1), v.sum) == rd(v.Tp.A, j_) + cnt(C.j.A, j_, nz)), [rd(v.Tp.A, j_)])),
            ("cursors", forall(j_, imp(land(0 <= j_, j_ < C.m), rd(v.w.A, j_) == z3.If(j_ < v.j, rd(v.Tp.A, j_), cnt(C.j.A, j_, nz))), [rd(v.w.A, j_)])), ("first", imp(v.j > 0, rd(v.Tp.A, I(0)) == 0))]
    def sums(v, i0, px):
        """the dispatched entries at (c, i): those of the rows before i0 and of row i0 up to px"""
        C = v.old.C; i = z3.Int("i!"); T = v.T; t = rs(T.j.A, T.x.A, rd(v.Tp.A, j_), i, rd(v.w.A, j_))
        full = rs(C.j.A, C.x.A, rd(C.p.A, i), j_, rd(C.p.A, i + 1)); part = I(0) if px is None else z3.If(i == i0, rs(C.j.A, C.x.A, rd(C.p.A, i), j_, px), 0)
        return ("sums", imp(lnot(T.x.null), forall([i, j_], imp(land(0 <= i, i < C.n, 0 <= j_, j_ < C.m), t == z3.If(i < i0, full, part)), [t])))
    def valued(v): return not v.T.x.isnull() and not v.old.C.x.isnull()
    def sums_pre(v):
        i = z3.Int("i!"); T = v.T
        return [forall([i, j_], rs.zero(T.j.A, T.x.A, rd(v.Tp.A, j_), i), [rs(T.j.A, T.x.A, rd(v.Tp.A, j_), i, rd(v.Tp.A, j_))])] if Transpose.valued(v) else []
    def sums_end(h, e):
        if not Transpose.valued(h): return []
        i = z3.Int("i!"); T = h.T; E = e.T; C = h.old.C; c0 = rd(C.j.A, h.px); q = rd(h.w.A, c0); lo = rd(h.Tp.A, j_); Cr = (C.j.A, C.x.A, rd(C.p.A, i), j_)
        return [("one more", forall([i, j_], imp(lnot(T.x.null), land(imp(j_ == c0, rs.unfold(E.j.A, E.x.A, lo, i, q)), RsStore.inst(T.j.A, T.x.A, q, h.i, rd(C.x.A, h.px), lo, i, rd(h.w.A, j_)))), [rs(E.j.A, E.x.A, lo, i, rd(e.w.A, j_))])),
                ("source", forall([i, j_], imp(i == h.i, rs.unfold(*Cr, h.px)), [rs(*Cr, h.px + 1)]))]
    def sums_cut(h, e):
        if not Transpose.valued(h): return []
        i = z3.Int("i!"); T = h.T; E = e.T; C = h.old.C; c0 = rd(C.j.A, h.px); q = rd(h.w.A, c0); lo = rd(h.Tp.A, j_); Cr = (C.j.A, C.x.A, rd(C.p.A, i), j_); t = lambda v: rs(v.T.j.A, v.T.x.A, lo, i, rd(v.w.A, j_)); nn = lnot(T.x.null); d = z3.If(land(i == h.i, j_ == c0), rd(C.x.A, h.px), 0)
        return [("+one more", Transpose.sums_end(h, e)[0][1]), ("+source", Transpose.sums_end(h, e)[1][1]), ("+range", forall(j_, CntRange.inst(C.j.A, j_, h.px), [rd(h.w.A, j_)])), ("elsewhere", forall(j_, imp(land(0 <= j_, j_ < C.m), land(lo <= rd(h.w.A, j_), imp(j_ != c0, land(rd(e.w.A, j_) == rd(h.w.A, j_), lor(q < lo, q >= rd(h.w.A, j_)))))), [[rd(e.w.A, j_)], [rd(h.w.A, j_)]])), ("here", land(0 <= c0, c0 < C.m, q >= rd(h.Tp.A, c0), rd(e.w.A, c0) == q + 1)),
                ("new sums", imp(nn, forall([i, j_], imp(land(0 <= j_, j_ < C.m), t(e) == t(h) + d), [t(e)])), ["one more", "elsewhere"]), ("source sums", forall([i, j_], imp(i == h.i, rs(*Cr, h.px + 1) == rs(*Cr, h.px) + d), [rs(*Cr, h.px + 1)])),
                ("sums", Transpose.sums(e, h.i, h.px + 1)[1], ["new sums", "source sums", Transpose.sums(h, h.i, h.px)[1]])]
    def disp(v, done, px):
        C = v.old.C; nz = rd(C.p.A, C.n); POS, ROW = v.g("POS"), v.g("ROW"); i = z3.Int("i!")
        R = Transpose.T(v) + [("cursors", forall(j_, imp(land(0 <= j_, j_ < C.m), land(rd(v.w.A, j_) == rd(v.Tp.A, j_) + cnt(C.j.A, j_, px), rd(v.w.A, j_) <= rd(v.Tp.A, j_ + 1))), [rd(v.w.A, j_)])),
            ("in its row", forall(t_, imp(land(0 <= t_, t_ < px), land(rd(v.Tp.A, rd(C.j.A, t_)) <= rd(POS, t_), rd(POS, t_) < rd(v.w.A, rd(C.j.A, t_)), 0 <= rd(POS, t_), rd(POS, t_) < nz, rd(v.Tj.A, rd(POS, t_)) == rd(ROW, t_), 0 <= rd(ROW, t_), rd(ROW, t_) < C.n)), [rd(POS, t_)])),
            ("rows", forall([i, t_], imp(land(0 <= i, i < C.n, rd(C.p.A, i) <= t_, t_ < rd(C.p.A, i + 1), t_ < px), rd(ROW, t_) == i), [z3.MultiPattern(rd(C.p.A, i), rd(ROW, t_))])),
            ("distinct", inj(POS, px)), ("order", forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < px, rd(C.j.A, k_) == rd(C.j.A, t_)), rd(POS, k_) < rd(POS, t_)), [z3.MultiPattern(rd(POS, k_), rd(POS, t_))]))]
        if not v.T.x.isnull() and not C.x.isnull(): R.append(("values", imp(lnot(v.T.x.null), forall(t_, imp(land(0 <= t_, t_ < px), rd(v.T.x.A, rd(POS, t_)) == rd(C.x.A, t_)), [rd(POS, t_)]))))
        return R
    def mono_all(v, px):
        C = v.old.C
        return [forall(j_, CntMono.inst(C.j.A, j_, px, rd(C.p.A, C.n)), [rd(v.w.A, j_)])]
    G = {"POS": ARR, "ROW": ARR}
    loops = {"0": Loop(pre=lambda v: [forall(j_, cnt.zero(v.old.C.j.A, j_), [cnt(v.old.C.j.A, j_, I(0))])], inv=lambda v: Transpose.counts(v, rd(v.old.C.p.A, v.i))),
             "0.0": Loop(inv=lambda v: Transpose.counts(v, v.px) + [("px", v.px <= rd(v.old.C.p.A, v.i + 1))],
                         head=lambda v: [forall(j_, cnt.unfold(v.old.C.j.A, j_, v.px), [rd(v.w.A, j_)]), forall(j_, CntRange.inst(v.old.C.j.A, j_, v.px), [rd(v.w.A, j_)])]),
             "1": Loop(inv=prefix, pre=lambda v: [cs.zero(v.old.C.j.A, rd(v.old.C.p.A, v.old.C.n))],
                       head=lambda v: [cs.unfold(v.old.C.j.A, rd(v.old.C.p.A, v.old.C.n), v.j), CntRange.inst(v.old.C.j.A, v.j, rd(v.old.C.p.A, v.old.C.n)), CsTotal.inst(v.old.C.j.A, v.j, rd(v.old.C.p.A, v.old.C.n)), CsTotal.inst(v.old.C.j.A, v.j + 1, rd(v.old.C.p.A, v.old.C.n))],
                       exit=lambda v: [Transpose.total(v.old)]),
             "2": Loop(inv=lambda v: Transpose.disp(v, v.i, rd(v.old.C.p.A, v.i)) + ([Transpose.sums(v, v.i, None)] if Transpose.valued(v) else []), ghost=G, pre=lambda v: Transpose.sums_pre(v) + [Transpose.total(v.old), forall(j_, CntRange.inst(v.old.C.j.A, j_, rd(v.old.C.p.A, v.old.C.n)), [rd(v.w.A, j_)]), forall(j_, cnt.zero(v.old.C.j.A, j_), [rd(v.w.A, j_)])]),
             "2.0": Loop(inv=lambda v: Transpose.disp(v, v.i, v.px) + [("px", v.px <= rd(v.old.C.p.A, v.i + 1))] + ([Transpose.sums(v, v.i, v.px)] if Transpose.valued(v) else []), ghost=G, cut=sums_cut, cut_pre=lambda v: [("+zero", forall(j_, rs.zero(v.old.C.j.A, v.old.C.x.A, rd(v.old.C.p.A, v.i), j_), [rs(v.old.C.j.A, v.old.C.x.A, rd(v.old.C.p.A, v.i), j_, rd(v.old.C.p.A, v.i))])),
                            ("sums", Transpose.sums(v, v.i, rd(v.old.C.p.A, v.i))[1], ["zero", Transpose.sums(v, v.i, None)[1]])] if Transpose.valued(v) else [],
                         cut_exit=lambda v: [("px", v.px == rd(v.old.C.p.A, v.i + 1)), ("sums", Transpose.sums(v, v.i + 1, None)[1], ["px", Transpose.sums(v, v.i, v.px)[1]])] if Transpose.valued(v) else [],
                         ghost_end=lambda h, e: {"POS": z3.Store(h.g("POS"), h.px, rd(h.w.A, rd(h.old.C.j.A, h.px))), "ROW": z3.Store(h.g("ROW"), h.px, h.i)},
                         head=lambda v: Transpose.mono_all(v, v.px + 1) + Transpose.mono_all(v, v.px) + [forall(j_, cnt.unfold(v.old.C.j.A, j_, v.px), [rd(v.w.A, j_)]), forall(j_, CntRange.inst(v.old.C.j.A, j_, v.px), [rd(v.w.A, j_)]),
                            Transpose.total(v.old)])}
ALL = [Submatrix(), Transpose()]
