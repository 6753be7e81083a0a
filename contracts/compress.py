"""C02: spasm_compress and its two in-place passes"""
from dv.lib import *
from contracts.util import same, triplet_ok, tcanon
from contracts.copy import cnt, cs, CntRange, CntMono, CsTotal, modulus

def csr_realloc_ok(A):     # a matrix whose arrays have at least nnz entries
    return csr_ok(A)
class RemoveZeroes(Contract):
    name = "remove_explicit_zeroes"; file = "spasm_triplet.c"; params = ["A"]
    assigns = ("A.p", "A.j()", "A.x()", "A.nzmax")
    ghost_out = {"SRC": ARR, "DST": ARR}
    def pre(s, v): return csr_ok(v.A)
    def ghosts0(s, v): return {"SRC": z3.Lambda(k_, k_) if False else z3.K(Int, I(0)), "ROW": z3.K(Int, I(0)), "DST": z3.K(Int, I(0))}
    def witness(s, v):
        if v.A.x.isnull(): return {"SRC": z3.K(Int, I(0)), "DST": z3.K(Int, I(0))}
        return {"SRC": v._st.ghost["SRC"], "DST": v._st.ghost["DST"]}
    def post(s, o, n, r):
        A, B = o.A, n.A; SRC, DST = n.g("SRC"), n.g("DST"); i = z3.Int("i!")
        if A.x.isnull(): return [("pattern unchanged", land(same(A.p.A, B.p.A, A.n + 1), same(A.j.A, B.j.A, rd(A.p.A, A.n))))]
        nv = A.x.null
        P = [("pattern unchanged", imp(nv, land(same(A.p.A, B.p.A, A.n + 1), same(A.j.A, B.j.A, rd(A.p.A, A.n)))))] + [("well formed: " + a, b) for a, b in csr_ok(B)]
        nnz = rd(B.p.A, A.n)
        P += [("entries kept", imp(lnot(nv), forall([i, k_], imp(land(0 <= i, i < A.n, rd(B.p.A, i) <= k_, k_ < rd(B.p.A, i + 1)), land(rd(A.p.A, i) <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, i + 1), rd(B.j.A, k_) == rd(A.j.A, rd(SRC, k_)), rd(B.x.A, k_) == rd(A.x.A, rd(SRC, k_)), rd(B.x.A, k_) != 0)), [[rd(B.p.A, i), rd(SRC, k_)], [rd(B.p.A, i), rd(B.j.A, k_)]]))),
              ("nonzero entries stay in their row", imp(lnot(nv), forall([i, t_], imp(land(0 <= i, i < A.n, rd(A.p.A, i) <= t_, t_ < rd(A.p.A, i + 1), rd(A.x.A, t_) != 0), land(rd(B.p.A, i) <= rd(DST, t_), rd(DST, t_) < rd(B.p.A, i + 1))), [z3.MultiPattern(rd(A.p.A, i), rd(DST, t_))]))),
              ("all entries", imp(lnot(nv), forall(k_, imp(land(0 <= k_, k_ < nnz), land(0 <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, A.n), rd(B.j.A, k_) == rd(A.j.A, rd(SRC, k_)), rd(B.x.A, k_) == rd(A.x.A, rd(SRC, k_)), rd(B.x.A, k_) != 0)), [[rd(SRC, k_)], [rd(B.x.A, k_)]]))),
              ("same order", imp(lnot(nv), forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < nnz), rd(SRC, k_) < rd(SRC, t_)), [z3.MultiPattern(rd(SRC, k_), rd(SRC, t_))]))),
              ("only zeroes dropped", imp(lnot(nv), forall(t_, imp(land(0 <= t_, t_ < rd(A.p.A, A.n), rd(A.x.A, t_) != 0), land(0 <= rd(DST, t_), rd(DST, t_) < nnz, rd(SRC, rd(DST, t_)) == t_)), [rd(DST, t_)]))),
              ("values iff before", B.x.null == A.x.null)]
        return P
    def inv(v, done, it):
        o = v.old; A = o.A; i = z3.Int("i!"); nz = v.nz; P = v.A.p.A; J, X = v.A.j.A, v.A.x.A
        SRC, DST, ROW = v.g("SRC"), v.g("DST"), v.g("ROW")
        top = done if it is None else done + 1
        end = rd(A.p.A, done) if it is None else it
        return [("shape", land(v.A.n == A.n, v.A.m == A.m)), ("nz", land(0 <= nz, nz <= end, nz <= rd(A.p.A, A.n))), ("rows ahead", same(P, A.p.A, A.n + 1, done + 1)),
            ("arrays ahead", forall(k_, imp(land(end <= k_), rd(J, k_) == rd(A.j.A, k_)), [rd(J, k_)])), ("values ahead", forall(k_, imp(land(end <= k_), rd(X, k_) == rd(A.x.A, k_)), [rd(X, k_)])),
            ("row starts", forall(i, imp(land(0 <= i, i <= done), land(0 <= rd(P, i), rd(P, i) <= nz)), [rd(P, i)])), ("monotone", monotone(P, done)), ("first", rd(P, I(0)) == 0),
            ("last", imp(it is None, rd(P, done) == nz) if it is None else TRUE),
            ("entries", forall(k_, imp(land(0 <= k_, k_ < nz), land(0 <= rd(SRC, k_), rd(SRC, k_) < end, 0 <= rd(ROW, k_), rd(ROW, k_) < top, rd(A.p.A, rd(ROW, k_)) <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, rd(ROW, k_) + 1))), [rd(SRC, k_)])),
            ("columns", forall(k_, imp(land(0 <= k_, k_ < nz), land(rd(J, k_) == rd(A.j.A, rd(SRC, k_)), 0 <= rd(J, k_), rd(J, k_) < A.m)), [rd(J, k_)])),
            ("values", forall(k_, imp(land(0 <= k_, k_ < nz), land(rd(X, k_) == rd(A.x.A, rd(SRC, k_)), rd(X, k_) != 0)), [rd(X, k_)])),
            ("row of entry", forall([i, k_], imp(land(0 <= i, i < top, rd(P, i) <= k_, k_ < z3.If(i < done, rd(P, i + 1), nz)), rd(ROW, k_) == i), [z3.MultiPattern(rd(P, i), rd(ROW, k_))])),
            ("rows kept", forall([i, t_], imp(land(0 <= i, i < top, rd(A.p.A, i) <= t_, t_ < rd(A.p.A, i + 1), t_ < end, rd(A.x.A, t_) != 0), land(rd(P, i) <= rd(DST, t_), rd(DST, t_) < z3.If(i < done, rd(P, i + 1), nz))), [z3.MultiPattern(rd(A.p.A, i), rd(DST, t_))])),
            ("same order", forall([k_, t_], imp(land(0 <= k_, k_ < t_, t_ < nz), rd(SRC, k_) < rd(SRC, t_)), [z3.MultiPattern(rd(SRC, k_), rd(SRC, t_))])),
            ("only zeroes dropped", forall(t_, imp(land(0 <= t_, t_ < end, rd(A.x.A, t_) != 0), land(0 <= rd(DST, t_), rd(DST, t_) < nz, rd(SRC, rd(DST, t_)) == t_)), [rd(DST, t_)]))]
    def step(h, e):
        took = e.nz > h.nz
        return {"SRC": z3.If(took, z3.Store(h.g("SRC"), h.nz, h.it), h.g("SRC")), "ROW": z3.If(took, z3.Store(h.g("ROW"), h.nz, h.i), h.g("ROW")), "DST": z3.Store(h.g("DST"), h.it, h.nz)}
    G = {"SRC": ARR, "DST": ARR, "ROW": ARR}
    loops = {"0": Loop(inv=lambda v: RemoveZeroes.inv(v, v.i, None) + [("next", v.next == rd(v.old.A.p.A, v.i)), ("i", v.i <= v.old.A.n)], ghost=G),
             "0.0": Loop(inv=lambda v: RemoveZeroes.inv(v, v.i, v.it) + [("next", v.next == rd(v.old.A.p.A, v.i + 1)), ("it", v.it <= v.next)], ghost=G, ghost_end=step)}

def fieldx(A): return [(a, imp(lnot(A.x.null), b)) for a, b in field_ok(A.field)]
def canonx(A, n): return [] if A.x.isnull() else [("canonical values", imp(lnot(A.x.null), canon_arr(A.field.p, A.x.A, n)))]
class Dedup(Contract):
    name = "deduplicate"; file = "spasm_triplet.c"; params = ["A"]
    assigns = ("A.p", "A.j()", "A.x()", "A.nzmax")
    ghost_out = {"DST": ARR, "ORG": ARR}
    def pre(s, v): return csr_ok(v.A) + fieldx(v.A) + canonx(v.A, rd(v.A.p.A, v.A.n)) + [("m", v.A.m <= BIG)]
    def ghosts0(s, v): return {"DST": z3.K(Int, I(0)), "ORG": z3.K(Int, I(0))}
    def witness(s, v): return {"DST": v._st.ghost["DST"], "ORG": v._st.ghost["ORG"]}
    def facts_exit(s, o, v, r): return [] if v.A.x.isnull() else [cong(o.A.field.p, v.A.x)]
    def post(s, o, n, r):
        A, B = o.A, n.A; DST, ORG = n.g("DST"), n.g("ORG"); i = z3.Int("i!"); nnz = rd(B.p.A, A.n)
        P = [("well formed: " + a, b) for a, b in csr_ok(B)] + [("smaller", nnz <= rd(A.p.A, A.n)),
             ("each column once per row", forall([i, k_, t_], imp(land(0 <= i, i < A.n, rd(B.p.A, i) <= k_, k_ < t_, t_ < rd(B.p.A, i + 1)), rd(B.j.A, k_) != rd(B.j.A, t_)), [z3.MultiPattern(rd(B.p.A, i), rd(B.j.A, k_), rd(B.j.A, t_))])),
             ("every entry of A is represented", forall([i, t_], imp(land(0 <= i, i < A.n, rd(A.p.A, i) <= t_, t_ < rd(A.p.A, i + 1)), land(rd(B.p.A, i) <= rd(DST, t_), rd(DST, t_) < rd(B.p.A, i + 1), rd(B.j.A, rd(DST, t_)) == rd(A.j.A, t_))), [z3.MultiPattern(rd(A.p.A, i), rd(DST, t_))])),
             ("nothing else", forall([i, k_], imp(land(0 <= i, i < A.n, rd(B.p.A, i) <= k_, k_ < rd(B.p.A, i + 1)), land(rd(A.p.A, i) <= rd(ORG, k_), rd(ORG, k_) < rd(A.p.A, i + 1), rd(B.j.A, k_) == rd(A.j.A, rd(ORG, k_)))), [z3.MultiPattern(rd(B.p.A, i), rd(ORG, k_))]))]
        if not A.x.isnull():
            P += [("values iff before", B.x.null == A.x.null)] + canonx(B, nnz)
            P += [("sums", imp(lnot(A.x.null), forall([i, k_], imp(land(0 <= i, i < A.n, rd(B.p.A, i) <= k_, k_ < rd(B.p.A, i + 1)), z0(A.field.p, rs(A.j.A, A.x.A, rd(A.p.A, i), rd(B.j.A, k_), rd(A.p.A, i + 1)) - rd(B.x.A, k_))), [z3.MultiPattern(rd(B.p.A, i), rd(B.x.A, k_))])))]
        return P
    def base(v, end, start):
        o = v.old; A = o.A; nz = v.nz; J = v.A.j.A
        R = [("shape", land(v.A.n == A.n, v.A.m == A.m)), ("nz", land(0 <= nz, nz <= end, end <= rd(A.p.A, A.n), start <= nz, 0 <= start)),
            ("arrays ahead", forall(k_, imp(end <= k_, rd(J, k_) == rd(A.j.A, k_)), [rd(J, k_)])),
            ("columns", forall(k_, imp(land(0 <= k_, k_ < nz), land(0 <= rd(J, k_), rd(J, k_) < A.m)), [rd(J, k_)]))]
        if not A.x.isnull():
            nn = lnot(A.x.null); X, XS = v.A.x.A, v.A.x.S
            R += [("canonical", imp(nn, canon_arr(A.field.p, X, rd(A.p.A, A.n)))), ("values ahead", imp(nn, forall(k_, imp(end <= k_, rd(XS, k_) == rd(A.x.A, k_)), [rd(XS, k_)]))), ("machine values ahead", imp(nn, forall(k_, imp(end <= k_, rd(X, k_) == rd(A.x.A, k_)), [rd(X, k_)])))]
        return R
    def outer(v):
        o = v.old; A = o.A; i = z3.Int("i!"); P = v.A.p.A; J = v.A.j.A; W = v.v.A; done = v.i; start = v.nz
        DST, ORG = v.g("DST"), v.g("ORG"); stop = lambda i: z3.If(i + 1 < done, rd(P, i + 1), start)
        R = Dedup.base(v, rd(A.p.A, done), start) + [("rows ahead", same(P, A.p.A, A.n + 1, done)), ("i", done <= A.n),
            ("row starts", forall(i, imp(land(0 <= i, i < done), land(0 <= rd(P, i), rd(P, i) <= start)), [rd(P, i)])), ("monotone", monotone(P, done - 1)), ("first", imp(done > 0, rd(P, I(0)) == 0)), ("start of row 0", imp(done == 0, start == 0)),
            ("last seen", forall(j_, imp(land(0 <= j_, j_ < A.m), land(-1 <= rd(W, j_), rd(W, j_) < start)), [rd(W, j_)])),
            ("distinct", forall([i, k_, t_], imp(land(0 <= i, i < done, rd(P, i) <= k_, k_ < t_, t_ < stop(i)), rd(J, k_) != rd(J, t_)), [z3.MultiPattern(rd(P, i), rd(J, k_), rd(J, t_))])),
            ("represented", forall([i, t_], imp(land(0 <= i, i < done, rd(A.p.A, i) <= t_, t_ < rd(A.p.A, i + 1)), land(rd(P, i) <= rd(DST, t_), rd(DST, t_) < stop(i), rd(J, rd(DST, t_)) == rd(A.j.A, t_))), [z3.MultiPattern(rd(P, i), rd(DST, t_))])),
            ("origin", forall([i, k_], imp(land(0 <= i, i < done, rd(P, i) <= k_, k_ < stop(i)), land(rd(A.p.A, i) <= rd(ORG, k_), rd(ORG, k_) < rd(A.p.A, i + 1), rd(J, k_) == rd(A.j.A, rd(ORG, k_)))), [z3.MultiPattern(rd(P, i), rd(ORG, k_))]))]
        if not A.x.isnull():
            R += [("sums", imp(lnot(A.x.null), forall([i, k_], imp(land(0 <= i, i < done, rd(P, i) <= k_, k_ < stop(i)), rd(v.A.x.S, k_) == rs(A.j.A, A.x.A, rd(A.p.A, i), rd(J, k_), rd(A.p.A, i + 1))), [z3.MultiPattern(rd(P, i), rd(v.A.x.S, k_))])))]
        return R
    def inner(v, e):
        o = v.old; A = o.A; J = v.A.j.A; W = v.v.A; start = v.p; nz = v.nz; it = v.it; lo = rd(A.p.A, v.i); DST, ORG = v.g("DST"), v.g("ORG")
        R = Dedup.base(v, it, start) + [("it", it <= rd(A.p.A, v.i + 1)),
            ("finished rows", forall(k_, imp(k_ < start, land(rd(J, k_) == rd(e.A.j.A, k_), rd(ORG, k_) == rd(e.g("ORG"), k_))), [rd(J, k_), rd(ORG, k_)])), ("finished sources", forall(t_, imp(t_ < lo, rd(DST, t_) == rd(e.g("DST"), t_)), [rd(DST, t_)])),
            ("last seen", forall(j_, imp(land(0 <= j_, j_ < A.m), land(-1 <= rd(W, j_), rd(W, j_) < nz, imp(rd(W, j_) >= start, rd(J, rd(W, j_)) == j_))), [rd(W, j_)])),
            ("current columns", forall(k_, imp(land(start <= k_, k_ < nz), rd(W, rd(J, k_)) == k_), [rd(J, k_)])),
            ("represented", forall(t_, imp(land(lo <= t_, t_ < it), land(start <= rd(DST, t_), rd(DST, t_) < nz, rd(J, rd(DST, t_)) == rd(A.j.A, t_))), [rd(DST, t_)])),
            ("origin", forall(k_, imp(land(start <= k_, k_ < nz), land(lo <= rd(ORG, k_), rd(ORG, k_) < it, rd(J, k_) == rd(A.j.A, rd(ORG, k_)))), [rd(ORG, k_)]))]
        if not A.x.isnull():
            nn = lnot(A.x.null); XS = v.A.x.S
            R += [("finished values", imp(nn, forall(k_, imp(k_ < start, rd(XS, k_) == rd(e.A.x.S, k_)), [rd(XS, k_)]))),
                  ("sums", imp(nn, forall(k_, imp(land(start <= k_, k_ < nz), rd(XS, k_) == rs(A.j.A, A.x.A, lo, rd(J, k_), it)), [rd(XS, k_)]))),
                  ("unseen", imp(nn, forall(j_, imp(land(0 <= j_, j_ < A.m, rd(W, j_) < start), rs(A.j.A, A.x.A, lo, j_, it) == 0), [rd(W, j_)])))]
        return R
    def step(h, e):
        new = e.nz > h.nz; j = rd(h.old.A.j.A, h.it)
        return {"DST": z3.Store(h.g("DST"), h.it, z3.If(new, h.nz, rd(h.v.A, j))), "ORG": z3.If(new, z3.Store(h.g("ORG"), h.nz, h.it), h.g("ORG"))}
    def head(v):
        A = v.old.A
        if A.x.isnull(): return []
        j = rd(A.j.A, v.it); W = v.v.A
        return [forall(j_, rs.unfold(A.j.A, A.x.A, rd(A.p.A, v.i), j_, v.it), [rd(v.v.A, j_)]), rs.unfold(A.j.A, A.x.A, rd(A.p.A, v.i), j, v.it),
                forall(k_, rs.unfold(A.j.A, A.x.A, rd(A.p.A, v.i), rd(v.A.j.A, k_), v.it), [rd(v.A.x.S, k_)]), forall(k_, rs.unfold(A.j.A, A.x.A, rd(A.p.A, v.i), rd(v.A.j.A, k_), v.it), [rd(v.A.j.A, k_)])]
    def start(v):
        A = v.old.A
        if A.x.isnull(): return []
        return [forall(j_, rs.zero(A.j.A, A.x.A, rd(A.p.A, v.i), j_), [rd(v.v.A, j_)])]
    G = {"DST": ARR, "ORG": ARR}
    loops = {"0": Loop(inv=lambda v: [("filled", forall(k_, imp(land(0 <= k_, k_ < v.j), rd(v.v.A, k_) == -1), [rd(v.v.A, k_)]))]),
             "1": Loop(inv=outer, ghost=G),
             "1.0": Loop(inv=inner, ghost=G, ghost_end=step, head=head, pre=start)}
TsNone = Lemma("tsum_none", [ARR, ARR, ARR, Int, Int, Int], lambda ti, tj, tx, i, j, n: imp(forall(k_, imp(land(0 <= k_, k_ < n), lor(rd(ti, k_) != i, rd(tj, k_) != j)), [[rd(ti, k_)]]), tsum(ti, tj, tx, i, j, n) == 0), lo=lambda ti, tj, tx, i, j: I(0),
    uses_base=lambda ti, tj, tx, i, j: [tsum.zero(ti, tj, tx, i, j)], uses_step=lambda ti, tj, tx, i, j, n: [tsum.unfold(ti, tj, tx, i, j, n), rd(ti, n) == rd(ti, n)])
class Compress(Contract):
    """POS[t]: slot of triplet t after the counting sort; SRC: its inverse"""
    name = "spasm_compress"; file = "spasm_triplet.c"; params = ["T"]
    ghost_out = {"DST": ARR, "ORG": ARR}
    def pre(s, v):
        T = v.T
        return triplet_ok(T) + [("modulus", modulus(T))] + [(a, imp(lnot(T.x.null), b)) for a, b in field_ok(T.field)] + ([] if T.x.isnull() else [tcanon(T)])
    def ghosts0(s, v): return {"POS": z3.K(Int, I(-1)), "SRC": z3.K(Int, I(-1))}
    def witness(s, v):
        d, z = v.call("deduplicate"), v.call("remove_explicit_zeroes")
        POS, SRC = v.g("POS"), v.g("SRC"); D, O = z3.Const("compress.DST", ARR), z3.Const("compress.ORG", ARR)
        return {"DST": D, "ORG": O}
    def facts_exit(s, o, v, r):     # definition of the two maps as compositions
        d, z = v.call("deduplicate"), v.call("remove_explicit_zeroes")
        POS, SRC = v.g("POS"), v.g("SRC"); D, O = z3.Const("compress.DST", ARR), z3.Const("compress.ORG", ARR)
        nv = TRUE if r.x.isnull() else r.x.null
        u = rd(d.g("DST"), rd(POS, t_)); M = d.g("ORG"); Z = z.g("SRC")
        return [forall(t_, land(imp(nv, rd(D, t_) == u), imp(lnot(nv), rd(D, t_) == rd(z.g("DST"), u))), [rd(D, t_)]), forall(k_, land(imp(nv, rd(O, k_) == rd(SRC, rd(M, k_))), imp(lnot(nv), rd(O, k_) == rd(SRC, rd(M, rd(Z, k_))))), [rd(O, k_)])]
    def post(s, o, n, r):
        T = o.T; i = z3.Int("i!"); D, O = n.g("DST"), n.g("ORG")
        row = lambda i, k: land(0 <= i, i < T.n, rd(r.p.A, i) <= k, k < rd(r.p.A, i + 1))
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == T.n, r.m == T.m)), ("field", r.field.p == T.field.p)]
        P += [("each column once per row", forall([i, k_, t_], imp(land(row(i, k_), k_ < t_, t_ < rd(r.p.A, i + 1)), rd(r.j.A, k_) != rd(r.j.A, t_)), [z3.MultiPattern(rd(r.p.A, i), rd(r.j.A, k_), rd(r.j.A, t_))])),
              ("every entry comes from a triplet", forall([i, k_], imp(row(i, k_), land(0 <= rd(O, k_), rd(O, k_) < T.nz, rd(T.i.A, rd(O, k_)) == i, rd(T.j.A, rd(O, k_)) == rd(r.j.A, k_))), [z3.MultiPattern(rd(r.p.A, i), rd(O, k_))]))]
        there = lambda t: land(row(rd(T.i.A, t), rd(D, t)), rd(r.j.A, rd(D, t)) == rd(T.j.A, t))
        if T.x.isnull() or r.x.isnull():
            return P + [("every triplet is there", forall(t_, imp(land(0 <= t_, t_ < T.nz), there(t_)), [rd(D, t_)]))]
        ts = lambda i, j: tsum(T.i.A, T.j.A, T.x.A, i, j, T.nz); p = T.field.p; nn = lnot(r.x.null)
        return P + [("values iff the triplets have values", r.x.null == T.x.null),
              ("every triplet is there (pattern)", imp(r.x.null, forall(t_, imp(land(0 <= t_, t_ < T.nz), there(t_)), [rd(D, t_)]))),
              ("every triplet is there, or its position sums to zero", imp(nn, forall(t_, imp(land(0 <= t_, t_ < T.nz), lor(there(t_), z0(p, ts(rd(T.i.A, t_), rd(T.j.A, t_))))), [rd(D, t_)]))),
              ("values are the sums", imp(nn, forall([i, k_], imp(row(i, k_), z0(p, ts(i, rd(r.j.A, k_)) - rd(r.x.A, k_))), [z3.MultiPattern(rd(r.p.A, i), rd(r.x.A, k_))]))),
              ("no stored zero", imp(nn, forall(k_, imp(land(0 <= k_, k_ < rd(r.p.A, r.n)), rd(r.x.A, k_) != 0), [rd(r.x.A, k_)]))),
              ("canonical values", imp(nn, canon_arr(p, r.x.A, rd(r.p.A, r.n)))),
              ("coefficients are the sums", imp(nn, Compress.coefs(o, r)))]
    def coefs(o, r):
        T = o.T; i = z3.Int("i!"); p = T.field.p; ts = lambda i, j: tsum(T.i.A, T.j.A, T.x.A, i, j, T.nz); co = rs(r.j.A, r.x.A, rd(r.p.A, i), j_, rd(r.p.A, i + 1))
        return forall([i, j_], imp(land(0 <= i, i < T.n), z0(p, ts(i, j_) - co)), [[ts(i, j_)], [co]])
    def cuts(s, o, v, r):
        T = o.T; i, q = z3.Ints("i! q!"); p = T.field.p
        if T.x.isnull() or r.x.isnull(): return []
        ts = lambda i, j: tsum(T.i.A, T.j.A, T.x.A, i, j, T.nz); nn = lnot(r.x.null); row = (r.j.A, r.x.A, rd(r.p.A, i)); hi = rd(r.p.A, i + 1); D = z3.Const("compress.DST", ARR)
        co = rs(*row, j_, hi); there = lambda t: land(rd(r.p.A, rd(T.i.A, t)) <= rd(D, t), rd(D, t) < rd(r.p.A, rd(T.i.A, t) + 1), rd(r.j.A, rd(D, t)) == rd(T.j.A, t))
        inrow = lambda i, k: land(0 <= i, i < T.n, rd(r.p.A, i) <= k, k < rd(r.p.A, i + 1)); PP = [[ts(i, j_)], [co]]
        return [("each column once per row", forall([i, k_, t_], imp(land(inrow(i, k_), k_ < t_, t_ < rd(r.p.A, i + 1)), rd(r.j.A, k_) != rd(r.j.A, t_)), [z3.MultiPattern(rd(r.p.A, i), rd(r.j.A, k_), rd(r.j.A, t_))])),
                ("values are the sums", imp(nn, forall([i, k_], imp(inrow(i, k_), z0(p, ts(i, rd(r.j.A, k_)) - rd(r.x.A, k_))), [z3.MultiPattern(rd(r.p.A, i), rd(r.x.A, k_))]))),
                ("every triplet is there, or its position sums to zero", imp(nn, forall(t_, imp(land(0 <= t_, t_ < T.nz), lor(there(t_), z0(p, ts(rd(T.i.A, t_), rd(T.j.A, t_))))), [rd(T.i.A, t_)]))),
                ("+", forall([i, j_], land(RsNone.inst(*row, j_, hi), TsNone.inst(T.i.A, T.j.A, T.x.A, i, j_, T.nz), Z0Eq.inst(p, I(0), ts(i, j_) - co), Z0Eq.inst(p, ts(i, j_), ts(i, j_) - co)), PP)), ("+", z0_intro(p, I(0), I(0))),
                ("+", forall([i, q], land(RsOne.inst(r.j.A, r.x.A, q, rd(r.p.A, i), rd(r.j.A, q), hi), imp(inrow(i, q), z0(p, ts(i, rd(r.j.A, q)) - rd(r.x.A, q)))), [z3.MultiPattern(rd(r.p.A, i), rd(r.j.A, q))])),
                ("entries", imp(nn, forall([i, q], imp(inrow(i, q), rs(*row, rd(r.j.A, q), hi) == rd(r.x.A, q)), [z3.MultiPattern(rd(r.p.A, i), rd(r.j.A, q))]))),
                ("coefficients are the sums", imp(nn, Compress.coefs(o, r)))]
    def C(v): T = v.old.T; return [("C", land(v.C.n == T.n, v.C.m == T.m, v.C.nzmax == T.nz))]
    def total(o): return CsTotal.inst(o.T.i.A, o.T.n, o.T.nz)
    def counts(v):
        T = v.old.T
        return [("counts", forall(j_, imp(land(0 <= j_, j_ < T.n), rd(v.w.A, j_) == cnt(T.i.A, j_, v.it)), [rd(v.w.A, j_)])), ("it", v.it <= T.nz)]
    def prefix(v):
        T = v.old.T; nz = T.nz; w, Cp, k = v.w.A, v.Cp.A, v.k
        return Compress.C(v) + [("sum", land(v.sum == cs(T.i.A, nz, k), k <= T.n)), ("starts", forall(j_, imp(land(0 <= j_, j_ < k), rd(Cp, j_) == cs(T.i.A, nz, j_)), [rd(Cp, j_)])), ("nonneg", v.sum >= 0),
            ("below", forall(j_, imp(land(0 <= j_, j_ < k), land(0 <= rd(Cp, j_), rd(Cp, j_) <= v.sum)), [rd(Cp, j_)])), ("monotone", monotone(Cp, k - 1)),
            ("steps", forall(j_, imp(land(0 <= j_, j_ < k), z3.If(j_ + 1 < k, rd(Cp, j_ + 1), v.sum) == rd(Cp, j_) + cnt(T.i.A, j_, nz)), [rd(w, j_)])),
            ("cursors", forall(j_, imp(land(0 <= j_, j_ < T.n), rd(w, j_) == z3.If(j_ < k, rd(Cp, j_), cnt(T.i.A, j_, nz))), [rd(w, j_)])), ("first", imp(k > 0, rd(Cp, I(0)) == 0))]
    def disp(v):
        T = v.old.T; nz = T.nz; k = v.k; w, Cp, Cj = v.w.A, v.Cp.A, v.Cj.A; POS, SRC = v.g("POS"), v.g("SRC"); i = z3.Int("i!")
        R = Compress.C(v) + [("first", rd(Cp, I(0)) == 0), ("end", rd(Cp, T.n) == nz), ("monotone", monotone(Cp, T.n)), ("steps", forall(j_, imp(land(0 <= j_, j_ < T.n), rd(Cp, j_ + 1) == rd(Cp, j_) + cnt(T.i.A, j_, nz)), [rd(w, j_)])),
            ("cursors", forall(j_, imp(land(0 <= j_, j_ < T.n), land(rd(w, j_) == rd(Cp, j_) + cnt(T.i.A, j_, k), rd(w, j_) <= rd(Cp, j_ + 1), rd(w, j_) >= rd(Cp, j_))), [rd(w, j_)])), ("k", k <= nz),
            ("in its row", forall(t_, imp(land(0 <= t_, t_ < k), land(rd(Cp, rd(T.i.A, t_)) <= rd(POS, t_), rd(POS, t_) < rd(w, rd(T.i.A, t_)), rd(Cj, rd(POS, t_)) == rd(T.j.A, t_))), [rd(POS, t_)])),
            ("origin", forall([i, k_], imp(land(0 <= i, i < T.n, rd(Cp, i) <= k_, k_ < rd(w, i)), land(0 <= rd(SRC, k_), rd(SRC, k_) < k, rd(T.i.A, rd(SRC, k_)) == i, rd(Cj, k_) == rd(T.j.A, rd(SRC, k_)))), [[rd(Cp, i), rd(SRC, k_)], [rd(Cp, i), rd(Cj, k_)]]))]
        if not v.C.x.isnull() and not T.x.isnull():
            nn = lnot(v.C.x.null); X = v.C.x.A
            R += [("canonical values", imp(nn, forall([i, k_], imp(land(0 <= i, i < T.n, rd(Cp, i) <= k_, k_ < rd(w, i)), canonp(T.field.p, rd(X, k_))), [z3.MultiPattern(rd(Cp, i), rd(X, k_))]))),
                  ("row sums", imp(nn, forall([i, j_], imp(land(0 <= i, i < T.n), rs(Cj, X, rd(Cp, i), j_, rd(w, i)) == tsum(T.i.A, T.j.A, T.x.A, i, j_, k)), [tsum(T.i.A, T.j.A, T.x.A, i, j_, k)])))]
        return R
    def disp_end(h, e):
        T = h.old.T; i = z3.Int("i!"); k = h.k; r = rd(T.i.A, k); q = rd(h.w.A, r)
        out = [forall(j_, cnt.unfold(T.i.A, j_, k), [cnt(T.i.A, j_, k + 1)]), forall(j_, CntMono.inst(T.i.A, j_, k + 1, T.nz), [rd(h.w.A, j_)])]
        if not h.C.x.isnull() and not T.x.isnull():
            out += [forall([i, j_], land(tsum.unfold(T.i.A, T.j.A, T.x.A, i, j_, k), RsStore.inst(h.Cj.A, h.C.x.A, q, rd(T.j.A, k), rd(T.x.A, k), rd(h.Cp.A, i), j_, rd(h.w.A, i)),
                      rs.unfold(e.Cj.A, e.C.x.A, rd(h.Cp.A, i), j_, rd(h.w.A, i)), rd(h.w.A, i) == rd(h.w.A, i)), [tsum(T.i.A, T.j.A, T.x.A, i, j_, k + 1)])]
        return out
    def disp_cut(h, e):
        T = h.old.T; i = z3.Int("i!"); r = rd(T.i.A, h.k); q = rd(h.w.A, r); Cp = h.Cp.A
        return [("slot", land(rd(Cp, r) <= q, q < rd(Cp, r + 1))), ("other rows", forall(i, imp(land(0 <= i, i < T.n, i != r), lor(q >= rd(h.w.A, i), q < rd(Cp, i))), [[rd(h.w.A, i)], [rd(Cp, i)]]))]
    def disp_pre(v):
        T = v.old.T; i = z3.Int("i!")
        out = [Compress.total(v.old), forall(j_, CntRange.inst(T.i.A, j_, T.nz), [rd(v.w.A, j_)]), forall(j_, cnt.zero(T.i.A, j_), [rd(v.w.A, j_)])]
        if not v.C.x.isnull() and not T.x.isnull():
            out += [forall([i, j_], land(tsum.zero(T.i.A, T.j.A, T.x.A, i, j_), rs.zero(v.Cj.A, v.C.x.A, rd(v.Cp.A, i), j_)), [tsum(T.i.A, T.j.A, T.x.A, i, j_, I(0))])]
        return out
    def disp_exit(v):
        T = v.old.T; i = z3.Int("i!")
        if v.C.x.isnull() or T.x.isnull(): return rowfacts(v.Cp.A, T.n, [v.Cj.A])
        return rowfacts(v.Cp.A, T.n, [v.Cj.A, v.C.x.A]) + [forall([i, j_], tsum(T.i.A, T.j.A, T.x.A, i, j_, T.nz) == tsum(T.i.A, T.j.A, T.x.A, i, j_, T.nz), [rs(v.Cj.A, v.C.x.A, rd(v.Cp.A, i), j_, rd(v.Cp.A, i + 1))])]
    def disp_full(v):
        T = v.old.T; Cp, Cj = v.Cp.A, v.Cj.A
        R = [("filled", forall(j_, imp(land(0 <= j_, j_ < T.n), rd(v.w.A, j_) == rd(Cp, j_ + 1)), [rd(v.w.A, j_)])), ("columns", forall(k_, imp(land(0 <= k_, k_ < rd(Cp, T.n)), land(0 <= rd(Cj, k_), rd(Cj, k_) < T.m)), [rd(Cj, k_)]))]
        if not v.C.x.isnull() and not T.x.isnull():
            R.append(("canonical", imp(lnot(v.C.x.null), canon_arr(T.field.p, v.C.x.A, rd(Cp, T.n)))))
        return R
    G = {"POS": ARR, "SRC": ARR}
    loops = {"0": Loop(inv=lambda v: [("zero", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.w.A, k_) == 0), [rd(v.w.A, k_)]))], exit=lambda v: [forall(j_, cnt.zero(v.old.T.i.A, j_), [rd(v.w.A, j_)])]),
             "1": Loop(inv=counts, head=lambda v: [forall(j_, cnt.unfold(v.old.T.i.A, j_, v.it), [rd(v.w.A, j_)]), forall(j_, CntRange.inst(v.old.T.i.A, j_, v.it), [rd(v.w.A, j_)])]),
             "2": Loop(inv=prefix, pre=lambda v: [cs.zero(v.old.T.i.A, v.old.T.nz)],
                       head=lambda v: [cs.unfold(v.old.T.i.A, v.old.T.nz, v.k), CntRange.inst(v.old.T.i.A, v.k, v.old.T.nz), CsTotal.inst(v.old.T.i.A, v.k, v.old.T.nz), CsTotal.inst(v.old.T.i.A, v.k + 1, v.old.T.nz)],
                       exit=lambda v: [Compress.total(v.old)]),
             "3": Loop(forget=True, cut=disp_cut, cut_exit=disp_full, inv=disp, ghost=G, pre=disp_pre, end=disp_end, exit=disp_exit,
                       head=lambda v: [forall(j_, CntMono.inst(v.old.T.i.A, j_, v.k + 1, v.old.T.nz), [rd(v.w.A, j_)]), forall(j_, cnt.unfold(v.old.T.i.A, j_, v.k), [rd(v.w.A, j_)]), forall(j_, CntRange.inst(v.old.T.i.A, j_, v.k), [rd(v.w.A, j_)]), Compress.total(v.old)],
                       ghost_end=lambda h, e: {"POS": z3.Store(h.g("POS"), h.k, rd(h.w.A, rd(h.old.T.i.A, h.k))), "SRC": z3.Store(h.g("SRC"), rd(h.w.A, rd(h.old.T.i.A, h.k)), h.k)})}
ALL = [RemoveZeroes(), Dedup(), Compress()]
