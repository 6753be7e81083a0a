"""C17: src/spasm_matching.c.
   E[i] locates the entry of A along which row i is matched; C is a set of rows closed under "row -> column -> row matched to it";
   Y / EY is any matching of A (the maximality statement is quantified over it)"""
from dv.lib import *
h_, g_ = z3.Ints("h! g!")
cnt = Def("matched", [ARR], lambda p: (I(0), I(0)), lambda prev, p, n: prev + z3.If(rd(p, n) >= 0, 1, 0))
sel_ = Def("nthmatched", [ARR, Int], lambda p, t: (I(0), I(-1)), lambda prev, p, t, n: z3.If(land(rd(p, n) >= 0, cnt(p, n) == t), n, prev))
CntZero = Lemma("matched_zero", [ARR, Int], lambda p, n: imp(forall(k_, imp(land(0 <= k_, k_ < n), rd(p, k_) < 0), [rd(p, k_)]), cnt(p, n) == 0), lo=lambda p: I(0),
    uses_base=lambda p: [cnt.zero(p)], uses_step=lambda p, n: [cnt.unfold(p, n)])
CntUpd = Lemma("matched_upd", [ARR, ARR, Int, Int], lambda p, q, i, n: imp(forall(k_, imp(land(0 <= k_, k_ < n, k_ != i), (rd(p, k_) >= 0) == (rd(q, k_) >= 0)), [[rd(p, k_)], [rd(q, k_)]]), cnt(q, n) == cnt(p, n) + z3.If(land(0 <= i, i < n), z3.If(rd(q, i) >= 0, 1, 0) - z3.If(rd(p, i) >= 0, 1, 0), 0)), lo=lambda p, q, i: I(0),
    uses_base=lambda p, q, i: [cnt.zero(p), cnt.zero(q)], uses_step=lambda p, q, i, n: [cnt.unfold(p, n), cnt.unfold(q, n)])
CntLe = Lemma("matched_le", [ARR, Int], lambda p, n: land(0 <= cnt(p, n), cnt(p, n) <= n), lo=lambda p: I(0), uses_base=lambda p: [cnt.zero(p)], uses_step=lambda p, n: [cnt.unfold(p, n)])
CntRank = Lemma("matched_rank", [ARR, Int, Int], lambda p, i, n: imp(land(0 <= i, i < n, rd(p, i) >= 0), land(0 <= cnt(p, i), cnt(p, i) < cnt(p, n))), lo=lambda p, i: I(0),
    uses_base=lambda p, i: [cnt.zero(p)], uses_step=lambda p, i, n: [cnt.unfold(p, n), CntLe.inst(p, i), CntLe.inst(p, n), cnt.zero(p)])
SelOk = Lemma("nthmatched_ok", [ARR, Int, Int], lambda p, t, n: imp(land(0 <= t, t < cnt(p, n)), land(0 <= sel_(p, t, n), sel_(p, t, n) < n, rd(p, sel_(p, t, n)) >= 0, cnt(p, sel_(p, t, n)) == t)), lo=lambda p, t: I(0),
    uses_base=lambda p, t: [cnt.zero(p)], uses_step=lambda p, t, n: [cnt.unfold(p, n), sel_.unfold(p, t, n)])
GM = z3.Function("gmap", ARR, ARR, ARR, ARR, Int, ARR); YM = z3.Function("ymap", ARR, Int, ARR)
class M_:
    """matching (p, q) of A located by E"""
    def __init__(s, A, p, q, E=None): s.A, s.p, s.q, s.E = A, p, q, E
    def row(s, i, k): return land(rd(s.A.p.A, i) <= k, k < rd(s.A.p.A, i + 1))
    def valid(s):
        p, q, n, m = s.p, s.q, s.A.n, s.A.m
        return [("rows", forall(i_, imp(land(0 <= i_, i_ < n), land(-1 <= rd(p, i_), rd(p, i_) < m, imp(rd(p, i_) >= 0, rd(q, rd(p, i_)) == i_))), [rd(p, i_)])),
                ("matched along entries", forall(i_, imp(land(0 <= i_, i_ < n, rd(p, i_) >= 0), land(s.row(i_, rd(s.E, i_)), rd(s.A.j.A, rd(s.E, i_)) == rd(p, i_))), [[rd(p, i_)], [rd(s.E, i_)]])),
                ("columns", forall(j_, imp(land(0 <= j_, j_ < m), land(-1 <= rd(q, j_), rd(q, j_) < n, imp(rd(q, j_) >= 0, rd(p, rd(q, j_)) == j_))), [rd(q, j_)]))]
    def closed(s, C): return forall([i_, k_], imp(land(0 <= i_, i_ < s.A.n, rd(C, i_) != 0, s.row(i_, k_)), land(rd(s.q, rd(s.A.j.A, k_)) >= 0, rd(C, rd(s.q, rd(s.A.j.A, k_))) != 0)), [z3.MultiPattern(rd(C, i_), rd(s.A.j.A, k_))])
    def looked(s, L):
        Ap = s.A.p.A
        return [("lookahead range", forall(i_, imp(land(0 <= i_, i_ < s.A.n), land(0 <= rd(L, i_), rd(L, i_) <= rd(Ap, i_ + 1) - rd(Ap, i_))), [rd(L, i_)])),
                ("lookahead matched", forall([i_, k_], imp(land(0 <= i_, i_ < s.A.n, rd(Ap, i_) <= k_, k_ < rd(Ap, i_) + rd(L, i_)), rd(s.q, rd(s.A.j.A, k_)) >= 0), [z3.MultiPattern(rd(L, i_), rd(s.A.j.A, k_))]))]
def rowfit(A): return ("row sizes fit an int", forall(j_, imp(land(0 <= j_, j_ < A.n), rd(A.p.A, j_ + 1) - rd(A.p.A, j_) < (1 << 31)), [rd(A.p.A, j_)]))
class AugPath(Contract):
    name = "spasm_augmenting_path"; file = "spasm_matching.c"; params = ["A", "istart", "istack", "jstack", "pstack", "marks", "plookahead", "p", "qinv"]
    assigns = ("istack", "jstack", "pstack", "marks", "plookahead", "p", "qinv"); spec = {"E": ARR, "C": ARR}; ghost_out = {"E1": ARR, "C1": ARR}
    def pre(s, v):
        A = v.A; n = A.n; M = M_(A, v.p.A, v.qinv.A, v.g("E"))
        return csr_ok(A) + [rowfit(A), ("workspace", land(*[land(v.__getattr__(x).len >= n, v.__getattr__(x).ok) for x in ("istack", "jstack", "pstack", "marks", "plookahead", "p")], v.qinv.len >= A.m, v.qinv.ok)),
            ("start", land(0 <= v.istart, v.istart < n, rd(v.p.A, v.istart) < 0)), ("not marked", forall(i_, imp(land(0 <= i_, i_ < n), rd(v.marks.A, i_) != v.istart), [rd(v.marks.A, i_)])), ("closed", M.closed(v.g("C")))] + M.valid() + M.looked(v.plookahead.A)
    def post(s, o, n, r):
        A = o.A; N = A.n; M = M_(A, n.p.A, n.qinv.A, n.g("E1")); C1, C = n.g("C1"), o.g("C")
        return [("0 or 1", lor(r == 0, r == 1))] + M.valid() + M.looked(n.plookahead.A) + [("matched rows", forall(i_, imp(land(0 <= i_, i_ < N, i_ != o.istart), (rd(n.p.A, i_) >= 0) == (rd(o.p.A, i_) >= 0)), [rd(n.p.A, i_)])), ("start matched on success", (rd(n.p.A, o.istart) >= 0) == (r != 0)),
            ("marks", forall(i_, lor(rd(n.marks.A, i_) == rd(o.marks.A, i_), rd(n.marks.A, i_) == o.istart), [rd(n.marks.A, i_)])), ("closed", M.closed(C1)), ("closed set grows", forall(i_, imp(land(0 <= i_, i_ < N, rd(C, i_) != 0), rd(C1, i_) != 0), [rd(C1, i_)])), ("failed start", imp(r == 0, rd(C1, o.istart) != 0))]
    def ghosts0(s, v): return {"LOC": z3.K(Int, I(-1)), "JP": z3.K(Int, I(-1)), "D": v.g("C"), "E": v.g("E"), "CUR": I(0), "LJ": z3.K(Int, I(-1))}
    def witness(s, v): r = v._res; C, D = v._ex.specs["C"], v._st.ghost["D"]; return {"E1": v._st.ghost["E"], "C1": (D if cv(r) == 0 else C) if isc(r) else v.let("C1", z3.If(r == 0, D, C))}
    def dfs(v):
        o = v.old; A = o.A; n = A.n; Ap, Aj = A.p.A, A.j.A; S, J, PS, K = v.istack.A, v.jstack.A, v.pstack.A, v.marks.A; LOC, JP, D, C = v.g("LOC"), v.g("JP"), v._st.ghost["D"], o.g("C"); head = v.head; st = o.istart
        M = M_(A, o.p.A, o.qinv.A); q = o.qinv.A; mk = lambda i: rd(K, i) == st; top = rd(S, head); fine = lambda k: land(rd(q, rd(Aj, k)) >= 0, lor(mk(rd(q, rd(Aj, k))), land(head >= 0, rd(q, rd(Aj, k)) == top))); stk = lambda h: land(0 <= h, h <= head)
        return [("unchanged", land(v.p.A == o.p.A, v.qinv.A == o.qinv.A)), ("head", land(-1 <= head, head < n)), ("distinct", inj(S, head + 1)), ("rows", into(S, head + 1, n)), ("places", forall(h_, imp(stk(h_), rd(LOC, rd(S, h_)) == h_), [rd(S, h_)])),
            ("below the top marked", forall(h_, imp(land(0 <= h_, h_ < head), mk(rd(S, h_))), [rd(S, h_)])), ("start", lor(mk(st), head == 0)), ("bottom", imp(head >= 0, rd(S, I(0)) == st)),
            ("marks", forall(i_, lor(rd(K, i_) == rd(o.marks.A, i_), rd(K, i_) == st), [rd(K, i_)])), 
            ("columns of marked rows", forall([i_, k_], imp(land(0 <= i_, i_ < n, mk(i_), M.row(i_, k_)), rd(q, rd(Aj, k_)) >= 0), [z3.MultiPattern(rd(K, i_), rd(Aj, k_))])),
            ("cursors", forall(h_, imp(land(stk(h_), mk(rd(S, h_))), land(0 <= rd(PS, h_), rd(PS, h_) <= rd(Ap, rd(S, h_) + 1) - rd(Ap, rd(S, h_)))), [rd(S, h_)])),
            ("scanned", forall([h_, k_], imp(land(stk(h_), mk(rd(S, h_)), rd(Ap, rd(S, h_)) <= k_, k_ < rd(Ap, rd(S, h_)) + rd(PS, h_)), fine(k_)), [z3.MultiPattern(rd(S, h_), rd(Aj, k_))])),
            ("done", forall([i_, k_], imp(land(0 <= i_, i_ < n, mk(i_), M.row(i_, k_), lnot(land(stk(rd(LOC, i_)), rd(S, rd(LOC, i_)) == i_))), fine(k_)), [z3.MultiPattern(rd(K, i_), rd(Aj, k_))])),
            ("path", forall(h_, imp(land(0 <= h_, h_ < head), land(M.row(rd(S, h_), rd(JP, h_)), rd(Aj, rd(JP, h_)) == rd(J, h_), rd(q, rd(J, h_)) == rd(S, h_ + 1))), [[rd(S, h_)], [rd(J, h_)]])),
            ("matched above the start", forall(h_, imp(land(0 < h_, h_ <= head), land(rd(o.p.A, rd(S, h_)) == rd(J, h_ - 1), rd(J, h_ - 1) >= 0)), [rd(S, h_)])),
            ("chain", forall([h_, g_], imp(land(0 <= h_, h_ < g_, g_ <= head, rd(C, rd(S, h_)) != 0), rd(C, rd(S, g_)) != 0), [z3.MultiPattern(rd(S, h_), rd(S, g_))])),
            ("visited", forall(i_, imp(land(0 <= i_, i_ < n), (rd(D, i_) != 0) == lor(rd(C, i_) != 0, mk(i_))), [[rd(D, i_)], [rd(K, i_)]]))] + [x for x in M.looked(v.plookahead.A)]
    def push(v): return {"LOC": z3.Store(v.g("LOC"), rd(v.istack.A, v.head), v.head)}
    def step(h, e):
        pu = e.head > h.head
        return {"LOC": z3.If(pu, z3.Store(h.g("LOC"), rd(e.istack.A, e.head), e.head), h.g("LOC")), "JP": z3.If(pu, z3.Store(h.g("JP"), h.head, e.px), h.g("JP")), "D": z3.Store(h._st.ghost["D"], rd(h.istack.A, h.head), I(1))}
    def cut(h, e):
        o = h.old; A = o.A; Aj = A.j.A; q = o.qinv.A; i = rd(h.istack.A, h.head); st = o.istart; K = e.marks.A; M = M_(A, o.p.A, q)
        return [("top marked", rd(K, i) == st), ("marks", forall(i_, lor(i_ == i, rd(K, i_) == rd(h.marks.A, i_)), [rd(K, i_)])), ("new row", imp(e.head > h.head, land(rd(K, rd(e.istack.A, e.head)) != st, M.row(i, e.px), rd(e.istack.A, e.head) == rd(q, rd(Aj, e.px))))),
                ("room", imp(e.head > h.head, e.head < A.n)), ("row done", imp(e.head < h.head, forall(k_, imp(M.row(i, k_), land(rd(q, rd(Aj, k_)) >= 0, rd(K, rd(q, rd(Aj, k_))) == st)), [rd(Aj, k_)])))]
    def end(h, e): return [Room.inst(h.istack.A, h.head + 1, h.old.A.n, rd(e.istack.A, e.head))]
    def roomhead(v):
        n = v.old.A.n; return [forall(i_, Room.inst(v.istack.A, v.head + 1, n, i_), [rd(v.marks.A, i_)])]
    def look(v, e):
        o = v.old; A = o.A; Ap, Aj = A.p.A, A.j.A
        return [("unchanged", land(v.p.A == o.p.A, v.qinv.A == o.qinv.A, v.plookahead.A == e.plookahead.A, v.jstack.A == e.jstack.A)), ("px", land(rd(Ap, v.i) <= v.px, v.px <= rd(Ap, v.i + 1), v._st.ghost["CUR"] == v.px)), ("matched so far", forall(k_, imp(land(rd(Ap, v.i) <= k_, k_ < v.px), rd(v.qinv.A, rd(Aj, k_)) >= 0), [rd(Aj, k_)]))]
    def scan(v, e):
        o = v.old; A = o.A; Ap, Aj = A.p.A, A.j.A; q = o.qinv.A; i = v.i
        return [("nothing pushed yet", land(v.head == e.head, v.istack.A == e.istack.A, v.jstack.A == e.jstack.A, v.pstack.A == e.pstack.A)), ("px", land(rd(Ap, i) + rd(e.pstack.A, e.head) <= v.px, v.px <= rd(Ap, i + 1))),
                ("seen", forall(k_, imp(land(rd(Ap, i) <= k_, k_ < v.px), lor(k_ < rd(Ap, i) + rd(e.pstack.A, e.head), land(rd(q, rd(Aj, k_)) >= 0, rd(v.marks.A, rd(q, rd(Aj, k_))) == o.istart))), [rd(Aj, k_)]))]
    def augm(v, e):
        o = v.old; A = o.A; S, J = v.istack.A, v.jstack.A; head, px = v.head, v.px; JP, LJ, E = v.g("JP"), v.g("LJ"), v._st.ghost["E"]; LOC = v.g("LOC"); E0 = o.g("E"); done = lambda h: land(px < h, h <= head)
        return [("px", land(-1 <= px, px <= head)), ("done", forall(h_, imp(done(h_), land(rd(v.p.A, rd(S, h_)) == rd(J, h_), rd(v.qinv.A, rd(J, h_)) == rd(S, h_), rd(E, rd(S, h_)) == rd(JP, h_))), [[rd(S, h_)], [rd(J, h_)]])),
                ("other rows", forall(i_, lor(land(rd(v.p.A, i_) == rd(o.p.A, i_), rd(E, i_) == rd(E0, i_)), land(done(rd(LOC, i_)), rd(S, rd(LOC, i_)) == i_)), [[rd(v.p.A, i_)], [rd(E, i_)]])),
                ("other columns", forall(j_, lor(rd(v.qinv.A, j_) == rd(o.qinv.A, j_), land(done(rd(LJ, j_)), rd(J, rd(LJ, j_)) == j_)), [rd(v.qinv.A, j_)]))]
    def augpre(v):
        o = v.old; J, S = v.jstack.A, v.istack.A; head = v.head; q = o.qinv.A; C = o.g("C"); A = o.A; M = M_(A, o.p.A, q); JP = v.g("JP")
        return [("last column free", land(rd(q, rd(J, head)) < 0, M.row(rd(S, head), rd(JP, head)), rd(A.j.A, rd(JP, head)) == rd(J, head))), ("path", forall(h_, imp(land(0 <= h_, h_ < head), land(M.row(rd(S, h_), rd(JP, h_)), rd(A.j.A, rd(JP, h_)) == rd(J, h_), rd(q, rd(J, h_)) == rd(S, h_ + 1))), [[rd(S, h_)], [rd(J, h_)]])),
                ("entries", forall(h_, imp(land(0 <= h_, h_ <= head), land(M.row(rd(S, h_), rd(JP, h_)), rd(A.j.A, rd(JP, h_)) == rd(J, h_), 0 <= rd(J, h_), rd(J, h_) < A.m)), [[rd(S, h_)], [rd(J, h_)]])),
                ("columns distinct", inj(J, head + 1)), ("top outside the closed set", rd(C, rd(S, head)) == 0), ("path outside the closed set", forall(h_, imp(land(0 <= h_, h_ <= head), rd(C, rd(S, h_)) == 0), [rd(S, h_)]))]
    def augcut(v):
        o = v.old; A = o.A; C = o.g("C"); q = o.qinv.A; S, J = v.istack.A, v.jstack.A; LOC, LJ = v.g("LOC"), v.g("LJ"); head = v.head
        return [("changed rows", forall(i_, imp(land(0 <= i_, i_ < A.n, rd(v.p.A, i_) != rd(o.p.A, i_)), land(0 <= rd(LOC, i_), rd(LOC, i_) <= head, rd(S, rd(LOC, i_)) == i_)), [rd(v.p.A, i_)])),
                ("path rows", forall(h_, imp(land(0 <= h_, h_ <= head), land(rd(v.p.A, rd(S, h_)) == rd(J, h_), rd(v.qinv.A, rd(J, h_)) == rd(S, h_))), [[rd(S, h_)], [rd(J, h_)]])), ("old columns of the path", forall(h_, imp(land(0 < h_, h_ <= head), land(rd(o.p.A, rd(S, h_)) == rd(J, h_ - 1), rd(J, h_ - 1) >= 0, rd(v.qinv.A, rd(J, h_ - 1)) == rd(S, h_ - 1))), [rd(S, h_)])),
                ("matched columns stay matched", forall(j_, imp(land(0 <= j_, j_ < A.m, rd(q, j_) >= 0), rd(v.qinv.A, j_) >= 0), [rd(v.qinv.A, j_)])),
                ("columns of the closed set stay", forall(j_, imp(land(0 <= j_, j_ < A.m, rd(q, j_) >= 0, rd(C, rd(q, j_)) != 0), rd(v.qinv.A, j_) == rd(q, j_)), [rd(v.qinv.A, j_)]))]
    loops = {"0": Loop(inv=dfs, ghost={"LOC": ARR, "JP": ARR, "D": ARR}, ghost_init=push, ghost_end=step, cut=cut, end=end, head=roomhead),
             "0.0": Loop(inv=look, ghost={"CUR": Int}, ghost_init=lambda v: {"CUR": v.px}, ghost_end=lambda h, e: {"CUR": h._st.ghost["CUR"] + 1}),
             "0.0.0": Loop(inv=augm, ghost={"E": ARR, "LJ": ARR}, ghost_init=lambda v: {"JP": z3.Store(v.g("JP"), v.head, v._st.ghost["CUR"])}, ghost_end=lambda h, e: {"E": z3.Store(h._st.ghost["E"], rd(h.istack.A, h.px), rd(h.g("JP"), h.px)), "LJ": z3.Store(h.g("LJ"), rd(h.jstack.A, h.px), h.px)}, cut_pre=augpre, cut_exit=augcut),
             "0.1": Loop(inv=scan)}
class _Max(Lemma):
    """no matching Y (along EY) has more rows than (p, q), when C is closed and holds every unmatched row: rows outside C to themselves, rows of C to the row matched to their column"""
    def __init__(s):
        def hyps(A, p, q, C, Y, EY):
            n, m = A.n, A.m; M = M_(A, p, q, p)
            return land(n >= 0, m >= 0, *[f for nm, f in M.valid() if nm != "matched along entries"], matching(A, Y, EY), M.closed(C), forall(i_, imp(land(0 <= i_, i_ < n, rd(p, i_) < 0), rd(C, i_) != 0), [rd(p, i_)]))
        s.hyps = hyps
        class A_: pass
        def mk(ap, aj, n, m):
            A = A_(); A.p, A.j = A_(), A_(); A.p.A, A.j.A, A.n, A.m = ap, aj, n, m; return A
        def stmt(ap, aj, n, m, p, q, C, Y, EY): return imp(hyps(mk(ap, aj, n, m), p, q, C, Y, EY), cnt(Y, n) <= cnt(p, n))
        def uses(ap, aj, n, m, p, q, C, Y, EY):
            g = GM(p, q, C, Y, n); sl = lambda t: sel_(Y, t, n); f = lambda i: z3.If(rd(C, i) != 0, rd(q, rd(Y, i)), i)
            return [forall(t_, imp(land(0 <= t_, t_ < cnt(Y, n)), rd(g, t_) == cnt(p, f(sl(t_)))), [rd(g, t_)]), forall(t_, SelOk.inst(Y, t_, n), [rd(g, t_)]),
                    forall(t_, imp(land(0 <= t_, t_ < cnt(Y, n)), land(rd(Y, sl(t_)) == rd(aj, rd(EY, sl(t_))), rd(p, f(sl(t_))) >= 0, 0 <= f(sl(t_)), f(sl(t_)) < n)), [rd(g, t_)]),
                    forall(i_, imp(n >= 0, CntRank.inst(p, i_, n)), [cnt(p, i_)]), forall([i_, k_], imp(land(0 <= i_, i_ < k_), imp(rd(p, i_) >= 0, cnt(p, i_) < cnt(p, k_))), [z3.MultiPattern(cnt(p, i_), cnt(p, k_))]), Pigeon.inst(g, cnt(Y, n), cnt(p, n)), CntLe.inst(p, n), CntLe.inst(Y, n)]
        Lemma.__init__(s, "matching_max", [ARR, ARR, Int, Int, ARR, ARR, ARR, ARR, ARR], stmt, induct=False, uses=uses)
def matching(A, Y, EY):
    return land(forall(i_, imp(land(0 <= i_, i_ < A.n, rd(Y, i_) >= 0), land(rd(Y, i_) < A.m, rd(A.p.A, i_) <= rd(EY, i_), rd(EY, i_) < rd(A.p.A, i_ + 1), rd(A.j.A, rd(EY, i_)) == rd(Y, i_))), [rd(Y, i_)]),
                forall([i_, k_], imp(land(0 <= i_, i_ < k_, k_ < A.n, rd(Y, i_) >= 0), rd(Y, i_) != rd(Y, k_)), [z3.MultiPattern(rd(Y, i_), rd(Y, k_))]))
MaxLemma = _Max()
YCols = Lemma("matching_columns", [ARR, Int, Int], lambda Y, n, m: imp(land(n >= 0, m >= 0, forall(i_, imp(land(0 <= i_, i_ < n, rd(Y, i_) >= 0), rd(Y, i_) < m), [rd(Y, i_)]), forall([i_, k_], imp(land(0 <= i_, i_ < k_, k_ < n, rd(Y, i_) >= 0), rd(Y, i_) != rd(Y, k_)), [z3.MultiPattern(rd(Y, i_), rd(Y, k_))])), cnt(Y, n) <= m), induct=False,
    uses=lambda Y, n, m: [forall(t_, imp(land(0 <= t_, t_ < cnt(Y, n)), rd(YM(Y, n), t_) == rd(Y, sel_(Y, t_, n))), [rd(YM(Y, n), t_)]), forall(t_, SelOk.inst(Y, t_, n), [rd(YM(Y, n), t_)]), Pigeon.inst(YM(Y, n), cnt(Y, n), m), CntLe.inst(Y, n)])
class MaxMatching(Contract):
    name = "spasm_maximum_matching"; file = "spasm_matching.c"; params = ["A", "p", "qinv"]
    assigns = ("p", "qinv"); spec = {"Y": ARR, "EY": ARR}; ghost_out = {"E": ARR}
    def pre(s, v): A = v.A; return csr_ok(A) + [rowfit(A), ("p", land(v.p.len >= A.n, v.p.ok)), ("qinv", land(v.qinv.len >= A.m, v.qinv.ok))]
    def post(s, o, n, r):
        A = o.A
        return M_(A, n.p.A, n.qinv.A, n.g("E")).valid() + [("size", r == cnt(n.p.A, A.n)), ("maximum", imp(matching(A, n.g("Y"), n.g("EY")), cnt(n.g("Y"), A.n) <= r))]
    def ghosts0(s, v): return {"E": z3.K(Int, I(-1)), "C": z3.K(Int, I(0))}
    def witness(s, v): return {"E": v._st.ghost["E"]}
    def spec_spasm_augmenting_path(s, v, o): return {"E": v._st.ghost["E"], "C": v._st.ghost["C"]}
    def inv(v):
        o = v.old; A = o.A; n = A.n; p = v.p.A; M = M_(A, p, v.qinv.A, v._st.ghost["E"]); C = v._st.ghost["C"]
        return [("i", land(v.i <= n, v.k <= v.r)), ("size", v.k == cnt(p, n))] + M.valid() + M.looked(v.plookahead.A) + [("marks", forall(i_, imp(land(0 <= i_, i_ < n), rd(v.marks.A, i_) < v.i), [rd(v.marks.A, i_)])), ("closed", M.closed(C)),
            ("failed rows", forall(i_, imp(land(0 <= i_, i_ < v.i, rd(p, i_) < 0), rd(C, i_) != 0), [rd(p, i_)])), ("rows to come", forall(i_, imp(land(v.i <= i_, i_ < n), rd(p, i_) < 0), [rd(p, i_)]))]
    def ghost_end(h, e):
        c = e.calls("spasm_augmenting_path")
        if len(c) <= len(h.calls("spasm_augmenting_path")): return {}
        return {"E": c[-1].g("E1"), "C": c[-1].g("C1")}
    def end(h, e): n = h.old.A.n; return [CntUpd.inst(h.p.A, e.p.A, h.i, n), CntLe.inst(e.p.A, n)]
    def facts_exit(s, o, v, r):
        A = o.A; Y, EY = v.g("Y"), v.g("EY"); n = A.n
        return [MaxLemma.inst(A.p.A, A.j.A, n, A.m, v.p.A, v.qinv.A, v._st.ghost["C"], Y, EY), CntLe.inst(Y, n), YCols.inst(Y, n, A.m)]
    loops = {"0": Loop(inv=lambda v: [("unmatched", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.qinv.A, j_) == -1), [rd(v.qinv.A, j_)]))]),
             "1": Loop(inv=lambda v: [("start", forall(i_, imp(land(0 <= i_, i_ < v.i), land(rd(v.p.A, i_) == -1, rd(v.marks.A, i_) == -1, rd(v.plookahead.A, i_) == 0)), [[rd(v.p.A, i_)], [rd(v.marks.A, i_)], [rd(v.plookahead.A, i_)]]))]),
             "2": Loop(inv=inv, ghost={"E": ARR, "C": ARR}, ghost_end=ghost_end, end=end, pre=lambda v: [CntZero.inst(v.p.A, v.old.A.n)])}
def mrow(M, c, i): return z3.If(rd(M, i) == -1, I(-1), c(rd(M, i)))
class PermRow(Contract):
    name = "spasm_permute_row_matching"; file = "spasm_matching.c"; params = ["n", "jmatch", "p", "qinv"]
    def pre(s, v):
        M = v.jmatch
        return [("n", v.n >= 0), ("sizes", land(v.p.len >= v.n, v.p.ok, M.ok, v.qinv.ok)), ("p", forall(k_, imp(land(0 <= k_, k_ < v.n), land(0 <= rd(v.p.A, k_), rd(v.p.A, k_) < M.len)), [rd(v.p.A, k_)])), ("matched", forall(k_, imp(land(0 <= k_, k_ < v.n, rd(M.A, rd(v.p.A, k_)) != -1), land(0 <= rd(M.A, rd(v.p.A, k_)), rd(M.A, rd(v.p.A, k_)) < v.qinv.len)), [rd(v.p.A, k_)]))]
    def is_(o, r, n): return forall(k_, imp(land(0 <= k_, k_ < n), rd(r.A, k_) == mrow(o.jmatch.A, lambda j: rd(o.qinv.A, j), rd(o.p.A, k_))), [rd(r.A, k_)])
    def post(s, o, n, r): return [("size", land(lnot(r.null), r.ok, r.len >= o.n)), ("row i is matched to qinv[match of row p[i]]", PermRow.is_(o, r, o.n))]
    loops = {"0": Loop(inv=lambda v: [("so far", PermRow.is_(v.old, v.jjmatch, v.i))])}
class PermCol(Contract):
    name = "spasm_permute_column_matching"; file = "spasm_matching.c"; params = ["m", "imatch", "pinv", "q"]
    def pre(s, v):
        M = v.imatch
        return [("m", v.m >= 0), ("sizes", land(v.q.len >= v.m, v.q.ok, M.ok, v.pinv.ok)), ("q", forall(k_, imp(land(0 <= k_, k_ < v.m), land(0 <= rd(v.q.A, k_), rd(v.q.A, k_) < M.len)), [rd(v.q.A, k_)])), ("matched", forall(k_, imp(land(0 <= k_, k_ < v.m, rd(M.A, rd(v.q.A, k_)) != -1), land(0 <= rd(M.A, rd(v.q.A, k_)), rd(M.A, rd(v.q.A, k_)) < v.pinv.len)), [rd(v.q.A, k_)]))]
    def is_(o, r, n): return forall(k_, imp(land(0 <= k_, k_ < n), rd(r.A, k_) == mrow(o.imatch.A, lambda j: rd(o.pinv.A, j), rd(o.q.A, k_))), [rd(r.A, k_)])
    def post(s, o, n, r): return [("size", land(lnot(r.null), r.ok, r.len >= o.m)), ("column j is matched to pinv[match of column q[j]]", PermCol.is_(o, r, o.m))]
    loops = {"0": Loop(inv=lambda v: [("so far", PermCol.is_(v.old, v.iimatch, v.j))])}
class SubMatching(Contract):
    """the rows a..b-1 are matched inside the columns c..d-1 or not at all"""
    name = "spasm_submatching"; file = "spasm_matching.c"; params = ["match", "a", "b", "c", "d"]
    def pre(s, v): return [("range", land(0 <= v.a, v.a <= v.b, v.b <= v.match.len, v.match.ok, 0 <= v.c)), ("inside", forall(k_, imp(land(v.a <= k_, k_ < v.b, rd(v.match.A, k_) != -1), land(v.c <= rd(v.match.A, k_), rd(v.match.A, k_) < v.d)), [rd(v.match.A, k_)]))]
    def is_(o, r, n): return forall(k_, imp(land(0 <= k_, k_ < n), rd(r.A, k_) == mrow(o.match.A, lambda j: j - o.c, o.a + k_)), [rd(r.A, k_)])
    def post(s, o, n, r): return [("size", land(lnot(r.null), r.ok, r.len >= o.b - o.a)), ("restricted and shifted", SubMatching.is_(o, r, o.b - o.a))]
    loops = {"0": Loop(inv=lambda v: [("so far", SubMatching.is_(v.old, v.pmatch, v.i - v.a)), ("i", land(v.a <= v.i, v.i <= v.b))])}
from contracts.reach import Room
ALL = [AugPath(), MaxMatching(), PermRow(), PermCol(), SubMatching()]
