"""contracts of the reachability search and of the sparse triangular solver.
   LOC[j]: place of column j in xj (stack or output); SEQ: columns in order of discovery; S: any set closed under the steps of the search;
   RK: any rank function (increasing along the edges) -- where one exists the order of the output is topological"""
from dv.lib import *
from contracts.tri import rowcoef, rowmul, xa
h_, g_ = z3.Ints("h! g!")
class Room(Lemma):
    def __init__(s):
        def stmt(f, c, m, v): return imp(land(inj(f, c), into(f, c, m), forall(k_, imp(land(0 <= k_, k_ < c), rd(f, k_) != v), [rd(f, k_)]), 0 <= v, v < m, c >= 0), c < m)
        Lemma.__init__(s, "room", [ARR, Int, Int, Int], stmt, induct=False, uses=lambda f, c, m, v: [Pigeon.inst(z3.Store(f, c, v), c + 1, m)])
Room = Room()
def off2(m): return add(m, m)
class W_:
    """the workspace of a search seen as stack + output, per-level cursors and marks"""
    def __init__(s, A, m, qinv, S, RK): s.A, s.m, s.qinv, s.S, s.RK = A, m, qinv, S, RK
    def mark(s, X, j): return rd(X, add(off2(s.m), j))
    def pst(s, X, h): return rd(X, add(s.m, h))
    def q(s, j): return rd(s.qinv.A, j)
    def row(s, i, k): return land(rd(s.A.p.A, i) <= k, k < rd(s.A.p.A, i + 1))
    def edge(s, j, k): return land(s.q(j) >= 0, s.row(s.q(j), k))
    def ranked(s): return forall([j_, k_], imp(land(0 <= j_, j_ < s.m, s.edge(j_, k_), rd(s.A.j.A, k_) != j_), rd(s.RK, j_) < rd(s.RK, rd(s.A.j.A, k_))), [z3.MultiPattern(rd(s.qinv.A, j_), rd(s.A.j.A, k_))])
    def closed(s, B, k):
        return land(forall(k_, imp(land(rd(B.p.A, k) <= k_, k_ < rd(B.p.A, k + 1)), rd(s.S, rd(B.j.A, k_)) != 0), [rd(B.j.A, k_)]),
                    forall([j_, k_], imp(land(0 <= j_, j_ < s.m, rd(s.S, j_) != 0, s.edge(j_, k_)), rd(s.S, rd(s.A.j.A, k_)) != 0), [z3.MultiPattern(rd(s.qinv.A, j_), rd(s.A.j.A, k_))]))
    def inv(s, X, LOC, SEQ, head, top, closedS):
        m = s.m; Aj = s.A.j.A; cnt = head + 1 + m - top; stk = lambda h: land(0 <= h, h <= head); out = lambda t: land(top <= t, t < m); topcol = rd(X, head)
        mk = lambda j: s.mark(X, j)
        return [("sizes", land(-1 <= head, head + 1 <= top, top <= m)),
            ("discovered", land(inj(SEQ, cnt), into(SEQ, cnt, m))), ("discovered are marked", forall(t_, imp(land(0 <= t_, t_ < cnt), lor(mk(rd(SEQ, t_)) != 0, land(head >= 0, rd(SEQ, t_) == topcol))), [rd(SEQ, t_)])),
            ("columns", forall(h_, imp(lor(stk(h_), out(h_)), land(0 <= rd(X, h_), rd(X, h_) < m)), [rd(X, h_)])), ("places", forall(h_, imp(lor(stk(h_), out(h_)), rd(LOC, rd(X, h_)) == h_), [rd(X, h_)])),
            ("below the top marked", forall(h_, imp(land(0 <= h_, h_ < head), mk(rd(X, h_)) != 0), [rd(X, h_)])), ("output marked", forall(h_, imp(out(h_), mk(rd(X, h_)) != 0), [rd(X, h_)])),
            ("marked are there", forall(j_, imp(land(0 <= j_, j_ < m, mk(j_) != 0), land(lor(stk(rd(LOC, j_)), out(rd(LOC, j_))), rd(X, rd(LOC, j_)) == j_)), [[rd(LOC, j_)], [mk(j_)]])),
            ("cursors", forall(h_, imp(land(stk(h_), mk(rd(X, h_)) != 0, s.q(rd(X, h_)) >= 0), land(0 <= s.pst(X, h_), s.pst(X, h_) <= rd(s.A.p.A, s.q(rd(X, h_)) + 1) - rd(s.A.p.A, s.q(rd(X, h_))))), [rd(X, h_)])),
            ("seen entries", forall([h_, k_], imp(land(stk(h_), mk(rd(X, h_)) != 0, s.q(rd(X, h_)) >= 0, rd(s.A.p.A, s.q(rd(X, h_))) <= k_, k_ < rd(s.A.p.A, s.q(rd(X, h_))) + s.pst(X, h_)), lor(mk(rd(Aj, k_)) != 0, rd(Aj, k_) == topcol)), [z3.MultiPattern(rd(X, h_), rd(Aj, k_))])),
            ("path", forall(h_, imp(land(0 <= h_, h_ < head), s.q(rd(X, h_)) >= 0), [rd(X, h_)])),
            ("ranks", imp(s.ranked(), forall([h_, g_], imp(land(0 <= h_, h_ < g_, g_ <= head), rd(s.RK, rd(X, h_)) < rd(s.RK, rd(X, g_))), [z3.MultiPattern(rd(X, h_), rd(X, g_))]))),
            ("closed", forall([h_, k_], imp(land(out(h_), s.edge(rd(X, h_), k_)), mk(rd(Aj, k_)) != 0), [z3.MultiPattern(rd(X, h_), rd(Aj, k_))])),
            ("order", imp(s.ranked(), forall([h_, k_], imp(land(out(h_), s.edge(rd(X, h_), k_)), rd(LOC, rd(Aj, k_)) >= h_), [z3.MultiPattern(rd(X, h_), rd(Aj, k_))]))),
            ("only reachable", imp(closedS, forall(h_, imp(lor(stk(h_), out(h_)), rd(s.S, rd(X, h_)) != 0), [rd(X, h_)])))]
    def member(s, X, POS, top, j): return land(top <= rd(POS, j), rd(POS, j) < s.m, rd(X, rd(POS, j)) == j)
def search_pre(A, B, k, xj, qinv):
    m = A.m
    return csr_ok(A) + [("B: " + a, b) for a, b in csr_ok(B)] + [("row", land(0 <= k, k < B.n)), ("columns of B", B.m == m), ("workspace", land(xj.len >= 3 * m, xj.ok)), ("marks clear", forall(j_, imp(land(0 <= j_, j_ < m), rd(xj.A, add(off2(m), j_)) == 0), [rd(xj.A, add(off2(m), j_))])),
        ("qinv", land(qinv.len >= m, qinv.ok, forall(j_, imp(land(0 <= j_, j_ < m), rd(qinv.A, j_) < A.n), [rd(qinv.A, j_)]))), ("small", 3 * m < (1 << 31) - 1), ("row sizes fit an int", forall(j_, imp(land(0 <= j_, j_ < A.n), rd(A.p.A, j_ + 1) - rd(A.p.A, j_) < (1 << 31)), [rd(A.p.A, j_)]))]
def pattern(w, A, B, k, X, POS, top):
    Aj, Bj = A.j.A, B.j.A; m = A.m; out = lambda t: land(top <= t, t < m)
    return [("size", land(0 <= top, top <= m)), ("columns, each once", forall(h_, imp(out(h_), land(0 <= rd(X, h_), rd(X, h_) < m, rd(POS, rd(X, h_)) == h_)), [rd(X, h_)])),
            ("the row's columns are there", forall(k_, imp(land(rd(B.p.A, k) <= k_, k_ < rd(B.p.A, k + 1)), w.member(X, POS, top, rd(Bj, k_))), [rd(Bj, k_)])),
            ("closed", forall([h_, k_], imp(land(out(h_), w.edge(rd(X, h_), k_)), w.member(X, POS, top, rd(Aj, k_))), [z3.MultiPattern(rd(X, h_), rd(Aj, k_))])),
            ("only reachable columns", imp(w.closed(B, k), forall(h_, imp(out(h_), rd(w.S, rd(X, h_)) != 0), [rd(X, h_)]))),
            ("topological order", imp(w.ranked(), forall([h_, k_], imp(land(out(h_), w.edge(rd(X, h_), k_)), rd(POS, rd(Aj, k_)) >= h_), [z3.MultiPattern(rd(X, h_), rd(Aj, k_))]))),
            ("marks clear again", forall(j_, imp(land(0 <= j_, j_ < m), w.mark(X, j_) == 0), [w.mark(X, j_)]))]
class Reach(Contract):
    name = "spasm_reach"; file = "spasm_reach.c"; params = ["A", "B", "k", "l", "xj", "qinv"]
    assigns = ("xj",); spec = {"S": ARR, "RK": ARR}; ghost_out = {"POS": ARR}; may_alias = ()
    def w(v): o = v.old if not v._fo else v; return W_(o.A, o.A.m, o.qinv, v.g("S"), v.g("RK"))
    def pre(s, v): return search_pre(v.A, v.B, v.k, v.xj, v.qinv) + [("l", v.l == v.A.m)]
    def ghosts0(s, v): return {"LOC": z3.K(Int, I(-1)), "SEQ": z3.K(Int, I(0))}
    def witness(s, v): return {"POS": v.g("LOC")}
    def post(s, o, n, r): return pattern(W_(o.A, o.A.m, o.qinv, n.g("S"), n.g("RK")), o.A, o.B, o.k, n.xj.A, n.g("POS"), r)
    def base(v, head, top): w = Reach.w(v); return w.inv(v.xj.A, v.g("LOC"), v.g("SEQ"), head, top, w.closed(v.old.B, v.old.k))
    def outer(v):
        o = v.old; B = o.B; w = Reach.w(v); X = v.xj.A
        return Reach.base(v, I(-1), v.top) + [("row so far", forall(k_, imp(land(rd(B.p.A, o.k) <= k_, k_ < v.px), w.mark(X, rd(B.j.A, k_)) != 0), [rd(B.j.A, k_)])), ("px", land(rd(B.p.A, o.k) <= v.px, v.px <= rd(B.p.A, o.k + 1)))]
    def dfs(v, e):
        o = v.old; B = o.B; w = Reach.w(v); X = v.xj.A; X0 = e.xj.A; st = rd(X0, 0)
        return Reach.base(v, v.head, v.top) + [("marks stay", forall(j_, imp(land(0 <= j_, j_ < w.m, w.mark(X0, j_) != 0), w.mark(X, j_) != 0), [w.mark(X, j_)])),
                ("row so far", forall(k_, imp(land(rd(B.p.A, o.k) <= k_, k_ < v.px), w.mark(X, rd(B.j.A, k_)) != 0), [rd(B.j.A, k_)])),
                ("start", lor(w.mark(X, rd(B.j.A, v.px)) != 0, land(v.head == 0, rd(X, I(0)) == rd(B.j.A, v.px))))]
    def scan(v, e):
        w = Reach.w(v); X = v.xj.A; i = v.i; lo = rd(w.A.p.A, i); k = v.k
        return [("nothing pushed yet", land(v.head == e.head, v.xj.A == e.xj.A)), ("k", land(rd(e.xj.A, add(w.m, e.head)) <= k, k <= v.p2)), ("seen", forall(k_, imp(land(lo <= k_, k_ < lo + k), w.mark(X, rd(w.A.j.A, k_)) != 0), [rd(w.A.j.A, k_)]))]
    def start(v):      # the first column of a search goes on the stack
        return {"LOC": v.g("LOC"), "SEQ": v.g("SEQ")}
    def push(v, head, top):
        """ghosts after xj[head] was pushed"""
        X = v.xj.A; m = v.old.A.m; cnt = head + m - top
        return {"LOC": z3.Store(v.g("LOC"), rd(X, head), head), "SEQ": z3.Store(v.g("SEQ"), cnt, rd(X, head))}
    def step(h, e):
        up = Reach.push(e, e.head, e.top); X = e.xj.A
        pu, po = e.head > h.head, e.head < h.head
        return {"LOC": z3.If(pu, up["LOC"], z3.If(po, z3.Store(h.g("LOC"), rd(X, e.top), e.top), h.g("LOC"))), "SEQ": z3.If(pu, up["SEQ"], h.g("SEQ"))}
    def cut(h, e):
        w = Reach.w(h); X, Y = h.xj.A, e.xj.A; m = w.m; J = rd(X, h.head); po = e.head < h.head; Aj = w.A.j.A
        b = dict(Reach.base(h, h.head, h.top)); a = dict(Reach.base(e, e.head, e.top)); y = rd(Y, e.head); SEQ = h.g("SEQ"); cnt = h.head + 1 + m - h.top; here = land(h.head >= 0, 0 <= J, J < m)
        return [("top", here), ("fresh", imp(lnot(po), land(w.mark(X, y) == 0, y != J, 0 <= y, y < m, e.head == h.head + 1, e.top == h.top))), ("not discovered", imp(lnot(po), forall(t_, imp(land(0 <= t_, t_ < cnt), rd(SEQ, t_) != y), [rd(SEQ, t_)])), ["fresh", b["discovered are marked"], "top"]),
                ("room", imp(lnot(po), land(w.mark(X, y) == 0, h.head + 1 < h.top, y != J)), ["fresh", "not discovered", b["discovered"], b["sizes"], Room.inst(SEQ, cnt, m, y)]), ("popped", imp(po, land(e.head == h.head - 1, e.top == h.top - 1))),
                ("discovered", a["discovered"], ["fresh", "popped", "not discovered", b["discovered"], b["sizes"]]), ("top marked", w.mark(Y, J) != 0), ("marks", forall(j_, imp(land(0 <= j_, j_ < m), land(imp(w.mark(X, j_) != 0, w.mark(Y, j_) != 0), imp(w.mark(Y, j_) != 0, lor(j_ == J, w.mark(X, j_) != 0)))), [w.mark(Y, j_)])),
                ("same stack", forall(h_, imp(land(0 <= h_, h_ <= h.head), rd(Y, h_) == rd(X, h_)), [rd(Y, h_)])), ("same output", forall(h_, imp(land(h.top <= h_, h_ < m), rd(Y, h_) == rd(X, h_)), [rd(Y, h_)])),
                ("same cursors", forall(h_, imp(land(0 <= h_, h_ < h.head), w.pst(Y, h_) == w.pst(X, h_)), [w.pst(Y, h_)])),
                ("popped row seen", imp(po, forall(k_, imp(w.edge(J, k_), w.mark(Y, rd(Aj, k_)) != 0), [rd(Aj, k_)]))),
                ("popped row placed", imp(land(po, w.ranked()), forall(k_, imp(w.edge(J, k_), lor(rd(Aj, k_) == J, land(h.top <= rd(h.g("LOC"), rd(Aj, k_)), rd(h.g("LOC"), rd(Aj, k_)) < m))), [rd(Aj, k_)]))),
                ("pushed", imp(lnot(po), land(w.mark(Y, rd(Y, e.head)) == 0, w.q(J) >= 0, forall(k_, imp(land(rd(w.A.p.A, w.q(J)) <= k_, k_ < rd(w.A.p.A, w.q(J)) + w.pst(Y, h.head)), lor(w.mark(Y, rd(Aj, k_)) != 0, rd(Aj, k_) == rd(Y, e.head))), [rd(Aj, k_)])))),
                ("seen entries", a["seen entries"], ["pushed", "popped", "fresh", "room", "marks", "same stack", "same cursors", "top marked", b["seen entries"], b["below the top marked"], b["sizes"], "top"])]
    def end(h, e): w = Reach.w(h); return [Room.inst(h.g("SEQ"), h.head + 1 + w.m - h.top, w.m, rd(e.xj.A, e.head)), w.mark(h.xj.A, rd(e.xj.A, e.head)) == w.mark(h.xj.A, rd(e.xj.A, e.head))]
    def room(v, head, top):
        w = Reach.w(v); SEQ = v.g("SEQ"); cnt = head + 1 + w.m - top; X = v.xj.A
        return [forall(j_, Room.inst(SEQ, cnt, w.m, j_), [w.mark(X, j_)])]
    def clear(v):
        w = Reach.w(v); X = v.xj.A; m = w.m; LOC = v.g("LOC")
        keep = [x for x in Reach.final(v) if x[0] not in ("marks clear again",)]
        return keep + [("cleared", forall(j_, imp(land(0 <= j_, j_ < m, w.mark(X, j_) != 0), land(v.px <= rd(LOC, j_), rd(LOC, j_) < m, rd(X, rd(LOC, j_)) == j_)), [w.mark(X, j_)])), ("px", land(v.top <= v.px, v.px <= m))]
    def final(v): o = v.old; return pattern(Reach.w(v), o.A, o.B, o.k, v.xj.A, v.g("LOC"), v.top)
    def head0(v): return Reach.room(v, I(-1), v.top)
    loops = {"0": Loop(inv=outer, ghost={"LOC": ARR, "SEQ": ARR}, head=head0, forget=False),
             "0.0": Loop(inv=dfs, ghost={"LOC": ARR, "SEQ": ARR}, ghost_init=lambda v: Reach.push(v, v.head, v.top), ghost_end=step, cut=cut, end=end, head=lambda v: Reach.room(v, v.head, v.top) + [rd(v.xj.A, v.head) == rd(v.xj.A, v.head)], forget=True),
             "0.0.0": Loop(inv=scan),
             "1": Loop(inv=clear)}
ALL = [Reach()]
