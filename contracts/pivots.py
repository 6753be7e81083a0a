"""C11: structural pivots (src/spasm_pivots.c).
   E[i] locates the entry of A that is the pivot of row i; RK[j]: a rank of the pivotal columns, increasing from the pivot of a row to the other pivotal columns of the row
   (its existence is what makes the selected submatrix triangular for some order of the pivots); LO <= RK <= HI on the pivotal columns"""
from dv.lib import *
from contracts.matching import M_, cnt as pcnt, CntUpd, CntZero, CntLe, CntRank, SelOk, sel_, rowfit
from contracts.reach import Room, W_, Reach
from contracts.cert import last
from contracts.copy import CntRange
from contracts.kernel import CntNone
from dv.lib import cnt as vcnt
from contracts.rref import Compr, AA, upper_pre
from contracts.solve import MulMono
from contracts.tri import rowcoef
from contracts.util import triplet_ok, tcanon
h_, g_ = z3.Ints("h! g!")
class PV(M_):
    """pivots (P, Q) of A at the entries E, ranked by RK between LO and HI"""
    def __init__(s, A, p, q, E, RK=None, LO=None, HI=None): M_.__init__(s, A, p, q, E); s.RK, s.LO, s.HI = RK, LO, HI
    def other(s, j, k): return land(0 <= j, j < s.A.m, rd(s.q, j) >= 0, s.row(rd(s.q, j), k), rd(s.A.j.A, k) != j)
    def ranked(s): c = rd(s.A.j.A, k_); return [("bounds", s.LO <= s.HI + 1), ("ranks of the pivots of a row", forall([j_, k_], imp(land(s.other(j_, k_), rd(s.q, c) >= 0), rd(s.RK, j_) < rd(s.RK, c)), [z3.MultiPattern(rd(s.q, j_), c)])),
                       ("ranks bounded", forall(j_, imp(land(0 <= j_, j_ < s.A.m, rd(s.q, j_) >= 0), land(s.LO <= rd(s.RK, j_), rd(s.RK, j_) <= s.HI)), [[rd(s.RK, j_)], [rd(s.q, j_)]]))]
    def ok(s): return s.valid() + s.ranked()
def noZero(A): return ("no stored zero", forall(k_, imp(land(0 <= k_, k_ < rd(A.p.A, A.n)), rd(A.x.A, k_) != 0), [rd(A.x.A, k_)]))
def sizes(v, p, q): A = v.A; return [("sizes", land(p.len >= A.n, p.ok, q.len >= A.m, q.ok))]
def empty(P, Q, A): return [("no row yet", forall(i_, imp(land(0 <= i_, i_ < A.n), rd(P, i_) == -1), [rd(P, i_)])), ("no column yet", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(Q, j_) == -1), [rd(Q, j_)]))]
class FL(Contract):
    """the leftmost entries: every pivot is the leftmost entry of its row"""
    name = "spasm_find_FL_pivots"; file = "spasm_pivots.c"; params = ["A", "p", "qinv"]; shapes = {"A.x": "nonnull"}
    assigns = ("p", "qinv"); ghost_out = {"E": ARR}
    def pre(s, v): A = v.A; return csr_ok(A) + [rowfit(A), noZero(A)] + sizes(v, v.p, v.qinv) + empty(v.p.A, v.qinv.A, A)
    def left(A, q): return ("leftmost", forall([j_, k_], imp(land(0 <= j_, j_ < A.m, rd(q, j_) >= 0, rd(A.p.A, rd(q, j_)) <= k_, k_ < rd(A.p.A, rd(q, j_) + 1)), j_ <= rd(A.j.A, k_)), [z3.MultiPattern(rd(q, j_), rd(A.j.A, k_))]))
    def post(s, o, n, r): return M_(o.A, n.p.A, n.qinv.A, n.g("E")).valid() + [FL.left(o.A, n.qinv.A), ("count", r == pcnt(n.p.A, o.A.n))]
    def ghosts0(s, v): return {"E": z3.K(Int, I(-1)), "T": I(-1)}
    def witness(s, v): return {"E": v.g("E")}
    def inv(v):
        A = v.old.A
        return M_(A, v.p.A, v.qinv.A, v.g("E")).valid() + [FL.left(A, v.qinv.A), ("i", land(v.i <= A.n, 0 <= v.npiv, v.npiv <= v.i)), ("count", v.npiv == pcnt(v.p.A, A.n)), ("rows to come", forall(i_, imp(land(v.i <= i_, i_ < A.n), rd(v.p.A, i_) == -1), [rd(v.p.A, i_)]))]
    def scan(v):
        A = v.old.A; lo = rd(A.p.A, v.i); Aj = A.j.A; T = v.g("T")
        return [("px", land(lo <= v.px, v.px <= rd(A.p.A, v.i + 1))), ("empty so far", (v.j == A.m + 1) == (v.px == lo)), ("leftmost so far", imp(v.px > lo, land(lo <= T, T < v.px, rd(Aj, T) == v.j, 0 <= v.j, v.j < A.m))), ("to the right", forall(k_, imp(land(lo <= k_, k_ < v.px), v.j <= rd(Aj, k_)), [rd(Aj, k_)]))]
    def end(h, e):
        n = h.old.A.n; i = h.i; old = rd(h.qinv.A, rd(e.p.A, i)); P1 = z3.Store(h.p.A, old, I(-1))
        return [CntUpd.inst(h.p.A, e.p.A, i, n), CntUpd.inst(h.p.A, P1, old, n), CntUpd.inst(P1, e.p.A, i, n), CntLe.inst(e.p.A, n)]
    loops = {"0": Loop(inv=inv, ghost={"E": ARR}, ghost_end=lambda h, e: {"E": z3.Store(h.g("E"), h.i, e.g("T"))}, pre=lambda v: [CntZero.inst(v.p.A, v.old.A.n)], end=end),
             "0.0": Loop(inv=scan, ghost={"T": Int}, ghost_end=lambda h, e: {"T": z3.If(e.j != h.j, h.px, h.g("T"))})}
ones = lambda w, m: vcnt(w, I(1), m)
OnesUpd = Lemma("count_upd", [ARR, ARR, Int, Int, Int], lambda a, b, v, i, n: imp(forall(k_, imp(land(0 <= k_, k_ < n, k_ != i), (rd(a, k_) == v) == (rd(b, k_) == v)), [[rd(a, k_)], [rd(b, k_)]]), vcnt(b, v, n) == vcnt(a, v, n) + z3.If(land(0 <= i, i < n), z3.If(rd(b, i) == v, 1, 0) - z3.If(rd(a, i) == v, 1, 0), 0)), lo=lambda a, b, v, i: I(0),
    uses_base=lambda a, b, v, i: [vcnt.zero(a, v), vcnt.zero(b, v)], uses_step=lambda a, b, v, i, n: [vcnt.unfold(a, v, n), vcnt.unfold(b, v, n)])
# a value that is counted is found
OnesAt = Lemma("count_positive", [ARR, Int, Int], lambda a, v, n: land(vcnt(a, v, n) >= 0, imp(vcnt(a, v, n) > 0, land(0 <= last(a, v, n), last(a, v, n) < n, rd(a, last(a, v, n)) == v))), lo=lambda a, v: I(0), uses_base=lambda a, v: [vcnt.zero(a, v)], uses_step=lambda a, v, n: [vcnt.unfold(a, v, n), last.unfold(a, v, n)])
def once(A, PR): return ("each column once", forall([i_, k_], imp(land(0 <= i_, i_ < A.n, rd(A.p.A, i_) <= k_, k_ < rd(A.p.A, i_ + 1)), rd(rd(PR, i_), rd(A.j.A, k_)) == k_), [z3.MultiPattern(rd(A.p.A, i_), rd(A.j.A, k_))]))
PIVSPEC = {"E": ARR, "RK": ARR, "LO": Int, "HI": Int}
PIVOUT = {"E1": ARR, "RK1": ARR, "LO1": Int, "HI1": Int}
def ghosts(v, sfx=""): return [v.g(k + sfx) for k in ("E", "RK", "LO", "HI")]
def kept(A, P, P1): return ("pivotal rows stay pivotal", forall(i_, imp(land(0 <= i_, i_ < A.n, rd(P, i_) >= 0), rd(P1, i_) == rd(P, i_)), [rd(P1, i_)]))
class FLcol(Contract):
    """columns that occur in no pivotal row"""
    name = "spasm_find_FL_column_pivots"; file = "spasm_pivots.c"; params = ["A", "pinv", "qinv"]
    assigns = ("pinv", "qinv"); spec = PIVSPEC; ghost_out = PIVOUT
    def pre(s, v): A = v.A; return csr_ok(A) + sizes(v, v.pinv, v.qinv) + PV(A, v.pinv.A, v.qinv.A, *ghosts(v)).ok()
    def post(s, o, n, r): A = o.A; return PV(A, n.pinv.A, n.qinv.A, *ghosts(n, "1")).ok() + [kept(A, o.pinv.A, n.pinv.A), ("count", land(r >= 0, r == pcnt(n.pinv.A, A.n) - pcnt(o.pinv.A, A.n)))]
    def ghosts0(s, v): return {"E": v.g("E"), "RK": v.g("RK"), "LO": v.g("LO"), "CUR": I(0)}
    def now(v): return [v._st.ghost[k] for k in ("E", "RK", "LO")] + [v.old.g("HI")]
    def witness(s, v): E, RK, LO, HI = s.__class__.now(v); return {"E1": E, "RK1": RK, "LO1": LO, "HI1": HI}
    def all1(v): return [("open", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.w.A, j_) == 1), [rd(v.w.A, j_)]))]
    def w01(v): A = v.old.A; return ("open or closed", forall(j_, imp(land(0 <= j_, j_ < A.m), lor(rd(v.w.A, j_) == 0, rd(v.w.A, j_) == 1)), [rd(v.w.A, j_)]))
    def shut(v, hi=None): A = v.old.A; c = rd(A.j.A, k_); return ("columns of pivotal rows closed", forall([i_, k_], imp(land(0 <= i_, i_ < (A.n if hi is None else hi), rd(v.pinv.A, i_) >= 0, rd(A.p.A, i_) <= k_, k_ < rd(A.p.A, i_ + 1)), rd(v.w.A, c) == 0), [z3.MultiPattern(rd(v.pinv.A, i_), c)]))
    def monot(v, e): return ("closed stays closed", forall(j_, lor(rd(v.w.A, j_) == rd(e.w.A, j_), rd(v.w.A, j_) == 0), [rd(v.w.A, j_)]))
    def this(v): A = v.old.A; c = rd(A.j.A, k_); return ("columns of this row closed so far", forall(k_, imp(land(rd(A.p.A, v.i) <= k_, k_ < v.px), rd(v.w.A, c) == 0), [c]))
    def px(v): A = v.old.A; return ("px", land(rd(A.p.A, v.i) <= v.px, v.px <= rd(A.p.A, v.i + 1)))
    def inv(v):
        A = v.old.A; return PV(A, v.pinv.A, v.qinv.A, *FLcol.now(v)).ok() + [kept(A, v.old.pinv.A, v.pinv.A), ("i", land(v.i <= A.n, 0 <= v.npiv, v.npiv <= v.i)), ("count", v.npiv == pcnt(v.pinv.A, A.n) - pcnt(v.old.pinv.A, A.n)), FLcol.shut(v)]
    def step(h, e):
        new = e.npiv != h.npiv; j = rd(e.pinv.A, h.i); E, RK, LO, HI = FLcol.now(h)
        return {"E": z3.If(new, z3.Store(E, h.i, e._st.ghost["CUR"]), E), "RK": z3.If(new, z3.Store(RK, j, LO - 1), RK), "LO": z3.If(new, LO - 1, LO)}
    loops = {"0": Loop(inv=all1), "1": Loop(inv=lambda v: [FLcol.shut(v, v.i), ("i", v.i <= v.old.A.n)]), "1.0": Loop(inv=lambda v, e: [FLcol.monot(v, e), FLcol.this(v), FLcol.px(v)]),
             "2": Loop(inv=inv, ghost={"E": ARR, "RK": ARR, "LO": Int}, ghost_end=step, end=lambda h, e: [CntUpd.inst(h.pinv.A, e.pinv.A, h.i, h.old.A.n)]),
             "2.0": Loop(inv=lambda v, e: [FLcol.px(v), ("at", v._st.ghost["CUR"] == v.px), ("nothing yet", land(v.pinv.A == e.pinv.A, v.qinv.A == e.qinv.A, v.w.A == e.w.A, v.npiv == e.npiv))], ghost={"CUR": Int}, ghost_init=lambda v: {"CUR": v.px}, ghost_end=lambda h, e: {"CUR": h._st.ghost["CUR"] + 1}),
             "2.0.0": Loop(inv=lambda v, e: [FLcol.monot(v, e), FLcol.this(v), FLcol.px(v)])}
SHIFT = Compr("shift_marked", [ARR, ARR, Int, Int, Int], lambda rk, w, d, jn, rn, j: z3.If(j == jn, rn, z3.If(rd(w, j) == -1, rd(rk, j) + d, rd(rk, j))))
class Cycle(Contract):
    """breadth-first search from the row over the pivotal rows; w: 1 = candidate, -1 = in the queue.  The columns reached are closed under the pivotal rows, so their ranks can be raised above the new pivot's.
       WL[j]: the entry of the row at candidate j; LOC[j]: place of j in the queue; RS: w when the search ended"""
    name = "spasm_find_cycle_free_pivots"; file = "spasm_pivots.c"; params = ["A", "pinv", "qinv"]
    assigns = ("pinv", "qinv"); spec = {**PIVSPEC, "PR": AA}; ghost_out = PIVOUT
    def pre(s, v): A = v.A; return csr_ok(A) + sizes(v, v.pinv, v.qinv) + PV(A, v.pinv.A, v.qinv.A, *ghosts(v)).ok() + [once(A, v.g("PR"))]
    post = FLcol.post
    def ghosts0(s, v): Z = z3.K(Int, I(-1)); return {"E": v.g("E"), "RK": v.g("RK"), "HI": v.g("HI"), "WL": Z, "LOC": Z, "RS": Z}
    def now(v): return [v._st.ghost[k] for k in ("E", "RK")] + [v.old.g("LO"), v._st.ghost["HI"]]
    def witness(s, v): E, RK, LO, HI = Cycle.now(v); return {"E1": E, "RK1": RK, "LO1": LO, "HI1": HI}
    def inv(v):
        A = v.old.A; return PV(A, v.pinv.A, v.qinv.A, *Cycle.now(v)).ok() + [kept(A, v.old.pinv.A, v.pinv.A), ("i", land(v.i <= A.n, 0 <= v.npiv, v.npiv <= v.i, 0 <= v.processed, v.processed <= v.i)), ("count", v.npiv == pcnt(v.pinv.A, A.n) - pcnt(v.old.pinv.A, A.n)),
            ("marks clear", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(v.w.A, j_) == 0), [rd(v.w.A, j_)]))]
    def entry(v, j): A = v.old.A; WL = v.g("WL"); return land(rd(A.p.A, v.i) <= rd(WL, j), rd(WL, j) < rd(A.p.A, v.i + 1), rd(A.j.A, rd(WL, j)) == j)
    def queue(v):
        A = v.old.A; m = A.m; w, q, LOC = v.w.A, v.queue.A, v.g("LOC"); qt = rd(q, t_)
        return [("tail", land(0 <= v.tail, v.tail <= m)), ("marks", forall(j_, imp(land(0 <= j_, j_ < m), land(-1 <= rd(w, j_), rd(w, j_) <= 1)), [rd(w, j_)])), ("queued", forall(t_, imp(land(0 <= t_, t_ < v.tail), land(0 <= qt, qt < m, rd(w, qt) == -1, rd(LOC, qt) == t_)), [qt])),
                ("place in the queue", forall(j_, imp(land(0 <= j_, j_ < m, rd(w, j_) == -1), land(0 <= rd(LOC, j_), rd(LOC, j_) < v.tail, rd(q, rd(LOC, j_)) == j_)), [[rd(w, j_)], [rd(LOC, j_)]])),
                ("surviving", v.surviving == ones(w, m)), ("candidates", forall(j_, imp(land(0 <= j_, j_ < m, rd(w, j_) == 1), land(Cycle.entry(v, j_), rd(v.qinv.A, j_) < 0)), [rd(w, j_)]))]
    def px(v): A = v.old.A; return ("px", land(rd(A.p.A, v.i) <= v.px, v.px <= rd(A.p.A, v.i + 1)))
    def seen(v, hi=None):
        A = v.old.A; c = rd(A.j.A, k_); return ("row seen", forall(k_, imp(land(rd(A.p.A, v.i) <= k_, k_ < (rd(A.p.A, v.i + 1) if hi is None else hi)), land(rd(v.w.A, c) != 0, imp(rd(v.qinv.A, c) >= 0, rd(v.w.A, c) == -1))), [c]))
    def scatter(v): A = v.old.A; PR = v.g("PR"); return [Cycle.px(v)] + Cycle.queue(v) + [Cycle.seen(v, v.px), ("only columns of the row", forall(j_, imp(land(0 <= j_, j_ < A.m, rd(v.w.A, j_) != 0), rd(rd(PR, v.i), j_) < v.px), [rd(v.w.A, j_)]))]
    def room(v, px): m = v.old.A.m; return [Room.inst(v.queue.A, v.tail, m, rd(v.old.A.j.A, px)), OnesAt.inst(v.w.A, I(1), m), CntRange.inst(v.w.A, I(1), m)]
    def mark(h, e, px): A = h.old.A; return [OnesUpd.inst(h.w.A, e.w.A, I(1), rd(A.j.A, px), A.m), OnesAt.inst(e.w.A, I(1), A.m)]
    def enq(h, e, px): j = rd(h.old.A.j.A, px); return {"LOC": z3.If(e.tail > h.tail, z3.Store(h.g("LOC"), j, h.tail), h.g("LOC"))}
    def bfs(v):
        A = v.old.A; qt = rd(v.queue.A, t_); c = rd(A.j.A, k_)
        return [("head", land(0 <= v.head, v.head <= v.tail))] + Cycle.queue(v) + [Cycle.seen(v), ("explored", forall([t_, k_], imp(land(0 <= t_, t_ < v.head, rd(v.qinv.A, qt) >= 0, rd(A.p.A, rd(v.qinv.A, qt)) <= k_, k_ < rd(A.p.A, rd(v.qinv.A, qt) + 1)), rd(v.w.A, c) == -1), [z3.MultiPattern(qt, c)])), ("RS", v.g("RS") == v.w.A)]
    def row(v, e):
        px = v.px; v, e = v.outer, e.outer; A = v.old.A; c = rd(A.j.A, k_); w = v.w.A; I_ = v.I
        return Cycle.queue(v) + [("px", land(rd(A.p.A, I_) <= px, px <= rd(A.p.A, I_ + 1))), ("reached stay reached", forall(j_, lor(rd(w, j_) == rd(e.w.A, j_), rd(w, j_) == -1), [rd(w, j_)])), ("queue grows", land(v.tail >= e.tail, forall(t_, imp(land(0 <= t_, t_ < e.tail), rd(v.queue.A, t_) == rd(e.queue.A, t_)), [rd(v.queue.A, t_)]))),
                ("row reached", forall(k_, imp(land(rd(A.p.A, I_) <= k_, k_ < px), rd(w, c) == -1), [c]))]
    def survivor(v): A = v.old.A; J = last(v.w.A, I(1), A.m); return [("a candidate is left", land(rd(v.w.A, J) == 1, 0 <= J, J < A.m)), ("it is in the row", Cycle.entry(v, J))]
    def locate(v): A = v.old.A; return [Cycle.px(v), ("none so far", forall(k_, imp(land(rd(A.p.A, v.i) <= k_, k_ < v.px), rd(v.w.A, rd(A.j.A, k_)) != 1), [rd(A.j.A, k_)]))]
    def clean(v, e): A = v.old.A; c = rd(A.j.A, k_); return [Cycle.px(v), ("only cleared", forall(j_, lor(rd(v.w.A, j_) == rd(e.w.A, j_), rd(v.w.A, j_) == 0), [rd(v.w.A, j_)])), ("row cleared", forall(k_, imp(land(rd(A.p.A, v.i) <= k_, k_ < v.px), rd(v.w.A, c) == 0), [c]))]
    def clean2(v, e): return [("px", land(0 <= v.px, v.px <= v.tail)), ("only cleared", forall(j_, lor(rd(v.w.A, j_) == rd(e.w.A, j_), rd(v.w.A, j_) == 0), [rd(v.w.A, j_)])), ("queue cleared", forall(t_, imp(land(0 <= t_, t_ < v.px), rd(v.w.A, rd(v.queue.A, t_)) == 0), [rd(v.queue.A, t_)]))]
    def step(h, e):
        new = e.npiv != h.npiv; j = rd(e.pinv.A, h.i); E, RK, LO, HI = Cycle.now(h); d = HI - LO + 2
        return {"E": z3.If(new, z3.Store(E, h.i, rd(e._st.ghost["WL"], j)), E), "RK": z3.If(new, SHIFT(RK, e._st.ghost["RS"], d, j, HI + 1), RK), "HI": z3.If(new, HI + d, HI)}
    def end(h, e):
        E, RK, LO, HI = Cycle.now(h); j = rd(e.pinv.A, h.i)
        return [CntUpd.inst(h.pinv.A, e.pinv.A, h.i, h.old.A.n), SHIFT.at(RK, e._st.ghost["RS"], HI - LO + 2, j, HI + 1)]
    def head(v): n = v.old.A.n; return [CntUpd.inst(v.pinv.A, z3.Store(v.pinv.A, v.i, I(0)), v.i, n), CntLe.inst(z3.Store(v.pinv.A, v.i, I(0)), n), CntLe.inst(v.old.pinv.A, n)]
    loops = {"0": Loop(inv=lambda v: [("clear", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.w.A, j_) == 0), [rd(v.w.A, j_)]))]),
             "1": Loop(inv=inv, ghost={"E": ARR, "RK": ARR, "HI": Int}, ghost_end=step, end=end, head=head),
             "1.0": Loop(inv=scatter, ghost={"WL": ARR, "LOC": ARR}, ghost_end=lambda h, e: {"WL": z3.Store(h.g("WL"), rd(h.old.A.j.A, h.px), h.px), **Cycle.enq(h, e, h.px)}, head=lambda v: Cycle.room(v, v.px), pre=lambda v: [CntNone.inst(v.w.A, I(1), v.old.A.m)], end=lambda h, e: Cycle.mark(h, e, h.px)),
             "1.1": Loop(inv=bfs, ghost={"RS": ARR, "LOC": ARR}, ghost_init=lambda v: {"RS": v.w.A}, ghost_end=lambda h, e: {"RS": e.w.A}, cut_exit=lambda v: []),
             "1.1.0": Loop(inv=row, ghost={"LOC": ARR}, ghost_end=lambda h, e: Cycle.enq(h.outer, e.outer, h.px), head=lambda v: Cycle.room(v.outer, v.px), end=lambda h, e: Cycle.mark(h.outer, e.outer, h.px)),
             "1.2": Loop(inv=locate, cut_pre=survivor, pre=lambda v: [OnesAt.inst(v.w.A, I(1), v.old.A.m)]), "1.4": Loop(inv=clean), "1.5": Loop(inv=clean2)}
IDENT = Compr("index_itself", [Int], lambda z, j: j)
class Find(Contract):
    name = "spasm_pivots_find"; file = "spasm_pivots.c"; params = ["A", "pinv", "qinv", "opts"]; shapes = {"A.x": "nonnull"}
    assigns = ("pinv", "qinv"); spec = {"PR": AA}; ghost_out = PIVOUT
    def pre(s, v): A = v.A; return csr_ok(A) + [rowfit(A), noZero(A), once(A, v.g("PR"))] + sizes(v, v.pinv, v.qinv)
    def post(s, o, n, r): A = o.A; return PV(A, n.pinv.A, n.qinv.A, *ghosts(n, "1")).ok() + [("count", land(r >= 0, r == pcnt(n.pinv.A, A.n)))]
    def facts_entry(s, v): return [IDENT.at(I(0))]
    def last_(v):
        for f in ("spasm_find_cycle_free_pivots", "spasm_find_FL_column_pivots"):
            if v.calls(f): c = v.calls(f)[-1]; return [c.g(k) for k in ("E1", "RK1", "LO1", "HI1")]
        return [v.call("spasm_find_FL_pivots").g("E") if v.calls("spasm_find_FL_pivots") else z3.K(Int, I(0)), IDENT(I(0)), I(0), v.old.A.m - 1]
    def witness(s, v): return dict(zip(("E1", "RK1", "LO1", "HI1"), Find.last_(v)))
    def spec_spasm_find_FL_column_pivots(s, v, o): return dict(zip(("E", "RK", "LO", "HI"), Find.last_(v)))
    def spec_spasm_find_cycle_free_pivots(s, v, o): return {**s.spec_spasm_find_FL_column_pivots(v, o), "PR": v.g("PR")}
    def facts_exit(s, o, v, r): return [CntLe.inst(v.pinv.A, o.A.n)]
    after = {f: (lambda v, c: [CntLe.inst(c.n.pinv.A, v.old.A.n)]) for f in ("spasm_find_cycle_free_pivots", "spasm_find_FL_column_pivots")}
    loops = {"0": Loop(inv=lambda v: [("cleared", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.qinv.A, j_) == -1), [rd(v.qinv.A, j_)]))]), "1": Loop(inv=lambda v: [("cleared", forall(i_, imp(land(0 <= i_, i_ < v.i), rd(v.pinv.A, i_) == -1), [rd(v.pinv.A, i_)]))])}
RANKF = Compr("rank_nonpivotal_last", [ARR, ARR, Int], lambda q, rk, hi, j: z3.If(rd(q, j) < 0, hi + 1, rd(rk, j)))
PRK = Compr("rank_in_matched", [ARR, ARR], lambda P, p, t: pcnt(P, rd(p, t)))
PSL = Compr("place_of_matched", [ARR, ARR, Int], lambda P, PP, n, t: rd(PP, sel_(P, t, n)))
class _Bij(Lemma):
    """p[0..k) lists the matched rows, each once: k is their number (two injections)"""
    def __init__(s):
        def hyp(p, k, P, PP, n): return land(n >= 0, k >= 0, forall(t_, imp(land(0 <= t_, t_ < k), land(0 <= rd(p, t_), rd(p, t_) < n, rd(P, rd(p, t_)) >= 0, rd(PP, rd(p, t_)) == t_)), [rd(p, t_)]), forall(i_, imp(land(0 <= i_, i_ < n, rd(P, i_) >= 0), land(0 <= rd(PP, i_), rd(PP, i_) < k, rd(p, rd(PP, i_)) == i_)), [[rd(PP, i_)], [rd(P, i_)]]))
        def uses(p, k, P, PP, n):
            f, g = PRK(P, p), PSL(P, PP, n); N = pcnt(P, n); sl = sel_(P, t_, n)
            return [PRK.at(P, p), PSL.at(P, PP, n), CntLe.inst(P, n), forall(t_, SelOk.inst(P, t_, n), [sl]), forall(i_, imp(n >= 0, CntRank.inst(P, i_, n)), [pcnt(P, i_)]), forall([i_, k_], imp(land(0 <= i_, i_ < k_), imp(rd(P, i_) >= 0, pcnt(P, i_) < pcnt(P, k_))), [z3.MultiPattern(pcnt(P, i_), pcnt(P, k_))]), Pigeon.inst(f, k, N), Pigeon.inst(g, N, k)]
        Lemma.__init__(s, "listing_count", [ARR, Int, ARR, ARR, Int], lambda p, k, P, PP, n: imp(hyp(p, k, P, PP, n), k == pcnt(P, n)), induct=False, uses=uses)
Bij = _Bij()
class WD(W_):
    """the search with separate arrays for marks and cursors"""
    def __init__(s, v):
        o = v.old; W_.__init__(s, o.A, o.A.m, o.qinv, z3.K(Int, I(1)), Reorder.rank(o)); s.MK, s.PS = v.marks.A, v.pstack.A
    def mark(s, X, j): return rd(s.MK, j)
    def pst(s, X, h): return rd(s.PS, h)
class Reorder(Contract):
    """the pivotal rows in topological order, then the others.  PP: place of each row"""
    name = "spasm_pivots_reorder"; file = "spasm_pivots.c"; params = ["A", "pinv", "qinv", "npiv", "p"]
    assigns = ("p",); spec = PIVSPEC; ghost_out = {"PP": ARR}
    def rank(o): return RANKF(o.qinv.A, o.g("RK"), o.g("HI"))
    def pre(s, v): A = v.A; return csr_ok(A) + [rowfit(A)] + sizes(v, v.pinv, v.qinv) + [("size of p", land(v.p.ok, v.p.len >= A.n))] + PV(A, v.pinv.A, v.qinv.A, *ghosts(v)).ok() + [("count", v.npiv == pcnt(v.pinv.A, A.n))]
    def order(o, p, PP):
        A = o.A; P, Q = o.pinv.A, o.qinv.A; c = rd(A.j.A, k_); r = rd(p, t_)
        return [("permutation", perm(p, A.n)), ("place of a row", forall(i_, imp(land(0 <= i_, i_ < A.n), land(0 <= rd(PP, i_), rd(PP, i_) < A.n, rd(p, rd(PP, i_)) == i_)), [rd(PP, i_)])), ("places", forall(t_, imp(land(0 <= t_, t_ < A.n), rd(PP, r) == t_), [r])), ("pivotal rows first", forall(t_, imp(land(0 <= t_, t_ < A.n), (rd(P, r) >= 0) == (t_ < o.npiv)), [r])),
                ("pivotal rows in topological order", forall([t_, k_], imp(land(0 <= t_, t_ < o.npiv, rd(A.p.A, r) <= k_, k_ < rd(A.p.A, r + 1), c != rd(P, r), rd(Q, c) >= 0), rd(PP, rd(Q, c)) > t_), [z3.MultiPattern(r, c)]))]
    def post(s, o, n, r): return Reorder.order(o, n.p.A, n.g("PP"))
    def facts_entry(s, v): return [RANKF.at(v.qinv.A, v.g("RK"), v.g("HI"))]
    def ghosts0(s, v): Z = z3.K(Int, I(-1)); return {"LOC": Z, "SEQ": z3.K(Int, I(0)), "PP": Z}
    def witness(s, v): return {"PP": v.g("PP")}
    def base(v, head, top): return WD(v).inv(v.xj.A, v.g("LOC"), v.g("SEQ"), head, top, FALSE)
    def sofar(v, J): return ("pivotal columns so far", forall(j_, imp(land(0 <= j_, j_ < J, rd(v.old.qinv.A, j_) >= 0), rd(v.marks.A, j_) != 0), [[rd(v.marks.A, j_)], [rd(v.old.qinv.A, j_)]]))
    def columns(v): return Reorder.base(v, I(-1), v.top) + [Reorder.sofar(v, v.j), ("j", v.j <= v.old.A.m)]
    def dfs(v, e): m = v.old.A.m; X, X0 = v.xj.A, e.xj.A; J = v.outer.j; return Reorder.base(v, v.head, v.top) + [("marks stay", forall(j_, imp(land(0 <= j_, j_ < m, rd(e.marks.A, j_) != 0), rd(v.marks.A, j_) != 0), [rd(v.marks.A, j_)])), Reorder.sofar(v, J), ("start", lor(rd(v.marks.A, J) != 0, land(v.head == 0, rd(X, I(0)) == J)))]
    def scan(v, e):
        w = WD(v); i = v.i; lo = rd(w.A.p.A, i); k = v.k
        return [("nothing pushed yet", land(v.head == e.head, v.xj.A == e.xj.A, v.pstack.A == e.pstack.A)), ("k", land(rd(e.pstack.A, e.head) <= k, k <= v.p2)), ("seen", forall(k_, imp(land(lo <= k_, k_ < lo + k), rd(v.marks.A, rd(w.A.j.A, k_)) != 0), [rd(w.A.j.A, k_)]))]
    def cut(h, e):
        w, we = WD(h), WD(e); X, Y = h.xj.A, e.xj.A; m = w.m; J = rd(X, h.head); po = e.head < h.head; Aj = w.A.j.A; mX = lambda j: w.mark(X, j); mY = lambda j: we.mark(Y, j)
        b = dict(Reorder.base(h, h.head, h.top)); a = dict(Reorder.base(e, e.head, e.top)); y = rd(Y, e.head); SEQ = h.g("SEQ"); cnt = h.head + 1 + m - h.top; here = land(h.head >= 0, 0 <= J, J < m)
        return [("top", here), ("fresh", imp(lnot(po), land(mX(y) == 0, y != J, 0 <= y, y < m, e.head == h.head + 1, e.top == h.top))), ("not discovered", imp(lnot(po), forall(t_, imp(land(0 <= t_, t_ < cnt), rd(SEQ, t_) != y), [rd(SEQ, t_)])), ["fresh", b["discovered are marked"], "top"]),
                ("room", imp(lnot(po), land(mX(y) == 0, h.head + 1 < h.top, y != J)), ["fresh", "not discovered", b["discovered"], b["sizes"], Room.inst(SEQ, cnt, m, y)]), ("popped", imp(po, land(e.head == h.head - 1, e.top == h.top - 1))),
                ("discovered", a["discovered"], ["fresh", "popped", "not discovered", b["discovered"], b["sizes"]]), ("top marked", mY(J) != 0), ("marks", forall(j_, imp(land(0 <= j_, j_ < m), land(imp(mX(j_) != 0, mY(j_) != 0), imp(mY(j_) != 0, lor(j_ == J, mX(j_) != 0)))), [mY(j_)])),
                ("same stack", forall(h_, imp(land(0 <= h_, h_ <= h.head), rd(Y, h_) == rd(X, h_)), [rd(Y, h_)])), ("same output", forall(h_, imp(land(h.top <= h_, h_ < m), rd(Y, h_) == rd(X, h_)), [rd(Y, h_)])),
                ("same cursors", forall(h_, imp(land(0 <= h_, h_ < h.head), we.pst(Y, h_) == w.pst(X, h_)), [we.pst(Y, h_)])),
                ("popped row seen", imp(po, forall(k_, imp(w.edge(J, k_), mY(rd(Aj, k_)) != 0), [rd(Aj, k_)]))),
                ("popped row placed", imp(land(po, w.ranked()), forall(k_, imp(w.edge(J, k_), lor(rd(Aj, k_) == J, land(h.top <= rd(h.g("LOC"), rd(Aj, k_)), rd(h.g("LOC"), rd(Aj, k_)) < m))), [rd(Aj, k_)]))),
                ("pushed", imp(lnot(po), land(mY(rd(Y, e.head)) == 0, w.q(J) >= 0, forall(k_, imp(land(rd(w.A.p.A, w.q(J)) <= k_, k_ < rd(w.A.p.A, w.q(J)) + we.pst(Y, h.head)), lor(mY(rd(Aj, k_)) != 0, rd(Aj, k_) == rd(Y, e.head))), [rd(Aj, k_)])))),
                ("seen entries", a["seen entries"], ["pushed", "popped", "fresh", "room", "marks", "same stack", "same cursors", "top marked", b["seen entries"], b["below the top marked"], b["sizes"], "top"])]
    def end(h, e): return [Room.inst(h.g("SEQ"), h.head + 1 + h.old.A.m - h.top, h.old.A.m, rd(e.xj.A, e.head))]
    def room(v, head, top): m = v.old.A.m; return [forall(j_, Room.inst(v.g("SEQ"), head + 1 + m - top, m, j_), [rd(v.marks.A, j_)])]
    def found(v): """what the search leaves behind"""; return [x for x in Reorder.base(v, I(-1), v.top)] + [Reorder.sofar(v, v.old.A.m)]
    def searched(v):
        o = v.old; A = o.A; Q = o.qinv.A; X, LOC = v.xj.A, v.g("LOC"); w = WD(v); c = rd(A.j.A, k_); L = rd(LOC, j_)
        return [("ranked", w.ranked()), ("pivotal columns found", forall(j_, imp(land(0 <= j_, j_ < A.m, rd(Q, j_) >= 0), land(v.top <= L, L < A.m, rd(X, L) == j_)), [[rd(Q, j_)], [L]])), ("found once", forall(h_, imp(land(v.top <= h_, h_ < A.m), land(0 <= rd(X, h_), rd(X, h_) < A.m, rd(LOC, rd(X, h_)) == h_)), [rd(X, h_)])),
                ("columns of a row found later", forall([j_, k_], imp(land(0 <= j_, j_ < A.m, w.edge(j_, k_)), rd(LOC, c) >= L), [z3.MultiPattern(rd(Q, j_), c)])), ("top", land(0 <= v.top, v.top <= A.m))]
    def placed(v, k):
        o = v.old; P = o.pinv.A; p, PP, LOC = v.p.A, v.g("PP"), v.g("LOC"); r = rd(p, t_)
        return [("rows so far", forall(t_, imp(land(0 <= t_, t_ < k), land(0 <= r, r < o.A.n, rd(P, r) >= 0, rd(PP, r) == t_)), [r])), ("order so far", forall([h_, t_], imp(land(0 <= h_, h_ < t_, t_ < k), rd(LOC, rd(P, rd(p, h_))) < rd(LOC, rd(P, r))), [z3.MultiPattern(rd(p, h_), r)]))]
    def emit(v):
        o = v.old; Q = o.qinv.A; P = o.pinv.A; X, LOC, PP, p = v.xj.A, v.g("LOC"), v.g("PP"), v.p.A; s = rd(PP, rd(Q, rd(X, h_)))
        return [("px", land(v.top <= v.px, v.px <= o.A.m)), ("k", land(0 <= v.k, v.k <= o.A.n))] + Reorder.placed(v, v.k) + [("found before px", forall(t_, imp(land(0 <= t_, t_ < v.k), rd(LOC, rd(P, rd(p, t_))) < v.px), [rd(p, t_)])), ("all so far", forall(h_, imp(land(v.top <= h_, h_ < v.px, rd(Q, rd(X, h_)) >= 0), land(0 <= s, s < v.k, rd(p, s) == rd(Q, rd(X, h_)))), [rd(X, h_)]))]
    def allrows(v):
        o = v.old; n = o.A.n; P = o.pinv.A; s = rd(v.g("PP"), i_)
        return [("every pivotal row placed", forall(i_, imp(land(0 <= i_, i_ < n, rd(P, i_) >= 0), land(0 <= s, s < v.k, rd(v.p.A, s) == i_)), [[s], [rd(P, i_)]])), ("+", Bij.inst(v.p.A, v.k, P, v.g("PP"), n)), ("number of pivots", v.k == o.npiv)]
    def rest(v):
        o = v.old; P = o.pinv.A; n = o.A.n; p, PP = v.p.A, v.g("PP"); r = rd(p, t_); s = rd(PP, i_)
        return [("i", land(0 <= v.i, v.i <= n)), ("k", land(v.k == o.npiv + v.i - pcnt(P, v.i), o.npiv <= v.k, v.k <= n))] + Reorder.placed(v, o.npiv) + [("every pivotal row placed", forall(i_, imp(land(0 <= i_, i_ < n, rd(P, i_) >= 0), land(0 <= s, s < o.npiv, rd(p, s) == i_)), [[s], [rd(P, i_)]])),
                ("other rows", forall(t_, imp(land(o.npiv <= t_, t_ < v.k), land(0 <= r, r < v.i, rd(P, r) < 0, rd(PP, r) == t_)), [r]))]
    def cuts(s, o, v, r):
        A = o.A; P, Q = o.pinv.A, o.qinv.A; p, PP, LOC = v.p.A, v.g("PP"), v.g("LOC"); c = rd(A.j.A, k_); R = rd(p, t_); res = dict(Reorder.order(o, p, PP)); sr = dict(Reorder.searched(v))
        return [("all placed", v.k == A.n), ("permutation", perm(p, A.n)), ("+onto", forall(i_, Onto.inst(p, A.n, i_), [rd(PP, i_)])), ("place of a row", res["place of a row"], ["permutation", "onto", res["places"]]), ("later column", forall([t_, k_], imp(land(0 <= t_, t_ < o.npiv, rd(A.p.A, R) <= k_, k_ < rd(A.p.A, R + 1), c != rd(P, R), rd(Q, c) >= 0), rd(LOC, c) > rd(LOC, rd(P, R))), [z3.MultiPattern(R, c)]))]
    loops = {"0": Loop(inv=lambda v: [("clear", forall(j_, imp(land(0 <= j_, j_ < v.j), rd(v.marks.A, j_) == 0), [rd(v.marks.A, j_)]))]),
             "1": Loop(inv=columns, ghost={"LOC": ARR, "SEQ": ARR}, head=lambda v: Reorder.room(v, I(-1), v.top), cut_exit=lambda v: Reorder.searched(v)),
             "1.0": Loop(inv=dfs, ghost={"LOC": ARR, "SEQ": ARR}, ghost_init=lambda v: Reach.push(v, v.head, v.top), ghost_end=Reach.step, cut=cut, end=end, head=lambda v: Reorder.room(v, v.head, v.top) + [rd(v.xj.A, v.head) == rd(v.xj.A, v.head)]),
             "1.0.0": Loop(inv=scan),
             "2": Loop(inv=emit, ghost={"PP": ARR}, ghost_end=lambda h, e: {"PP": z3.If(e.k > h.k, z3.Store(h.g("PP"), rd(e.p.A, h.k), h.k), h.g("PP"))}, head=lambda v: [Room.inst(v.p.A, v.k, v.old.A.n, rd(v.old.qinv.A, rd(v.xj.A, v.px)))], cut_exit=allrows),
             "3": Loop(inv=rest, ghost={"PP": ARR}, ghost_end=lambda h, e: {"PP": z3.If(e.k > h.k, z3.Store(h.g("PP"), rd(e.p.A, h.k), h.k), h.g("PP"))}, pre=lambda v: [pcnt.zero(v.old.pinv.A)], head=lambda v: [pcnt.unfold(v.old.pinv.A, v.i), CntLe.inst(v.old.pinv.A, v.i), Room.inst(v.p.A, v.k, v.old.A.n, v.i)])}
# ---------------------------------------------------------------- copy of the pivotal rows to U (and L)
ROWCOLS = Compr("row_columns", [ARR, Int], lambda aj, lo, t: rd(aj, lo + t))
wsum = Def("weights", [ARR, ARR], lambda ap, p: (I(0), I(0)), lambda prev, ap, p, t: prev + rd(ap, rd(p, t) + 1) - rd(ap, rd(p, t)))
WsMono = Lemma("weights_mono", [ARR, ARR, Int, Int], lambda ap, p, s, t: imp(land(0 <= s, forall(t_, imp(land(0 <= t_, t_ < t), rd(ap, rd(p, t_)) <= rd(ap, rd(p, t_) + 1)), [rd(p, t_)])), wsum(ap, p, s) <= wsum(ap, p, t)), lo=lambda ap, p, s: s, uses_step=lambda ap, p, s, t: [wsum.unfold(ap, p, t), rd(p, t) == rd(p, t)])
ScaleStep = Z0Lemma("scaled_row_step", 6, lambda sA, sU, x, u, al, d: [sA - fmul(d, sU), fmul(al, x) - u, fmul(al, d) - 1], lambda sA, sU, x, u, al, d: (sA + x) - fmul(d, sU + u), lambda w1, w2, w3, sA, sU, x, u, al, d: w1 - x * w3 + d * w2,
    lambda sA, sU, x, u, al, d: [fmul_def(d, sU), fmul_def(al, x), fmul_def(al, d), fmul_def(d, sU + u)])
CanonEq = Lemma("canonical_equal", [Int, Int, Int], lambda p, a, b: imp(land(p > 0, canonp(p, a), canonp(p, b), z0(p, a - b)), a == b), uses=lambda p, a, b: [z0_elim(p, a - b)], induct=False)
FmulZero = Lemma("fmul_zero", [Int, Int], lambda d, c: imp(c == 0, fmul(d, c) == 0), uses=lambda d, c: [fmul_def(d, c)], induct=False)
FmulOne = Lemma("fmul_one", [Int, Int], lambda d, c: imp(c == 1, fmul(d, c) == d), uses=lambda d, c: [fmul_def(d, c)], induct=False)
NEWUQ = Compr("pivot_columns_of_all_rows", [ARR, ARR, ARR, Int], lambda uq, P, p, n0, i: z3.If(i < n0, rd(uq, i), rd(P, rd(p, i - n0))))
def inrow_(P, i, k): return land(rd(P, i) <= k, k < rd(P, i + 1))
class Extract(Contract):
    """AL[t]: the pivot of the t-th pivotal row; UQ1: pivot columns of the rows of the new U; SRC: where an entry of U was copied from"""
    file = "spasm_pivots.c"; params = ["A", "p_in", "fact", "p", "opts"]; spec = {"PR": AA, "UQ": ARR}; ghost_out = {"AL": ARR, "UQ1": ARR}
    shapes = {"A.x": "nonnull", "fact.U.x": "nonnull", "fact.Ltmp": "null", "fact.p": "null", "p_in": "nullable"}; withL = False
    def __init__(s, withL=False):
        s.withL = withL; s.name = "spasm_pivots_extract_structural [L %s]" % ("given" if withL else "null"); s.assigns = ("p", "fact.qinv", "fact.U.n", "fact.U.p", "fact.U.j()", "fact.U.x()", "fact.U.nzmax")
        if withL: s.shapes = {**s.shapes, "fact.Ltmp": "nonnull", "fact.Ltmp.x": "nonnull", "fact.p": "nonnull"}; s.assigns += ("fact.p",) + tuple("fact.Ltmp." + x for x in ("i()", "j()", "x()", "nzmax", "nz", "n", "m"))
        s.loops = {"0": Loop(inv=Extract.weights, ghost={"CAP": Int}, ghost_end=lambda h, e: {"CAP": h.g("CAP") + h.old.A.m}, pre=lambda v: [wsum.zero(v.old.A.p.A, v.p.A)], head=Extract.rowweight, end=lambda h, e: [wsum.unfold(h.old.A.p.A, h.p.A, h.k)], exit=lambda v: []),
            "1": Loop(inv=lambda v: s.inv(v), ghost={"AL": ARR, "SRC": ARR}, ghost_end=lambda h, e: {"AL": z3.Store(h.g("AL"), h.k, e.pivot)}, pre=s.start, cut_pre=Extract.roomy, head=s.head, cut=s.cut),
            "1.0": Loop(inv=Extract.find, cut_pre=Extract.located), "1.1": Loop(inv=Extract.copy, ghost={"SRC": ARR}, ghost_end=lambda h, e: {"SRC": z3.If(e.unz > h.unz, z3.Store(h.g("SRC"), h.unz, h.px), h.g("SRC"))}, pre=Extract.copy_pre, cut_pre=Extract.copy_start, cut=Extract.copy_cut, head=Extract.copy_head, end=Extract.copy_end, cut_exit=Extract.copied)}
    def pre(s, v):
        A, U, q = v.A, v.fact.U, v.fact.qinv
        P = csr_ok(A) + [rowfit(A), noZero(A), once(A, v.g("PR")), ("canonical", canon_vals(A)[1]), ("prime", PRIME(A.field.p))] + field_ok(A.field) + [("same field", land(U.field.p == A.field.p)), ("same width", U.m == A.m), ("size of p", land(v.p.ok, v.p.len >= A.n))] + upper_pre(U, q, v.g("UQ")) + [
            ("U: " + rowfit(U)[0], rowfit(U)[1]), ("room for rows", land(U.n + A.n < U.p.len, U.n + A.n < (1 << 31) - 2)), ("U: columns", lnot(U.j.null)), ("sizes of the products", land(A.n * A.m <= BIG / 16, U.nzmax <= BIG / 4)),
            ("no entry in the pivotal columns", forall(k_, imp(land(0 <= k_, k_ < rd(A.p.A, A.n)), rd(q.A, rd(A.j.A, k_)) < 0), [rd(A.j.A, k_)])), ("p_in", imp(lnot(v.p_in.null), land(v.p_in.ok, v.p_in.len >= A.n)))]
        if s.withL:
            L = v.fact.Ltmp
            P += [("L: " + a, b) for a, b in triplet_ok(L)] + [("L: " + a, b) for a, b in field_ok(L.field)] + [("L: canonical", tcanon(L)[1]), ("L: field", L.field.p == A.field.p), ("L: room", L.nzmax <= BIG / 16), ("L: columns", L.m >= U.n + A.n), ("row list", land(v.fact.p.ok, v.fact.p.len >= U.n + A.n)),
                ("original rows", forall(i_, imp(land(0 <= i_, i_ < A.n), land(0 <= Extract.orig(v, i_), Extract.orig(v, i_) < L.n)), [rd(v.p_in.A, i_)])), ("enough rows", imp(v.p_in.null, A.n <= L.n))]
        return P
    def orig(o, r): return z3.If(o.p_in.null, r, rd(o.p_in.A, r))
    def spec_spasm_pivots_find(s, v, o): return {"PR": v.g("PR")}
    after = {"spasm_pivots_find": lambda v, c: [CntLe.inst(c.n.pinv.A, v.old.A.n)], "spasm_add_entry": lambda v, c: [CanonEq.inst(v.old.A.field.p, v.pivot, c.g("xp"))]}
    def spec_spasm_pivots_reorder(s, v, o): c = v.call("spasm_pivots_find"); return {k: c.g(k + "1") for k in ("E", "RK", "LO", "HI")}
    def ghosts0(s, v): Z = z3.K(Int, I(0)); return {"AL": Z, "SRC": z3.K(Int, I(-1)), "CAP": I(0)}
    def witness(s, v): return {"AL": v.g("AL"), "UQ1": Extract.uq1(v)}
    def uq1(v): return NEWUQ(v.old.g("UQ"), v.pinv.A, v.p.A, v.old.fact.U.n)
    # ---- the rows of U from n0 on, up to hi
    def rows(o, V, hi, UQ1, AL, p, r=None):
        A, U = o.A, o.fact.U; n0 = U.n; N0 = rd(U.p.A, n0); Vp, Vj, Vx = V.p.A, V.j.A, V.x.A; f = A.field.p; i = i_; c = j_; co = rs(Vj, Vx, rd(Vp, n0 + t_), c, rd(Vp, n0 + t_ + 1)); n = rd(Vp, hi); cA = rowcoef(A, rd(p, t_), c)
        return [("row pointers kept", forall(t_, imp(land(0 <= t_, t_ <= n0), rd(Vp, t_) == rd(U.p.A, t_)), [rd(Vp, t_)])), ("monotone", monotone(Vp, hi)), ("entries kept", forall(k_, imp(land(0 <= k_, k_ < N0), land(rd(Vj, k_) == rd(U.j.A, k_), rd(Vx, k_) == rd(U.x.A, k_))), [[rd(Vj, k_)], [rd(Vx, k_)], [rd(U.j.A, k_)]])),
                ("columns in range", forall(k_, imp(land(0 <= k_, k_ < n), land(0 <= rd(Vj, k_), rd(Vj, k_) < A.m)), [rd(Vj, k_)])), ("canonical", canon_arr(f, Vx, n)),
                ("pivots first", forall(i, imp(land(n0 <= i, i < hi), land(rd(Vp, i) < rd(Vp, i + 1), rd(Vj, rd(Vp, i)) == rd(UQ1, i), rd(Vx, rd(Vp, i)) == 1)), [rd(Vp, i)])),
                ("coefficient at the pivot", forall(i, imp(land(n0 <= i, i < hi), rs(Vj, Vx, rd(Vp, i), rd(UQ1, i), rd(Vp, i + 1)) == 1), [rd(UQ1, i)])),
                ("rows are rows of A, scaled", forall([t_, c], imp(land(0 <= t_, t_ < hi - n0, 0 <= c, c < A.m), z0(f, cA - fmul(rd(AL, t_), co))), [[co], [cA]])), ("pivots", forall(t_, imp(land(0 <= t_, t_ < hi - n0), land(canonp(f, rd(AL, t_)), rd(AL, t_) != 0)), [rd(AL, t_)]))]
    def lrows(o, n, k, AL, p):
        L0, L = o.fact.Ltmp, n.fact.Ltmp; l0, n0 = L0.nz, o.fact.U.n; lt = l0 + t_; og = Extract.orig(o, rd(p, t_))
        return [("L: " + a, b) for a, b in triplet_ok(L)] + [("L: canonical", tcanon(L)[1]), ("L: count", L.nz == l0 + k), ("L: dims", land(L.n == L0.n, L.m == L0.m)), ("L: room", lor(L.nzmax == L0.nzmax, L.nzmax <= 1 + 2 * L.nz)),
            ("L: earlier entries kept", forall(k_, imp(land(0 <= k_, k_ < l0), land(rd(L.i.A, k_) == rd(L0.i.A, k_), rd(L.j.A, k_) == rd(L0.j.A, k_), rd(L.x.A, k_) == rd(L0.x.A, k_))), [[rd(L.i.A, k_)], [rd(L.j.A, k_)], [rd(L.x.A, k_)]])),
            ("L: the pivots", forall(k_, imp(land(l0 <= k_, k_ < l0 + k), land(rd(L.i.A, k_) == Extract.orig(o, rd(p, k_ - l0)), rd(L.j.A, k_) == n0 + k_ - l0, rd(L.x.A, k_) == rd(AL, k_ - l0))), [[rd(L.i.A, k_)], [rd(L.j.A, k_)], [rd(L.x.A, k_)]])),
            ("row list", forall(k_, rd(n.fact.p.A, k_) == z3.If(land(n0 <= k_, k_ < n0 + k), Extract.orig(o, rd(p, k_ - n0)), rd(o.fact.p.A, k_)), [rd(n.fact.p.A, k_)]))]
    def post(s, o, n, r):
        A, U, V, q = o.A, o.fact.U, n.fact.U, n.fact.qinv; n0 = U.n; UQ1, AL, UQ = n.g("UQ1"), n.g("AL"), o.g("UQ")
        P = [("count", land(0 <= r, r <= A.n, V.n == n0 + r, V.n <= A.m)), ("permutation", perm(n.p.A, A.n)), ("size", land(V.nzmax <= z3.If(U.nzmax > rd(V.p.A, V.n), U.nzmax, rd(V.p.A, V.n)), rd(V.p.A, V.n) <= rd(U.p.A, n0) + r * A.m)),
             ("pivot columns kept", forall(i_, imp(land(0 <= i_, i_ < n0), rd(UQ1, i_) == rd(UQ, i_)), [rd(UQ1, i_)]))] + [("new " + a, b) for a, b in upper_pre(V, q, UQ1)] + [("new rows fit an int", rowfit(V)[1])] + Extract.rows(o, V, n0 + r, UQ1, AL, n.p.A)
        return P + (Extract.lrows(o, n, r, AL, n.p.A) if s.withL else [])
    # ---- loops
    def weights(v): A = v.old.A; return [("k", v.k <= v.npiv), ("CAP", v.g("CAP") == v.k * A.m), ("total", land(v.pivot_nnz == wsum(A.p.A, v.p.A, v.k), 0 <= v.pivot_nnz, v.pivot_nnz <= v.g("CAP")))]
    def rowweight(v):
        A = v.old.A; r = rd(v.p.A, v.k); lo = rd(A.p.A, r); w = rd(A.p.A, r + 1) - lo; f = ROWCOLS(A.j.A, lo)
        return [ROWCOLS.at(A.j.A, lo), Pigeon.inst(f, w, A.m), MulMono.inst(v.k, A.n, A.m)]
    def inv(s, v):
        o = v.old; A, U = o.A, o.fact.U; n0 = U.n; V = v.fact.U; Q = v.qinv.A; PP = v.call("spasm_pivots_reorder").g("PP"); UQ1 = Extract.uq1(v)
        r = [("k", v.k <= v.npiv), ("rows of U", V.n == n0 + v.k), ("end", land(v.unz == rd(V.p.A, n0 + v.k), v.unz == rd(U.p.A, n0) + wsum(A.p.A, v.p.A, v.k)))] + Extract.rows(o, V, n0 + v.k, UQ1, v.g("AL"), v.p.A) + [Extract.source(v, V, n0 + v.k), Extract.widths(v, V, v.k),
             ("pivots located", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(v.fact.qinv.A, j_) == z3.If(land(rd(Q, j_) >= 0, rd(PP, rd(Q, j_)) < v.k), n0 + rd(PP, rd(Q, j_)), rd(o.fact.qinv.A, j_))), [rd(v.fact.qinv.A, j_)]))]
        return r + (Extract.lrows(o, v, v.k, v.g("AL"), v.p.A) if s.withL else [])
    def source(v, V, hi):
        o = v.old; A = o.A; n0 = o.fact.U.n; SRC = v.g("SRC"); r = rd(v.p.A, i_ - n0); sk = rd(SRC, k_); return ("copied entries", forall([i_, k_], imp(land(n0 <= i_, i_ < hi, rd(V.p.A, i_) < k_, k_ < rd(V.p.A, i_ + 1)), land(rd(A.p.A, r) <= sk, sk < rd(A.p.A, r + 1), rd(V.j.A, k_) == rd(A.j.A, sk), rd(V.j.A, k_) != rd(v.pinv.A, r))), [z3.MultiPattern(rd(V.p.A, i_), rd(V.j.A, k_))]))
    def widths(v, V, k): o = v.old; A = o.A; n0 = o.fact.U.n; r = rd(v.p.A, i_ - n0); return ("row sizes", forall(i_, imp(land(n0 <= i_, i_ < n0 + k), rd(V.p.A, i_ + 1) - rd(V.p.A, i_) == rd(A.p.A, r + 1) - rd(A.p.A, r)), [rd(V.p.A, i_)]))
    def roomy(v):
        A = v.old.A; p = v.p.A; V = v.fact.U; return [("listed rows", forall(t_, imp(land(0 <= t_, t_ < v.npiv), land(0 <= rd(p, t_), rd(p, t_) < A.n, rd(A.p.A, rd(p, t_)) <= rd(A.p.A, rd(p, t_) + 1))), [rd(p, t_)])), ("room", land(rd(v.old.fact.U.p.A, v.old.fact.U.n) + wsum(A.p.A, p, v.npiv) <= V.nzmax, V.nzmax <= V.j.len, V.nzmax <= V.x.len))]
    def start(s, v): o = v.old; return [wsum.zero(o.A.p.A, v.p.A), NEWUQ.at(o.g("UQ"), v.pinv.A, v.p.A, o.fact.U.n)]
    def head(s, v): A = v.old.A; return [WsMono.inst(A.p.A, v.p.A, v.k + 1, v.npiv), wsum.unfold(A.p.A, v.p.A, v.k)]
    def find(v): A = v.old.A; return [("px", land(rd(A.p.A, v.i) <= v.px, v.px <= rd(A.p.A, v.i + 1))), ("not found", v.pivot == 0), ("not before", forall(k_, imp(land(rd(A.p.A, v.i) <= k_, k_ < v.px), rd(A.j.A, k_) != v.j), [rd(A.j.A, k_)]))]
    def D(v): return rd(v.call("spasm_pivots_find").g("E1"), v.i)
    def copy(v, ve):
        o = v.old; A = o.A; lo = rd(A.p.A, v.i); f = A.field.p; V = v.fact.U; Vj, Vx = V.j.A, V.x.A; u0 = rd(V.p.A, o.fact.U.n + v.k); SRC = v.g("SRC"); D = Extract.D(v); sk = rd(SRC, k_); co = rs(Vj, Vx, u0, j_, v.unz); cA = rs(A.j.A, A.x.A, lo, j_, v.px)
        return [("px", land(lo <= v.px, v.px <= rd(A.p.A, v.i + 1))), ("unz", v.unz == u0 + 1 + v.px - lo - z3.If(D < v.px, 1, 0)), ("pivot first", land(rd(Vj, u0) == v.j, rd(Vx, u0) == 1)), ("earlier entries", forall(k_, imp(land(0 <= k_, k_ < u0), land(rd(Vj, k_) == rd(ve.fact.U.j.A, k_), rd(Vx, k_) == rd(ve.fact.U.x.A, k_), rd(SRC, k_) == rd(ve.g("SRC"), k_))), [[rd(Vj, k_)], [rd(Vx, k_)], [sk]])),
                ("copied", forall(k_, imp(land(u0 < k_, k_ < v.unz), land(lo <= sk, sk < v.px, rd(Vj, k_) == rd(A.j.A, sk), rd(Vj, k_) != v.j, canonp(f, rd(Vx, k_)))), [[rd(Vj, k_)], [rd(Vx, k_)], [sk]])), ("sum at the pivot", rs(Vj, Vx, u0, v.j, v.unz) == 1),
                ("sums", forall(j_, imp(j_ != v.j, z0(f, cA - fmul(v.pivot, co))), [[co], [cA]]))]
    def copy_pre(v):
        o = v.old; A = o.A; V = v.fact.U; u0 = rd(V.p.A, o.fact.U.n + v.k); lo = rd(A.p.A, v.i); E = (V.j.A, V.x.A); f = A.field.p; co = lambda t: rs(*E, u0, j_, t); a0 = rs(A.j.A, A.x.A, lo, j_, lo); c1 = co(v.unz)
        return [u0 + 1 == v.unz, forall(j_, land(rs.zero(A.j.A, A.x.A, lo, j_), rs.zero(*E, u0, j_), rs.unfold(*E, u0, j_, u0), z0_intro(f, I(0), I(0)), fmul_def(v.pivot, I(0)), fmul_def(v.pivot, c1), Z0Eq.inst(f, I(0), a0 - fmul(v.pivot, c1))), [[c1], [a0]]), rs.zero(*E, u0, v.j), rs.unfold(*E, u0, v.j, u0)]
    def located(v):
        A = v.old.A; lo = rd(A.p.A, v.i); D = Extract.D(v); hi = rd(A.p.A, v.i + 1); return [("row", land(0 <= v.i, v.i < A.n, rd(v.pinv.A, v.i) == v.j, 0 <= v.j, v.j < A.m)), ("place of the pivot", land(lo <= D, D < hi, rd(A.j.A, D) == v.j, rd(A.x.A, D) != 0)), ("only there", forall(k_, imp(land(lo <= k_, k_ < hi, k_ != D), rd(A.j.A, k_) != v.j), [rd(A.j.A, k_)])),
            ("room for the row", (lambda V, u0: land(0 <= u0, u0 + hi - lo <= V.j.len, u0 + hi - lo <= V.x.len, V.j.ok, V.x.ok))(v.fact.U, rd(v.fact.U.p.A, v.old.fact.U.n + v.k)))]
    def copy_head(v): return [rd(v.old.A.j.A, v.px) == rd(v.old.A.j.A, v.px)]
    def copy_end(h, e):
        o = h.old; A = o.A; lo = rd(A.p.A, h.i); V, W = h.fact.U, e.fact.U; u0 = rd(V.p.A, o.fact.U.n + h.k); f = A.field.p; x = rd(A.x.A, h.px); al = e.call("spasm_ZZp_inverse").r; y = rd(W.x.A, h.unz); new = e.unz == h.unz + 1; E, F = (V.j.A, V.x.A), (W.j.A, W.x.A); cj = rd(A.j.A, h.px); d = h.pivot
        a0, a1 = rs(A.j.A, A.x.A, lo, j_, h.px), rs(A.j.A, A.x.A, lo, j_, h.px + 1); c0, c1 = rs(*E, u0, j_, h.unz), rs(*F, u0, j_, e.unz)
        return [forall(j_, land(rs.unfold(A.j.A, A.x.A, lo, j_, h.px), imp(new, land(rs.unfold(*F, u0, j_, h.unz), RsFrame.inst(*F, *E, u0, j_, h.unz))), ScaleStep.inst(f, a0, c0, x, y, al, d), Z0Eq.inst(f, a0 - fmul(d, c0), a1 - fmul(d, c1)), Z0Eq.inst(f, (a0 + x) - fmul(d, c0 + y), a1 - fmul(d, c1))), [[c1], [a1]])]
    def copy_start(v):
        o = v.old; A = o.A; V = v.fact.U; u0 = rd(V.p.A, o.fact.U.n + v.k); lo = rd(A.p.A, v.i); f = A.field.p; c1 = rs(V.j.A, V.x.A, u0, j_, v.unz); a0 = rs(A.j.A, A.x.A, lo, j_, lo)
        return [("one entry", forall(j_, c1 == z3.If(j_ == v.j, 1, 0), [c1])), ("nothing yet", forall(j_, a0 == 0, [a0])), ("+z", forall(j_, land(fmul_def(v.pivot, I(0)), FmulZero.inst(v.pivot, c1), z0_intro(f, a0 - fmul(v.pivot, c1), I(0))), [[c1], [a0]])), ("sums at the start", forall(j_, imp(j_ != v.j, z0(f, a0 - fmul(v.pivot, c1))), [[c1], [a0]]), ["one entry", "nothing yet", "z"])]
    def copy_cut(h, e):
        o = h.old; A = o.A; lo = rd(A.p.A, h.i); V, W = h.fact.U, e.fact.U; u0 = rd(V.p.A, o.fact.U.n + h.k); f = A.field.p; x = rd(A.x.A, h.px); al = e.call("spasm_ZZp_inverse").r; y = rd(W.x.A, h.unz); new = e.unz == h.unz + 1; E, F = (V.j.A, V.x.A), (W.j.A, W.x.A); cj = rd(A.j.A, h.px); d = h.pivot
        a0, a1 = rs(A.j.A, A.x.A, lo, j_, h.px), rs(A.j.A, A.x.A, lo, j_, h.px + 1); c0, c1 = rs(*E, u0, j_, h.unz), rs(*F, u0, j_, e.unz); g = dict(Extract.copy(h, h))["sums"]
        return [("+", forall(j_, land(Z0Eq.inst(f, a0 - fmul(d, c0), a1 - fmul(d, c1)), Z0Eq.inst(f, (a0 + x) - fmul(d, c0 + y), a1 - fmul(d, c1)), ScaleStep.inst(f, a0, c0, x, y, al, d)), [[c1], [a1]])), ("inverse", z0(f, fmul(al, d) - 1)), ("one more at most", lor(land(new, cj != h.j), land(e.unz == h.unz, cj == h.j))), ("value", imp(new, z0(f, fmul(al, x) - y))),
                ("A: next", forall(j_, a1 == a0 + z3.If(cj == j_, x, 0), [[a1], [a0]])), ("U: next", forall(j_, c1 == c0 + z3.If(land(new, cj == j_), y, 0), [[c1], [c0]])), ("sum at the pivot", rs(*F, u0, h.j, e.unz) == 1, ["U: next", "one more at most", dict(Extract.copy(h, h))["sum at the pivot"]]), ("sums", forall(j_, imp(j_ != h.j, z0(f, a1 - fmul(d, c1))), [[c1], [a1]]), ["", "inverse", "one more at most", "value", "A: next", "U: next", g])]
    def cuts(s, o, v, r):
        A, U, V = o.A, o.fact.U, v.fact.U; n0 = U.n; Vp, Vj = V.p.A, V.j.A; n1 = n0 + r; q, q1 = o.fact.qinv.A, v.fact.qinv.A; UQ1 = Extract.uq1(v); N0 = rd(U.p.A, n0); f = A.field.p; col = rd(Vj, k_); E, F = (U.j.A, U.x.A), (Vj, V.x.A); at_ = rs(*F, rd(Vp, i_), rd(UQ1, i_), rd(Vp, i_ + 1)); up = dict(upper_pre(V, v.fact.qinv, UQ1)); ro = v.call("spasm_pivots_reorder"); PP = ro.g("PP"); P, Q = v.call("spasm_pivots_find").n.pinv.A, v.call("spasm_pivots_find").n.qinv.A; sk = rd(v.g("SRC"), k_)
        rw = dict(Extract.rows(o, V, n1, UQ1, v.g("AL"), v.p.A)); here = ["end of the old rows", "old rows"]
        return [("count", land(0 <= r, r <= A.n, r == v.npiv)), ("rows", V.n == n1), ("mono", monotone(Vp, n1)), ("copied", Extract.source(v, V, n1)[1]), ("widths", Extract.widths(v, V, r)[1]), ("new pivot columns", up["pivot columns"]), ("+", Pigeon.inst(UQ1, n1, A.m)), ("distinct", inj(UQ1, n1)), ("at most m", n1 <= A.m), ("end of the old rows", land(n0 >= 0, rd(Vp, n0) == N0, rd(Vp, I(0)) == 0)), ("+frame", forall(i_, RsFrame.inst(*F, *E, rd(Vp, i_), rd(UQ1, i_), rd(Vp, i_ + 1)), [at_])),
                ("old rows", forall(i_, imp(land(0 <= i_, i_ < n0), land(rd(Vp, i_) == rd(U.p.A, i_), rd(Vp, i_ + 1) == rd(U.p.A, i_ + 1), rd(UQ1, i_) == rd(o.g("UQ"), i_), rd(Vp, i_ + 1) <= N0, 0 <= rd(Vp, i_), rd(Vp, i_) <= rd(Vp, i_ + 1))), [[rd(Vp, i_)], [rd(UQ1, i_)]])), ("old sums", forall(i_, imp(land(0 <= i_, i_ < n0), at_ == rs(*E, rd(U.p.A, i_), rd(o.g("UQ"), i_), rd(U.p.A, i_ + 1))), [at_]), here + ["frame", rw["entries kept"]]),
                ("+z", forall(i_, Z0Eq.inst(f, rs(*E, rd(U.p.A, i_), rd(o.g("UQ"), i_), rd(U.p.A, i_ + 1)) - 1, at_ - 1), [at_])), ("+z", forall(i_, z0_intro(f, at_ - 1, I(0)), [at_])), ("new sums", forall(i_, imp(land(n0 <= i_, i_ < n1), at_ == 1), [at_])), ("old unit", dict(upper_pre(U, o.fact.qinv, o.g("UQ")))["unit pivots"]), ("unit", up["unit pivots"], here + ["z", "old sums", "new sums", "old unit"]),
                ("new first", forall(i_, imp(land(n0 <= i_, i_ < n1), land(rd(Vp, i_) < rd(Vp, i_ + 1), rd(Vj, rd(Vp, i_)) == rd(UQ1, i_))), [rd(Vp, i_)])), ("old first", forall(i_, imp(land(0 <= i_, i_ < n0), land(rd(Vp, i_) < rd(Vp, i_ + 1), rd(Vj, rd(Vp, i_)) == rd(UQ1, i_))), [rd(Vp, i_)]), here + [rw["entries kept"], dict(upper_pre(U, o.fact.qinv, o.g("UQ")))["pivots first"]]), ("first", up["pivots first"], ["new first", "old first"]), ("row sizes", rowfit(V)[1], here + ["widths", rowfit(A)[1], rowfit(U)[1], ro.post["permutation"]]),
                ("rows of A", forall([i_, k_], imp(land(0 <= i_, i_ < A.n, inrow_(A.p.A, i_, k_)), land(0 <= k_, k_ < rd(A.p.A, A.n))), [z3.MultiPattern(rd(A.p.A, i_), rd(A.j.A, k_))])),
                ("+rows", forall(k_, RowOf.inst(U.p.A, k_, n0), [col])), ("+rows1", forall(k_, RowOf.inst(Vp, k_, n1), [col])),
                ("old entries", forall([i_, k_], imp(land(0 <= i_, i_ < n0, inrow_(Vp, i_, k_)), lor(rd(q, col) < 0, rd(q, col) >= i_)), [z3.MultiPattern(rd(Vp, i_), col)])), ("located", forall(j_, imp(land(0 <= j_, j_ < A.m), lor(rd(q1, j_) == rd(q, j_), rd(q1, j_) >= n0)), [[rd(q1, j_)], [rd(q, j_)]])),
                ("source of new entries", forall([i_, k_], imp(land(n0 <= i_, i_ < n1, rd(Vp, i_) < k_, k_ < rd(Vp, i_ + 1)), land(inrow_(A.p.A, rd(v.p.A, i_ - n0), sk), 0 <= sk, sk < rd(A.p.A, A.n), col == rd(A.j.A, sk), 0 <= col, col < A.m, col != rd(P, rd(v.p.A, i_ - n0)), rd(q, col) < 0)), [z3.MultiPattern(rd(Vp, i_), col)]), ["copied", "count", "rows of A", "end of the old rows", ro.post["permutation"], dict(csr_ok(A))["columns"], dict(s.pre(o))["no entry in the pivotal columns"]]),
                ("new entries, later pivots", forall([i_, k_], imp(land(n0 <= i_, i_ < n1, rd(Vp, i_) < k_, k_ < rd(Vp, i_ + 1), rd(Q, col) >= 0), rd(PP, rd(Q, col)) > i_ - n0), [z3.MultiPattern(rd(Vp, i_), col)]), ["source of new entries", "count", ro.post["pivotal rows in topological order"]]),
                ("located at", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(q1, j_) == z3.If(land(rd(Q, j_) >= 0, rd(PP, rd(Q, j_)) < r), n0 + rd(PP, rd(Q, j_)), rd(q, j_))), [rd(q1, j_)])),
                ("first of new rows", forall(i_, imp(land(n0 <= i_, i_ < n1), land(rd(Vj, rd(Vp, i_)) == rd(UQ1, i_), rd(q1, rd(UQ1, i_)) == i_)), [rd(Vp, i_)])),
                ("columns", forall(k_, imp(land(0 <= k_, k_ < rd(Vp, n1)), land(0 <= col, col < A.m)), [col])), ("rows of V", forall([i_, k_], imp(land(0 <= i_, i_ < n1, inrow_(Vp, i_, k_)), land(0 <= k_, k_ < rd(Vp, n1))), [z3.MultiPattern(rd(Vp, i_), col)]), ["mono", "count", "end of the old rows"]),
                ("new entries", forall([i_, k_], imp(land(n0 <= i_, i_ < n1, inrow_(Vp, i_, k_)), lor(rd(q1, col) < 0, rd(q1, col) >= i_)), [z3.MultiPattern(rd(Vp, i_), col)]), ["source of new entries", "new entries, later pivots", "located at", "first of new rows", "end of the old rows"]), ("old entries now", forall([i_, k_], imp(land(0 <= i_, i_ < n0, inrow_(Vp, i_, k_)), lor(rd(q1, col) < 0, rd(q1, col) >= i_)), [z3.MultiPattern(rd(Vp, i_), col)]), ["old entries", "located", "columns", "rows of V"]), ("entries", forall([i_, k_], imp(land(0 <= i_, i_ < n1, inrow_(Vp, i_, k_)), lor(rd(q1, col) < 0, rd(q1, col) >= i_)), [z3.MultiPattern(rd(Vp, i_), col)]), ["old entries now", "new entries"]),
                ("triangular", up["U triangular"], ["entries", "rows1", "new pivot columns", "end of the old rows", "rows", "mono"])]
    def copied(v):
        """the whole row, at the pivot and elsewhere"""
        o = v.old; A = o.A; lo = rd(A.p.A, v.i); hi = rd(A.p.A, v.i + 1); f = A.field.p; V = v.fact.U; E = (V.j.A, V.x.A); u0 = rd(V.p.A, o.fact.U.n + v.k); D = Extract.D(v); c, a = rs(*E, u0, j_, v.unz), rs(A.j.A, A.x.A, lo, j_, hi)
        return [("+", RsOne.inst(A.j.A, A.x.A, D, lo, v.j, hi)), ("pivot of the row of A", rs(A.j.A, A.x.A, lo, v.j, hi) == v.pivot), ("+z", forall(j_, land(fmul_def(v.pivot, I(1)), z0_intro(f, a - fmul(v.pivot, c), I(0))), [[c], [a]])), ("sum at the pivot", rs(*E, u0, v.j, v.unz) == 1), ("sums", forall(j_, imp(j_ != v.j, z0(f, a - fmul(v.pivot, c))), [[c], [a]])),
                ("width", v.unz - u0 == hi - lo), ("+zz", FmulOne.inst(v.pivot, rs(*E, u0, v.j, v.unz))), ("times the sum", fmul(v.pivot, rs(*E, u0, v.j, v.unz)) == v.pivot, ["zz", "sum at the pivot"]), ("difference", rs(A.j.A, A.x.A, lo, v.j, hi) - fmul(v.pivot, rs(*E, u0, v.j, v.unz)) == 0, ["times the sum", "pivot of the row of A"]), ("+zz2", z0_intro(f, rs(A.j.A, A.x.A, lo, v.j, hi) - fmul(v.pivot, rs(*E, u0, v.j, v.unz)), I(0))), ("scaled at the pivot", z0(f, rs(A.j.A, A.x.A, lo, v.j, hi) - fmul(v.pivot, rs(*E, u0, v.j, v.unz))), ["zz2", "difference"]), ("row of A, scaled", forall(j_, z0(f, a - fmul(v.pivot, c)), [[c], [a]]), ["scaled at the pivot", "sums"]), ("pivot canonical", land(canonp(f, v.pivot), v.pivot != 0))]
    def cut(s, h, e):
        o = h.old; A = o.A; f = A.field.p; n0 = o.fact.U.n; V, W = h.fact.U, e.fact.U; k = h.k; N = n0 + k; UQ1 = Extract.uq1(h); E, F = (V.j.A, V.x.A), (W.j.A, W.x.A); Vp, Wp = V.p.A, W.p.A; inv0 = dict(s.inv(h)); inv1 = dict(s.inv(e)); row = lambda i: rs(*F, rd(Wp, i), j_, rd(Wp, i + 1)); u0 = rd(Vp, N)
        SRC, SR1 = h.g("SRC"), e.g("SRC"); r = e.i; wt = rs(*F, rd(Wp, n0 + t_), j_, rd(Wp, n0 + t_ + 1)); vt = rs(*E, rd(Vp, n0 + t_), j_, rd(Vp, n0 + t_ + 1)); at_ = lambda a, P, i: rs(*a, rd(P, i), rd(UQ1, i), rd(P, i + 1)); cA = rowcoef(A, rd(h.p.A, t_), j_)
        b = "monotone"; sk, sk1 = rd(SRC, k_), rd(SR1, k_); lo, hi = rd(A.p.A, r), rd(A.p.A, r + 1); D = Extract.D(e); u1 = e.unz
        def both(x, name, *more): return (x, inv1[x], ["this row", "row pointers", "earlier", "new row: " + name, inv0[x]] + list(more))
        return [("this row", land(n0 >= 0, k >= 0, rd(Wp, I(0)) == 0, rd(Vp, I(0)) == 0, rd(Wp, N) == u0, rd(Wp, N + 1) == u1, u1 > u0, rd(UQ1, N) == e.j, rd(h.p.A, k) == r, u1 == u0 + hi - lo, rd(e.g("AL"), k) == e.pivot)), ("row pointers", forall(t_, imp(land(0 <= t_, t_ <= N), rd(Wp, t_) == rd(Vp, t_)), [rd(Wp, t_)])), (b, inv1[b], [inv0[b], "this row", "row pointers"]),
                ("earlier", forall(k_, imp(land(0 <= k_, k_ < u0), land(rd(F[0], k_) == rd(E[0], k_), rd(F[1], k_) == rd(E[1], k_), sk1 == sk)), [[rd(F[0], k_)], [rd(F[1], k_)], [sk1]])),
                ("+frame", forall([t_, j_], RsFrame.inst(*F, *E, rd(Wp, n0 + t_), j_, rd(Wp, n0 + t_ + 1)), [wt])), ("earlier rows", forall([t_, j_], imp(land(0 <= t_, t_ < k), wt == vt), [wt]), ["frame", "earlier", "row pointers", "this row", inv0[b]]),
                ("+frame2", forall(i_, RsFrame.inst(*F, *E, rd(Wp, i_), rd(UQ1, i_), rd(Wp, i_ + 1)), [at_(F, Wp, i_)])), ("earlier pivots", forall(i_, imp(land(n0 <= i_, i_ < N), at_(F, Wp, i_) == at_(E, Vp, i_)), [at_(F, Wp, i_)]), ["frame2", "earlier", "row pointers", "this row", inv0[b]]),
                ("new row: pivot first", land(rd(F[0], u0) == e.j, rd(F[1], u0) == 1)), ("new row: sum", rs(*F, u0, e.j, u1) == 1), ("new row: scaled", forall(j_, z0(f, rs(A.j.A, A.x.A, lo, j_, hi) - fmul(e.pivot, rs(*F, u0, j_, u1))), [[rs(A.j.A, A.x.A, lo, j_, hi)], [rs(*F, u0, j_, u1)]])),
                ("new row: copied", forall(k_, imp(land(u0 < k_, k_ < u1), land(lo <= sk1, sk1 < hi, rd(F[0], k_) == rd(A.j.A, sk1), rd(F[0], k_) != e.j, canonp(f, rd(F[1], k_)))), [[rd(F[0], k_)], [rd(F[1], k_)], [sk1]])), ("new row: range", forall(k_, imp(land(lo <= k_, k_ < hi), land(0 <= rd(A.j.A, k_), rd(A.j.A, k_) < A.m)), [rd(A.j.A, k_)])), ("new row: pivot", land(canonp(f, e.pivot), e.pivot != 0, 0 <= e.j, e.j < A.m, f >= 3, rd(h.pinv.A, r) == e.j)),
                ("entries kept", inv1["entries kept"]), both("columns in range", "copied", "new row: range", "new row: pivot", "new row: pivot first"), both("canonical", "copied", "new row: pivot", "new row: pivot first"), both("pivots first", "pivot first", inv0[b]), both("coefficient at the pivot", "sum", "earlier pivots"),
                both("rows are rows of A, scaled", "scaled", "earlier rows"), both("pivots", "pivot"), both("copied entries", "copied", inv0[b], "new row: pivot"), both("row sizes", "sum")] + s.cutL(h, e)
    def cutL(s, h, e):
        if not s.withL: return []
        o = h.old; L0, L, L1 = o.fact.Ltmp, h.fact.Ltmp, e.fact.Ltmp; l = L0.nz + h.k; i1 = dict(s.inv(e)); i0 = dict(s.inv(h)); x = "L: the pivots"
        return [("L: count", land(L.nz == l, L1.nz == l + 1)), ("L: this one", land(L.nz == l, L1.nz == l + 1, rd(L1.i.A, l) == Extract.orig(o, e.i), rd(L1.j.A, l) == o.fact.U.n + h.k, rd(L1.x.A, l) == e.pivot, rd(h.p.A, h.k) == e.i, rd(e.g("AL"), h.k) == e.pivot, L0.nz >= 0, h.k >= 0)), ("L: kept", forall(k_, imp(land(0 <= k_, k_ < l), land(rd(L1.i.A, k_) == rd(L.i.A, k_), rd(L1.j.A, k_) == rd(L.j.A, k_), rd(L1.x.A, k_) == rd(L.x.A, k_))), [[rd(L1.i.A, k_)], [rd(L1.j.A, k_)], [rd(L1.x.A, k_)]])),
                ("pivots kept", forall(t_, imp(land(0 <= t_, t_ < h.k), rd(e.g("AL"), t_) == rd(h.g("AL"), t_)), [rd(e.g("AL"), t_)])), (x, i1[x], ["L: this one", "L: kept", "pivots kept", i0[x]])]
EXTRACT = [Extract(), Extract(True)]
ALL = [FL(), FLcol(), Cycle(), Find(), Reorder()] + EXTRACT
