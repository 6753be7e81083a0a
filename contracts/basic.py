"""contracts of the field operations (as seen by callers) and of the accumulation loops"""
from dv.lib import *

class Scatter(Contract):
    """x is canonical at the columns of the row (it may be anything elsewhere); W locates an entry of each changed column"""
    name = "spasm_scatter"; file = "spasm_scatter.c"; params = ["A", "i", "beta", "x"]
    shapes = {"A.x": "nonnull"}
    assigns = ("x",); ghost_out = {"W": ARR}
    def pre(s, v):
        A = v.A
        return csr_ok(A) + field_ok(A.field) + [canon_vals(A), ("row", land(0 <= v.i, v.i < A.n)), ("x size", v.x.len >= A.m), ("x start", v.x.ok),
            ("x canonical on the row", forall(k_, imp(land(A.p[v.i] <= k_, k_ < rd(A.p.A, v.i + 1)), canonp(A.field.p, rd(v.x.A, rd(A.j.A, k_)))), [rd(A.j.A, k_)]))]
    def body(o, n, W, hi):
        A = o.A; lo = A.p[o.i]; p = A.field.p
        return [("exact value", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(n.x.S, j_) == rd(o.x.S, j_) + rsm(o.beta, A.j.A, A.x.A, lo, j_, hi)), [rd(n.x.S, j_)])),
                ("canonical stays canonical", forall(j_, imp(canonp(p, rd(o.x.A, j_)), canonp(p, rd(n.x.A, j_))), [rd(n.x.A, j_)])),
                ("only columns of the row change", forall(j_, lor(land(rd(n.x.A, j_) == rd(o.x.A, j_), rd(n.x.S, j_) == rd(o.x.S, j_)), land(lo <= rd(W, j_), rd(W, j_) < hi, rd(A.j.A, rd(W, j_)) == j_)), [[rd(n.x.A, j_)], [rd(n.x.S, j_)]]))]
    def post(s, o, n, r):
        A = o.A; p = A.field.p
        return Scatter.body(o, n, n.g("W"), rd(A.p.A, o.i + 1)) + [("canonical", imp(canon_arr(p, o.x.A, A.m), canon_arr(p, n.x.A, A.m))), ("beyond m unchanged", forall(j_, imp(lor(j_ < 0, j_ >= A.m), rd(n.x.A, j_) == rd(o.x.A, j_)), [rd(n.x.A, j_)]))]
    def ghosts0(s, v): return {"W": z3.K(Int, I(-1))}
    def witness(s, v): return {"W": v.g("W")}
    loops = {"0": Loop(inv=lambda v: Scatter.body(v.old, v, v.g("W"), v.px) + [("px", land(v.old.A.p[v.old.i] <= v.px, v.px <= rd(v.old.A.p.A, v.old.i + 1)))], ghost={"W": ARR},
        ghost_end=lambda h, e: {"W": z3.Store(h.g("W"), rd(h.old.A.j.A, h.px), h.px)},
        pre=lambda v: [forall(j_, rsm.zero(v.old.beta, v.old.A.j.A, v.old.A.x.A, v.old.A.p[v.old.i], j_), [rd(v.x.S, j_)])],
        head=lambda v: [forall(j_, rsm.unfold(v.old.beta, v.old.A.j.A, v.old.A.x.A, v.old.A.p[v.old.i], j_, v.px), [rsm(v.old.beta, v.old.A.j.A, v.old.A.x.A, v.old.A.p[v.old.i], j_, v.px)])],
        end=lambda h, e: [rsm.unfold(h.old.beta, h.old.A.j.A, h.old.A.x.A, h.old.A.p[h.old.i], rd(h.old.A.j.A, h.px), h.px)])}
class XApy(Contract):
    name = "spasm_xApy"; file = "spasm_spmv.c"; params = ["x", "A", "y"]
    shapes = {"A.x": "nonnull"}; assigns = ("y",)
    def pre(s, v):
        return csr_ok(v.A) + field_ok(v.A.field) + [canon_vals(v.A), ("x size", v.x.len >= v.A.n), ("x start", v.x.ok), ("y size", v.y.len >= v.A.m), ("y start", v.y.ok), ("y canonical", canon_arr(v.A.field.p, v.y.A, v.A.m))]
    def val(o, j, i): A = o.A; return xA(o.x.A, A.p.A, A.j.A, A.x.A, j, i)
    def post(s, o, n, r):
        A = o.A
        return [("exact value", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(n.y.S, j_) == rd(o.y.S, j_) + XApy.val(o, j_, A.n)), [rd(n.y.S, j_)])), ("canonical", canon_arr(A.field.p, n.y.A, A.m)),
                ("beyond m unchanged", forall(j_, imp(lor(j_ < 0, j_ >= A.m), rd(n.y.A, j_) == rd(o.y.A, j_)), [rd(n.y.A, j_)]))]
    def inv(v, i, px):
        o = v.old; A = o.A
        extra = (lambda j: I(0)) if px is None else (lambda j: rsm(rd(o.x.A, i), A.j.A, A.x.A, rd(A.p.A, i), j, px))
        return [("value", forall(j_, imp(land(0 <= j_, j_ < A.m), rd(v.y.S, j_) == rd(o.y.S, j_) + XApy.val(o, j_, i) + extra(j_)), [rd(v.y.S, j_)])), ("canonical", canon_arr(A.field.p, v.y.A, A.m)),
                ("beyond", forall(j_, imp(lor(j_ < 0, j_ >= A.m), rd(v.y.A, j_) == rd(o.y.A, j_)), [rd(v.y.A, j_)])), ("bound", i <= A.n)] + ([] if px is None else [("px", px <= rd(A.p.A, i + 1))])
    loops = {"0": Loop(inv=lambda v: XApy.inv(v, v.i, None), pre=lambda v: [forall(j_, xA.zero(v.old.x.A, v.old.A.p.A, v.old.A.j.A, v.old.A.x.A, j_), [rd(v.y.S, j_)])],
                       end=lambda h, e: [forall(j_, xA.unfold(h.old.x.A, h.old.A.p.A, h.old.A.j.A, h.old.A.x.A, j_, h.i), [rd(e.y.S, j_)])]),
             "0.0": Loop(inv=lambda v: XApy.inv(v, v.i, v.px), pre=lambda v: [forall(j_, rsm.zero(rd(v.old.x.A, v.i), v.old.A.j.A, v.old.A.x.A, rd(v.old.A.p.A, v.i), j_), [rd(v.y.S, j_)])],
                       end=lambda h, e: [forall(j_, rsm.unfold(rd(h.old.x.A, h.i), h.old.A.j.A, h.old.A.x.A, rd(h.old.A.p.A, h.i), j_, h.px), [rd(e.y.S, j_)])])}
class Axpy_(Contract):
    name = "spasm_Axpy"; file = "spasm_spmv.c"; params = ["A", "x", "y"]
    shapes = {"A.x": "nonnull"}; assigns = ("y",)
    def pre(s, v):
        return csr_ok(v.A) + field_ok(v.A.field) + [canon_vals(v.A), ("x size", v.x.len >= v.A.m), ("x start", v.x.ok), ("y size", v.y.len >= v.A.n), ("y start", v.y.ok), ("x canonical", canon_arr(v.A.field.p, v.x.A, v.A.m)), ("y canonical", canon_arr(v.A.field.p, v.y.A, v.A.n))]
    def val(o, i, px=None): A = o.A; return dot(o.x.A, A.j.A, A.x.A, rd(A.p.A, i), rd(A.p.A, i + 1) if px is None else px)
    def post(s, o, n, r):
        A = o.A
        return [("exact value", forall(i_, imp(land(0 <= i_, i_ < A.n), rd(n.y.S, i_) == rd(o.y.S, i_) + Axpy_.val(o, i_)), [rd(n.y.S, i_)])), ("canonical", canon_arr(A.field.p, n.y.A, A.n)),
                ("beyond n unchanged", forall(i_, imp(lor(i_ < 0, i_ >= A.n), rd(n.y.A, i_) == rd(o.y.A, i_)), [rd(n.y.A, i_)]))]
    def inv(v, i, px):
        o = v.old; A = o.A; top = i if px is None else i + 1
        return [("done rows", forall(i_, imp(land(0 <= i_, i_ < i), rd(v.y.S, i_) == rd(o.y.S, i_) + Axpy_.val(o, i_)), [rd(v.y.S, i_)])), ("canonical", canon_arr(A.field.p, v.y.A, A.n)),
                ("other rows", forall(i_, imp(lor(i_ < 0, i_ >= top), land(rd(v.y.A, i_) == rd(o.y.A, i_), rd(v.y.S, i_) == rd(o.y.S, i_))), [[rd(v.y.A, i_)], [rd(v.y.S, i_)]])), ("bound", i <= A.n)] + (
                [] if px is None else [("px", px <= rd(A.p.A, i + 1)), ("current row", rd(v.y.S, i) == rd(o.y.S, i) + Axpy_.val(o, i, px))])
    loops = {"0": Loop(inv=lambda v: Axpy_.inv(v, v.i, None)),
             "0.0": Loop(inv=lambda v: Axpy_.inv(v, v.i, v.px), pre=lambda v: [dot.zero(v.old.x.A, v.old.A.j.A, v.old.A.x.A, rd(v.old.A.p.A, v.i))],
                         head=lambda v: [dot.unfold(v.old.x.A, v.old.A.j.A, v.old.A.x.A, rd(v.old.A.p.A, v.i), v.px)])}
ALL = [Scatter(), XApy(), Axpy_()]
