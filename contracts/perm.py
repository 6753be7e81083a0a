"""C04: src/spasm_permutation.c"""
from dv.lib import *
from contracts.util import same

def at(p, i):   # p[i], identity when p is NULL
    return i if p.isnull() else z3.If(p.null, i, p[i])
def atA(p, i):
    return i if p.isnull() else z3.If(p.null, i, rd(p.A, i))
def permp(v, p, n, what):
    return [] if p.isnull() else [(f"{what} size", imp(lnot(p.null), land(p.ok, p.len >= n))), (f"{what} is a permutation", imp(lnot(p.null), perm(p.A, n)))]
class Pvec(Contract):
    name = "spasm_pvec"; file = "spasm_permutation.c"; params = ["p", "b", "x", "n"]; shapes = {"p": "nullable"}
    assigns = ("x",)
    def pre(s, v): return permp(v, v.p, v.n, "p") + [("sizes", land(v.n >= 0, v.b.len >= v.n, v.x.len >= v.n))]
    def post(s, o, n, r):
        return [("x[k] = b[p[k]]", forall(k_, imp(land(0 <= k_, k_ < o.n), rd(n.x.A, k_) == rd(o.b.A, atA(o.p, k_))), [rd(n.x.A, k_)])),
                ("rest of x", forall(k_, imp(lor(k_ < 0, k_ >= o.n), rd(n.x.A, k_) == rd(o.x.A, k_)), [rd(n.x.A, k_)]))]
    loops = {"0": Loop(inv=lambda v: [("prefix", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.x.A, k_) == rd(v.old.b.A, atA(v.old.p, k_))), [rd(v.x.A, k_)])),
                                      ("rest", forall(k_, imp(lor(k_ < 0, k_ >= v.i), rd(v.x.A, k_) == rd(v.old.x.A, k_)), [rd(v.x.A, k_)]))])}
class Ipvec(Contract):
    name = "spasm_ipvec"; file = "spasm_permutation.c"; params = ["p", "b", "x", "n"]; shapes = {"p": "nullable"}
    assigns = ("x",)
    def pre(s, v): return permp(v, v.p, v.n, "p") + [("sizes", land(v.n >= 0, v.b.len >= v.n, v.x.len >= v.n))]
    def post(s, o, n, r):
        return [("x[p[k]] = b[k]", forall(k_, imp(land(0 <= k_, k_ < o.n), rd(n.x.A, atA(o.p, k_)) == rd(o.b.A, k_)), [atA(o.p, k_)] if False else [rd(o.b.A, k_)])),
                ("rest of x", forall(k_, imp(lor(k_ < 0, k_ >= o.n), rd(n.x.A, k_) == rd(o.x.A, k_)), [rd(n.x.A, k_)]))]
    loops = {"0": Loop(inv=lambda v: [("prefix", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.x.A, atA(v.old.p, k_)) == rd(v.old.b.A, k_)), [rd(v.old.b.A, k_)])),
                                      ("rest", forall(k_, imp(lor(k_ < 0, k_ >= v.old.n), rd(v.x.A, k_) == rd(v.old.x.A, k_)), [rd(v.x.A, k_)]))])}
class Pinv(Contract):
    name = "spasm_pinv"; file = "spasm_permutation.c"; params = ["p", "n"]; shapes = {"p": "nullable", "return": "nullable"}
    def pre(s, v): return permp(v, v.p, v.n, "p") + [("n", v.n >= 0)]
    def facts_exit(s, o, v, r): return [] if r is None or r.isnull() else [forall(k_, Onto.inst(o.p.A, o.n, k_), [rd(r.A, k_)])]
    def post(s, o, n, r):
        if r.isnull(): return [("NULL for the identity", o.p.null)]
        return [("NULL iff identity", r.null == o.p.null), ("size", imp(lnot(r.null), land(r.ok, r.len >= o.n))),
                ("inverse", imp(lnot(r.null), forall(k_, imp(land(0 <= k_, k_ < o.n), rd(r.A, rd(o.p.A, k_)) == k_), [rd(o.p.A, k_)]))),
                ("other inverse", imp(lnot(r.null), forall(k_, imp(land(0 <= k_, k_ < o.n), land(0 <= rd(r.A, k_), rd(r.A, k_) < o.n, rd(o.p.A, rd(r.A, k_)) == k_)), [rd(r.A, k_)])))]
    loops = {"0": Loop(inv=lambda v: [("inverse so far", forall(k_, imp(land(0 <= k_, k_ < v.k), rd(v.pinv.A, rd(v.old.p.A, k_)) == k_), [rd(v.old.p.A, k_)]))])}
class RandPerm(Contract):
    name = "spasm_random_permutation"; file = "spasm_permutation.c"; params = ["n"]
    def pre(s, v): return [("n", v.n >= 0)]
    def post(s, o, n, r): return [("size", land(lnot(r.null), r.ok, r.len >= o.n)), ("bijection", perm(r.A, o.n))]
    loops = {"0": Loop(inv=lambda v: [("identity", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.p.A, k_) == k_), [rd(v.p.A, k_)]))]),
             "1": Loop(inv=lambda v: [("bijection", perm(v.p.A, v.old.n)), ("i", v.i < maxi(v.old.n, 0))])}
def maxi(a, b): return z3.If(a > b, a, b)
class RangePvec(Contract):
    name = "spasm_range_pvec"; file = "spasm_permutation.c"; params = ["x", "a", "b", "p"]
    assigns = ("x", "p")
    def pre(s, v): return [("range", land(0 <= v.a, v.a <= v.b, v.b <= v.x.len)), ("p size", v.p.len >= v.b - v.a), ("p is a permutation", perm(v.p.A, v.b - v.a))]
    def post(s, o, n, r):
        return [("permuted", forall(k_, imp(land(o.a <= k_, k_ < o.b), rd(n.x.A, k_) == rd(o.x.A, o.a + rd(o.p.A, k_ - o.a))), [rd(n.x.A, k_)])),
                ("rest", forall(k_, imp(lor(k_ < o.a, k_ >= o.b), rd(n.x.A, k_) == rd(o.x.A, k_)), [rd(n.x.A, k_)]))]
    loops = {"0": Loop(inv=lambda v: [("done", forall(k_, imp(land(0 <= k_, k_ < v.i), rd(v.p.A, k_) == rd(v.old.x.A, v.a + rd(v.old.p.A, k_))), [rd(v.p.A, k_)])),
                                      ("todo", forall(k_, imp(k_ >= v.i, rd(v.p.A, k_) == rd(v.old.p.A, k_)), [rd(v.p.A, k_)]))]),
             "1": Loop(inv=lambda v: [("done", forall(k_, imp(land(v.a <= k_, k_ < v.a + v.i), rd(v.x.A, k_) == rd(v.old.x.A, v.a + rd(v.old.p.A, k_ - v.a))), [rd(v.x.A, k_)])),
                                      ("rest", forall(k_, imp(lor(k_ < v.a, k_ >= v.a + v.i), rd(v.x.A, k_) == rd(v.old.x.A, k_)), [rd(v.x.A, k_)]))])}
class Permute(Contract):
    name = "spasm_permute"; file = "spasm_permutation.c"; params = ["A", "p", "qinv", "values"]
    shapes = {"p": "nullable", "qinv": "nullable"}
    def pre(s, v):
        return csr_ok(v.A) + [("modulus", lor(v.A.field.p < 0, land(v.A.field.p >= 3, v.A.field.p <= 4294967291, v.A.field.p % 2 == 1)))] + permp(v, v.p, v.A.n, "p") + permp(v, v.qinv, v.A.m, "qinv")
    def post(s, o, n, r):
        A = o.A; i, d = z3.Ints("i! d!")
        src = lambda i: rd(A.p.A, atA(o.p, i))
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == A.n, r.m == A.m)), ("field", r.field.p == A.field.p),
             ("row lengths", forall(i, imp(land(0 <= i, i < A.n), rd(r.p.A, i + 1) - rd(r.p.A, i) == rd(A.p.A, atA(o.p, i) + 1) - src(i)), [rd(r.p.A, i)])),
             ("row i is row p[i]", forall([i, k_], imp(land(0 <= i, i < A.n, rd(r.p.A, i) <= k_, k_ < rd(r.p.A, i + 1)), rd(r.j.A, k_) == atA(o.qinv, rd(A.j.A, src(i) + k_ - rd(r.p.A, i)))), [z3.MultiPattern(rd(r.p.A, i), rd(r.j.A, k_))]))]
        if not r.x.isnull() and not A.x.isnull():
            P += [("values kept", forall([i, k_], imp(land(lnot(r.x.null), 0 <= i, i < A.n, rd(r.p.A, i) <= k_, k_ < rd(r.p.A, i + 1)), rd(r.x.A, k_) == rd(A.x.A, src(i) + k_ - rd(r.p.A, i))), [z3.MultiPattern(rd(r.p.A, i), rd(r.x.A, k_))])),
                  ("values iff requested", r.x.null == lor(o.values == 0, A.x.null))]
        return P
    def facts_exit(s, o, v, r): return [Pigeon.inst(v.g("SRC"), rd(r.p.A, o.A.n), rd(o.A.p.A, o.A.n))]
    def ghosts0(s, v): return {"SRC": z3.K(Int, I(-1)), "ROW": z3.K(Int, I(-1))}
    def src(v, i): return rd(v.old.A.p.A, atA(v.old.p, i))
    def common(v, done, cur):
        """done: rows finished; cur: row being written (None between rows)"""
        o = v.old; A = o.A; i, d = z3.Ints("i! d!"); nnz = v.nnz
        SRC, ROW = v.g("SRC"), v.g("ROW"); Cp = v.C.p.A
        top = done if cur is None else done + 1
        src = lambda i: Permute.src(v, i)
        end = lambda i: rd(A.p.A, atA(o.p, i) + 1)
        R = [("C", land(v.C.n == A.n, v.C.m == A.m, v.C.nzmax == A.nzmax)),
             ("sources distinct", inj(SRC, nnz)),
             ("sources", forall(k_, imp(land(0 <= k_, k_ < nnz), land(0 <= rd(SRC, k_), rd(SRC, k_) < rd(A.p.A, A.n), 0 <= rd(ROW, k_), rd(ROW, k_) < top,
                                  src(rd(ROW, k_)) <= rd(SRC, k_), rd(SRC, k_) < end(rd(ROW, k_)), rd(Cp, rd(ROW, k_)) <= k_, k_ - rd(Cp, rd(ROW, k_)) == rd(SRC, k_) - src(rd(ROW, k_)))), [rd(SRC, k_)])),
             ("row starts", forall(i, imp(land(0 <= i, i < top), land(0 <= rd(Cp, i), rd(Cp, i) <= nnz)), [rd(Cp, i)])),
             ("first", imp(0 < top, rd(Cp, I(0)) == 0)),
             ("lengths", forall(i, imp(land(0 <= i, i < done), z3.If(i + 1 < top, rd(Cp, i + 1), nnz) - rd(Cp, i) == end(i) - src(i)), [rd(Cp, i)])),
             ("monotone", monotone(Cp, top - 1)),
             ("contents", forall(k_, imp(land(0 <= k_, k_ < nnz), land(rd(v.C.j.A, k_) == atA(o.qinv, rd(A.j.A, rd(SRC, k_))), 0 <= rd(v.C.j.A, k_), rd(v.C.j.A, k_) < A.m)), [rd(v.C.j.A, k_)]))]
        if cur is not None: R += [("current row", nnz - rd(Cp, done) == cur - src(done))]
        if not v.C.x.isnull() and not A.x.isnull():
            R.append(("values", imp(lnot(v.C.x.null), forall(k_, imp(land(0 <= k_, k_ < nnz), rd(v.C.x.A, k_) == rd(A.x.A, rd(SRC, k_))), [rd(v.C.x.A, k_)]))))
        return R
    G = {"SRC": ARR, "ROW": ARR}
    loops = {"0": Loop(inv=lambda v: Permute.common(v, v.i, None), ghost=G),
             "0.0": Loop(inv=lambda v: Permute.common(v, v.i, v.t) + [("t", v.t <= maxi(rd(v.old.A.p.A, v.j + 1), rd(v.old.A.p.A, v.j))), ("j", v.j == atA(v.old.p, v.i))], ghost=G,
                         ghost_end=lambda h, e: {"SRC": z3.Store(h.g("SRC"), h.nnz, h.t), "ROW": z3.Store(h.g("ROW"), h.nnz, h.i)},
                         head=lambda v: [Pigeon.inst(z3.Store(v.g("SRC"), v.nnz, v.t), v.nnz + 1, rd(v.old.A.p.A, v.old.A.n))])}
ALL = [Pvec(), Ipvec(), Pinv(), RandPerm(), RangePvec(), Permute()]
