"""C22: containers (src/spasm_util.c, spasm_add_entry and spasm_triplet_transpose)"""
from dv.lib import *

def sizes(n, m): return [("n range", land(n >= 0, n < (1 << 31) - 1)), ("m range", land(m >= 0, m < (1 << 31) - 1))]
def prime_arg(p): return ("modulus", lor(p < 0, land(p >= 3, p <= 4294967291, p % 2 == 1)))
def same(a, b, n, lo=0):
    nocap([k_], a, b, n, I(lo) if isinstance(lo, int) else lo); return forall(k_, imp(land(lo <= k_, k_ < n), rd(a, k_) == rd(b, k_)), [[rd(a, k_)], [rd(b, k_)]])
def field_of(F, p): return [("prime", F.p == p)] + [(a, imp(p >= 0, b)) for a, b in field_ok(F)]

class CsrAlloc(Contract):
    name = "spasm_csr_alloc"; file = "spasm_util.c"; params = ["n", "m", "nzmax", "prime", "with_values"]
    def pre(s, v): return sizes(v.n, v.m) + [("nzmax", land(v.nzmax >= 0, v.nzmax <= BIG)), prime_arg(v.prime)]
    def post(s, o, n, r):
        P = [("dimensions", land(r.n == o.n, r.m == o.m, r.nzmax == o.nzmax)), ("row pointers", land(lnot(r.p.null), r.p.ok, r.p.len == o.n + 1, r.p[0] == 0)),
             ("columns", land(lnot(r.j.null), r.j.ok, r.j.len == o.nzmax)),
             ("values iff requested", r.x.null == (o.with_values == 0))]
        P += [(a, b) for a, b in field_of(r.field, o.prime)]
        if not r.x.isnull(): P.append(("values", imp(lnot(r.x.null), land(r.x.ok, r.x.len == o.nzmax))))
        return P
class TripletAlloc(Contract):
    name = "spasm_triplet_alloc"; file = "spasm_util.c"; params = ["n", "m", "nzmax", "prime", "with_values"]
    def pre(s, v): return sizes(v.n, v.m) + [("nzmax", land(v.nzmax >= 0, v.nzmax <= BIG)), prime_arg(v.prime)]
    def post(s, o, n, r):
        P = [("dimensions", land(r.n == o.n, r.m == o.m, r.nzmax == o.nzmax, r.nz == 0)),
             ("rows", land(lnot(r.i.null), r.i.ok, r.i.len == o.nzmax)), ("columns", land(lnot(r.j.null), r.j.ok, r.j.len == o.nzmax)),
             ("values iff requested", r.x.null == (o.with_values == 0))]
        P += field_of(r.field, o.prime)
        if not r.x.isnull(): P.append(("values", imp(lnot(r.x.null), land(r.x.ok, r.x.len == o.nzmax))))
        return P
def newcap(nzmax, cur): return z3.If(nzmax < 0, cur, nzmax)
class CsrRealloc(Contract):
    name = "spasm_csr_realloc"; file = "spasm_util.c"; params = ["A", "nzmax"]
    assigns = ("A.j()", "A.x()", "A.nzmax")
    def pre(s, v):
        A = v.A
        r = [("n", land(A.n >= 0, A.n < (1 << 31) - 1)), ("p", land(A.p.ok, A.p.len >= A.n + 1)), ("j", land(A.j.ok, lnot(A.j.null))), ("nnz", imp(v.nzmax < 0, land(0 <= A.p[A.n], A.p[A.n] <= BIG))), ("nzmax", v.nzmax <= BIG)]
        if not A.x.isnull(): r.append(("x", imp(lnot(A.x.null), A.x.ok)))
        return r
    def post(s, o, n, r):
        A, B = o.A, n.A
        cap = newcap(o.nzmax, A.p[A.n])
        P = [("capacity", B.nzmax == cap), ("columns current", land(lnot(B.j.null), B.j.ok)), ("columns size", B.j.len >= cap), ("columns kept", same(B.j.A, A.j.A, z3.If(cap < A.j.len, cap, A.j.len))),
             ("values iff before", B.x.null == A.x.null)]
        if not A.x.isnull():
            P += [("values current", imp(lnot(A.x.null), land(B.x.ok, B.x.len >= cap))), ("values kept", imp(lnot(A.x.null), same(B.x.A, A.x.A, z3.If(cap < A.x.len, cap, A.x.len)))),
                  ("values kept (shadow)", imp(lnot(A.x.null), same(B.x.S, A.x.S, z3.If(cap < A.x.len, cap, A.x.len))))]
        return P
class TripletRealloc(Contract):
    name = "spasm_triplet_realloc"; file = "spasm_util.c"; params = ["A", "nzmax"]
    assigns = ("A.i()", "A.j()", "A.x()", "A.nzmax")
    def pre(s, v):
        A = v.A
        r = [("i", land(A.i.ok, lnot(A.i.null))), ("j", land(A.j.ok, lnot(A.j.null))), ("nz", land(0 <= A.nz, A.nz <= BIG)), ("nzmax", v.nzmax <= BIG)]
        if not A.x.isnull(): r.append(("x", imp(lnot(A.x.null), A.x.ok)))
        return r
    def post(s, o, n, r):
        A, B = o.A, n.A
        cap = newcap(o.nzmax, A.nz)
        P = [("capacity", B.nzmax == cap), ("values iff before", B.x.null == A.x.null)]
        for k in "ij":
            a, b = getattr(A, k), getattr(B, k)
            P += [(k + " current", land(lnot(b.null), b.ok, b.len >= cap)), (k + " kept", same(b.A, a.A, z3.If(cap < a.len, cap, a.len)))]
        if not A.x.isnull():
            P += [("values current", imp(lnot(A.x.null), land(B.x.ok, B.x.len >= cap))), ("values kept", imp(lnot(A.x.null), same(B.x.A, A.x.A, z3.If(cap < A.x.len, cap, A.x.len))))]
        return P
class CsrResize(Contract):
    name = "spasm_csr_resize"; file = "spasm_util.c"; params = ["A", "n", "m"]
    assigns = ("A.p()", "A.n", "A.m")
    def pre(s, v):
        return sizes(v.n, v.m) + [("old n", land(v.A.n >= 0, v.A.n < (1 << 31) - 1)), ("p", land(v.A.p.ok, lnot(v.A.p.null), v.A.p.len >= v.A.n + 1))]
    def post(s, o, n, r):
        A, B = o.A, n.A
        return [("dimensions", land(B.n == o.n, B.m == o.m)), ("row pointers", land(lnot(B.p.null), B.p.ok, B.p.len >= o.n + 1)),
                ("kept", forall(k_, imp(land(0 <= k_, k_ <= A.n, k_ <= o.n), rd(B.p.A, k_) == rd(A.p.A, k_)), [rd(B.p.A, k_)])),
                ("new rows are empty", forall(k_, imp(land(A.n < k_, k_ <= o.n), rd(B.p.A, k_) == rd(A.p.A, A.n)), [rd(B.p.A, k_)]))]
    loops = {"0": Loop(inv=lambda v: [("kept", forall(k_, imp(land(0 <= k_, k_ <= v.A.n, k_ <= v.n), rd(v.Ap.A, k_) == rd(v.old.A.p.A, k_)), [rd(v.Ap.A, k_)])),
                                       ("filled", forall(k_, imp(land(v.A.n < k_, k_ < v.i), rd(v.Ap.A, k_) == rd(v.old.A.p.A, v.old.A.n)), [rd(v.Ap.A, k_)]))])}
class Free(Contract):
    frees = True; never_call = True; alive = ()
    def post(s, o, n, r):
        return [(f"{a} released", z3.BoolVal(True) if s.get(n, a) is None or s.get(n, a).isnull() else lor(getattr(o, a[0]).null, s.get(o, a).null, z3.BoolVal(s.get(n, a).obj.freed))) for a in s.alive]
    def get(s, v, a):
        x = v
        for k in a.split("."):
            x = getattr(x, k)
        return x
class CsrFree(Free):
    name = "spasm_csr_free"; file = "spasm_util.c"; params = ["A"]; alive = ("A.p", "A.j", "A.x", "A"); shapes = {"A": "nullable"}
class TripletFree(Free):
    name = "spasm_triplet_free"; file = "spasm_util.c"; params = ["A"]; alive = ("A.i", "A.j", "A.x", "A")
class LuFree(Free):
    name = "spasm_lu_free"; file = "spasm_util.c"; params = ["N"]; alive = ("N.qinv", "N.p", "N.U", "N.L", "N"); shapes = {"N.Ltmp": "null"}
class DmFree(Free):
    name = "spasm_dm_free"; file = "spasm_util.c"; params = ["P"]; alive = ("P.p", "P.q", "P.r", "P.c", "P")
class DmAlloc(Contract):
    name = "spasm_dm_alloc"; file = "spasm_util.c"; params = ["n", "m"]
    def pre(s, v): return [("sizes", land(v.n >= 0, v.m >= 0, v.n <= (1 << 31) - 7, v.m <= (1 << 31) - 7))]
    def post(s, o, n, r):
        return [(k, land(lnot(getattr(r, k).null), getattr(r, k).ok, getattr(r, k).len == sz)) for k, sz in (("p", o.n), ("q", o.m), ("r", o.n + 6), ("c", o.m + 6))] + [
            ("empty", r.nb == 0), ("rr", land(*[r.rr[i] == 0 for i in range(5)])), ("cc", land(*[r.cc[i] == 0 for i in range(5)]))]
class Nnz(Contract):
    name = "spasm_nnz"; file = "spasm_util.c"; params = ["A"]; never_call = True
    def pre(s, v): return [("p", land(v.A.p.ok, v.A.n >= 0, v.A.p.len >= v.A.n + 1))]
    def post(s, o, n, r): return [("last row pointer", r == rd(o.A.p.A, o.A.n))]
def triplet_ok(T):
    r = [("nz", land(0 <= T.nz, T.nz <= T.nzmax, T.nzmax <= BIG)), ("dims", land(T.n >= 0, T.m >= 0, T.n < (1 << 31) - 1, T.m < (1 << 31) - 1)),
         ("i", land(T.i.ok, lnot(T.i.null), T.i.len >= T.nzmax)), ("j", land(T.j.ok, lnot(T.j.null), T.j.len >= T.nzmax)),
         ("rows in range", forall(k_, imp(land(0 <= k_, k_ < T.nz), land(0 <= rd(T.i.A, k_), rd(T.i.A, k_) < T.n)), [rd(T.i.A, k_)])),
         ("columns in range", forall(k_, imp(land(0 <= k_, k_ < T.nz), land(0 <= rd(T.j.A, k_), rd(T.j.A, k_) < T.m)), [rd(T.j.A, k_)]))]
    if not T.x.isnull(): r.append(("x", imp(lnot(T.x.null), land(T.x.ok, T.x.len >= T.nzmax))))
    return r
def tcanon(T): return ("canonical values", imp(lnot(T.x.null), canon_arr(T.field.p, T.x.A, T.nz)))
def maxz(a, b): return z3.If(a > b, a, b)
class AddEntry(Contract):
    name = "spasm_add_entry"; file = "spasm_triplet.c"; params = ["T", "i", "j", "x"]
    assigns = ("T.i()", "T.j()", "T.x()", "T.nzmax", "T.nz", "T.n", "T.m")
    ghost_out = {"xp": Int}
    def pre(s, v):
        return triplet_ok(v.T) + [(a, imp(lnot(v.T.x.null), b)) for a, b in field_ok(v.T.field)] + [tcanon(v.T), ("indices", land(0 <= v.i, v.i < (1 << 31) - 2, 0 <= v.j, v.j < (1 << 31) - 2)), ("capacity", v.T.nzmax < BIG / 4)]
    def witness(s, v):
        N, T = v.T, v.old.T
        return {"xp": I(0) if N.x.isnull() else z3.If(N.nz == T.nz, I(0), rd(N.x.A, T.nz))}
    def post(s, o, n, r):
        T, N = o.T, n.T; xp = n.g("xp")
        added = lor(T.x.null, xp != 0)
        P = [(a, b) for a, b in triplet_ok(N)] + [tcanon(N), ("values iff before", N.x.null == T.x.null),
             ("count", N.nz == T.nz + z3.If(added, 1, 0)), ("room", N.nzmax == z3.If(T.nz == T.nzmax, 1 + 2 * T.nzmax, T.nzmax)),
             ("i kept", same(N.i.A, T.i.A, T.nz)), ("j kept", same(N.j.A, T.j.A, T.nz)),
             ("new entry", imp(added, land(rd(N.i.A, T.nz) == o.i, rd(N.j.A, T.nz) == o.j))),
             ("dims", land(N.n == z3.If(added, maxz(T.n, o.i + 1), T.n), N.m == z3.If(added, maxz(T.m, o.j + 1), T.m)))]
        if not T.x.isnull():
            P += [("x kept", imp(lnot(T.x.null), same(N.x.A, T.x.A, T.nz))),
                  ("new value", imp(lnot(T.x.null), land(z0(T.field.p, o.x - xp), imp(xp != 0, rd(N.x.A, T.nz) == xp))))]
        return P
class TripletTranspose(Contract):
    name = "spasm_triplet_transpose"; file = "spasm_triplet.c"; params = ["T"]
    assigns = ("T.n", "T.m", "T.i&", "T.j&"); never_call = True
    def post(s, o, n, r):
        return [("rows are the columns", z3.BoolVal(n.T.i._p.obj == o.T.j._p.obj)), ("columns are the rows", z3.BoolVal(n.T.j._p.obj == o.T.i._p.obj)), ("dims", land(n.T.n == o.T.m, n.T.m == o.T.n)), ("count", n.T.nz == o.T.nz)]
class HumanFormat(Contract):
    name = "spasm_human_format"; file = "spasm_util.c"; params = ["n", "target"]; assigns = ("target",)
    def pre(s, v): return [("room", v.target.len >= 8), ("start", v.target.ok), ("size", v.n >= 0)]
ALL = [HumanFormat(), CsrAlloc(), TripletAlloc(), CsrRealloc(), TripletRealloc(), CsrResize(), CsrFree(), TripletFree(), LuFree(), DmFree(), DmAlloc(), Nnz(), AddEntry(), TripletTranspose()]
