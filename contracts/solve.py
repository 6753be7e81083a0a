"""C09: solving x A = b from a factorization A = L U"""
from dv.lib import *
from contracts.tri import rowcoef, rowmul, xa, Forward, Back
from contracts.product import coef, is_lu, xl, xl_def, Prod, mat
Comb1 = Z0Lemma("solve_comb", 6, lambda b, zu, xu, xa, _1, _2: [b - zu, zu - xu, xa - xu], lambda b, zu, xu, xa, _1, _2: b - xa, lambda w1, w2, w3, *a: w1 + w2 - w3)
Comb2 = Z0Lemma("solve_comb2", 3, lambda b, ya, yu: [b - ya, ya - yu], lambda b, ya, yu: b - yu, lambda w1, w2, *a: w1 + w2)
Comb3 = Z0Lemma("solve_comb3", 3, lambda s, a, x: [s - a, s - x], lambda s, a, x: a - x, lambda w1, w2, *a: w2 - w1)
def A_(v): return (v.g("AP"), v.g("AJ"), v.g("AX"))
def fact_pre(f, UQ, D, AP):
    """L and U of a factorization: U unit upper triangular in the order of its rows, L lower triangular in the order of its columns (permuted)"""
    L, U, q, P = f.L, f.U, f.qinv, f.p; p = U.field.p; i = z3.Int("i!"); r = U.n
    lrow = lambda j, k: land(rd(L.p.A, rd(P.A, j)) <= k, k < rd(L.p.A, rd(P.A, j) + 1))
    return [("U: " + a, b) for a, b in csr_ok(U)] + [("L: " + a, b) for a, b in csr_ok(L)] + field_ok(U.field) + [("L: " + a, b) for a, b in field_ok(L.field)] + [("U: canonical", canon_vals(U)[1]), ("L: canonical", canon_vals(L)[1]),
        ("same field", L.field.p == p), ("prime", PRIME(p)), ("rank", land(L.m == r, r <= U.m)),
        ("qinv size", land(q.len >= U.m, q.ok)), ("qinv", forall(j_, imp(land(0 <= j_, j_ < U.m), land(-1 <= rd(q.A, j_), rd(q.A, j_) < r, imp(rd(q.A, j_) >= 0, rd(UQ, rd(q.A, j_)) == j_))), [rd(q.A, j_)])),
        ("pivot columns", forall(i, imp(land(0 <= i, i < r), land(0 <= rd(UQ, i), rd(UQ, i) < U.m, rd(q.A, rd(UQ, i)) == i)), [rd(UQ, i)])),
        ("unit pivots", forall(i, imp(land(0 <= i, i < r), z0(p, rowcoef(U, i, rd(UQ, i)) - 1)), [rd(UQ, i)])),
        ("U triangular", forall([i, k_], imp(land(0 <= i, i < r, rd(U.p.A, i + 1) <= k_, k_ < rd(U.p.A, r)), rd(U.j.A, k_) != rd(UQ, i)), [z3.MultiPattern(rd(UQ, i), rd(U.j.A, k_))])),
        ("p", land(P.len >= r, P.ok, forall(j_, imp(land(0 <= j_, j_ < r), land(0 <= rd(P.A, j_), rd(P.A, j_) < L.n)), [rd(P.A, j_)]))), ("p distinct", inj(P.A, r)),
        ("pivots of L", forall(j_, imp(land(0 <= j_, j_ < r), land(lrow(j_, rd(D, j_)), rd(L.j.A, rd(D, j_)) == j_, rd(L.x.A, rd(D, j_)) != 0)), [[rd(P.A, j_)], [rd(D, j_)]])),
        ("L triangular", forall([j_, k_], imp(land(0 <= j_, j_ < r, lrow(j_, k_)), land(rd(L.j.A, k_) <= j_, imp(k_ != rd(D, j_), rd(L.j.A, k_) != j_))), [z3.MultiPattern(rd(D, j_), rd(L.j.A, k_))])),
        ("rows of A", monotone(AP, L.n))]
def A_is_LU(f, A): return forall([j_, i_], imp(land(0 <= j_, j_ < f.U.m, 0 <= i_, i_ < f.L.n), z0(f.U.field.p, coef(A, i_, j_) - lu_(f, i_, j_))), [[lu_(f, i_, j_)], [coef(A, i_, j_)]])
from contracts.product import lu
def lu_(f, i, j): return lu(*mat(f.L), *mat(f.U), i, j, f.U.n)
def solves(o, A, x, b, n, m, p): return forall(j_, imp(land(0 <= j_, j_ < m), z0(p, rd(b, j_) - xA(x, *A, j_, n))), [rd(b, j_)])
SP = {"D": ARR, "UQ": ARR, "AP": ARR, "AJ": ARR, "AX": ARR, "Y": ARR}
FS = {"fact.L": "nonnull", "fact.L.x": "nonnull", "fact.U.x": "nonnull", "fact.p": "nonnull", "fact.Ltmp": "null"}
class Solve(Contract):
    """AP, AJ, AX: the matrix A = LU; UQ: pivot columns of U; D: places of the pivots in L; Y: any candidate solution"""
    name = "spasm_solve"; file = "spasm_solve.c"; params = ["fact", "b", "x"]
    shapes = dict(FS); assigns = ("x",); spec = SP; ghost_out = {"OWN": ARR}
    def pre(s, v):
        f = v.fact
        return fact_pre(f, v.g("UQ"), v.g("D"), v.g("AP")) + [("b", land(v.b.ok, v.b.len >= f.U.m)), ("b canonical", canon_arr(f.U.field.p, v.b.A, f.U.m)), ("x", land(v.x.ok, v.x.len >= f.L.n))]
    def post(s, o, n, r):
        f = o.fact; p = f.U.field.p; A = A_(n); m = f.U.m; N = f.L.n; lu = A_is_LU(f, A)
        return [("canonical", canon_arr(p, n.x.A, N)), ("true means that x A = b", imp(land(lu, r != 0), solves(o, A, n.x.A, o.b.S, N, m, p))),
                ("true whenever a solution exists", imp(land(lu, solves(o, A, n.g("Y"), o.b.S, N, m, p)), r != 0)),
                ("x A = b on the pivot columns, always", imp(lu, Solve.pivotal(o, n.g("UQ"), lambda j: z0(p, rd(o.b.S, j) - xA(n.x.A, *A, j, N))))), ("zero outside the pivotal rows", Solve.own(o, n.x.A, n.g("OWN")))]
    def own(o, x, OWN): w = rd(OWN, t_); return forall(t_, imp(land(0 <= t_, t_ < o.fact.L.n), lor(rd(x, t_) == 0, land(0 <= w, w < o.fact.U.n, rd(o.fact.p.A, w) == t_))), [[rd(x, t_)], [w]])
    def ghosts0(s, v): return {"OWN": z3.K(Int, I(-1))}
    def witness(s, v): return {"OWN": v.call("spasm_dense_back_solve").g("OWN")}
    def spec_spasm_dense_forward_solve(s, v, o): return {"Y": xl(v.g("Y"), mat(v.fact.L), v.fact.L.n)}
    def spec_spasm_dense_back_solve(s, v, o): return {"D": v.g("D")}
    def facts_entry(s, v): return [xl_def(v.g("Y"), mat(v.fact.L), v.fact.L.n)]
    def inst(v, o, x, j):
        f = o.fact; L, U = mat(f.L), mat(f.U); n, r = f.L.n, f.U.n
        return Prod.inst(f.U.field.p, x, *A_(v), *L, *U, j, r, n)
    def fin_forward(v, c):
        o = v.old; f = o.fact; p = f.U.field.p; m, N, r = f.U.m, f.L.n, f.U.n; A = A_(v); Y = v.g("Y"); yl = xl(Y, mat(f.L), N); U = mat(f.U); b = o.b.S
        return [forall(j_, land(Solve.inst(v, o, Y, j_), Comb2.inst(p, rd(b, j_), xA(Y, *A, j_, N), xA(yl, *U, j_, r)), rd(b, j_) == rd(b, j_)), [[rd(c.o.b.S, j_)], [rd(b, j_)]])]
    def cuts(s, o, v, r):
        f = o.fact; p = f.U.field.p; m, N, R = f.U.m, f.L.n, f.U.n; A = A_(v); U = mat(f.U); b = o.b.S; x = v.x.A; Y = v.g("Y"); yl = xl(Y, mat(f.L), N); xL = xl(x, mat(f.L), N)
        c1 = v.call("spasm_dense_forward_solve"); c2 = v.call("spasm_dense_back_solve"); z = c1.n.x
        lu_ = A_is_LU(f, A); P = [[rd(b, j_)]]; uq = rd(v.g("UQ"), t_); uqr = [b for a, b in fact_pre(f, v.g("UQ"), v.g("D"), v.g("AP")) if a == "pivot columns"][0]
        return [("copied", forall(j_, imp(land(0 <= j_, j_ < m), rd(c1.o.b.S, j_) == rd(b, j_)), [[rd(c1.o.b.S, j_)], [rd(b, j_)]])),
                ("+", forall(j_, land(Solve.inst(v, o, Y, j_), Comb2.inst(p, rd(b, j_), xA(Y, *A, j_, N), xA(yl, *U, j_, R))), P)),
                ("A = LU by columns", imp(lu_, forall(j_, imp(land(0 <= j_, j_ < m), is_lu(p, A, mat(f.L), U, N, R, j_)), P))),
                ("y A = (y L) U", imp(lu_, forall(j_, imp(land(0 <= j_, j_ < m), z0(p, xA(Y, *A, j_, N) - xA(yl, *U, j_, R))), P))),
                ("solution of z U = b", imp(land(lu_, solves(o, A, Y, b, N, m, p)), forall(j_, imp(land(0 <= j_, j_ < m), z0(p, rd(c1.o.b.S, j_) - xA(yl, *U, j_, R))), [rd(c1.o.b.S, j_)]))),
                ("+", xl_def(x, mat(f.L), N)), ("+", cong(p, z)),
                ("+", forall(t_, Comb3.inst(p, rd(z.S, t_), rd(z.A, t_), rd(xL, t_)), [[rd(z.A, t_)], [rd(xL, t_)]])), ("+", forall(t_, rd(z.S, t_) == rd(z.S, t_), [rd(z.A, t_)])),
                ("z = x L", forall(t_, imp(land(0 <= t_, t_ < R), z0(p, rd(z.A, t_) - rd(xL, t_))), [[rd(z.A, t_)], [rd(xL, t_)]])),
                ("+", forall(j_, land(Solve.inst(v, o, x, j_), XACong.inst(p, z.A, xL, *U, j_, R), Comb1.inst(p, rd(b, j_), xA(z.A, *U, j_, R), xA(xL, *U, j_, R), xA(x, *A, j_, N), I(0), I(0))), P)),
                ("z U = (x L) U", forall(j_, imp(land(0 <= j_, j_ < m), z0(p, xA(z.A, *U, j_, R) - xA(xL, *U, j_, R))), P)),
                ("x A = (x L) U", imp(lu_, forall(j_, imp(land(0 <= j_, j_ < m), z0(p, xA(x, *A, j_, N) - xA(xL, *U, j_, R))), P))),
                ("z U = b", imp(r != 0, forall(j_, imp(land(0 <= j_, j_ < m), z0(p, rd(b, j_) - xA(z.A, *U, j_, R))), P))),
                ("x A = b", imp(land(lu_, r != 0), forall(j_, imp(land(0 <= j_, j_ < m), z0(p, rd(b, j_) - xA(x, *A, j_, N))), P))),
                ("+cp", cong(p, c1.n.b)), ("+", forall(t_, rd(v.g("UQ"), t_) == rd(v.g("UQ"), t_), [rd(v.Uq.A, t_)])), ("cleared", forall(t_, imp(land(0 <= t_, t_ < R), rd(c1.n.b.A, rd(v.g("UQ"), t_)) == 0), [rd(v.g("UQ"), t_)]), [c1.post["pivot columns cleared"], dict(Solve.uq_all(v))["pivot columns"]]),
                ("z U = b on the pivot columns", Solve.pivotal(o, v.g("UQ"), lambda j: z0(p, rd(b, j) - xA(z.A, *U, j, R))), ["cp", "cleared", "copied", c1.post["remainder"], uqr]),
                ("+cb", forall(t_, Comb1.inst(p, rd(b, uq), xA(z.A, *U, uq, R), xA(xL, *U, uq, R), xA(x, *A, uq, N), I(0), I(0)), [uq])), ("x A = b on the pivot columns", imp(lu_, Solve.pivotal(o, v.g("UQ"), lambda j: z0(p, rd(b, j) - xA(x, *A, j, N)))), ["cb", "z U = b on the pivot columns", "z U = (x L) U", "x A = (x L) U", uqr])]
    def pivotal(o, UQ, f): return forall(t_, imp(land(0 <= t_, t_ < o.fact.U.n), f(rd(UQ, t_))), [rd(UQ, t_)])
    def uq(v):
        f = v.fact
        return [("located", forall(j_, imp(land(0 <= j_, j_ < v.j, rd(f.qinv.A, j_) >= 0), rd(v.Uq.A, rd(f.qinv.A, j_)) == j_), [rd(f.qinv.A, j_)])), ("j", v.j <= f.U.m)]
    def uq_all(v):
        i = z3.Int("i!"); f = v.fact
        return [("pivot columns", forall(i, imp(land(0 <= i, i < f.U.n), rd(v.Uq.A, i) == rd(v.g("UQ"), i)), [[rd(v.Uq.A, i)], [rd(v.g("UQ"), i)]]))]
    loops = {"0": Loop(inv=uq, cut_exit=uq_all),
             "1": Loop(inv=lambda v: [("copied", forall(j_, imp(land(0 <= j_, j_ < v.i), land(rd(v.y.A, j_) == rd(v.old.b.A, j_), rd(v.y.S, j_) == rd(v.old.b.S, j_))), [[rd(v.y.A, j_)], [rd(v.y.S, j_)]])), ("i", v.i <= v.m)])}
AA = z3.ArraySort(Int, ARR)
RVEC = z3.Function("rowvec", ARR, ARR, ARR, Int, ARR)
def rowvec(M, i): return RVEC(*mat(M), i)          # row i of a matrix as a vector
def rowvec_def(M, i): return forall(t_, rd(rowvec(M, i), t_) == coef(mat(M), i, t_), [rd(rowvec(M, i), t_)])
MulMono = Lemma("mul_mono", [Int, Int, Int], lambda a, b, c: imp(land(0 <= a, a < b, 0 <= c), a * c + c <= b * c), induct=False)
class Gesv(Contract):
    """row by row: YS[i] is any candidate solution for row i"""
    name = "spasm_gesv"; file = "spasm_solve.c"; params = ["fact", "B", "ok"]
    shapes = dict(FS, **{"B.x": "nonnull", "ok": "nullable"}); assigns = ("ok",); spec = dict(SP, Y=None, YS=AA); del spec["Y"]
    def pre(s, v):
        f = v.fact; B = v.B
        return fact_pre(f, v.g("UQ"), v.g("D"), v.g("AP")) + [("B: " + a, b) for a, b in csr_ok(B)] + [("B: " + a, b) for a, b in field_ok(B.field)] + [("B: canonical", canon_vals(B)[1]), ("B: field", B.field.p == f.U.field.p), ("B: columns", B.m == f.U.m),
            ("ok", imp(lnot(v.ok.null), land(v.ok.ok, v.ok.len >= B.n))), ("size", B.n * f.L.n <= BIG)]
    def brow(B, j, i): return coef(mat(B), i, j)
    def sat(v, x, i):
        o = v.old if not v._fo else v
        return forall(j_, imp(land(0 <= j_, j_ < o.B.m), z0(o.B.field.p, Gesv.brow(o.B, j_, i) - xA(x, *A_(v), j_, o.fact.L.n))), [[Gesv.brow(o.B, j_, i)], [xA(x, *A_(v), j_, o.fact.L.n)]])
    def post(s, o, n, r):
        i = z3.Int("i!"); B = o.B; rg = lambda i: land(0 <= i, i < B.n); lu = A_is_LU(o.fact, A_(n)); p = B.field.p
        sat = lambda x, i: forall(j_, imp(land(0 <= j_, j_ < B.m), z0(p, Gesv.brow(B, j_, i) - xA(x, *A_(n), j_, o.fact.L.n))), [[Gesv.brow(B, j_, i)], [xA(x, *A_(n), j_, o.fact.L.n)]])
        P = [("well formed: " + a, b) for a, b in csr_ok(r)] + [("dimensions", land(r.n == B.n, r.m == o.fact.L.n)), ("field", r.field.p == p), ("has values", lnot(r.x.null)), ("canonical", canon_arr(p, r.x.A, rd(r.p.A, r.n)))]
        if n.ok.isnull(): return P
        nn = lnot(o.ok.null)
        return P + [("flagged rows are solved", imp(land(nn, lu), forall(i, imp(land(rg(i), rd(n.ok.A, i) != 0), sat(rowvec(r, i), i)), [[rd(n.ok.A, i)]]))),
                ("solvable rows are flagged", imp(land(nn, lu), forall(i, imp(land(rg(i), sat(rd(n.g("YS"), i), i)), rd(n.ok.A, i) != 0), [rd(n.ok.A, i)])))]
    def spec_spasm_solve(s, v, o): return {"Y": rd(v.g("YS"), v.i), **{k: v.g(k) for k in ("D", "UQ", "AP", "AJ", "AX")}}
    G = {"XS": AA, "CAP": Int}
    def ghosts0(s, v): return {"XS": z3.K(Int, z3.K(Int, I(0))), "CAP": I(0)}
    def ts(v, i, j): X = v.X; return tsum(X.i.A, X.j.A, X.x.A, i, j, X.nz)
    def trip(v, hi, lo_ok=True):
        X = v.X; o = v.old; N = o.fact.L.n; p = o.B.field.p
        return [("X", land(X.n == o.B.n, X.m == N, X.nzmax == o.B.n * N, X.nz >= 0)),
            ("rows", forall(k_, imp(land(0 <= k_, k_ < X.nz), land(0 <= rd(X.i.A, k_), rd(X.i.A, k_) < hi)), [rd(X.i.A, k_)])), ("columns", forall(k_, imp(land(0 <= k_, k_ < X.nz), land(0 <= rd(X.j.A, k_), rd(X.j.A, k_) < N)), [rd(X.j.A, k_)])),
            ("values", canon_arr(p, X.x.A, X.nz))]
    def flags(v, i0, XS):
        o = v.old; i = z3.Int("i!"); lu = A_is_LU(o.fact, A_(v)); B = o.B
        if v.ok.isnull(): return []
        nn = lnot(o.ok.null)
        return [("flagged rows are solved", imp(land(nn, lu), forall(i, imp(land(0 <= i, i < i0, rd(v.ok.A, i) != 0), Gesv.sat(v, rd(XS, i), i)), [rd(v.ok.A, i)]))),
                ("solvable rows are flagged", imp(land(nn, lu), forall(i, imp(land(0 <= i, i < i0, Gesv.sat(v, rd(v.g("YS"), i), i)), rd(v.ok.A, i) != 0), [rd(v.ok.A, i)])))]
    def rowsdone(v, i0, XS):
        o = v.old; i = z3.Int("i!")
        return [("rows of X", forall([i, j_], imp(land(0 <= i, i < i0, 0 <= j_, j_ < o.fact.L.n), Gesv.ts(v, i, j_) == rd(rd(XS, i), j_)), [Gesv.ts(v, i, j_)]))]
    def inv(v):
        o = v.old; XS = v.g("XS"); CAP = v.g("CAP"); i = z3.Int("i!")
        return Gesv.trip(v, v.i) + [("i", v.i <= v.n), ("CAP", CAP == v.i * o.fact.L.n), ("nz", v.X.nz <= CAP)] + Gesv.rowsdone(v, v.i, XS) + [("rows ahead", forall([i, j_], imp(i >= v.i, Gesv.ts(v, i, j_) == 0), [Gesv.ts(v, i, j_)]))] + Gesv.flags(v, v.i, XS)
    def inner(v):
        o = v.old; XS = v.g("XS"); i = z3.Int("i!"); x = v.x.A; i0 = v.i
        return Gesv.trip(v, i0 + 1) + [("j", v.j <= v.Xm), ("nz", v.X.nz <= v.g("CAP") + v.j)] + Gesv.rowsdone(v, i0, XS) + [("rows ahead", forall([i, j_], imp(i > i0, Gesv.ts(v, i, j_) == 0), [Gesv.ts(v, i, j_)])),
            ("row so far", forall(j_, Gesv.ts(v, i0, j_) == z3.If(land(0 <= j_, j_ < v.j), rd(x, j_), 0), [Gesv.ts(v, i0, j_)]))]
    def unfold(h, e):
        X = e.X; i = z3.Int("i!")
        return [forall([i, j_], imp(X.nz == h.X.nz + 1, tsum.unfold(X.i.A, X.j.A, X.x.A, i, j_, h.X.nz)), [tsum(X.i.A, X.j.A, X.x.A, i, j_, h.X.nz + 1)]),
                forall([i, j_], imp(X.nz == h.X.nz + 1, TsStore.inst(h.X.i.A, h.X.j.A, h.X.x.A, i, j_, h.X.nz, h.i, h.j, rd(h.x.A, h.j), h.X.nz)), [tsum(X.i.A, X.j.A, X.x.A, i, j_, h.X.nz)])]
    def cut_in(h, e):
        i = z3.Int("i!"); took = e.X.nz == h.X.nz + 1
        return [("one more at most", lor(e.X.nz == h.X.nz, took)), ("new sums", forall([i, j_], Gesv.ts(e, i, j_) == Gesv.ts(h, i, j_) + z3.If(land(took, i == h.i, j_ == h.j), rd(h.x.A, h.j), 0), [Gesv.ts(e, i, j_)]))]
    def after_solve(v, c):
        o = v.old; B = o.B; i = v.i
        return []
    def zero_b(v): return [("zero", forall(j_, imp(land(0 <= j_, j_ < v.j), land(rd(v.b.A, j_) == 0, rd(v.b.S, j_) == 0)), [[rd(v.b.A, j_)], [rd(v.b.S, j_)]]))]
    def rhs(h, e):
        o = h.old; B = o.B; i = h.i; b = e.call("spasm_scatter").n.x; c = e.call("spasm_solve"); lu = A_is_LU(o.fact, A_(h)); x = c.n.x.A; Y = rd(h.g("YS"), i)
        return [("+", forall(j_, RsmRs.inst(I(1), B.j.A, B.x.A, rd(B.p.A, i), j_, rd(B.p.A, i + 1)), [[rd(b.S, j_)], [Gesv.brow(B, j_, i)]])),
                ("right-hand side", forall(j_, imp(land(0 <= j_, j_ < B.m), rd(b.S, j_) == Gesv.brow(B, j_, i)), [[rd(b.S, j_)], [Gesv.brow(B, j_, i)]])),
                ("this row: solved", imp(land(lu, c.r != 0), Gesv.sat(h, x, i))), ("this row: flagged", imp(land(lu, Gesv.sat(h, Y, i)), c.r != 0)),
                ("the solution is kept", e.x.A == x)]
    loops = {"0": Loop(inv=inv, ghost=G, ghost_end=lambda h, e: {"XS": z3.Store(h.g("XS"), h.i, e.x.A), "CAP": h.g("CAP") + h.old.fact.L.n},
                       head=lambda v: [MulMono.inst(v.i, v.n, v.old.fact.L.n)], pre=lambda v: [forall([i_, j_], tsum.zero(v.X.i.A, v.X.j.A, v.X.x.A, i_, j_), [Gesv.ts(v, i_, j_)])],
                       cut=lambda h, e: Gesv.rhs(h, e)),
             "0.0": Loop(inv=zero_b),
             "0.1": Loop(inv=inner, end=unfold, cut=cut_in)}
    def cuts(s, o, v, r):
        i = z3.Int("i!"); B = o.B; p = B.field.p; N = o.fact.L.n; XS = v.g("XS"); XX = v.call("spasm_compress"); lu = A_is_LU(o.fact, A_(v))
        rv = lambda i: rowvec(r, i); A = A_(v)
        out = [("+", forall([i, t_], rd(rv(i), t_) == coef(mat(r), i, t_), [[rd(rv(i), t_)]])),
               ("+", forall([i, t_], Gesv.tsr(XX, i, t_) == Gesv.tsr(XX, i, t_), [[rd(rv(i), t_)], [rd(rd(XS, i), t_)]])),
               ("rows of the result", forall([i, t_], imp(land(0 <= i, i < B.n, 0 <= t_, t_ < N), z0(p, rd(rd(XS, i), t_) - rd(rv(i), t_))), [[rd(rv(i), t_)], [rd(rd(XS, i), t_)]])),
               ("+", forall([i, j_], land(XACong.inst(p, rd(XS, i), rv(i), *A, j_, N), Comb2.inst(p, Gesv.brow(B, j_, i), xA(rd(XS, i), *A, j_, N), xA(rv(i), *A, j_, N))), [[xA(rv(i), *A, j_, N)]])),
               ("same products", forall([i, j_], imp(land(0 <= i, i < B.n), z0(p, xA(rd(XS, i), *A, j_, N) - xA(rv(i), *A, j_, N))), [[xA(rv(i), *A, j_, N)]]))]
        if not v.ok.isnull(): out.append(("flagged rows are solved", imp(land(lnot(o.ok.null), lu), forall(i, imp(land(0 <= i, i < B.n, rd(v.ok.A, i) != 0), Gesv.sat(v, rv(i), i)), [[rd(v.ok.A, i)]]))))
        return out
    def tsr(c, i, j): T = c.o.T; return tsum(T.i.A, T.j.A, T.x.A, i, j, T.nz)
# appending a triplet changes the sum at its position only
TsStore = Lemma("tsum_store", [ARR, ARR, ARR, Int, Int, Int, Int, Int, Int, Int], lambda ti, tj, tx, i, j, q, a, b, c, n: imp(n <= q, tsum(z3.Store(ti, q, a), z3.Store(tj, q, b), z3.Store(tx, q, c), i, j, n) == tsum(ti, tj, tx, i, j, n)), lo=lambda *a: I(0),
    uses_base=lambda ti, tj, tx, i, j, q, a, b, c: [tsum.zero(ti, tj, tx, i, j), tsum.zero(z3.Store(ti, q, a), z3.Store(tj, q, b), z3.Store(tx, q, c), i, j)],
    uses_step=lambda ti, tj, tx, i, j, q, a, b, c, n: [tsum.unfold(ti, tj, tx, i, j, n), tsum.unfold(z3.Store(ti, q, a), z3.Store(tj, q, b), z3.Store(tx, q, c), i, j, n)])
ALL = [Solve(), Gesv()]
