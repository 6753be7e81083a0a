"""products of sparse matrices seen as coefficient functions, and the exchange of the two summations in x(LU) = (xL)U"""
from dv.lib import *
from contracts.tri import rowcoef, rowmul, xa
M3 = [ARR, ARR, ARR]
def mat(M): return (M.p.A, M.j.A, M.x.A)
class Mat_:
    """a spec-level matrix given by arrays, with the interface of a view"""
    class _F: pass
    def __init__(s, ap, aj, ax, n=None, m=None):
        s.p, s.j, s.x = Mat_._F(), Mat_._F(), Mat_._F(); s.p.A, s.j.A, s.x.A, s.n, s.m = ap, aj, ax, n, m
def coef(M, i, j): return rs(M[1], M[2], rd(M[0], i), j, rd(M[0], i + 1))
# lu(L, U, i, j, r) = sum over t < r of L[i][t] * U[t][j]
lu = Def("lu", M3 + M3 + [Int, Int], lambda *a: (I(0), I(0)), lambda prev, lp, lj, lx, up, uj, ux, i, j, t: prev + fmul(coef((lp, lj, lx), i, t), coef((up, uj, ux), t, j)))
# xl(x, L, n) = the vector x L over the rows below n   (comprehension: xl(...)[t] = xA(x, L, t, n))
XL = z3.Function("xL", ARR, ARR, ARR, ARR, Int, ARR)
def xl(x, L, n): return XL(x, *L, n)
def xl_def(x, L, n): return forall(t_, rd(xl(x, L, n), t_) == xA(x, *L, t_, n), [rd(xl(x, L, n), t_)])
# (x over n+1 rows) L U = (x over n rows) L U + x[n] * (L U)[n]
_d3 = Lemma("fmul_step", [Int] * 5, lambda a, b, x, l, u: fmul(a + fmul(x, l), u) + 0 == fmul(a, u) + fmul(x, fmul(l, u)), induct=False, uses=lambda a, b, x, l, u: [fmul_def(a + fmul(x, l), u), fmul_def(a, u), fmul_def(x, l), fmul_def(l, u), fmul_def(x, fmul(l, u))])
_add = Lemma("fmul_add", [Int] * 3, lambda x, a, b: fmul(x, a + b) == fmul(x, a) + fmul(x, b), induct=False, uses=lambda x, a, b: [fmul_def(x, a + b), fmul_def(x, a), fmul_def(x, b)])
Exch1 = Lemma("lu_row", [ARR] + M3 + M3 + [Int, Int, Int],
    lambda x, lp, lj, lx, up, uj, ux, j, n, r: imp(land(n >= 0, monotone(lp, n + 1), monotone(up, r)), xA(xl(x, (lp, lj, lx), n + 1), up, uj, ux, j, r) == xA(xl(x, (lp, lj, lx), n), up, uj, ux, j, r) + fmul(rd(x, n), lu(lp, lj, lx, up, uj, ux, n, j, r))),
    lo=lambda x, lp, lj, lx, up, uj, ux, j, n: I(0),
    uses_base=lambda x, lp, lj, lx, up, uj, ux, j, n: [xA.zero(xl(x, (lp, lj, lx), n), up, uj, ux, j), xA.zero(xl(x, (lp, lj, lx), n + 1), up, uj, ux, j), lu.zero(lp, lj, lx, up, uj, ux, n, j), fmul_def(rd(x, n), I(0)), fmul_def(rd(x, n), lu(lp, lj, lx, up, uj, ux, n, j, I(0)))],
    uses_step=lambda x, lp, lj, lx, up, uj, ux, j, n, r: (lambda L, U, z0_, z1: [xl_def(x, L, n), xl_def(x, L, n + 1), xA.unfold(z0_, *U, j, r), xA.unfold(z1, *U, j, r), lu.unfold(*L, *U, n, j, r), xA.unfold(x, *L, r, n),
        RsmRs.inst(rd(z0_, r), uj, ux, rd(up, r), j, rd(up, r + 1)), RsmRs.inst(rd(z1, r), uj, ux, rd(up, r), j, rd(up, r + 1)), RsmRs.inst(rd(x, n), lj, lx, rd(lp, n), r, rd(lp, n + 1)), rd(up, r) <= rd(up, r + 1), rd(lp, n) <= rd(lp, n + 1),
        _d3.inst(rd(z0_, r), I(0), rd(x, n), coef(L, n, r), coef(U, r, j)), _add.inst(rd(x, n), lu(*L, *U, n, j, r), fmul(coef(L, n, r), coef(U, r, j)))])((lp, lj, lx), (up, uj, ux), xl(x, (lp, lj, lx), n), xl(x, (lp, lj, lx), n + 1)))
ProdStep = Z0Lemma("lu_step", 5, lambda a, b, x, c, d: [a - b, c - d], lambda a, b, x, c, d: (a + fmul(x, c)) - (b + fmul(x, d)), lambda w1, w2, a, b, x, c, d: w1 + x * w2, lambda a, b, x, c, d: [fmul_def(x, c), fmul_def(x, d)])
def is_lu(p, A, L, U, n, r, j):
    """column j of A is column j of LU (mod p) on the rows below n"""
    return forall(i_, imp(land(0 <= i_, i_ < n), z0(p, coef(A, i_, j) - lu(*L, *U, i_, j, r))), [[rd(A[0], i_)], [rd(L[0], i_)]])
XZeroL = Lemma("xL_zero", [ARR] + M3 + M3 + [Int, Int], lambda x, lp, lj, lx, up, uj, ux, j, r: imp(monotone(up, r), xA(xl(x, (lp, lj, lx), I(0)), up, uj, ux, j, r) == 0), lo=lambda x, lp, lj, lx, up, uj, ux, j: I(0),
    uses_base=lambda x, lp, lj, lx, up, uj, ux, j: [xA.zero(xl(x, (lp, lj, lx), I(0)), up, uj, ux, j)],
    uses_step=lambda x, lp, lj, lx, up, uj, ux, j, r: [xl_def(x, (lp, lj, lx), I(0)), xA.unfold(xl(x, (lp, lj, lx), I(0)), up, uj, ux, j, r), xA.zero(x, lp, lj, lx, r), RsmZero.inst(rd(xl(x, (lp, lj, lx), I(0)), r), uj, ux, rd(up, r), j, rd(up, r + 1)), rd(up, r) <= rd(up, r + 1)])
# x A = (x L) U  (mod p) when A = L U
Prod = Lemma("xA_is_xLU", [Int, ARR] + M3 + M3 + M3 + [Int, Int, Int],
    lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r, n: imp(land(r >= 0, monotone(ap, n), monotone(lp, n), monotone(up, r), is_lu(p, (ap, aj, ax), (lp, lj, lx), (up, uj, ux), n, r, j)), z0(p, xA(x, ap, aj, ax, j, n) - xA(xl(x, (lp, lj, lx), n), up, uj, ux, j, r))),
    lo=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r: I(0),
    uses_base=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r: [xA.zero(x, ap, aj, ax, j), XZeroL.inst(x, lp, lj, lx, up, uj, ux, j, r), z0_intro(p, xA(x, ap, aj, ax, j, I(0)) - xA(xl(x, (lp, lj, lx), I(0)), up, uj, ux, j, r), I(0))],
    uses_step=lambda p, x, ap, aj, ax, lp, lj, lx, up, uj, ux, j, r, n: (lambda A, L, U: [xA.unfold(x, *A, j, n), RsmRs.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), Exch1.inst(x, *L, *U, j, n, r), rd(ap, n) <= rd(ap, n + 1), z0(p, coef(A, n, j) - lu(*L, *U, n, j, r)) if False else imp(z0(p, coef(A, n, j) - lu(*L, *U, n, j, r)), TRUE),
        ProdStep.inst(p, xA(x, *A, j, n), xA(xl(x, L, n), *U, j, r), rd(x, n), coef(A, n, j), lu(*L, *U, n, j, r)),
        xA(x, *A, j, n + 1) - xA(xl(x, L, n + 1), *U, j, r) == (xA(x, *A, j, n) + fmul(rd(x, n), coef(A, n, j))) - (xA(xl(x, L, n), *U, j, r) + fmul(rd(x, n), lu(*L, *U, n, j, r)))])((ap, aj, ax), (lp, lj, lx), (up, uj, ux)))
ALL = []
