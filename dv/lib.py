"""Specification library: predicates on the data structures, recursive sums, lemmas proved by induction."""
import z3
from .core import *

Int, Bool = z3.IntSort(), z3.BoolSort()
def var(n): return z3.Int(n)
def forall(vs, body, pats=None):
    if not isinstance(vs, (list, tuple)): vs = [vs]
    if pats: pats = [(p[0] if len(p) == 1 else z3.MultiPattern(*p)) if isinstance(p, (list, tuple)) else p for p in pats]
    return z3.ForAll(list(vs), body, patterns=pats) if pats else z3.ForAll(list(vs), body)
def occurs(bound, *args):
    """does one of the bound constants occur in the arguments?"""
    ids = {b.get_id() for b in bound}; seen = set(); todo = [a for a in args if isinstance(a, z3.AstRef)]
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if t.get_id() in ids: return True
        todo += [t.body()] if z3.is_quantifier(t) else t.children()
    return False
def nocap(bound, *args):
    if occurs(bound, *args): raise ValueError("variable capture")
def imp(a, b): return z3.Implies(a, b)
def rd(a, i): return z3.Select(a, I(i) if isinstance(i, int) else i)
k_, j_, i_, t_ = z3.Ints("k! j! i! t!")

class Def:
    """recursively defined function over an integer bound: f(args, lo) = base; f(args, n+1) = step(f(args, n), args, n)"""
    ALL = {}
    def __init__(s, name, sorts, base, step, ret=None):
        s.name, s.sorts, s.base, s.stepf = name, sorts, base, step
        s.f = z3.Function(name, *sorts, Int, Int if ret is None else ret)
        if name in Def.ALL: raise ValueError('two definitions named ' + name)
        Def.ALL[name] = s
    def __call__(s, *a): return s.f(*a)
    def zero(s, *a):
        """defining equation at the lower bound: f(args, lo(args)) = base"""
        lo, b = s.base(*a); return s.f(*a, lo) == b
    def unfold(s, *a):
        """defining equation: n >= lo -> f(args, n+1) = step(...)"""
        *args, n = a
        lo, _ = s.base(*args)
        return imp(n >= lo, s.f(*args, n + 1 if not isc(n) else I(cv(n) + 1)) == s.stepf(s.f(*a), *args, n))

def has_quant(t):
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() not in seen: seen.add(x.get_id()); todo += x.children()
    return False
class Lemma:
    """statement proved by induction on the last argument (>= lo), or directly. inst() gives an instance; each lemma that is
       instantiated is proved again on every run (obligations of kind 'lemma')."""
    ALL = {}
    def __init__(s, name, sorts, stmt, lo=None, uses_base=None, uses_step=None, uses=None, induct=True):
        s.name, s.sorts, s.stmt, s.lo, s.ub, s.us, s.uses, s.induct = name, sorts, stmt, lo, uses_base, uses_step, uses, induct
        s.deps = set(); s.tmpl = None
        if name in Lemma.ALL: raise ValueError('two lemmas named ' + name)
        Lemma.ALL[name] = s
        s.used = False
    def inst(s, *a):
        USED.add(s.name)
        a = [I(x) if isinstance(x, int) else x for x in a]
        if s.tmpl is None:      # instance by substitution: bound variables of the statement cannot capture those of the arguments
            vs = [z3.Const(f"{s.name}.{i}", srt) for i, srt in enumerate(s.sorts)]
            s.tmpl = vs, (imp(vs[-1] >= s.lo(*vs[:-1]), s.stmt(*vs)) if s.induct else s.stmt(*vs))
            s.quant = has_quant(s.tmpl[1])
        if not s.quant: return imp(a[-1] >= s.lo(*a[:-1]), s.stmt(*a)) if s.induct else s.stmt(*a)
        return z3.substitute(s.tmpl[1], *zip(s.tmpl[0], a))
    def obligations(s):
        vs = [z3.Const(f"{s.name}.{i}", srt) for i, srt in enumerate(s.sorts)]
        out = []
        if not s.induct:
            facts = [f for f in (s.uses(*vs) if s.uses else [])]
            out.append(Obl("lemma", "lemma", s.name, 0, facts, s.stmt(*vs))); return out
        args, n = vs[:-1], vs[-1]
        lo = s.lo(*args)
        out.append(Obl("lemma", "lemma", s.name + ":base", 0, list(s.ub(*args) if s.ub else []), s.stmt(*args, lo)))
        facts = [n >= lo, s.stmt(*vs)] + list(s.us(*vs) if s.us else [])
        out.append(Obl("lemma", "lemma", s.name + ":step", 0, facts, s.stmt(*args, n + 1)))
        return out
USED = set()
def close_used():
    """lemmas used (directly or inside other lemmas' proofs)"""
    done, res = set(), []
    while True:
        todo = [n for n in sorted(USED) if n not in done]
        if not todo: return res
        for n in todo:
            done.add(n)
            res += Lemma.ALL[n].obligations()

# ------------------------------------------------------------------ sums over a row of a sparse matrix
# rs(Aj, Ax, lo, j, hi) = sum of Ax[k] for lo <= k < hi with Aj[k] == j            (entry (row, j) of the matrix)
rs = Def("rs", [ARR, ARR, Int, Int], lambda aj, ax, lo, j: (lo, I(0)),
         lambda prev, aj, ax, lo, j, n: prev + z3.If(rd(aj, n) == j, rd(ax, n), 0))
# rsm(b, Aj, Ax, lo, j, hi) = sum of b*Ax[k] for lo <= k < hi with Aj[k] == j
rsm = Def("rsm", [Int, ARR, ARR, Int, Int], lambda b, aj, ax, lo, j: (lo, I(0)),
          lambda prev, b, aj, ax, lo, j, n: prev + z3.If(rd(aj, n) == j, fmul(b, rd(ax, n)), 0))
# dot(x, Aj, Ax, lo, hi) = sum of x[Aj[k]]*Ax[k] for lo <= k < hi
dot = Def("dot", [ARR, ARR, ARR, Int], lambda x, aj, ax, lo: (lo, I(0)),
          lambda prev, x, aj, ax, lo, n: prev + fmul(rd(x, rd(aj, n)), rd(ax, n)))
# xA(x, Ap, Aj, Ax, j, n) = sum over rows i < n of x[i]*A[i][j]
xA = Def("xA", [ARR, ARR, ARR, ARR, Int], lambda x, ap, aj, ax, j: (I(0), I(0)),
         lambda prev, x, ap, aj, ax, j, i: prev + rsm(rd(x, i), aj, ax, rd(ap, i), j, rd(ap, i + 1)))
# cnt(a, v, n) = number of k < n with a[k] == v
cnt = Def("cnt", [ARR, Int], lambda a, v: (I(0), I(0)), lambda prev, a, v, n: prev + z3.If(rd(a, n) == v, 1, 0))

# ------------------------------------------------------------------ predicates on matrices (views)
BIG = 1 << 58          # no array has more entries than this (2^61 bytes): keeps byte counts inside 63 bits
def monotone(p, n):
    """row pointers are nondecreasing (adjacent form and the two-index consequence used by the proofs)"""
    a, b = z3.Ints("a! b!"); nocap([a, b], p, n)
    return forall([a, b], imp(land(0 <= a, a <= b, b <= n), rd(p, a) <= rd(p, b)), [z3.MultiPattern(rd(p, a), rd(p, b))])
def csr_ok(M, values=None):
    """well-formed compressed-row matrix"""
    r = [("n>=0", M.n >= 0), ("m>=0", M.m >= 0), ("n,m<INT_MAX", land(M.n < (1 << 31) - 1, M.m < (1 << 31) - 1)),
         ("p current", M.p.ok), ("j current", M.j.ok),
         ("p size", M.p.len >= M.n + 1), ("p[0]", M.p[0] == 0), ("monotone", monotone(M.p.A, M.n)),
         ("nnz fits", rd(M.p.A, M.n) <= M.j.len), ("nnz bound", rd(M.p.A, M.n) <= BIG),
         ("nzmax", land(M.nzmax >= 0, M.nzmax <= BIG, M.nzmax <= M.j.len, rd(M.p.A, M.n) <= M.nzmax)),
         ("columns", forall(k_, imp(land(0 <= k_, k_ < rd(M.p.A, M.n)), land(0 <= rd(M.j.A, k_), rd(M.j.A, k_) < M.m)), [rd(M.j.A, k_)]))]
    if not M.x.isnull():
        r.append(("x size", imp(lnot(M.x.null), land(M.x.ok, M.x.len >= M.nzmax))))
    if values: r.append(("has values", lnot(M.x.null)))
    return r
DINV = z3.Function("dinv", z3.RealSort(), Int, Bool)
PRIME = z3.Function("prime", Int, Bool)
Z0 = z3.Function("multiple_of", Int, Int, Bool)          # Z0(p, x): x is a multiple of p
def z0(p, x): return Z0(p, I(x) if isinstance(x, int) else x)
def z0_intro(p, x, w): return imp(x == p * w, z0(p, x))       # definition, right to left
def dinv_def(F): return DINV(F.dinvp, F.p) == (absr(F.dinvp * z3.ToReal(F.p) - 1) <= z3.Q(1, 1 << 53))
def prime_def(p, r, x): return imp(land(PRIME(p), p == r * x, r >= 1), lor(r == 1, r == p))
def fmul_def(a, b): return fmul(a, b) == a * b
def field_ok(F):
    """field structure of an odd prime up to 4294967291 (set up by spasm_field_init; primality only where inversion needs it)"""
    return [("odd modulus", land(F.p >= 3, F.p <= 4294967291, F.p % 2 == 1)), ("halfp", F.halfp == (F.p - 1) / 2), ("mhalfp", F.mhalfp == -F.halfp), ("dinvp", DINV(F.dinvp, F.p))]
def canon(F, t): return land(t >= F.mhalfp, t <= F.halfp)
def canonp(p, t): return land(2 * t < p, -2 * t < p)
def canon_arr(p, a, n, lo=None):
    lo = I(0) if lo is None else lo; nocap([k_], p, a, n, lo)
    return forall(k_, imp(land(lo <= k_, k_ < n), canonp(p, rd(a, k_))), [rd(a, k_)])
def canon_vals(M):
    return ("canonical values", canon_arr(M.field.p, M.x.A, rd(M.p.A, M.n)))

# ------------------------------------------------------------------ finite maps
def inj(f, k):
    a, b = z3.Ints("a! b!"); nocap([a, b], f, k)
    return forall([a, b], imp(land(0 <= a, a < b, b < k), rd(f, a) != rd(f, b)), [z3.MultiPattern(rd(f, a), rd(f, b))])
def into(f, k, n, lo=0):
    nocap([k_], f, k, n); return forall(k_, imp(land(0 <= k_, k_ < k), land(lo <= rd(f, k_), rd(f, k_) < n)), [rd(f, k_)])
class _Pigeon:
    """an injection of [0,k) into [0,N) has k <= N: induction on N, moving the preimage of N to the end"""
    name = "pigeonhole"
    def inst(s, f, k, n): USED.add(s.name); return imp(land(n >= 0, inj(f, k), into(f, k, n)), k <= n)
    def obligations(s):
        f, k, n, i0 = z3.Const("f", ARR), z3.Int("k"), z3.Int("N"), z3.Int("i0")
        P = lambda f, k, n: imp(land(inj(f, k), into(f, k, n)), k <= n)
        base = Obl("lemma", "lemma", "pigeonhole:base", 0, [inj(f, k), into(f, k, I(0)), imp(k > 0, land(0 <= rd(f, I(0)), rd(f, I(0)) < 0))], k <= 0)
        g = z3.Store(f, i0, rd(f, k - 1))
        split = lor(forall(k_, imp(land(0 <= k_, k_ < k), rd(f, k_) != n), [rd(f, k_)]), land(0 <= i0, i0 < k, rd(f, i0) == n))
        step = Obl("lemma", "lemma", "pigeonhole:step", 0, [n >= 0, inj(f, k), into(f, k, n + 1), split, P(f, k, n), P(g, k - 1, n)], k <= n + 1)
        return [base, step]
Pigeon = _Pigeon(); Lemma.ALL["pigeonhole"] = Pigeon
class _Onto:
    """an injection of [0,n) into itself is onto (instance: value v has a preimage; returned as a Skolem function)"""
    name = "onto"
    pre_ = z3.Function("preimage", ARR, Int, Int, Int)
    def inst(s, f, n, v):
        USED.add(s.name); w = s.pre_(f, n, v)
        return imp(land(inj(f, n), into(f, n, n), 0 <= v, v < n), land(0 <= w, w < n, rd(f, w) == v))
    def obligations(s):
        # if v has no preimage, extend f by f[n] = v: an injection of [0,n+1) into [0,n)
        f, n, v = z3.Const("f", ARR), z3.Int("n"), z3.Int("v")
        g = z3.Store(f, n, v)
        return [Obl("lemma", "lemma", "onto", 0, [inj(f, n), into(f, n, n), 0 <= v, v < n, forall(k_, imp(land(0 <= k_, k_ < n), rd(f, k_) != v), [rd(f, k_)]), Pigeon.inst(g, n + 1, n)], FALSE)]
Onto = _Onto(); Lemma.ALL["onto"] = Onto
def perm(p, n):
    """p is a permutation of 0..n-1"""
    return land(inj(p, n), into(p, n, n))
def cong(p, ptr, n=None):
    """representation invariant of field-element storage kept by the executor: machine value and shadow are congruent"""
    return forall(k_, z0(p, rd(ptr.S, k_) - rd(ptr.A, k_)), [rd(ptr.A, k_)]) if not ptr.S.eq(ptr.A) else TRUE
W0 = z3.Function("quotient", Int, Int, Int)
def z0_elim(p, x): return imp(z0(p, x), x == p * W0(p, x))      # definition, left to right (W0 chooses the factor)
def w0(p, x): return W0(p, x)
class Z0Lemma(Lemma):
    """hypotheses z0(p, e_i), conclusion z0(p, c) with the factor given as a polynomial in the factors of the hypotheses"""
    def __init__(s, name, k, hyps, concl, factor, defs=lambda *a: [], cond=lambda *a: TRUE):
        def stmt(p, *a): return imp(land(cond(*a), *[z0(p, h) for h in hyps(*a)]), z0(p, concl(*a)))
        def uses(p, *a): return [z0_elim(p, h) for h in hyps(*a)] + [z0_intro(p, concl(*a), factor(*[w0(p, h) for h in hyps(*a)], *a))] + defs(*a)
        Lemma.__init__(s, name, [Int] * (k + 1), stmt, uses=uses, induct=False)
def z0_sum(p, x, y): return imp(land(z0(p, x), z0(p, y)), land(z0(p, x + y), z0(p, x - y)))
Z0Lin = None
RsFrame = Lemma("rs_frame", [ARR, ARR, ARR, ARR, Int, Int, Int],
    lambda aj, ax, bj, bx, lo, j, n: imp(forall(k_, imp(land(lo <= k_, k_ < n), land(rd(aj, k_) == rd(bj, k_), rd(ax, k_) == rd(bx, k_))), [rd(bj, k_)]), rs(aj, ax, lo, j, n) == rs(bj, bx, lo, j, n)),
    lo=lambda aj, ax, bj, bx, lo, j: lo, uses_base=lambda aj, ax, bj, bx, lo, j: [rs.zero(aj, ax, lo, j), rs.zero(bj, bx, lo, j)],
    uses_step=lambda aj, ax, bj, bx, lo, j, n: [rs.unfold(aj, ax, lo, j, n), rs.unfold(bj, bx, lo, j, n), rd(bj, n) == rd(bj, n)])

RsStore = Lemma("rs_store", [ARR, ARR, Int, Int, Int, Int, Int, Int],
    lambda aj, ax, q, vj, vx, lo, j, n: imp(lor(q < lo, q >= n), rs(z3.Store(aj, q, vj), z3.Store(ax, q, vx), lo, j, n) == rs(aj, ax, lo, j, n)), lo=lambda aj, ax, q, vj, vx, lo, j: lo,
    uses_base=lambda aj, ax, q, vj, vx, lo, j: [rs.zero(aj, ax, lo, j), rs.zero(z3.Store(aj, q, vj), z3.Store(ax, q, vx), lo, j)],
    uses_step=lambda aj, ax, q, vj, vx, lo, j, n: [rs.unfold(aj, ax, lo, j, n), rs.unfold(z3.Store(aj, q, vj), z3.Store(ax, q, vx), lo, j, n)])
# tsum(Ti, Tj, Tx, i, j, n): sum of the values of the triplets t < n at position (i, j)
tsum = Def("tsum", [ARR, ARR, ARR, Int, Int], lambda ti, tj, tx, i, j: (I(0), I(0)), lambda prev, ti, tj, tx, i, j, n: prev + z3.If(land(rd(ti, n) == i, rd(tj, n) == j), rd(tx, n), 0))

# rowof(p, k, n): the last row i < n with p[i] <= k
rowof = Def("rowof", [ARR, Int], lambda p, k: (I(0), I(0)), lambda prev, p, k, n: z3.If(rd(p, n) <= k, n, prev))
RowOf = Lemma("row_of", [ARR, Int, Int], lambda p, k, n: imp(land(rd(p, I(0)) <= k, k < rd(p, n)), land(0 <= rowof(p, k, n), rowof(p, k, n) < n, rd(p, rowof(p, k, n)) <= k, k < rd(p, rowof(p, k, n) + 1))), lo=lambda p, k: I(0),
              uses_step=lambda p, k, n: [rowof.unfold(p, k, n)])
def rowfacts(p, n, arrs): return [forall(k_, RowOf.inst(p, k_, n), [rd(a, k_)]) for a in arrs]

Z0Add = Z0Lemma("z0_add", 2, lambda x, y: [x, y], lambda x, y: x + y, lambda u, v, x, y: u + v)
Z0Sub = Z0Lemma("z0_sub", 2, lambda x, y: [x, y], lambda x, y: x - y, lambda u, v, x, y: u - v)
CanonZero = Lemma("canon_zero", [Int, Int], lambda p, t: imp(land(p > 0, canonp(p, t), z0(p, t)), t == 0), uses=lambda p, t: [z0_elim(p, t)], induct=False)
RsmNeg = Lemma("rsm_neg", [Int, ARR, ARR, Int, Int, Int], lambda b, aj, ax, lo, j, n: rsm(-b, aj, ax, lo, j, n) == -rsm(b, aj, ax, lo, j, n), lo=lambda b, aj, ax, lo, j: lo,
    uses_base=lambda b, aj, ax, lo, j: [rsm.zero(-b, aj, ax, lo, j), rsm.zero(b, aj, ax, lo, j)],
    uses_step=lambda b, aj, ax, lo, j, n: [rsm.unfold(-b, aj, ax, lo, j, n), rsm.unfold(b, aj, ax, lo, j, n), fmul_def(-b, rd(ax, n)), fmul_def(b, rd(ax, n))])
RsmZero = Lemma("rsm_zero", [Int, ARR, ARR, Int, Int, Int], lambda b, aj, ax, lo, j, n: imp(b == 0, rsm(b, aj, ax, lo, j, n) == 0), lo=lambda b, aj, ax, lo, j: lo,
    uses_base=lambda b, aj, ax, lo, j: [rsm.zero(b, aj, ax, lo, j)], uses_step=lambda b, aj, ax, lo, j, n: [rsm.unfold(b, aj, ax, lo, j, n), fmul_def(b, rd(ax, n))])
RsmNone = Lemma("rsm_none", [Int, ARR, ARR, Int, Int, Int], lambda b, aj, ax, lo, j, n: imp(forall(k_, imp(land(lo <= k_, k_ < n), rd(aj, k_) != j), [rd(aj, k_)]), rsm(b, aj, ax, lo, j, n) == 0), lo=lambda b, aj, ax, lo, j: lo,
    uses_base=lambda b, aj, ax, lo, j: [rsm.zero(b, aj, ax, lo, j)], uses_step=lambda b, aj, ax, lo, j, n: [rsm.unfold(b, aj, ax, lo, j, n), rd(aj, n) == rd(aj, n)])
# rsm(b, ..) = b * rs(..)
RsmRs = Lemma("rsm_rs", [Int, ARR, ARR, Int, Int, Int], lambda b, aj, ax, lo, j, n: rsm(b, aj, ax, lo, j, n) == fmul(b, rs(aj, ax, lo, j, n)), lo=lambda b, aj, ax, lo, j: lo,
    uses_base=lambda b, aj, ax, lo, j: [rsm.zero(b, aj, ax, lo, j), rs.zero(aj, ax, lo, j), fmul_def(b, I(0)), fmul_def(b, rs(aj, ax, lo, j, lo))],
    uses_step=lambda b, aj, ax, lo, j, n: [rsm.unfold(b, aj, ax, lo, j, n), rs.unfold(aj, ax, lo, j, n), fmul_def(b, rd(ax, n)), fmul_def(b, rs(aj, ax, lo, j, n)), fmul_def(b, rs(aj, ax, lo, j, n + 1))])
# xA depends on x below n only; changing one zero coefficient adds its row; all-zero x gives zero
XAUpd = Lemma("xA_upd", [ARR, Int, Int, ARR, ARR, ARR, Int, Int], lambda x, i, b, ap, aj, ax, j, n: land(imp(lor(i < 0, i >= n), xA(z3.Store(x, i, b), ap, aj, ax, j, n) == xA(x, ap, aj, ax, j, n)),
        imp(land(monotone(ap, n), 0 <= i, i < n, rd(x, i) == 0), xA(z3.Store(x, i, b), ap, aj, ax, j, n) == xA(x, ap, aj, ax, j, n) + rsm(b, aj, ax, rd(ap, i), j, rd(ap, i + 1)))), lo=lambda x, i, b, ap, aj, ax, j: I(0),
    uses_base=lambda x, i, b, ap, aj, ax, j: [xA.zero(x, ap, aj, ax, j), xA.zero(z3.Store(x, i, b), ap, aj, ax, j)],
    uses_step=lambda x, i, b, ap, aj, ax, j, n: [xA.unfold(x, ap, aj, ax, j, n), xA.unfold(z3.Store(x, i, b), ap, aj, ax, j, n), RsmZero.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), RsmZero.inst(I(0), aj, ax, rd(ap, n), j, rd(ap, n + 1))])
XAZero = Lemma("xA_zero", [ARR, ARR, ARR, ARR, Int, Int], lambda x, ap, aj, ax, j, n: imp(land(monotone(ap, n), forall(k_, imp(land(0 <= k_, k_ < n), rd(x, k_) == 0), [rd(x, k_)])), xA(x, ap, aj, ax, j, n) == 0), lo=lambda x, ap, aj, ax, j: I(0),
    uses_base=lambda x, ap, aj, ax, j: [xA.zero(x, ap, aj, ax, j)], uses_step=lambda x, ap, aj, ax, j, n: [xA.unfold(x, ap, aj, ax, j, n), RsmZero.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), rd(x, n) == rd(x, n)])
# congruence in the coefficients
_f3 = Z0Lemma("z0_rsm_step", 5, lambda a, b, u, v, x: [a - b, u - v], lambda a, b, u, v, x: (u + fmul(a, x)) - (v + fmul(b, x)), lambda w, t, a, b, u, v, x: t + w * x, lambda a, b, u, v, x: [fmul_def(a, x), fmul_def(b, x)])
RsmCong = Lemma("rsm_cong", [Int, Int, Int, ARR, ARR, Int, Int, Int], lambda p, a, b, aj, ax, lo, j, n: imp(z0(p, a - b), z0(p, rsm(a, aj, ax, lo, j, n) - rsm(b, aj, ax, lo, j, n))), lo=lambda p, a, b, aj, ax, lo, j: lo,
    uses_base=lambda p, a, b, aj, ax, lo, j: [rsm.zero(a, aj, ax, lo, j), rsm.zero(b, aj, ax, lo, j), z0_intro(p, I(0), I(0)), rsm(a, aj, ax, lo, j, lo) - rsm(b, aj, ax, lo, j, lo) == 0],
    uses_step=lambda p, a, b, aj, ax, lo, j, n: [rsm.unfold(a, aj, ax, lo, j, n), rsm.unfold(b, aj, ax, lo, j, n), _f3.inst(p, a, b, rsm(a, aj, ax, lo, j, n), rsm(b, aj, ax, lo, j, n), rd(ax, n)),
        rsm(a, aj, ax, lo, j, n + 1) - rsm(b, aj, ax, lo, j, n + 1) == z3.If(rd(aj, n) == j, (rsm(a, aj, ax, lo, j, n) + fmul(a, rd(ax, n))) - (rsm(b, aj, ax, lo, j, n) + fmul(b, rd(ax, n))), rsm(a, aj, ax, lo, j, n) - rsm(b, aj, ax, lo, j, n))])
XACong = Lemma("xA_cong", [Int, ARR, ARR, ARR, ARR, ARR, Int, Int], lambda p, x, y, ap, aj, ax, j, n: imp(land(monotone(ap, n), forall(k_, imp(land(0 <= k_, k_ < n), z0(p, rd(x, k_) - rd(y, k_))), [[rd(x, k_)], [rd(y, k_)]])), z0(p, xA(x, ap, aj, ax, j, n) - xA(y, ap, aj, ax, j, n))), lo=lambda p, x, y, ap, aj, ax, j: I(0),
    uses_base=lambda p, x, y, ap, aj, ax, j: [xA.zero(x, ap, aj, ax, j), xA.zero(y, ap, aj, ax, j), z0_intro(p, xA(x, ap, aj, ax, j, I(0)) - xA(y, ap, aj, ax, j, I(0)), I(0))],
    uses_step=lambda p, x, y, ap, aj, ax, j, n: [xA.unfold(x, ap, aj, ax, j, n), xA.unfold(y, ap, aj, ax, j, n), RsmCong.inst(p, rd(x, n), rd(y, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), rd(x, n) == rd(x, n),
        Z0Add.inst(p, xA(x, ap, aj, ax, j, n) - xA(y, ap, aj, ax, j, n), rsm(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)) - rsm(rd(y, n), aj, ax, rd(ap, n), j, rd(ap, n + 1))),
        xA(x, ap, aj, ax, j, n + 1) - xA(y, ap, aj, ax, j, n + 1) == (xA(x, ap, aj, ax, j, n) - xA(y, ap, aj, ax, j, n)) + (rsm(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)) - rsm(rd(y, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)))])
# rows from i on hold no entry of column j, or have coefficient zero: the sum ends at i
XATail = Lemma("xA_tail", [ARR, ARR, ARR, ARR, Int, Int, Int], lambda x, ap, aj, ax, j, i, n: imp(land(monotone(ap, n), 0 <= i, lor(forall(k_, imp(land(rd(ap, i) <= k_, k_ < rd(ap, n)), rd(aj, k_) != j), [rd(aj, k_)]), forall(k_, imp(land(i <= k_, k_ < n), rd(x, k_) == 0), [rd(x, k_)]))), xA(x, ap, aj, ax, j, n) == xA(x, ap, aj, ax, j, i)), lo=lambda x, ap, aj, ax, j, i: i,
    uses_step=lambda x, ap, aj, ax, j, i, n: [xA.unfold(x, ap, aj, ax, j, n), RsmZero.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), RsmNone.inst(rd(x, n), aj, ax, rd(ap, n), j, rd(ap, n + 1)), rd(x, n) == rd(x, n), rd(ap, i) == rd(ap, i)])
# elimination with a unit pivot: r = 1, s = a, s - a r = a1 (mod p) give a1 = 0
ElimUnit = Z0Lemma("elim_unit", 5, lambda r, s, a, s1, a1: [r - 1, s - a, s1 - a1], lambda r, s, a, s1, a1: a1, lambda w1, w2, w3, r, s, a, s1, a1: w2 - a * w1 - w3, lambda r, s, a, s1, a1: [fmul_def(a, r)], cond=lambda r, s, a, s1, a1: s1 == s - fmul(a, r))
# elimination with any pivot: al d = 1, x = al s, s1 = s - x d, s = a, s1 = a1 give a1 = 0
ElimPivot = Z0Lemma("elim_pivot", 7, lambda al, d, x, s, a, s1, a1: [fmul(al, d) - 1, fmul(al, a) - x, s - a, s1 - a1], lambda al, d, x, s, a, s1, a1: s1,
    lambda w1, w2, w3, w4, al, d, x, s, a, s1, a1: w3 - a * w1 + d * w2, lambda al, d, x, s, a, s1, a1: [fmul_def(al, d), fmul_def(al, a), fmul_def(x, d)], cond=lambda al, d, x, s, a, s1, a1: s1 == s - fmul(x, d))
# sum of a row over a column that occurs once, at position q
RsOne = Lemma("rs_one", [ARR, ARR, Int, Int, Int, Int], lambda aj, ax, q, lo, j, n: imp(land(lo <= q, rd(aj, q) == j, forall(k_, imp(land(lo <= k_, k_ < n, k_ != q), rd(aj, k_) != j), [rd(aj, k_)])), rs(aj, ax, lo, j, n) == z3.If(n > q, rd(ax, q), 0)), lo=lambda aj, ax, q, lo, j: lo,
    uses_base=lambda aj, ax, q, lo, j: [rs.zero(aj, ax, lo, j)], uses_step=lambda aj, ax, q, lo, j, n: [rs.unfold(aj, ax, lo, j, n), rd(aj, n) == rd(aj, n)])
# makes the equality of two arguments of z0 an explicit atom for the solvers
Z0Eq = Lemma("z0_eq", [Int, Int, Int], lambda p, x, y: imp(land(z0(p, x), x == y), z0(p, y)), induct=False)
RsNone = Lemma("rs_none", [ARR, ARR, Int, Int, Int], lambda aj, ax, lo, j, n: imp(forall(k_, imp(land(lo <= k_, k_ < n), rd(aj, k_) != j), [rd(aj, k_)]), rs(aj, ax, lo, j, n) == 0), lo=lambda aj, ax, lo, j: lo,
    uses_base=lambda aj, ax, lo, j: [rs.zero(aj, ax, lo, j)], uses_step=lambda aj, ax, lo, j, n: [rs.unfold(aj, ax, lo, j, n), rd(aj, n) == rd(aj, n)])
