"""C01: the field operations of src/spasm_ZZp.c against their real bodies"""
from dv.lib import *
R = z3.ToReal
U = z3.Q(1, 1 << 53)
rl = z3.RealSort()
# |r1-A| <= u|A|, |r2-r1*d| <= u|r1*d|, |d*p-1| <= u   =>  |r2*p-A| <= 4u|A|      (in small steps)
L_scale = Lemma("scale", [rl, rl, rl], lambda x, e, k: imp(land(e <= k, -e <= k), absr(x * e) <= k * absr(x)), induct=False)
L_absmul = Lemma("absmul", [rl, rl], lambda x, y: imp(y >= 0, absr(x * y) == absr(x) * y), induct=False)
L_mulge = Lemma("mulge", [Int, Int], lambda x, y: imp(land(x >= 0, y >= 1), x * y >= x), induct=False)
L_prod = Lemma("prodbound", [Int, Int, Int], lambda a, b, h: imp(land(-h <= a, a <= h, -h <= b, b <= h), land(a * b <= h * h, -(h * h) <= a * b)), induct=False)
L_prod2 = Lemma("prodbound2", [Int, Int, Int, Int], lambda a, b, g, h: imp(land(-g <= a, a <= g, -h <= b, b <= h), land(a * b <= g * h, -(g * h) <= a * b)), induct=False)

class ZZpOp(Contract):
    """result is canonical and congruent to the exact expression; callers see that expression as its shadow value"""
    file = "spasm_ZZp.c"
    shapes = {}
    def pre(s, v): return field_ok(v.F) + [(f"{a} canonical", canon(v.F, getattr(v, a))) for a in s.params[1:]]
    def exact(s, v): raise NotImplementedError
    def result(s, ex, st, o):
        t = ex.fresh(s.name + ".ret"); st.assume(ex.rng(t, ex.tu.ty("spasm_ZZp")))
        return V(t, ex.tu.ty("spasm_ZZp"), sh=s.exact([o._args[a].shadow() for a in s.params[1:]]))
    def post(s, o, n, r):
        return [("canonical", canon(n.F, r)), ("congruent to the exact result", z0(o.F.p, sub(s.exact([getattr(o, a) for a in s.params[1:]]), r)))]
    def facts_entry(s, v): return [dinv_def(v.F)] if s.params[0] == "F" else []
    def cands(s, v): return [I(0), I(1), I(-1)]
    def facts_exit(s, o, v, r):
        x = sub(s.exact([getattr(o, a) for a in s.params[1:]]), r)
        return [z0_intro(o.F.p, x, w) for w in s.cands(v)]
class Init(Contract):
    name = "spasm_field_init"; file = "spasm_ZZp.c"; params = ["p", "F"]
    assigns = ("F",)
    def pre(s, v): return [("odd prime range, or negative for pattern matrices", lor(v.p < 0, land(v.p >= 3, v.p <= 4294967291, v.p % 2 == 1)))]
    def facts_exit(s, o, v, r): return [dinv_def(v.F)]
    def post(s, o, n, r): return [("p", n.F.p == o.p)] + [(a, imp(o.p >= 0, b)) for a, b in field_ok(n.F)]
class Add(ZZpOp):
    name = "spasm_ZZp_add"; params = ["F", "a", "b"]
    def exact(s, v): return v[0] + v[1]
class Sub(ZZpOp):
    name = "spasm_ZZp_sub"; params = ["F", "a", "b"]
    def exact(s, v): return v[0] - v[1]
class ZInit(ZZpOp):
    name = "spasm_ZZp_init"; params = ["F", "x"]
    def pre(s, v): return field_ok(v.F)
    def exact(s, v): return v[0]
    def cands(s, v):
        q = z3.Int("w!")
        return []
    def facts_exit(s, o, v, r):
        # x = quo*p + rem
        q = s.quo(o, v)
        return [z0_intro(o.F.p, o.x - r, q + d) for d in (0, 1, -1)]
    def quo(s, o, v):
        c = [x for (a, b), x in v._ex.divcache.items() if x[2].eq(o.x)]
        return c[0][0] if c else I(0)
class Mul(ZZpOp):
    name = "spasm_ZZp_mul"; params = ["F", "a", "b"]
    def exact(s, v): return fmul(v[0], v[1])
    def facts_entry(s, v):
        return [dinv_def(v.F), fmul_def(v.a, v.b), L_prod.inst(v.a, v.b, v.F.halfp)]
    def num(s, o): return o.a * o.b
    def cut_spasm(s): pass
    def cands(s, v): return [v.q, v.q + 1, v.q - 1]
class Axpy(ZZpOp):
    """the factor a may be any int: the quotient is then still off by one at most"""
    name = "spasm_ZZp_axpy"; params = ["F", "a", "x", "y"]
    def pre(s, v): return field_ok(v.F) + [("x canonical", canon(v.F, v.x)), ("y canonical", canon(v.F, v.y))]
    def exact(s, v): return fmul(v[0], v[1]) + v[2]
    def facts_entry(s, v): return [dinv_def(v.F), fmul_def(v.a, v.x), L_prod2.inst(v.a, v.x, I(1 << 31), v.F.halfp)]
    def cands(s, v): return [v.q, v.q + 1, v.q - 1]
class Inverse(ZZpOp):
    name = "spasm_ZZp_inverse"; params = ["F", "a"]
    def pre(s, v): return field_ok(v.F) + [("canonical", canon(v.F, v.a)), ("nonzero", v.a != 0), ("prime", PRIME(v.F.p))]
    def result(s, ex, st, o): return None
    def post(s, o, n, r):
        return [("canonical", canon(n.F, r)), ("product with the operand is one", z0(o.F.p, fmul(o.a, r) - 1))]
    def facts_entry(s, v): return []
    def facts_exit(s, o, v, r):
        p = o.F.p; t = v.inva; T = v._st.ghost["T"]; X = v._st.ghost["au"]
        aa = v.aa
        # 1 == t*aa + p*T;  aa = a or a + p;  r = t + d*p
        out = [fmul_def(o.a, r)]
        for c in (0, 1):
            for d in (0, 1, -1):
                # a*r - 1 = (aa - c*p)*(t + d*p) - 1 = -p*T + d*p*aa - c*p*(t + d*p)
                out.append(z0_intro(p, fmul(o.a, r) - 1, -T + d * aa - c * (t + d * p)))
        return out
    def inv(v):
        o = v.old; p = o.F.p; a = v.a
        sg, at, au, T, W = (v.g(k) for k in ("sg", "at", "au", "T", "W"))
        return [("sign", lor(sg == 1, sg == -1)), ("t", v.t == -sg * at), ("u", v.u == sg * au), ("nonneg", land(at >= 0, au >= 0)),
                ("bezout r", v.r == v.t * a + p * T), ("bezout s", v.s == v.u * a + p * W),
                ("size", at * v.s + au * v.r == p), ("order", land(0 <= v.s, v.s < v.r, v.r <= p)),
                ("bounded", land(at <= p, au <= p)), ("started", lor(land(v.r < p), land(v.s == a, v.s > 0))), ("at<=au", land(au >= 1))]
    def gi(v): return {"sg": I(1), "at": I(0), "au": I(1), "T": I(1), "W": I(0)}
    def ge(h, v):
        sg, at, au, T, W = (h.g(k) for k in ("sg", "at", "au", "T", "W"))
        return {"sg": -sg, "at": au, "au": at + v.q * au, "T": W, "W": T - v.q * W}
    def head(v):
        return []
    loops = {"0": Loop(inv=inv, ghost={k: Int for k in ("sg", "at", "au", "T", "W")}, ghost_init=gi, ghost_end=ge,
                       variant=lambda v: v.s,
                       exit=lambda v: [prime_def(v.old.F.p, v.r, v.g("au"))])}
ALL = [Init(), Add(), Sub(), ZInit(), Mul(), Axpy(), Inverse()]
