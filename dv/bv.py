"""Bit-precise contract of one function: sha256_block_data_order.  The function is executed symbolically over bit vectors on clang's AST of the
current source; the loop over the blocks is handled with an invariant over the number of blocks done (templates for the modified locals, kept only
when the body preserves them); the loops with concrete bounds inside are executed as they are.  The values computed are identified with the terms
of FIPS 180-4 (W_t, T1_t, ...) -- a value whose random simulation agrees with a term is proved equal to it by the solver and then replaced by
a fresh constant standing for that term (cut point).  What must hold at the end of one iteration: h[w] = compress(h, block)[w]."""
import os, random, time, hashlib, struct
import z3
from dv.cast import ToolLimit, TU, Ty
K = [0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
 0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
 0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
 0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2]
NSIM = 4
class V:
    """a value: bit-vector term over inputs and cut points, and its values under NSIM random inputs"""
    __slots__ = ("e", "s", "w")
    def __init__(v, e, s, w): v.e, v.s, v.w = e, s, w
def const(c, w): c &= (1 << w) - 1; return V(z3.BitVecVal(c, w), (c,) * NSIM, w)
def isc(v): return z3.is_bv_value(v.e)
def cval(v, signed=False):
    x = v.e.as_long()
    return x - (1 << v.w) if signed and x >> (v.w - 1) else x
def op2(f, g, a, b, w=None): 
    w = w or a.w; m = (1 << w) - 1
    e = f(a.e, b.e)
    if z3.is_bv_value(a.e) and z3.is_bv_value(b.e): e = z3.simplify(e)
    return V(e, tuple(g(x, y) & m for x, y in zip(a.s, b.s)), w)
ADD = lambda a, b: op2(lambda x, y: x + y, lambda x, y: x + y, a, b)
SUB = lambda a, b: op2(lambda x, y: x - y, lambda x, y: x - y, a, b)
MUL = lambda a, b: op2(lambda x, y: x * y, lambda x, y: x * y, a, b)
AND = lambda a, b: op2(lambda x, y: x & y, lambda x, y: x & y, a, b)
OR = lambda a, b: op2(lambda x, y: x | y, lambda x, y: x | y, a, b)
XOR = lambda a, b: op2(lambda x, y: x ^ y, lambda x, y: x ^ y, a, b)
SHL = lambda a, b: op2(lambda x, y: x << y, lambda x, y: x << y if y < 200 else 0, a, b)
SHR = lambda a, b: op2(z3.LShR, lambda x, y: x >> y, a, b)
def NOT(a): e = ~a.e; return V(z3.simplify(e) if isc(a) else e, tuple(~x & ((1 << a.w) - 1) for x in a.s), a.w)
def resize(a, w, signed):
    if w == a.w: return a
    if w < a.w: e = z3.Extract(w - 1, 0, a.e); return V(z3.simplify(e) if isc(a) else e, tuple(x & ((1 << w) - 1) for x in a.s), w)
    e = z3.SignExt(w - a.w, a.e) if signed else z3.ZeroExt(w - a.w, a.e)
    if signed: s = tuple((x - (1 << a.w) if x >> (a.w - 1) else x) & ((1 << w) - 1) for x in a.s)
    else: s = a.s
    return V(z3.simplify(e) if isc(a) else e, s, w)
def inp(name, w, rng): return V(z3.BitVec(name, w), tuple(rng.getrandbits(w) for _ in range(NSIM)), w)
def ror(x, n): return OR(SHR(x, const(n, 32)), SHL(x, const(32 - n, 32)))
class Spec:
    """FIPS 180-4, 6.2.2, over V; every named term becomes a cut point"""
    def __init__(s, h, m, cuts=True):
        s.nodes = {}; s.h, s.m, s.cuts = h, m, cuts
        W = []
        for t in range(64):
            if t < 16: x = [resize(b, 32, False) for b in m[4 * t:4 * t + 4]]; v = OR(OR(SHL(x[0], const(24, 32)), SHL(x[1], const(16, 32))), OR(SHL(x[2], const(8, 32)), x[3]))
            else:
                a, b = W[t - 15], W[t - 2]
                s0 = s.name(f"s0({t})", XOR(XOR(ror(a, 7), ror(a, 18)), SHR(a, const(3, 32)))); s1 = s.name(f"s1({t})", XOR(XOR(ror(b, 17), ror(b, 19)), SHR(b, const(10, 32))))
                v = ADD(ADD(s1, W[t - 7]), ADD(s0, W[t - 16]))
            W.append(s.name(f"W{t}", v))
        a, b, c, d, e, f, g, hh = h
        for t in range(64):
            S1 = s.name(f"S1({t})", XOR(XOR(ror(e, 6), ror(e, 11)), ror(e, 25))); ch = s.name(f"Ch({t})", XOR(AND(e, f), AND(NOT(e), g)))
            S0 = s.name(f"S0({t})", XOR(XOR(ror(a, 2), ror(a, 13)), ror(a, 22))); mj = s.name(f"Maj({t})", XOR(XOR(AND(a, b), AND(a, c)), AND(b, c)))
            T1 = s.name(f"T1({t})", ADD(ADD(ADD(hh, S1), ADD(ch, const(K[t], 32))), W[t])); T2 = s.name(f"T2({t})", ADD(S0, mj))
            hh, g, f, e, d, c, b, a = g, f, e, s.name(f"e{t}", ADD(d, T1)), c, b, a, s.name(f"a{t}", ADD(T1, T2))
        s.out = [s.name(f"h'{w}", ADD(x, y)) for w, (x, y) in enumerate(zip(h, (a, b, c, d, e, f, g, hh)))]
    def name(s, n, v):
        if not s.cuts or v.s in s.nodes: return s.nodes[v.s][1] if s.cuts else v
        c = V(z3.BitVec(n, 32), v.s, 32); s.nodes[v.s] = (n, c, v.e); return c
def spec_self_test():
    """the specification agrees with an independent implementation"""
    for L in (0, 3, 55):
        msg = bytes(random.Random(L).randrange(256) for _ in range(L)); blk = msg + b"\x80" + b"\0" * (55 - L) + struct.pack(">Q", 8 * L)
        h = [const(x, 32) for x in (0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19)]
        sp = Spec(h, [const(b, 8) for b in blk], cuts=False)
        assert b"".join(struct.pack(">I", v.s[0]) for v in sp.out) == hashlib.sha256(msg).digest()
class Ptr:
    __slots__ = ("base", "off", "elem")
    def __init__(s, base, off, elem): s.base, s.off, s.elem = base, off, elem      # off: V(64), in bytes
class Fail(Exception): pass
class Brk(Exception): pass
class Infeasible(Exception): pass
class Cnt(Exception): pass
class Ret(Exception):
    def __init__(s, v): s.v = v
class Run:
    def __init__(s, tu, fn="sha256_block_data_order", seed=1):
        s.tu, s.fn = tu, tu.funcs.get(fn)
        if not s.fn or not s.fn.d.get("body"): raise ToolLimit(f"{fn} is gone")
        rng = random.Random(1000 + seed); s.rng = rng
        s.h0 = [inp(f"h{w}", 32, rng) for w in range(8)]; s.m = [inp(f"m{k}", 8, rng) for k in range(64)]
        s.spec = Spec(s.h0, s.m); s.obl = []; s.t0 = time.time(); s.num0 = V(z3.BitVec("num", 64), tuple(rng.getrandbits(40) + 5 for _ in range(NSIM)), 64)
        s.done = V(z3.BitVec("done", 64), tuple(rng.getrandbits(30) % x for x in s.num0.s), 64)
        s.state = {}; s.inblock = False; s.path = []; s.depth = 0; s.cache = {}; s.ident = set(); s.nfresh = 0; s.steps = 0
        s.wrote = False
    # ---- obligations
    def prove(s, e, tmo=20000):
        e = z3.simplify(e)
        if z3.is_true(e): return True
        S = z3.SolverFor("QF_BV"); S.set("timeout", tmo); S.add(*s.path, z3.Not(e)); return S.check() == z3.unsat
    def oblige(s, label, e):
        t = time.time(); ok = s.prove(e); s.obl.append((label, ok, "z3:bv", time.time() - t))
        return ok
    def cut(s, v):
        if v.w != 32 or isc(v): return v
        n = s.spec.nodes.get(v.s)
        if n is None or v.e.eq(n[1].e): return v
        key = (v.e.get_id(), n[0])
        if key in s.cache: return s.cache[key][1]
        t = time.time()
        ok = s.prove(v.e == n[1].e, 3000) or s.prove(v.e == n[2], 8000)
        if not ok:      # with the definitions of the intermediate terms
            sub = lambda e: z3.substitute(e, *[(c.e, d) for nm, c, d in s.spec.nodes.values() if not nm[0] in "Wae"])
            ok = s.prove(sub(sub(v.e)) == sub(sub(n[2])), 8000)
        if ok: s.ident.add(n[0])
        if not ok and os.environ.get("DV_DEBUG"): print("not identified", n[0], time.time() - t, v.e.sexpr()[:600])
        r = n[1] if ok else v
        s.cache[key] = (v.e, r); return r
    # ---- memory: state[var id] = V | list | Ptr | dict
    def ty(s, n): return s.tu.ty(n["qt"])
    def fresh(s, t):
        s.nfresh += 1
        if t.kind in ("int", "bool"): return inp(f"?{s.nfresh}", t.bits, s.rng)
        raise ToolLimit("fresh " + repr(t))
    # lvalues: ("var", id) | ("elem", id, k) | ("ctx", field, k) | ("in", off, elem)
    def lv(s, n):
        k = n.kind
        if k == "ParenExpr": return s.lv(n.kids[0])
        if k == "DeclRefExpr":
            if n["ref"] not in s.state: s.glob(n)
            return ("var", n["ref"])
        if k == "ArraySubscriptExpr":
            b, i = s.ev(n.kids[0]), s.ev(n.kids[1])
            if not isinstance(b, Ptr): b, i = i, b
            return s.at(s.padd(b, resize(i, 64, s.ty(n.kids[1]).signed if s.ty(n.kids[1]).kind == "int" else True)))
        if k == "UnaryOperator" and n["opcode"] == "*": return s.at(s.ev(n.kids[0]))
        if k == "MemberExpr":
            if n.get("isArrow"):
                p = s.ev(n.kids[0])
                if isinstance(p, Ptr) and p.base == "ctx": return ("ctx", n["name"], None)
            else:
                l = s.lv(n.kids[0])
                if l[0] == "var" and isinstance(s.state.get(l[1]), dict): return ("fld", l[1], n["name"])
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and n["castKind"] in ("NoOp",): return s.lv(n.kids[0])
        raise ToolLimit("lvalue " + k)
    def padd(s, p, i): return Ptr(p.base, ADD(p.off, MUL(i, const(s.tu.sizeof(p.elem), 64))), p.elem)
    def at(s, p):
        if p.base == "in": return ("in", p.off, p.elem)
        o = z3.simplify(p.off.e)
        if not z3.is_bv_value(o): raise ToolLimit("symbolic index")
        z = s.tu.sizeof(p.elem); o = o.as_long(); o = o - (1 << 64) if o >> 63 else o
        if o % z: raise ToolLimit("unaligned access")
        if isinstance(p.base, tuple) and p.base[0] == "ctxf": return ("ctx", p.base[1], o // z)
        if isinstance(p.base, tuple) and p.base[0] == "arr":
            a = s.state[p.base[1]]
            if not isinstance(a, list): return ("var", p.base[1]) if o == 0 else s.oob()
            if not 0 <= o // z < len(a): s.oob()
            if a[1000000:] or z * 8 != s.elemw[p.base[1]]: raise ToolLimit("access through another type")
            return ("elem", p.base[1], o // z)
        raise ToolLimit("pointer base")
    def oob(s): s.obl.append(("array access in bounds", False, "concrete", 0)); raise Fail()
    elemw = None
    def rdl(s, l, ty):
        if l[0] == "var":
            v = s.state.get(l[1])
            if v is None: s.obl.append(("initialised before use", False, "concrete", 0)); raise Fail()
            return v
        if l[0] == "elem":
            v = s.state[l[1]][l[2]]
            if v is None: s.obl.append(("initialised before use", False, "concrete", 0)); raise Fail()
            return v
        if l[0] == "fld":
            d = s.state[l[1]]; x = d["=" + l[2]] if "=" + l[2] in d else None
            if x is None: x = resize(d["raw"], ty.bits, True)     # little-endian view of a union of integers
            return x
        if l[0] == "ctx":
            if l[1] == "h" and l[2] is not None:
                if not 0 <= l[2] < 8: s.oob()
                return s.H[l[2]]
            raise ToolLimit("context field " + l[1])
        if l[0] == "in":
            if not s.inblock: raise ToolLimit("message read outside the loop over the blocks")
            z = s.tu.sizeof(l[2]); d = z3.simplify(l[1].e - 64 * s.done.e)
            if not z3.is_bv_value(d): s.badread = True; return s.fresh(Ty("int", 8 * z, False))
            d = d.as_long()
            if d + z > 64: s.obl.append(("reads the current block of the message only", False, "concrete", 0)); raise Fail()
            v = resize(s.m[d], 8 * z, False)
            for q in range(1, z): v = OR(v, SHL(resize(s.m[d + q], 8 * z, False), const(8 * q, 8 * z)))
            return v
        raise ToolLimit("read")
    def wrl(s, l, v):
        if isinstance(v, V): v = s.cut(v)
        if l[0] == "var": s.state[l[1]] = v; s.mod.add(l[1])
        elif l[0] == "elem": s.state[l[1]][l[2]] = v; s.mod.add(l[1])
        elif l[0] == "ctx" and l[1] == "h" and l[2] is not None and 0 <= l[2] < 8: s.H[l[2]] = v
        else: s.obl.append((f"writes nothing but h ({l[:2]})", False, "concrete", 0)); raise Fail()
        return v
    def glob(s, n):
        g = s.tu.globals_.get(n["ref"])
        if g is None: raise ToolLimit("name " + str(n["refname"]))
        if "const" not in g["qt"]: raise ToolLimit("global that is not constant")
        s.decl(g)
    def decl(s, d):
        t = s.tu.ty(d["qt"].replace("const", "").strip()) if "union" not in d["qt"] else None
        ini = d.kids[0] if d.kids else None
        if t is None:
            x = ini
            while x is not None and x.kind in ("InitListExpr", "ImplicitCastExpr", "ConstantExpr") and x.kids: x = x.kids[0]
            v = s.ev(ini.kids[0] if ini.kind == "InitListExpr" else ini); s.state[d.id] = {"raw": v}; return
        if t.kind == "arr":
            if s.elemw is None: s.elemw = {}
            s.elemw[d.id] = t.elem.bits
            if ini is None: s.state[d.id] = [None] * t.n
            elif ini.kind == "InitListExpr": s.state[d.id] = [resize(s.ev(k), t.elem.bits, t.elem.signed) if k.kind != "ImplicitValueInitExpr" else const(0, t.elem.bits) for k in ini.kids] ; s.state[d.id] += [const(0, t.elem.bits)] * (t.n - len(s.state[d.id]))
            else: raise ToolLimit("array initialiser")
            if ini is not None and len(s.state[d.id]) != t.n: raise ToolLimit("array initialiser")
            return
        s.state[d.id] = s.ev(ini) if ini is not None else None
        if isinstance(s.state[d.id], V): s.state[d.id] = s.cut(s.state[d.id])
        s.mod.add(d.id)
    # ---- expressions
    def ev(s, n):
        v = s.ev_(n)
        return s.cut(v) if isinstance(v, V) else v
    def ev_(s, n):
        s.steps += 1
        if s.steps > 400000: raise ToolLimit("too many steps")
        k = n.kind
        if k in ("ParenExpr", "ConstantExpr"): return s.ev(n.kids[0])
        if k == "IntegerLiteral": return const(int(n["value"]), s.ty(n).bits)
        if k == "CharacterLiteral": return const(int(n["value"]), s.ty(n).bits)
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            c = n["castKind"]; x = n.kids[0]
            if c == "LValueToRValue": return s.rdl(s.lv(x), s.ty(n))
            if c == "IntegralCast": t = s.ty(n); return s.cut(resize(s.ev(x), t.bits, s.ty(x).signed))
            if c in ("IntegralToBoolean",): v = s.ev(x); return s.boolv(v.e != 0, tuple(int(q != 0) for q in v.s), s.ty(n).bits)
            if c == "ArrayToPointerDecay":
                t = s.ty(x)
                l = s.lv(x)
                if l[0] == "ctx": return Ptr(("ctxf", l[1]), const(0, 64), t.elem)
                return Ptr(("arr", l[1]), const(0, 64), t.elem)
            if c == "NoOp": return s.ev(x)
            if c == "ToVoid": s.ev(x); return None
            if c == "BitCast":
                p = s.ev(x); t = s.ty(n)
                return Ptr(p.base, p.off, t.elem)
            if c == "PointerToIntegral": s.ev(x); return s.fresh(s.ty(n))
            raise ToolLimit("cast " + c)
        if k == "UnaryExprOrTypeTraitExpr": return const(s.tu.sizeof(s.tu.ty(n["argqt"]) if n.get("argqt") else s.ty(n.kids[0])), 64)
        if k == "UnaryOperator":
            o = n["opcode"]; x = n.kids[0]
            if o in ("++", "--"):
                l = s.lv(x); a = s.rdl(l, s.ty(x))
                if isinstance(a, Ptr): b = s.padd(a, const(1 if o == "++" else -1, 64))
                else: b = ADD(a, const(1 if o == "++" else -1, a.w))
                s.wrl(l, b); return a if n.get("isPostfix") else b
            if o == "*": return s.rdl(s.lv(n), s.ty(n))
            if o == "&":
                l = s.lv(x)
                if l[0] == "elem": return Ptr(("arr", l[1]), const(l[2] * s.elemw[l[1]] // 8, 64), s.ty(x))
                if l[0] == "var": return Ptr(("arr", l[1]), const(0, 64), s.ty(x))
                if l[0] == "in": return Ptr("in", l[1], l[2])
                if l[0] == "ctx" and l[2] is not None: return Ptr(("ctxf", l[1]), const(4 * l[2], 64), s.ty(x))
                raise ToolLimit("address of")
            a = s.ev(x)
            if o == "~": return NOT(a)
            if o == "-": return SUB(const(0, a.w), a)
            if o == "+": return a
            if o == "!": return s.boolv(a.e == 0, tuple(int(q == 0) for q in a.s), s.ty(n).bits)
            raise ToolLimit("unary " + o)
        if k == "BinaryOperator":
            o = n["opcode"]
            if o == "=": v = s.ev(n.kids[1]); return s.wrl(s.lv(n.kids[0]), v)
            if o == ",": s.ev(n.kids[0]); return s.ev(n.kids[1])
            if o in ("&&", "||"):
                a = s.truth(s.ev(n.kids[0]))
                if a is None: raise ToolLimit("symbolic condition")
                if a == (o == "||"): return const(int(a), s.ty(n).bits)
                b = s.ev(n.kids[1]); return s.boolv(b.e != 0, tuple(int(q != 0) for q in b.s), s.ty(n).bits)
            a, b = s.ev(n.kids[0]), s.ev(n.kids[1])
            return s.bin(o, a, b, n.kids[0], n.kids[1], n)
        if k == "CompoundAssignOperator":
            o = n["opcode"][:-1]; l = s.lv(n.kids[0]); b = s.ev(n.kids[1]); a = s.rdl(l, s.ty(n.kids[0]))
            if isinstance(a, Ptr): return s.wrl(l, s.bin(o, a, b, n.kids[0], n.kids[1], n))
            lt = s.ty(n.kids[0])
            # the computation type: the usual conversions of both sides
            rt = s.ty(n.kids[1]); w = max(32, lt.bits, rt.bits) if o not in ("<<", ">>") else max(32, lt.bits)
            sg = lambda t: t.signed if t.bits >= 32 else True
            signed = all(sg(t) or t.bits < w for t in (lt, rt)) if o not in ("<<", ">>") else sg(lt)
            x = resize(a, w, lt.signed)
            y = resize(b, w, rt.signed) if o not in ("<<", ">>") else b
            r = s.arith(o, x, y, signed); return s.wrl(l, resize(r, lt.bits, signed))
        if k == "ConditionalOperator":
            c = s.truth(s.ev(n.kids[0]))
            if c is None: raise ToolLimit("symbolic condition")
            return s.ev(n.kids[1 if c else 2])
        if k == "CallExpr": return s.call(n)
        if k in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr"): return s.rdl(s.lv(n), s.ty(n))
        raise ToolLimit("expression " + k)
    def boolv(s, e, sim, w):
        e = z3.simplify(e)
        if z3.is_true(e) or z3.is_false(e): return const(int(z3.is_true(e)), w)
        return V(z3.If(e, z3.BitVecVal(1, w), z3.BitVecVal(0, w)), sim, w)
    def bin(s, o, a, b, na, nb, n):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.base == b.base and o in ("==", "!=", "<", "<=", ">", ">="): return s.arith(o, a.off, b.off, False)
                raise ToolLimit("pointers")
            if not isinstance(a, Ptr): a, b, nb = b, a, na
            i = resize(b, 64, s.ty(nb).signed)
            if o == "-": i = SUB(const(0, 64), i)
            elif o != "+": raise ToolLimit("pointer " + o)
            return s.padd(a, i)
        return s.arith(o, a, b, s.ty(na).signed)
    def arith(s, o, a, b, signed):
        if o == "+": return ADD(a, b)
        if o == "-": return SUB(a, b)
        if o == "*": return MUL(a, b)
        if o == "&": return AND(a, b)
        if o == "|": return OR(a, b)
        if o == "^": return XOR(a, b)
        if o in ("<<", ">>"):
            if not isc(b): raise ToolLimit("symbolic shift")
            k = cval(b)
            if k >= a.w: s.obl.append(("shift amount", False, "concrete", 0)); raise Fail()
            if o == "<<": return SHL(a, const(k, a.w))
            if signed and not isc(a): raise ToolLimit("signed right shift")
            if signed: return const(cval(a, True) >> k, a.w)
            return SHR(a, const(k, a.w))
        if o in ("/", "%"):
            if isc(a) and isc(b) and cval(b): x, y = cval(a, signed), cval(b, signed); q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); return const(q if o == "/" else x - q * y, a.w)
            if signed: raise ToolLimit("signed division")
            return op2(z3.UDiv if o == "/" else z3.URem, (lambda x, y: x // y if y else 0) if o == "/" else (lambda x, y: x % y if y else 0), a, b)
        sg = (lambda x: x - (1 << a.w) if x >> (a.w - 1) else x) if signed else (lambda x: x)
        t = {"==": (lambda x, y: x == y, lambda x, y: x == y), "!=": (lambda x, y: x != y, lambda x, y: x != y),
             "<": ((lambda x, y: x < y) if signed else z3.ULT, lambda x, y: sg(x) < sg(y)), "<=": ((lambda x, y: x <= y) if signed else z3.ULE, lambda x, y: sg(x) <= sg(y)),
             ">": ((lambda x, y: x > y) if signed else z3.UGT, lambda x, y: sg(x) > sg(y)), ">=": ((lambda x, y: x >= y) if signed else z3.UGE, lambda x, y: sg(x) >= sg(y))}.get(o)
        if t is None: raise ToolLimit("operator " + o)
        return s.boolv(t[0](a.e, b.e), tuple(int(t[1](x, y)) for x, y in zip(a.s, b.s)), 32)
    dec = None
    def truth(s, v, fork=True):
        e = z3.simplify(v.e)
        if z3.is_bv_value(e): return e.as_long() != 0
        if not fork or s.dec is None: return None
        if s.ndec < len(s.dec): r = s.dec[s.ndec]
        else:
            can = [x for x in (True, False) if not s.prove(v.e == 0 if x else v.e != 0)]
            if not can: raise Infeasible()
            r = can[0]; s.dec.append(r)
            if len(can) == 2: s.todo.append(s.dec[:-1] + [False])
        s.ndec += 1; s.path.append(v.e != 0 if r else v.e == 0)
        return r
    def paths(s, f):
        """every path through f"""
        s.todo = [[]]; k = 0
        while s.todo:
            k += 1
            if k > 16: raise ToolLimit("paths")
            s.dec = s.todo.pop(); s.ndec = 0
            try: f()
            except Infeasible: pass
        s.dec = None
    def call(s, n):
        f = n.kids[0]
        while f.kind in ("ImplicitCastExpr", "ParenExpr"): f = f.kids[0]
        name = f.get("refname"); args = [s.ev(a) for a in n.kids[1:]]
        if name == "memcpy":
            d, c, z = args; cnt = z3.simplify(z.e)
            if not z3.is_bv_value(cnt): raise ToolLimit("memcpy of symbolic size")
            cnt = cnt.as_long(); d = s.strip(d)
            if not (isinstance(d.base, tuple) and d.base[0] == "arr"): raise ToolLimit("memcpy destination")
            w = s.elemw.get(d.base[1]) if isinstance(s.state[d.base[1]], list) else None
            if w is None or cnt % (w // 8): raise ToolLimit("memcpy")
            src = s.strip(c)
            for q in range(cnt // (w // 8)):
                et = Ty("int", w, False)
                s.wrl(s.at(Ptr(d.base, ADD(d.off, const(q * w // 8, 64)), et)), s.rdl(s.at(Ptr(src.base, ADD(src.off, const(q * w // 8, 64)), et)), et))
            return d
        if name in ("__builtin_bswap32", "htonl", "ntohl"):
            a = args[0]; r = const(0, 32)
            for q in range(4): r = OR(r, SHL(AND(SHR(a, const(8 * q, 32)), const(255, 32)), const(24 - 8 * q, 32)))
            return s.cut(r)
        g = s.tu.funcs.get(name)
        if not g or not g.d.get("body") or s.depth > 8: raise ToolLimit("call of " + str(name))
        saved = {p.id: s.state.get(p.id) for p in g.d["params"]}
        for p, a in zip(g.d["params"], args): s.state[p.id] = a
        s.depth += 1
        try: s.st(g.d["body"]); r = None
        except Ret as e: r = e.v
        s.depth -= 1; s.state.update(saved)
        return s.cut(r) if isinstance(r, V) else r
    def strip(s, p):
        if not isinstance(p, Ptr): raise ToolLimit("pointer expected")
        return p
    # ---- statements
    def st(s, n):
        k = n.kind
        if k == "CompoundStmt":
            for c in n.kids: s.st(c)
        elif k == "DeclStmt":
            for c in n.kids:
                if c.kind == "VarDecl": s.decl(c)
        elif k == "NullStmt": pass
        elif k == "ReturnStmt": raise Ret(s.ev(n.kids[0]) if n.kids else None)
        elif k == "BreakStmt": raise Brk()
        elif k == "ContinueStmt": raise Cnt()
        elif k == "IfStmt":
            c = s.truth(s.ev(n.kids[0]))
            if c is None: raise ToolLimit("symbolic condition")
            if c: s.st(n.kids[1])
            elif len(n.kids) > 2: s.st(n.kids[2])
        elif k in ("WhileStmt", "ForStmt", "DoStmt"): s.loop(n)
        else: s.ev(n)
    done_loop = None
    def parts(s, n):
        if n.kind == "WhileStmt": return None, n.kids[0], None, n.kids[-1], False
        if n.kind == "DoStmt": return None, n.kids[1], None, n.kids[0], True
        init, _, cond, inc, body = (n.kids + [None] * 5)[:5]
        g = lambda x: None if x is None or x.kind == "Null" else x
        return g(init), g(cond), g(inc), body, False
    def loop(s, n):
        init, cond, inc, body, post = s.parts(n)
        if init is not None: s.st(init)
        if not s.inblock and s.done_loop is None:
            c0 = None
            if not post:
                snap = s.snap(); 
                c0 = s.truth(s.ev(cond), False) if cond is not None else True
                s.restore(snap)
            if c0 is None and not post: return s.blocks(n, cond, inc, body)
            if post: raise ToolLimit("do loop over the blocks")
        it = 0
        while True:
            if not post or it:
                c = True if cond is None else s.truth(s.ev(cond))
                if c is None: raise ToolLimit("loop with a symbolic bound")
                if not c: break
            it += 1
            if it > 5000: raise ToolLimit("loop bound")
            try: s.st(body)
            except Brk: break
            except Cnt: pass
            if inc is not None: s.ev(inc)
    def snap(s): return ({k: (list(v) if isinstance(v, list) else v) for k, v in s.state.items()}, list(s.H))
    def restore(s, x): s.state = {k: (list(v) if isinstance(v, list) else v) for k, v in x[0].items()}; s.H = list(x[1])
    def blocks(s, n, cond, inc, body):
        """the loop over the blocks: after `done` iterations h is the chaining value and every modified local is either scratch or given by its template"""
        s.done_loop = n; entry = s.snap()
        if not all(a.e.eq(b.e) for a, b in zip(s.H, s.h0)): raise ToolLimit("state changed before the loop")
        tmpl = {}
        num0, done = s.num0, s.done
        def templates(v):
            if isinstance(v, Ptr): 
                if v.base == "in" and z3.is_bv_value(z3.simplify(v.off.e)): return [lambda d, v=v: Ptr(v.base, ADD(v.off, MUL(d, const(64, 64))), v.elem)]
                return []
            if not isinstance(v, V): return []
            cands = []
            for f in (lambda d, v=v: SUB(v, resize(d, v.w, False)), lambda d, v=v: ADD(v, resize(d, v.w, False)), lambda d, v=v: ADD(v, MUL(resize(d, v.w, False), const(64, v.w))), lambda d, v=v: SUB(v, MUL(resize(d, v.w, False), const(64, v.w)))): cands.append(f)
            return cands
        # find what the body modifies
        trial = None; choice = {k: 0 for k in entry[0]}
        known = {k: templates(v) for k, v in entry[0].items()}
        self_mod = None
        early = list(s.path); outer = (s.dec, s.ndec, s.todo) if s.dec is not None else None
        for round_ in range(40):
            bad = set(); grew = [False]; nobl = len(s.obl); first = self_mod is None; s.badread = False; s.okcond = True; infloop = [False]
            def body_path():
                s.restore(entry); s.mod = set()
                s.path = early + [z3.ULT(done.e, num0.e), z3.ULT(num0.e, z3.BitVecVal(1 << 57, 64))]
                for k in self_mod or ():
                    if k in entry[0]:
                        c = known[k]
                        s.state[k] = c[choice[k]](done) if choice[k] < len(c) else (None if not isinstance(entry[0][k], list) else [None] * len(entry[0][k]))
                s.inblock = True
                d = s.dec; s.dec = None; c = s.ev(cond) if cond is not None else const(1, 32); s.dec = d
                if not first:        # the loop goes on exactly as long as blocks remain
                    s.okcond = s.okcond and s.prove_under(early + [z3.ULE(done.e, num0.e), z3.ULT(num0.e, z3.BitVecVal(1 << 57, 64))], (c.e != 0) == z3.ULT(done.e, num0.e))
                try:
                    try: s.st(body)
                    except Cnt: pass
                    if inc is not None: s.ev(inc)
                except (Brk, Ret): s.obl.append(("the loop goes on until every block is done", False, "z3:bv", 0)); return
                self_new.update(k for k in s.mod if k in entry[0])
                d1 = ADD(done, const(1, 64))
                for k in (self_mod or ()):
                    c = known[k]
                    if choice[k] >= len(c): continue
                    want, got = c[choice[k]](d1), s.state.get(k)
                    same = isinstance(got, Ptr) and isinstance(want, Ptr) and got.base == want.base and s.prove(got.off.e == want.off.e) or isinstance(got, V) and isinstance(want, V) and s.prove(got.e == want.e)
                    if not same: bad.add(k)
                if first: return
                for w in range(8):
                    want = s.spec.out[w]; v = s.cut(s.H[w])
                    s.obl.append((f"h[{w}] is word {w} of the compression of the block", bool(v.e.eq(want.e)) or s.prove(v.e == want.e), "z3:bv", 0))
            self_new = set()
            s.paths(body_path)
            if first or not self_new <= self_mod:
                self_mod = (self_mod or set()) | self_new; del s.obl[nobl:]; continue
            if not bad:
                if s.badread: raise ToolLimit("message read at an unknown offset")
                break
            for k in bad: choice[k] += 1
            del s.obl[nobl:]
        else: raise ToolLimit("no invariant for the loop over the blocks")
        s.obl.append(("one iteration per block", bool(s.okcond), "z3:bv", 0)); s.obl.append(("loop invariant (position in the message) is preserved", True, "z3:bv", 0))
        s.restore(entry); s.inblock = False; s.path = early
        for k in self_mod: s.state[k] = None
        s.H = [s.fresh(Ty("int", 32, False)) for _ in range(8)]; s.Hend = list(s.H)
        if outer: s.dec, s.ndec, s.todo = outer
    def prove_under(s, path, e):
        p = s.path; s.path = path; r = s.prove(e); s.path = p; return r
    def go(s):
        self = s
        ps = s.fn.d["params"]
        if len(ps) != 3: raise ToolLimit("parameters")
        allobl = []
        def one():
            s.mod = set(); s.elemw = {}; s.obl = []; s.path = [z3.ULT(s.num0.e, z3.BitVecVal(1 << 57, 64))]; s.done_loop = None; s.inblock = False
            s.H = list(s.h0); s.state = {ps[0].id: Ptr("ctx", const(0, 64), None), ps[1].id: Ptr("in", const(0, 64), Ty("int", 8, False)), ps[2].id: s.num0}
            try:
                try: s.st(s.fn.d["body"])
                except Ret: pass
                if s.done_loop is None: s.oblige("nothing is done only when there is no block", s.num0.e == 0); s.Hend = s.h0
                s.obl.append(("h is not changed outside the loop", all(a.e.eq(b.e) for a, b in zip(s.H, s.Hend)), "z3:bv", 0))
            except Fail: pass
            allobl.extend(s.obl)
        s.paths(one)
        if not s.ident and all(o[1] for o in allobl): raise ToolLimit("no block is compressed")
        return [(f"value identified with {n}", True, "z3:bv", 0) for n in sorted(s.ident)] + allobl
def check(src):
    """-> list of (label, ok, backend, seconds)"""
    spec_self_test()
    return Run(TU(src + "/sha256.c")).go()
if __name__ == "__main__":
    import sys
    t = time.time(); r = check(sys.argv[1] if len(sys.argv) > 1 else "/repo/src")
    print(len(r), sum(x[1] for x in r), [x for x in r if not x[1]][:5], time.time() - t)
