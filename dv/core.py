"""Symbolic executor and verification-condition generator for the C subset used in /repo/src."""
import z3, os, re, time
from .cast import *

def I(k): return z3.IntVal(k)
TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
def isc(t): return z3.is_int_value(t)
def cv(t): return t.as_long()
def add(a, b):
    if isc(a) and isc(b): return I(cv(a) + cv(b))
    if isc(a) and cv(a) == 0: return b
    if isc(b) and cv(b) == 0: return a
    if isc(b) and z3.is_add(a) and a.num_args() == 2 and isc(a.arg(1)):
        return add(a.arg(0), I(cv(a.arg(1)) + cv(b)))
    return a + b
def sub(a, b):
    if isc(b): return add(a, I(-cv(b)))
    if a.eq(b): return I(0)
    if z3.is_add(a) and a.num_args() == 2:
        if a.arg(0).eq(b): return a.arg(1)
        if a.arg(1).eq(b): return a.arg(0)
    return a - b
def mul(a, b):
    if isc(a) and isc(b): return I(cv(a) * cv(b))
    if isc(b): a, b = b, a
    if isc(a):
        if cv(a) == 0: return I(0)
        if cv(a) == 1: return b
    return a * b
def neg(a): return I(-cv(a)) if isc(a) else -a
def land(*xs):
    ys = []
    for x in xs:
        if z3.is_false(x): return FALSE
        if not z3.is_true(x): ys.append(x)
    return TRUE if not ys else ys[0] if len(ys) == 1 else z3.And(*ys)
def lor(*xs):
    ys = []
    for x in xs:
        if z3.is_true(x): return TRUE
        if not z3.is_false(x): ys.append(x)
    return FALSE if not ys else ys[0] if len(ys) == 1 else z3.Or(*ys)
def lnot(x):
    if z3.is_true(x): return FALSE
    if z3.is_false(x): return TRUE
    if z3.is_not(x): return x.arg(0)
    return z3.Not(x)
def cmpc(op, a, b):
    if isc(a) and isc(b):
        a, b = cv(a), cv(b)
        return z3.BoolVal({"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
    if a.eq(b): return z3.BoolVal(op in ("<=", ">=", "=="))
    return {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b, "==": lambda: a == b, "!=": lambda: a != b}[op]()

ARR = z3.ArraySort(z3.IntSort(), z3.IntSort())
RARR = z3.ArraySort(z3.IntSort(), z3.RealSort())
# field product, kept opaque in shadow terms (a commutative bilinear operation; see lib.py)
MUL = z3.Function("fmul", z3.IntSort(), z3.IntSort(), z3.IntSort())
def fmul(a, b):
    """product of two field elements in a shadow term"""
    if isc(a) and isc(b): return I(cv(a) * cv(b))
    for x, y in ((a, b), (b, a)):
        if isc(x):
            if cv(x) == 0: return I(0)
            if cv(x) == 1: return y
            if cv(x) == -1: return neg(y)
    if is_neg(a): return neg(fmul(unneg(a), b))
    if is_neg(b): return neg(fmul(a, unneg(b)))
    return MUL(a, b)
_ma, _mb = z3.Ints('fa! fb!')
MUL_COMM = z3.ForAll([_ma, _mb], MUL(_ma, _mb) == MUL(_mb, _ma), patterns=[MUL(_ma, _mb)])
def is_neg(a): return z3.is_app_of(a, z3.Z3_OP_UMINUS) or (z3.is_mul(a) and isc(a.arg(0)) and cv(a.arg(0)) == -1)
def unneg(a): return a.arg(0) if z3.is_app_of(a, z3.Z3_OP_UMINUS) else a.arg(1)

class V:
    """scalar value. t: Int/Real term; b: Bool term when it is a truth value; sh: shadow (exact, congruent mod p)"""
    __slots__ = ("_t", "ty", "b", "sh")
    def __init__(s, t, ty, b=None, sh=None): s._t, s.ty, s.b, s.sh = t, ty, b, sh
    @property
    def t(s):
        if s._t is None:
            s._t = I(1) if z3.is_true(s.b) else I(0) if z3.is_false(s.b) else z3.If(s.b, I(1), I(0))
        return s._t
    def truth(s):
        if s.b is not None: return s.b
        if s.ty.kind in ("double", "float"): return s.t != z3.RealVal(0)
        return cmpc("!=", s.t, I(0))
    def shadow(s): return s.sh if s.sh is not None else s.t
    def __repr__(s): return f"V({s.t}:{s.ty})"
def boolv(b, ty=INT): return V(None, ty, b=b)

class P:
    """pointer value"""
    __slots__ = ("obj", "off", "null", "gen", "ety", "fld")
    def __init__(s, obj, off=None, null=FALSE, gen=None, ety=None, fld=None):
        s.obj, s.off, s.null, s.gen, s.ety, s.fld = obj, (I(0) if off is None else off), null, gen, ety, fld
    def __repr__(s): return f"P({s.obj},{s.off},null={s.null})"
NULLP = lambda: P(None, null=TRUE)
class Str:
    __slots__ = ("s",)
    def __init__(s, t): s.s = t
class Opaque:
    __slots__ = ("what",)
    def __init__(s, w): s.what = w
class Loc:
    """variable or field whose storage is a heap object"""
    __slots__ = ("obj",)
    def __init__(s, o): s.obj = o
class FnV:
    def __init__(s, n): s.name = n

class Arr:
    # word: declared element type of an array that is modelled as bytes (it is also accessed through u8 pointers); None otherwise
    __slots__ = ("ety", "arr", "sh", "blen", "n", "gen", "freed", "name", "shrunk", "fresh", "word")
    def __init__(s, **k):
        s.shrunk = False; s.word = None; s.freed = False; s.sh = None; s.fresh = False; s.gen = I(0)
        for a, b in k.items(): setattr(s, a, b)
    def copy(s, **k):
        r = Arr.__new__(Arr)
        for a in Arr.__slots__: setattr(r, a, getattr(s, a))
        for a, b in k.items(): setattr(r, a, b)
        return r
class Struct:
    __slots__ = ("ty", "f", "freed", "name", "fresh", "blen")
    def __init__(s, **k):
        s.freed = False; s.fresh = False; s.blen = None
        for a, b in k.items(): setattr(s, a, b)
    def copy(s, **k):
        r = Struct.__new__(Struct)
        for a in Struct.__slots__: setattr(r, a, getattr(s, a))
        r.f = dict(s.f)
        for a, b in k.items(): setattr(r, a, b)
        return r
class Raw:
    """malloc'ed block that has no type yet"""
    def __init__(s, blen, name, zero): s.blen, s.name, s.zero, s.freed, s.fresh = blen, name, zero, False, True

class State:
    def __init__(s): s.env, s.objs, s.facts, s.ghost, s.names, s.trace = {}, {}, [], {}, [{}], []
    def clone(s):
        r = State(); r.env = dict(s.env); r.objs = dict(s.objs); r.facts = list(s.facts); r.ghost = dict(s.ghost)
        r.names = [dict(x) for x in s.names]; r.trace = list(s.trace)
        return r
    def assume(s, *fs):
        for f in fs:
            if not z3.is_true(f): s.facts.append(f)

class Obl:
    __slots__ = ("fn", "kind", "name", "line", "facts", "goal", "base", "focus")
    def __init__(s, fn, kind, name, line, facts, goal, base=None): s.fn, s.kind, s.name, s.line, s.facts, s.goal, s.base, s.focus = fn, kind, name, line, facts, goal, base, None
    def label(s): return f"{s.fn}:{s.line}:{s.kind}:{s.name}"

class Loop:
    """annotation of one loop. Every callable receives views; see DESIGN.md"""
    def __init__(s, inv=None, ghost=None, ghost_init=None, ghost_end=None, head=None, end=None, exit=None, unroll=None, pre=None, variant=None, cut=None, cut_exit=None, forget=False, cut_pre=None):
        s.cut_pre = cut_pre
        s.forget = forget      # quantified facts established between the function entry and this loop are dropped: its invariant stands alone
        s.cut, s.cut_exit = cut, cut_exit      # intermediate assertions: proved (an obligation each), then available
        s.inv, s.ghost, s.ghost_init, s.ghost_end, s.head, s.end, s.exit, s.unroll, s.pre, s.variant = inv, ghost or {}, ghost_init, ghost_end, head, end, exit, unroll, pre, variant

class Contract:
    """specification of one function; subclass attributes/methods override the defaults"""
    name = None              # key of the contract; "function [variant]" when there are several for one function
    file = None
    params = None            # parameter names used by the contract (positional)
    shapes = {}              # path -> 'null' | 'nullable' | 'nonnull' | ('elem', typename)
    assigns = ()             # paths that may change ('x', 'A.n', 'A.*' ...)
    loops = {}
    inline = ()              # functions inlined although they have a contract
    lossy_ok = ()            # narrowing conversions tolerated (none by default)
    after = {}               # callee -> facts(view, call) made available after a call of it (definitional unfoldings and lemma instances)
    spec = {}                # name -> sort: universally quantified parameters of the specification (a caller picks them: spec_<callee>)
    ghost_out = {}           # name -> sort: existential ghosts of the postcondition
    merge = False            # one path after a conditional that changes local scalars only
    pure_exit = False        # may end the process through err()/errx()
    @property
    def fname(s): return s.name.split(" ")[0]
    def pre(s, v): return []
    def post(s, o, n, r): return []
    def facts_entry(s, v): return []
    def facts_exit(s, o, v, r): return []
    def cuts(s, o, v, r): return []         # intermediate assertions before the postcondition: proved, then available
    def witness(s, v): return {}
    def result(s, ex, st, o): return None   # call mode: build the result value

def contract_key(c): return c.name

class Program:
    def __init__(s, srcdir):
        s.srcdir = srcdir; s.tus = {}
        s.where = {}
    def tu(s, f):
        if f not in s.tus: s.tus[f] = TU(os.path.join(s.srcdir, f))
        return s.tus[f]
    def index(s):
        """function name -> file defining it (non-static, or static in a single file)"""
        if s.where: return
        for f in sorted(os.listdir(s.srcdir)):
            if not f.endswith(".c"): continue
            txt = open(os.path.join(s.srcdir, f), errors="replace").read()
            for m in re.finditer(r"^[A-Za-z_][\w \t\*]*?\b(\w+)\s*\([^;{}]*\)\s*\{", txt, re.M):
                s.where.setdefault(m.group(1), []).append(f)
    def find(s, name, tu=None):
        """-> (tu, node) for a function with a body, preferring the calling unit"""
        if tu is not None and name in tu.funcs and tu.funcs[name].d.get("body") is not None: return tu, tu.funcs[name]
        s.index()
        for f in s.where.get(name, []):
            t = s.tu(f)
            if name in t.funcs and t.funcs[name].d.get("body") is not None and t.funcs[name].get("storageClass") != "static": return t, t.funcs[name]
        return None

class PathEnd(Exception): pass
class CallRec:
    """a call summarised by its contract: the ghosts of the postcondition, the states before and after"""
    def __init__(s, name, ghosts, o, n, r): s.name, s.ghosts, s.o, s.n, s.r, s.post = name, ghosts, o, n, r, {}
    def g(s, k): return s.ghosts[k]

NULLABLE = {("spasm_csr", "x"), ("spasm_triplet", "x"), ("spasm_lu", "L"), ("spasm_lu", "Ltmp"), ("spasm_lu", "p")}
# arrays of 32-bit words that the code also reads and writes as bytes (little-endian machine, as the AST's target)
BYTES = {("spasm_sha256_ctx", "data"), ("spasm_prng_ctx", "block"), ("spasm_prng_ctx", "hash")}
NORETURN = {"err", "errx", "exit", "abort", "_exit", "verr"}
NOEFFECT = {"fprintf", "fflush", "printf", "snprintf_", "gettimeofday", "fputc", "fputs", "warnx", "puts", "putchar"}

class Exec:
    def __init__(s, prog, contracts, con, loops_override=None):
        s.prog, s.contracts, s.con = prog, contracts, con
        s.obls = []; s.cnt = 0; s.rec = None; s.quiet = 0
        s.tu = prog.tu(con.file) if con.file else prog.find(con.fname)[0]
        s.depth = 0; s.fn = con.name
        s.modcache = {}; s.line = 0
        s.qcache = {}
        s.divcache = {}
        s.bytecache = {}; s.asbytes = set()
        s.loopkeys = {}
        s.callpath = ()
        s.entry = None
        s.used_contracts = set(); s.inlined = set(); s.lemmas = set(); s.externals = set()
        s.called = set(); s.loops_seen = set(); s.stats = {"paths": 0, "pruned": 0}
        s.frames = []
        s.lemma_used = set()
        s.autoinv = 0
        s.deadline = None
    # ---------------------------------------------------------------- misc
    def fresh(s, name, sort=None):
        s.cnt += 1
        name = name.replace("'", "_S")     # the quote is not a legal SMT-LIB symbol character and z3's printer does not escape it
        return z3.Const(f"{name}!{s.cnt}", z3.IntSort() if sort is None else sort)
    def oid(s, name):
        s.cnt += 1
        return f"{name}#{s.cnt}"
    def oblige(s, st, kind, name, goal, line=None, base=None):
        """base: the facts from that index on are conclusions proved just before (siblings), tried without them first"""
        if isinstance(goal, bool): goal = z3.BoolVal(goal)
        if s.quiet: 
            st.assume(goal); return
        if not z3.is_true(goal):
            if kind in ("bounds", "overflow", "narrowing", "null", "stale", "conv", "div"):
                # cheap obligations: try at once, quantifier-free part only, then queue
                pass
            s.obls.append(Obl(s.fn, kind, name, line or s.line, list(st.facts), goal, base))
        else:
            s.obls.append(Obl(s.fn, kind, name, line or s.line, None, TRUE))
        st.assume(goal)
    def cutlist(s, st, items, prefix, line):
        """intermediate assertions (an obligation each, then available). A name starting with + marks a definitional fact or a lemma
           instance: it is available to the assertions that follow it in the list and dropped at the end of the list"""
        local = set(); known = {}
        for it in list(items):
            if isinstance(it, tuple) and len(it) == 3: nme, f, hints = it
            else: (nme, f), hints = named([it], "cut")[0], None
            if isinstance(f, bool): f = z3.BoolVal(f)
            known.setdefault(nme.lstrip("+"), []).append(f)
            if nme.startswith("+"):
                n = len(st.facts); st.assume(f)
                if len(st.facts) > n: local.add(id(st.facts[-1]))
            else:
                n = len(s.obls); s.oblige(st, "cut", prefix + nme, f, line)
                if hints is not None and len(s.obls) > n and s.obls[-1].facts is not None:
                    # a selection of the facts (quantifier-free ones, the named items, the given formulas) that is tried first
                    o = s.obls[-1]; have = flatids(o.facts); foc = [x for x in o.facts if s.qf(x)]
                    for h in hints:
                        for x in (known.get(h, []) if isinstance(h, str) else [h]):
                            if all(y.get_id() in have for y in conj(x)): foc.append(x)
                            elif os.environ.get("DV_DEBUG"): print("hint is no fact:", nme, h if isinstance(h, str) else str(h)[:300])
                    o.focus = foc
        if local: st.facts[:] = [f for f in st.facts if id(f) not in local]
    def qf(s, f):
        k = f.get_id()
        r = s.qcache.get(k)
        if r is None:
            r = not has_quant(f); s.qcache[k] = (r, f)
            return r
        return r[0]
    def provable(s, st, goal, ms=150):
        if z3.is_true(goal): return True
        if z3.is_false(goal): goal = FALSE
        sol = z3.SolverFor("ALL") if False else z3.Solver()
        sol.set("timeout", ms)
        for f in st.facts:
            if s.qf(f): sol.add(f)
        sol.add(lnot(goal))
        return sol.check() == z3.unsat
    def feasible(s, st, cond):
        if z3.is_true(cond): return True
        if z3.is_false(cond): return False
        return not s.provable(st, lnot(cond), 200)
    def nameite(s, st, g, t):
        if z3.is_store(t): return z3.Store(s.nameite(st, g, t.arg(0)), t.arg(1), s.nameite(st, g, t.arg(2)))
        if not z3.is_app_of(t, z3.Z3_OP_ITE): return t
        c = z3.simplify(t.arg(0))
        if z3.is_true(c): return s.nameite(st, g, t.arg(1))
        if z3.is_false(c): return s.nameite(st, g, t.arg(2))
        c = s.fresh("ghost." + g, t.sort())
        st.assume(z3.Implies(t.arg(0), c == t.arg(1)), z3.Implies(lnot(t.arg(0)), c == t.arg(2)))
        return c
    def rng(s, t, ty):
        lo, hi = ty.range()
        return land(cmpc(">=", t, I(lo)), cmpc("<=", t, I(hi)))
    # ---------------------------------------------------------------- objects
    def new_arr(s, st, name, ety, n=None, blen=None, zero=False, arr=None, fresh=False):
        tu = s.tu
        sz = tu.sizeof(ety)
        if n is None:
            n = s.elcount(st, blen, sz)
        if blen is None: blen = mul(I(sz), n)
        srt = RARR if ety.kind in ("double", "float") else ARR
        if arr is None:
            if zero: arr = z3.K(z3.IntSort(), z3.RealVal(0) if srt is RARR else I(0))
            else: arr = s.fresh(name, srt)
        o = s.oid(name)
        st.objs[o] = Arr(ety=ety, arr=arr, sh=arr if ety.zzp else None, blen=blen, n=n, gen=I(0), name=name, fresh=fresh)
        return o
    def new_bytes(s, st, name, ety, n):
        w = s.tu.sizeof(ety); o = s.new_arr(st, name, U8, n=I(w * n)); st.objs[o].word = ety
        return o
    def wbytes(s, st, t):
        """the four bytes of a 32-bit value, least significant first"""
        c = s.bytecache.get(t.get_id())
        if c is None:
            if isc(t): bs = [I((cv(t) >> (8 * k)) & 255) for k in range(4)]
            else: bs = [s.fresh("byte") for k in range(4)]
            c = s.bytecache[t.get_id()] = (t, bs)
        for b in c[1]:
            if not isc(b): st.assume(land(b >= 0, b <= 255))
        if not isc(t): st.assume(s.wcompose(c[1]) == t)
        return c[1]
    def wcompose(s, bs):
        if all(isc(b) for b in bs): return I(sum(cv(b) << (8 * k) for k, b in enumerate(bs)))
        return z3.Sum(*[mul(I(1 << (8 * k)), b) for k, b in enumerate(bs)])
    def wvalue(s, st, bs):
        t = s.wcompose(bs); s.bytecache[t.get_id()] = (t, list(bs)); return t
    def elcount(s, st, blen, sz):
        if sz == 1: return blen
        if isc(blen): return I(cv(blen) // sz)
        if z3.is_mul(blen) and blen.num_args() == 2 and isc(blen.arg(0)) and cv(blen.arg(0)) == sz: return blen.arg(1)
        sb = z3.simplify(blen)
        if z3.is_mul(sb) and sb.num_args() == 2 and isc(sb.arg(0)) and cv(sb.arg(0)) % sz == 0: return mul(I(cv(sb.arg(0)) // sz), sb.arg(1))
        if z3.is_add(sb):
            parts = []
            ok = True
            for a in sb.children():
                if isc(a) and cv(a) % sz == 0: parts.append(I(cv(a) // sz))
                elif z3.is_mul(a) and a.num_args() == 2 and isc(a.arg(0)) and cv(a.arg(0)) % sz == 0: parts.append(mul(I(cv(a.arg(0)) // sz), a.arg(1)))
                else: ok = False
            if ok: return z3.simplify(z3.Sum(*parts))
        n = s.fresh("nelem")
        st.assume(n * sz <= blen, blen < (n + 1) * sz)
        return n
    def new_struct(s, st, name, ty, shapes=None, path="", depth=0, fresh=False, init=True):
        """struct object with symbolic contents (init) or uninitialised fields"""
        o = s.oid(name)
        st.objs[o] = Struct(ty=ty, f={}, name=name, fresh=fresh)
        for fname, q in s.tu.structs.get(ty.name, []):
            ft = s.tu.ty(q)
            v = s.symbolic(st, f"{name}.{fname}" if init else f"{name}.{fname}", ft, shapes or {}, f"{path}.{fname}" if path else fname, depth + 1, owner=(ty.name, fname), init=init)
            ob = st.objs[o].copy(); ob.f[fname] = v; st.objs[o] = ob
        return o
    def symbolic(s, st, name, ty, shapes, path, depth=0, owner=None, init=True):
        if ty.isint():
            if isinstance(shapes.get(path), int): return V(I(shapes[path]), ty)
            t = s.fresh(name)
            st.assume(s.rng(t, ty))
            return V(t, ty)
        if ty.kind in ("double", "float"): return V(s.fresh(name, z3.RealSort()), ty)
        if ty.kind == "arr":
            if ty.elem.kind == "struct":
                if ty.n != 1: raise ToolLimit("array of structs")
                return Loc(s.new_struct(st, name, ty.elem, shapes, path, depth, init=init))
            if owner in BYTES: return Loc(s.new_bytes(st, name, ty.elem, ty.n))
            return Loc(s.new_arr(st, name, ty.elem, n=I(ty.n)))
        if ty.kind == "struct":
            return Loc(s.new_struct(st, name, ty, shapes, path, depth, init=init))
        if ty.kind == "ptr":
            if not init: return P(None, null=s.fresh(name + ".undef", z3.BoolSort()))
            sp = shapes.get(path)
            kinds = sp if isinstance(sp, tuple) else (sp,)
            if "null" in kinds: return NULLP()
            nl = FALSE
            if "nullable" in kinds or (owner in NULLABLE and "nonnull" not in kinds): nl = s.fresh(name + ".isnull", z3.BoolSort())
            et = ty.elem
            for k in kinds:
                if isinstance(k, str) and k.startswith("elem:"): et = s.tu.ty(k[5:])
            if et.kind == "struct":
                if et.name == "_IO_FILE" or et.name not in s.tu.structs: return Opaque("FILE")
                if depth > 4: raise ToolLimit("deep shape")
                return P(s.new_struct(st, name, et, shapes, path, depth), null=nl, ety=et)
            if et.kind in ("int", "bool", "double", "float"):
                n = s.fresh(f"len({name})"); st.assume(n >= 0)
                o = s.new_arr(st, name, et, n=n)
                return P(o, null=nl, gen=I(0), ety=et)
            if et.kind in ("void", "func", "ptr"): return Opaque(name)
        raise ToolLimit(f"symbolic {ty!r}")
    # ---------------------------------------------------------------- memory access
    def note(s, what):
        if s.rec is not None: s.rec.add(what)
    def check_ptr(s, st, p, what):
        if not isinstance(p, P): raise ToolLimit(f"pointer expected for {what}, got {p!r}")
        if p.obj is None or z3.is_true(p.null):
            s.oblige(st, "null", f"{what} not null", FALSE); raise PathEnd()
        if not z3.is_false(p.null): s.oblige(st, "null", f"{what} not null", lnot(p.null))
        ob = st.objs[p.obj]
        if ob.freed:
            s.oblige(st, "freed", f"{what} not freed", FALSE); raise PathEnd()
        if isinstance(ob, Arr) and p.gen is not None and not (p.gen.eq(ob.gen)):
            s.oblige(st, "stale", f"{what} still valid (not reallocated)", p.gen == ob.gen)
        return ob
    def load_elem(s, st, p, idx, what):
        ob = s.check_ptr(st, p, what)
        if not isinstance(ob, Arr): raise ToolLimit(f"load from {ob}")
        i = add(p.off, idx)
        if ob.word is not None and p.ety is not None and p.ety.bits != 8:
            s.oblige(st, "bounds", f"{what}[{short(i)}]", land(cmpc("<=", I(0), i), cmpc("<", mul(I(4), i), ob.n)))
            bs = [sel(ob.arr, add(mul(I(4), i), I(k))) for k in range(4)]
            for b in bs:
                if not isc(b): st.assume(land(b >= 0, b <= 255))
            return V(s.wvalue(st, bs), ob.word)
        s.oblige(st, "bounds", f"{what}[{short(i)}]", land(cmpc("<=", I(0), i), cmpc("<", i, ob.n)))
        t = sel(ob.arr, i)
        if ob.ety.isint():
            f = s.rng(t, ob.ety)
            if not isc(t): st.assume(f)
        return V(t, ob.ety, sh=sel(ob.sh, i) if ob.ety.zzp else None)
    def store_elem(s, st, p, idx, v, what):
        ob = s.check_ptr(st, p, what)
        if not isinstance(ob, Arr): raise ToolLimit(f"store to {ob}")
        i = add(p.off, idx)
        if ob.word is not None and p.ety is not None and p.ety.bits != 8:
            s.oblige(st, "bounds", f"{what}[{short(i)}] (store)", land(cmpc("<=", I(0), i), cmpc("<", mul(I(4), i), ob.n)))
            a = ob.arr
            for k, b in enumerate(s.wbytes(st, v.t)): a = z3.Store(a, add(mul(I(4), i), I(k)), b)
            st.objs[p.obj] = ob.copy(arr=a); s.note(("obj", p.obj, "arr")); return
        s.oblige(st, "bounds", f"{what}[{short(i)}] (store)", land(cmpc("<=", I(0), i), cmpc("<", i, ob.n)))
        ob2 = ob.copy(arr=z3.Store(ob.arr, i, v.t))
        if ob.ety.zzp: ob2.sh = z3.Store(ob.sh, i, v.shadow())
        st.objs[p.obj] = ob2
        s.note(("obj", p.obj, "arr"))
    # ---------------------------------------------------------------- lvalues
    def lv(s, e, st):
        """-> list of (st, lvalue)"""
        k = e.kind
        if k == "ParenExpr": return s.lv(e.kids[0], st)
        if k == "DeclRefExpr":
            key = e["ref"]
            v = st.env.get(key)
            if isinstance(v, Loc):
                ob = st.objs[v.obj]
                if isinstance(ob, Arr) and s.is_boxed(key): return [(st, ("elem", P(v.obj, ety=ob.ety), I(0), e["refname"]))]
                return [(st, ("loc", v.obj))]
            return [(st, ("var", key, e["refname"]))]
        if k == "ArraySubscriptExpr":
            out = []
            for st1, b in s.ev(e.kids[0], st):
                for st2, i in s.ev(e.kids[1], st1):
                    if isinstance(i, P): b, i = i, b
                    out.append((st2, ("elem", b, i.t, nm(e.kids[0]))))
            return out
        if k == "UnaryOperator" and e["opcode"] == "*":
            out = []
            for st1, b in s.ev(e.kids[0], st):
                if isinstance(b, P) and b.fld is not None: out.append((st1, ("field", b.obj, b.fld)))
                elif isinstance(b, P) and b.obj is not None and isinstance(st1.objs.get(b.obj), Struct): out.append((st1, ("loc", b.obj)))
                else: out.append((st1, ("elem", b, I(0), nm(e.kids[0]))))
            return out
        if k == "MemberExpr":
            out = []
            if e.get("isArrow"):
                for st1, b in s.ev(e.kids[0], st):
                    try: ob = s.check_ptr(st1, b, nm(e.kids[0]))
                    except PathEnd: continue
                    if not isinstance(ob, Struct): raise ToolLimit("-> on non-struct")
                    out.append((st1, ("field", b.obj, e["name"])))
            else:
                for st1, l in s.lv(e.kids[0], st):
                    if l[0] == "loc": out.append((st1, ("field", l[1], e["name"])))
                    elif l[0] == "field":
                        v = st1.objs[l[1]].f[l[2]]
                        if not isinstance(v, Loc): raise ToolLimit("member of non-struct")
                        out.append((st1, ("field", v.obj, e["name"])))
                    elif l[0] == "elem":
                        ob = s.check_ptr(st1, l[1], "struct"); out.append((st1, ("field", l[1].obj, e["name"])))
                    else: raise ToolLimit("member base")
            return out
        if k in ("ImplicitCastExpr", "CStyleCastExpr") and e.get("castKind") in ("NoOp", "LValueBitCast"): return s.lv(e.kids[0], st)
        raise ToolLimit(f"lvalue {k}")
    def is_boxed(s, key): return key in s.boxed
    def load(s, st, l):
        if l[0] == "var":
            if l[1] not in st.env:
                # enum constant or global
                if l[1] in s.tu.enums: return V(I(s.tu.enums[l[1]]), INT)
                if l[2] in ("stderr", "stdout", "stdin"): return Opaque(l[2])
                g = s.tu.globals_.get(l[1])
                if g is not None: return s.load_global(st, l[1], g)
                raise ToolLimit("unknown variable " + str(l[2]))
            v = st.env[l[1]]
            if v is None: raise ToolLimit("read of uninitialised " + str(l[2]))
            if isinstance(v, V) and v.ty.isint() and not isc(v.t) and v.b is None: pass
            return v
        if l[0] == "elem":
            if isinstance(l[1], Str): raise ToolLimit("string element")
            return s.load_elem(st, l[1], l[2], l[3])
        if l[0] == "field":
            v = st.objs[l[1]].f[l[2]]
            if v is None: raise ToolLimit(f"read of uninitialised field {l[2]}")
            return v
        if l[0] == "loc": return Loc(l[1])
        raise ToolLimit("load")
    def load_global(s, st, key, g):
        t = s.tu.ty(g["qt"])
        if t.kind == "arr" and g.kids and g.kids[-1].kind == "InitListExpr":
            arr = z3.K(z3.IntSort(), I(0))
            for i, c in enumerate(g.kids[-1].kids): arr = z3.Store(arr, I(i), const_eval(c))
            o = s.new_arr(st, g["name"], t.elem, n=I(t.n), arr=arr)
            st.env[key] = Loc(o); return st.env[key]
        raise ToolLimit("global " + str(g.get("name")))
    def store(s, st, l, v):
        s.notnan(st, v, "stored quotient")
        if l[0] == "var":
            st.env[l[1]] = v; s.note(("var", l[1])); return
        if l[0] == "elem":
            s.store_elem(st, l[1], l[2], v, l[3]); return
        if l[0] == "field":
            ob = st.objs[l[1]].copy(); ob.f[l[2]] = v; st.objs[l[1]] = ob
            s.note(("fld", l[1], l[2])); return
        if l[0] == "loc" and isinstance(v, Loc):   # struct copy
            src, dst = st.objs[v.obj], st.objs[l[1]].copy()
            for k, x in src.f.items():
                if isinstance(x, Loc):
                    a = st.objs[x.obj]; d = dst.f[k].obj; st.objs[d] = a.copy() ; s.note(("obj", d, "arr"))
                else: dst.f[k] = x
                s.note(("fld", l[1], k))
            st.objs[l[1]] = dst; return
        raise ToolLimit("store")
    # ---------------------------------------------------------------- conversions
    def to_int(s, st, v, ty, what, explicit=False):
        """integer conversion"""
        if ty.kind == "bool": return boolv(v.truth(), ty)
        if v.b is not None: return V(v._t, ty, b=v.b)
        t = v.t
        if isc(t):
            lo, hi = ty.range()
            if lo <= cv(t) <= hi: return V(t, ty, sh=v.sh)
        if v.ty.isint():
            lo, hi = ty.range(); l2, h2 = v.ty.range()
            if lo <= l2 and h2 <= hi: return V(t, ty, sh=v.sh)
        g = s.rng(t, ty)
        if ty.signed:
            s.oblige(st, "narrowing", f"{what}: value preserved in conversion to {ty!r}", g)
            return V(t, ty, sh=v.sh)
        if s.provable(st, g): return V(t, ty, sh=v.sh)
        return V(t % I(1 << ty.bits), ty)
    def arith(s, st, op, a, b, ty, what):
        """usual arithmetic on already converted operands"""
        if ty.kind in ("double", "float"): return s.farith(st, op, a, b, ty)
        sh = None
        if op in "+-*" and (a.sh is not None or b.sh is not None):
            x, y = a.shadow(), b.shadow()
            sh = add(x, y) if op == "+" else sub(x, y) if op == "-" else fmul(x, y)
        if op == "+": r = add(a.t, b.t)
        elif op == "-": r = sub(a.t, b.t)
        elif op == "*": r = mul(a.t, b.t)
        elif op in ("/", "%"):
            s.oblige(st, "div", f"{what}: divisor nonzero", cmpc("!=", b.t, I(0)))
            if isc(a.t) and isc(b.t) and cv(b.t) != 0:
                q = abs(cv(a.t)) // abs(cv(b.t)); q = q if (cv(a.t) < 0) == (cv(b.t) < 0) else -q
                return V(I(q if op == "/" else cv(a.t) - q * cv(b.t)), ty)
            q, r0 = s.divmod_(st, a.t, b.t)
            if op == "%": return V(r0, ty)
            r = q
        elif op in ("<<", ">>", "&", "|", "^"): return s.bitop(st, op, a, b, ty, what)
        else: raise ToolLimit("operator " + op)
        if isc(r):
            lo, hi = ty.range()
            if lo <= cv(r) <= hi: return V(r, ty, sh=sh)
        if ty.signed:
            if not (op == "/" and isc(b.t) and cv(b.t) > 0):
                s.oblige(st, "overflow", f"{what}: no signed overflow", s.rng(r, ty))
            return V(r, ty, sh=sh)
        if s.provable(st, s.rng(r, ty)): return V(r, ty)
        return V(r % I(1 << ty.bits), ty)
    def divmod_(s, st, a, b):
        key = (a.get_id(), b.get_id())
        if isc(b) and cv(b) > 0:
            if s.provable(st, a >= 0): return a / b, a % b
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q, a - b * q
        c = s.divcache.get(key)
        if c is None:
            q, r = s.fresh("quo"), s.fresh("rem"); s.divcache[key] = c = (q, r, a, b)
        q, r = c[0], c[1]
        st.assume(z3.Implies(b != 0, land(a == q * b + r, z3.Implies(a >= 0, r >= 0), z3.Implies(a <= 0, r <= 0), r < absz(b), -r < absz(b), z3.Implies(land(a >= 0, b > 0), q >= 0))))
        return q, r
    def bitop(s, st, op, a, b, ty, what):
        x, y = a.t, b.t
        lo, hi = ty.range()
        if isc(x) and isc(y):
            f = {"<<": lambda p, q: p << q, ">>": lambda p, q: p >> q, "&": lambda p, q: p & q, "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[op]
            return V(I(f(cv(x), cv(y)) % (1 << ty.bits) if not ty.signed else f(cv(x), cv(y))), ty)
        if op in ("<<", ">>") and isc(y):
            c = 1 << cv(y)
            if op == "<<":
                r = mul(I(c), x)
                if ty.signed:
                    s.oblige(st, "overflow", f"{what}: shift in range", land(x >= 0, s.rng(r, ty))); return V(r, ty)
                if s.provable(st, s.rng(r, ty)): return V(r, ty)
                return V(r % I(1 << ty.bits), ty)
            if ty.signed: s.oblige(st, "overflow", f"{what}: shift of nonnegative", x >= 0)
            return V(x / I(c), ty)
        if op == "&":
            for p, q in ((x, y), (y, x)):
                if isc(q) and cv(q) >= 0 and (cv(q) & (cv(q) + 1)) == 0: return V(p % I(cv(q) + 1), ty)
        f = z3.Function(f"bit{ {'&':'and','|':'or','^':'xor','<<':'shl','>>':'shr'}[op] }{ty.bits}", z3.IntSort(), z3.IntSort(), z3.IntSort())
        r = f(x, y)
        st.assume(s.rng(r, ty))
        if op == "&": st.assume(z3.Implies(land(x >= 0, y >= 0), land(r >= 0, r <= x, r <= y)))
        return V(r, ty)
    @staticmethod
    def maybe_nan(v): return isinstance(v, V) and v._t is not None and z3.is_const(v._t) and v._t.decl().name().startswith("maybe_nan")
    def notnan(s, st, v, what):
        """a quotient whose divisor may be 0 is only good for printing"""
        if s.maybe_nan(v): s.oblige(st, "div", f"{what}: divisor nonzero", FALSE)
    def farith(s, st, op, a, b, ty):
        x, y = a.t, b.t
        if s.maybe_nan(a) or s.maybe_nan(b): return V(s.fresh("maybe_nan", z3.RealSort()), ty)
        if op == "+": e = x + y
        elif op == "-": e = x - y
        elif op == "*": e = x * y
        elif op == "/":
            if not s.provable(st, y != 0): return V(s.fresh("maybe_nan", z3.RealSort()), ty)
            e = x / y
        else: raise ToolLimit("float op " + op)
        return V(s.fround(st, e, ty), ty)
    def fround(s, st, e, ty=DOUBLE):
        """binary64 rounding to nearest: |r - e| <= 2^-53 |e|  (no subnormals/overflow in the ranges used; see DESIGN)"""
        r = s.fresh("fl", z3.RealSort())
        ex = s.fresh("ex", z3.RealSort())
        eps = z3.Q(1, 1 << (53 if ty.bits >= 64 else 24))
        st.assume(ex == e, r - ex <= eps * absr(ex), ex - r <= eps * absr(ex))
        return r
    # ---------------------------------------------------------------- expressions
    def ev1(s, e, st):
        r = s.ev(e, st)
        if len(r) != 1: raise ToolLimit("fork in a context that cannot fork")
        return r[0]
    def ety(s, e):
        if e.ty is None: e.ty = s.tu_of(e).ty(e["qt"])
        return e.ty
    def tu_of(s, e): return s.tu
    def ev(s, e, st):
        s.line = e.line
        m = getattr(s, "e_" + e.kind, None)
        if m is None: raise ToolLimit(f"expression {e.kind} at line {e.line}")
        return m(e, st)
    def e_ParenExpr(s, e, st): return s.ev(e.kids[0], st)
    def e_ConstantExpr(s, e, st): return s.ev(e.kids[0], st)
    def e_IntegerLiteral(s, e, st): return [(st, V(I(int(e["value"])), s.ety(e)))]
    def e_CharacterLiteral(s, e, st): return [(st, V(I(int(e["value"])), INT))]
    def e_FloatingLiteral(s, e, st): return [(st, V(z3.RealVal(e["value"]), s.ety(e)))]
    def e_StringLiteral(s, e, st): return [(st, Str(e.get("value", "")))]
    def e_PredefinedExpr(s, e, st): return [(st, Str("func"))]
    def e_ImplicitValueInitExpr(s, e, st): return [(st, V(I(0), s.ety(e)))]
    def e_DeclRefExpr(s, e, st):
        if e["refkind"] == "FunctionDecl": return [(st, FnV(e["refname"]))]
        if e["refkind"] == "EnumConstantDecl": return [(st, V(I(s.tu.enums[e["ref"]]), INT))]
        return [(st1, s.load(st1, l)) for st1, l in s.lv(e, st)]
    def e_MemberExpr(s, e, st): return s.loads(e, st)
    def e_ArraySubscriptExpr(s, e, st): return s.loads(e, st)
    def loads(s, e, st):
        out = []
        for st1, l in s.lv(e, st):
            try: out.append((st1, s.load(st1, l)))
            except PathEnd: pass
        return out
    def e_UnaryExprOrTypeTraitExpr(s, e, st):
        if e.get("name") != "sizeof": raise ToolLimit("trait")
        t = s.tu.ty(e["argqt"]) if "argqt" in e.d else s.ety(e.kids[0])
        while t.kind == "arr" and t.n is None: t = t.elem
        return [(st, V(I(s.tu.sizeof(t)), U64))]
    def e_CStyleCastExpr(s, e, st): return s.cast(e, st, True)
    def e_ImplicitCastExpr(s, e, st): return s.cast(e, st, False)
    def cast(s, e, st, explicit):
        ck = e["castKind"]; sube = e.kids[0]
        if ck == "LValueToRValue":
            return s.ev(sube, st)
        if ck in ("NoOp", "FunctionToPointerDecay", "BuiltinFnToFnPtr"): return s.ev(sube, st)
        if ck == "ArrayToPointerDecay":
            if sube.kind in ("StringLiteral", "PredefinedExpr"): return s.ev(sube, st)
            out = []
            for st1, l in s.lv(sube, st):
                if l[0] == "var" and l[1] not in st1.env: v = s.load(st1, l)
                else: v = Loc(l[1]) if l[0] == "loc" else s.load(st1, l)
                if isinstance(v, Loc):
                    ob = st1.objs[v.obj]
                    out.append((st1, P(v.obj, ety=(ob.word or ob.ety) if isinstance(ob, Arr) else ob.ty, gen=ob.gen if isinstance(ob, Arr) else None)))
                else: raise ToolLimit("array decay")
            return out
        if ck == "NullToPointer": return [(st1, NULLP()) for st1, _ in s.ev(sube, st)]
        if ck == "ToVoid": return [(st1, None) for st1, _ in s.ev(sube, st)]
        ty = s.ety(e)
        out = []
        for st1, v in s.ev(sube, st):
            if ck in ("IntegralCast", "IntegralToBoolean"):
                if ck == "IntegralToBoolean": out.append((st1, boolv(v.truth(), ty)))
                else: out.append((st1, s.to_int(st1, v, ty, src(sube), explicit)))
            elif ck == "PointerToBoolean":
                out.append((st1, boolv(lnot(v.null) if isinstance(v, P) else TRUE, ty)))
            elif ck == "IntegralToFloating":
                t = z3.ToReal(v.t) if not isc(v.t) else z3.RealVal(cv(v.t))
                lim = 1 << (53 if ty.kind == "double" else 24)
                l2, h2 = v.ty.range()
                if (-lim <= l2 and h2 <= lim) or s.provable(st1, land(v.t >= -lim, v.t <= lim)): out.append((st1, V(t, ty)))
                else:
                    fl = s.fround(st1, t, ty); st1.assume(z3.Implies(land(v.t >= -lim, v.t <= lim), fl == t)); out.append((st1, V(fl, ty)))
            elif ck == "FloatingToIntegral":
                s.notnan(st1, v, src(sube))
                q = s.fresh("trunc")
                r = v.t
                st1.assume(z3.Implies(r >= 0, land(q >= 0, z3.ToReal(q) <= r, r < z3.ToReal(q) + 1)), z3.Implies(r < 0, land(q <= 0, z3.ToReal(q) >= r, r > z3.ToReal(q) - 1)))
                s.oblige(st1, "conv", f"{src(sube)}: float to integer in range", s.rng(q, ty))
                out.append((st1, V(q, ty)))
            elif ck == "FloatingCast" and s.maybe_nan(v): out.append((st1, V(v.t, ty)))
            elif ck == "FloatingCast": out.append((st1, V(v.t if ty.bits >= v.ty.bits else s.fround(st1, v.t, ty), ty)))
            elif ck == "FloatingToBoolean":
                s.notnan(st1, v, src(sube)); out.append((st1, boolv(v.truth(), ty)))
            elif ck == "BitCast":
                if isinstance(v, P) and ty.kind == "ptr": out.append((st1, s.retype(st1, v, ty.elem)))
                else: out.append((st1, v))
            else: raise ToolLimit("cast " + ck)
        return out
    def retype(s, st, p, ety):
        if p.obj is None: return p
        ob = st.objs[p.obj]
        if isinstance(ob, Raw) and ety.kind != "void":
            if ety.kind == "struct":
                sz = s.tu.sizeof(ety)
                s.oblige(st, "bounds", f"allocation holds a struct {ety.name}", ob.blen >= sz)
                so = s.new_struct(st, ob.name, ety, init=False, fresh=True)
                st.objs[p.obj] = st.objs.pop(so)
                return P(p.obj, p.off, p.null, ety=ety)
            z = ob.zero
            tmp = s.new_arr(st, ob.name, ety, blen=ob.blen, zero=z, fresh=True)
            a = st.objs.pop(tmp); st.objs[p.obj] = a
            return P(p.obj, p.off, p.null, gen=a.gen, ety=ety)
        if isinstance(ob, Arr) and ob.word is not None and ety.kind != "void":
            if ety.kind != "int" or ety.bits not in (8, 32): raise ToolLimit(f"reinterpreting bytes as {ety!r}")
            frm = 8 if p.ety is not None and p.ety.bits == 8 else 32
            if frm == ety.bits: return P(p.obj, p.off, p.null, gen=p.gen, ety=ety)
            if ety.bits == 8: return P(p.obj, mul(I(4), p.off), p.null, gen=p.gen, ety=ety)
            if not isc(p.off) or cv(p.off) % 4: raise ToolLimit("bytes to words at a variable offset")
            return P(p.obj, I(cv(p.off) // 4), p.null, gen=p.gen, ety=ety)
        if isinstance(ob, Arr) and ety.kind != "void":
            if ob.ety.kind != ety.kind or ob.ety.bits != ety.bits:
                if ob.ety.kind in ("int", "bool") and ety.kind == "int" and ety.bits == 8: return P(p.obj, p.off, p.null, gen=p.gen, ety=ety, fld=("bytes",))
                raise ToolLimit(f"reinterpreting {ob.ety!r} as {ety!r}")
            if ety.zzp and not ob.ety.zzp: raise ToolLimit("reinterpreting as field elements")
        return P(p.obj, p.off, p.null, gen=p.gen, ety=(p.ety if ety.kind == "void" else ety) if not isinstance(ob, Struct) else p.ety)
    def e_UnaryOperator(s, e, st):
        op = e["opcode"]; k = e.kids[0]
        if op == "*": return s.loads(e, st)
        if op == "&":
            out = []
            for st1, l in s.lv(k, st):
                if l[0] == "elem":
                    p = l[1]; out.append((st1, P(p.obj, add(p.off, l[2]), p.null, p.gen, p.ety)))
                elif l[0] == "loc": 
                    ob = st1.objs[l[1]]
                    out.append((st1, P(l[1], ety=ob.ty if isinstance(ob, Struct) else ob.ety, gen=ob.gen if isinstance(ob, Arr) else None)))
                elif l[0] == "field":
                    v = st1.objs[l[1]].f[l[2]]
                    if isinstance(v, Loc):
                        ob = st1.objs[v.obj]; out.append((st1, P(v.obj, ety=ob.ty if isinstance(ob, Struct) else ob.ety)))
                    else: out.append((st1, P(l[1], fld=l[2], ety=s.ety(k))))
                else: raise ToolLimit("address of " + l[0])
            return out
        if op in ("++", "--"):
            out = []
            for st1, l in s.lv(k, st):
                try: v = s.load(st1, l)
                except PathEnd: continue
                if isinstance(v, P): nv = P(v.obj, add(v.off, I(1 if op == "++" else -1)), v.null, v.gen, v.ety)
                else:
                    ty = v.ty; pt = INT if ty.isint() and ty.bits < 32 else ty
                    nv = s.arith(st1, "+" if op == "++" else "-", V(v.t, pt), V(I(1), pt), pt, src(e))
                    if pt is not ty: nv = s.to_int(st1, nv, ty, src(e))
                try: s.store(st1, l, nv)
                except PathEnd: continue
                out.append((st1, v if e.get("isPostfix") else nv))
            return out
        out = []
        for st1, v in s.ev(k, st):
            if op == "!":
                b = v.null if isinstance(v, P) else lnot(v.truth())
                out.append((st1, boolv(b)))
            elif op == "-":
                ty = s.ety(e)
                if ty.kind in ("double", "float"): out.append((st1, V(-v.t, ty)))
                else:
                    r = s.arith(st1, "-", V(I(0), ty), V(v.t, ty), ty, src(e))
                    r = V(neg(v.t), ty, sh=None if v.sh is None else neg(v.sh))
                    out.append((st1, r))
            elif op == "+": out.append((st1, v))
            elif op == "~":
                ty = s.ety(e)
                out.append((st1, V(sub(I((1 << ty.bits) - 1), v.t) if not ty.signed else sub(I(-1), v.t), ty)))
            elif op == "__extension__": out.append((st1, v))
            else: raise ToolLimit("unary " + op)
        return out
    def e_BinaryOperator(s, e, st):
        op = e["opcode"]; a, b = e.kids
        if op == ",":
            return [r for st1, _ in s.ev(a, st) for r in s.ev(b, st1)]
        if op == "=":
            out = []
            for st1, v in s.ev(b, st):
                for st2, l in s.lv(a, st1):
                    v2 = s.coerce(st2, v, s.ety(a))
                    try: s.store(st2, l, v2)
                    except PathEnd: continue
                    out.append((st2, v2))
            return out
        if op in ("&&", "||"):
            out = []
            for st1, v in s.ev(a, st):
                c = v.truth() if isinstance(v, V) else lnot(v.null)
                stop = lnot(c) if op == "&&" else c
                if not s.feasible(st1, lnot(stop)):
                    out.append((st1, boolv(z3.BoolVal(op == "||")))); continue
                if s.simple(b):
                    # evaluate the right operand under the guard, keep one path
                    g = lnot(stop)
                    st2 = st1.clone(); st2.assume(g)
                    base = len(st2.facts)
                    rs = s.ev(b, st2)
                    if len(rs) == 1:
                        st3, w = rs[0]
                        cb = w.truth() if isinstance(w, V) else lnot(w.null)
                        # facts learnt under the guard
                        for f in st3.facts[base:]: st1.assume(z3.Implies(g, f))
                        out.append((st1, boolv(land(c, cb) if op == "&&" else lor(c, cb)))); continue
                    elif len(rs) == 0:
                        st1.assume(stop); out.append((st1, boolv(z3.BoolVal(op == "||")))); continue
                stF = st1.clone(); stF.assume(stop)
                if s.feasible(st1, stop): out.append((stF, boolv(z3.BoolVal(op == "||"))))
                st1.assume(lnot(stop))
                for st2, w in s.ev(b, st1):
                    out.append((st2, boolv(w.truth() if isinstance(w, V) else lnot(w.null))))
            return out
        out = []
        for st1, x in s.ev(a, st):
            for st2, y in s.ev(b, st1):
                out.append((st2, s.binop(st2, op, x, y, e)))
        return out
    def binop(s, st, op, x, y, e):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(x, P) or isinstance(y, P):
                return boolv(s.ptrcmp(st, op, x, y))
            if isinstance(x, (Opaque, Str, FnV)) or isinstance(y, (Opaque, Str, FnV)):
                return boolv(s.fresh("opaquecmp", z3.BoolSort()))
            if x.ty.kind in ("double", "float"):
                s.notnan(st, x, src(e)); s.notnan(st, y, src(e))
                return boolv({"==": lambda: x.t == y.t, "!=": lambda: x.t != y.t, "<": lambda: x.t < y.t, ">": lambda: x.t > y.t, "<=": lambda: x.t <= y.t, ">=": lambda: x.t >= y.t}[op]())
            if x.b is not None and isc(y.t) and cv(y.t) in (0, 1) and op in ("==", "!="):
                pos = (cv(y.t) == 1) == (op == "==")
                return boolv(x.b if pos else lnot(x.b))
            return boolv(cmpc(op, x.t, y.t))
        if isinstance(x, P) or isinstance(y, P):
            if isinstance(y, P) and not isinstance(x, P): x, y = y, x
            if isinstance(y, P):
                if op == "-" and x.obj == y.obj: return V(sub(x.off, y.off), I64)
                raise ToolLimit("pointer difference")
            d = y.t if op == "+" else neg(y.t)
            et = s.ety(e).elem
            p = s.retype(st, x, et) if x.obj is not None and isinstance(st.objs[x.obj], Raw) else x
            return P(p.obj, add(p.off, d), p.null, p.gen, p.ety)
        ty = s.ety(e)
        return s.arith(st, op, x, y, ty, src(e))
    def ptrcmp(s, st, op, x, y):
        if op not in ("==", "!="): 
            if isinstance(x, P) and isinstance(y, P) and x.obj == y.obj: return cmpc(op, x.off, y.off)
            raise ToolLimit("pointer order")
        if isinstance(x, Opaque) or isinstance(y, Opaque): r = s.fresh("opaqueptr", z3.BoolSort())
        elif x.obj is None and y.obj is None: r = TRUE if z3.is_true(x.null) and z3.is_true(y.null) else x.null == y.null
        elif y.obj is None: r = x.null
        elif x.obj is None: r = y.null
        elif x.obj != y.obj: r = land(x.null, y.null)
        else: r = lor(land(x.null, y.null), land(lnot(x.null), lnot(y.null), cmpc("==", x.off, y.off)))
        return r if op == "==" else lnot(r)
    def coerce(s, st, v, ty):
        if isinstance(v, V):
            if v.ty is ty: return v
            if ty.isint() and v.ty.isint(): return s.to_int(st, v, ty, "assignment")
            return V(v.t, ty, sh=v.sh)
        if isinstance(v, P) and ty.kind == "ptr" and ty.elem.kind not in ("void",) and v.obj is not None and isinstance(st.objs[v.obj], Raw): return s.retype(st, v, ty.elem)
        return v
    def e_CompoundAssignOperator(s, e, st):
        op = e["opcode"][:-1]; a, b = e.kids
        out = []
        for st1, y in s.ev(b, st):
            for st2, l in s.lv(a, st1):
                try: x = s.load(st2, l)
                except PathEnd: continue
                if isinstance(x, P):
                    nv = P(x.obj, add(x.off, y.t if op == "+" else neg(y.t)), x.null, x.gen, x.ety)
                else:
                    lt = s.ety(a)
                    ct = s.tu.ty(e["computeResultType"]["qualType"]) if "computeResultType" in e.d else lt
                    if ct.kind in ("double", "float") and lt.isint():
                        x2 = V(z3.ToReal(x.t), ct)
                        r = s.arith(st2, op, x2, y, ct, src(e))
                        q = s.fresh("trunc")
                        st2.assume(z3.Implies(r.t >= 0, land(q >= 0, z3.ToReal(q) <= r.t, r.t < z3.ToReal(q) + 1)), z3.Implies(r.t < 0, land(q <= 0, z3.ToReal(q) >= r.t, r.t > z3.ToReal(q) - 1)))
                        s.oblige(st2, "conv", "float to integer in range", s.rng(q, lt))
                        nv = V(q, lt)
                    else:
                        x2 = s.to_int(st2, x, ct, src(a)) if ct.isint() else x
                        if op in ("<<", ">>"): y2 = y
                        else: y2 = s.to_int(st2, y, ct, src(b)) if ct.isint() else y
                        r = s.arith(st2, op, x2, y2, ct, src(e))
                        nv = s.to_int(st2, r, lt, src(e)) if lt.isint() else r
                try: s.store(st2, l, nv)
                except PathEnd: continue
                out.append((st2, nv))
        return out
    def simple(s, e):
        """no side effects, no calls, no forks"""
        if e.kind in ("CallExpr", "CompoundAssignOperator", "ConditionalOperator", "StmtExpr"): return False
        if e.kind == "UnaryOperator" and e["opcode"] in ("++", "--"): return False
        if e.kind == "BinaryOperator" and e["opcode"] == "=": return False
        return all(s.simple(k) for k in e.kids)
    def e_ConditionalOperator(s, e, st):
        c, a, b = e.kids
        out = []
        for st1, v in s.ev(c, st):
            cb = v.truth() if isinstance(v, V) else lnot(v.null)
            fa, fb = s.feasible(st1, cb), s.feasible(st1, lnot(cb))
            ty = s.ety(e)
            if fa and fb and (ty.isint() or ty.kind in ("double", "float")) and s.simple(a) and s.simple(b):
                sa = st1.clone(); sa.assume(cb); na = len(sa.facts)
                sb = st1.clone(); sb.assume(lnot(cb)); nb = len(sb.facts)
                ra, rb = s.ev(a, sa), s.ev(b, sb)
                if len(ra) == 1 and len(rb) == 1:
                    (sa, va), (sb, vb) = ra[0], rb[0]
                    for f in sa.facts[na:]: st1.assume(z3.Implies(cb, f))
                    for f in sb.facts[nb:]: st1.assume(z3.Implies(lnot(cb), f))
                    sh = None
                    if va.sh is not None or vb.sh is not None: sh = z3.If(cb, va.shadow(), vb.shadow())
                    # name the value to keep terms small
                    t = s.fresh("ite", va.t.sort()); st1.assume(z3.Implies(cb, t == va.t), z3.Implies(lnot(cb), t == vb.t))
                    if not z3.is_real(t) and ty.isint(): st1.assume(s.rng(t, ty))
                    out.append((st1, V(t, ty, sh=sh)))
                    continue
                if not ra and not rb: continue
            sb = st1.clone()
            if fa:
                st1.assume(cb); out += s.ev(a, st1)
            if fb:
                sb.assume(lnot(cb)); out += s.ev(b, sb)
        return out
    def e_InitListExpr(s, e, st): raise ToolLimit("initialiser list")
    def e_StmtExpr(s, e, st): raise ToolLimit("statement expression")
    # ---------------------------------------------------------------- calls
    def e_CallExpr(s, e, st):
        f = e.kids[0]
        while f.kind in ("ImplicitCastExpr", "ParenExpr"): f = f.kids[0]
        if f.kind != "DeclRefExpr": raise ToolLimit("indirect call")
        name = f["refname"]
        states = [(st, [])]
        for a in e.kids[1:]:
            nxt = []
            for st1, vs in states:
                for st2, v in s.ev(a, st1): nxt.append((st2, vs + [v]))
            states = nxt
        out = []
        for st1, vs in states:
            s.line = e.line
            try: out += s.call(name, vs, st1, e)
            except PathEnd: pass
        return out
    def call(s, name, vs, st, e):
        s.called.add(name)
        if name == "__dv_assert":
            s.oblige(st, "assert", f"assert({src(e.kids[1])})", vs[0].truth()); return [(st, None)]
        hook = getattr(s.con, "call_" + name, None)
        if hook is not None:
            r = hook(s, st, vs, e)
            if r is not None: return r
        if name in s.contracts and not (name in s.con.inline) and not getattr(s.contracts[name], "never_call", False):
            return s.call_contract(s.contracts[name], vs, st, e)
        r = s.prog.find(name, s.tu)
        if r is not None: return s.call_inline(name, r, vs, st, e)
        m = getattr(s, "x_" + name, None)
        if m is not None: return m(vs, st, e)
        if name in NORETURN: 
            s.externals.add(name)
            if not s.con.pure_exit: pass
            return []
        if name in NOEFFECT:
            s.externals.add(name)
            t = s.ety(e)
            return [(st, V(s.fresh(name), t) if t.isint() else None)]
        raise ToolLimit(f"call to unknown function {name}")
    def call_inline(s, name, r, vs, st, e):
        tu, fn = r
        if s.depth > 12 or name in [f[0] for f in s.frames]: raise ToolLimit("recursion in " + name)
        s.inlined.add(name)
        s.boxscan(fn)
        save = (s.tu, s.fn, s.callpath)
        s.tu = tu; s.depth += 1; s.frames.append((name,))
        s.callpath = s.callpath + (e.id,)
        st.names.append({})
        saved_env = {}
        for pd, v in zip(fn.d["params"], vs):
            saved_env[pd.id] = st.env.get(pd.id)
            t = tu.ty(pd["qt"])
            if isinstance(v, V): v = s.coerce(st, v, t if t.kind != "arr" else v.ty)
            if pd.id in s.boxed: st.env[pd.id] = s.box(st, pd["name"], t, v)
            else: st.env[pd.id] = v
            if "name" in pd.d: st.names[-1][pd["name"]] = pd.id
        out = []
        for st1, sig in s.ex(fn.d["body"], st):
            st1.names.pop()
            if sig is None: out.append((st1, None))
            elif sig[0] == "return": out.append((st1, sig[1]))
            else: raise ToolLimit("signal " + str(sig))
        s.tu, s.fn, s.callpath = save
        s.depth -= 1; s.frames.pop()
        return out
    def box(s, st, name, t, v):
        if isinstance(v, P): raise ToolLimit("address of a pointer variable")
        o = s.new_arr(st, name, t, n=I(1))
        if v is not None:
            ob = st.objs[o]; st.objs[o] = ob.copy(arr=z3.Store(ob.arr, I(0), v.t), sh=z3.Store(ob.sh, I(0), v.shadow()) if t.zzp else None)
        return Loc(o)
    def boxscan(s, fn):
        """locals whose address is taken (scalars) live in a one-element object"""
        if fn.id in s.scanned: return
        s.scanned.add(fn.id)
        def walk(n):
            if n.kind == "CStyleCastExpr" and n.get("castKind") == "BitCast":
                k = strip(n.kids[0]); t = s.tu.ty(n["qt"])
                if k.kind == "DeclRefExpr" and k["refkind"] == "VarDecl" and t.kind == "ptr" and t.elem.kind == "int" and t.elem.bits == 8:
                    kt = s.tu.ty(k["qt"])
                    if kt.kind == "arr" and kt.elem.kind == "int" and kt.elem.bits == 32 and not kt.elem.signed: s.asbytes.add(k["ref"])
            if n.kind == "UnaryOperator" and n["opcode"] == "&":
                k = n.kids[0]
                while k.kind == "ParenExpr": k = k.kids[0]
                if k.kind == "DeclRefExpr" and k["refkind"] in ("VarDecl", "ParmVarDecl"):
                    t = s.tu.ty(k["qt"]) if True else None
                    if t.kind in ("int", "bool", "double"): s.boxed.add(k["ref"])
            for k in n.kids: walk(k)
        walk(fn)
    # builtin models ------------------------------------------------------------
    def x_malloc(s, vs, st, e):
        s.externals.add("malloc"); return s.alloc(st, vs[0].t, False)
    def x_calloc(s, vs, st, e):
        s.externals.add("calloc"); return s.alloc(st, mul(vs[1].t, vs[0].t) if isc(vs[1].t) else mul(vs[0].t, vs[1].t), True)
    def alloc(s, st, blen, zero):
        s.oblige(st, "alloc", "allocation size in range", land(blen >= 0, blen < (1 << 63)))
        stF = st.clone()
        o = s.oid("heap"); st.objs[o] = Raw(blen, "heap", zero)
        return [(st, P(o)), (stF, NULLP())]
    def x_realloc(s, vs, st, e):
        s.externals.add("realloc")
        p, sz = vs[0], vs[1].t
        s.oblige(st, "alloc", "allocation size in range", land(sz >= 0, sz < (1 << 63)))
        out = []
        if not z3.is_false(p.null):
            if p.obj is None or s.feasible(st, p.null):
                stN = st.clone(); stN.assume(p.null); out += s.alloc(stN, sz, False)
            if p.obj is None or not s.feasible(st, lnot(p.null)): return out
            st.assume(lnot(p.null))
        ob = st.objs[p.obj]
        if ob.freed: s.oblige(st, "freed", "realloc of a live block", FALSE); return out
        if p.gen is not None and not p.gen.eq(ob.gen): s.oblige(st, "stale", "realloc argument still valid", p.gen == ob.gen)
        if isinstance(ob, Raw): raise ToolLimit("realloc of untyped block")
        s.oblige(st, "bounds", "realloc argument is the start of the block", cmpc("==", p.off, I(0)))
        # glibc: size 0 frees and returns NULL
        if s.feasible(st, sz == 0):
            st0 = st.clone(); st0.assume(sz == 0)
            st0.objs[p.obj] = ob.copy(freed=True); s.note(("obj", p.obj, "freed"))
            out.append((st0, NULLP()))
            if not s.feasible(st, sz != 0): return out
            st.assume(sz != 0)
        # failure
        stF = st.clone(); out.append((stF, NULLP()))
        n2 = s.elcount(st, sz, s.tu.sizeof(ob.ety))
        shrink = s.provable(st, n2 <= ob.n)
        ob2 = ob.copy(blen=sz, n=n2, gen=add(ob.gen, I(1)))
        if shrink: ob2.shrunk = True
        elif ob.shrunk:
            a = s.fresh(ob.name, ob.arr.sort()); k = z3.Int("k!re")
            st.assume(z3.ForAll([k], z3.Implies(land(0 <= k, k < ob.n), z3.Select(a, k) == z3.Select(ob.arr, k)), patterns=[z3.Select(a, k)]))
            ob2.arr = a
            if ob.sh is not None:
                a2 = s.fresh(ob.name + "'", ob.sh.sort())
                st.assume(z3.ForAll([k], z3.Implies(land(0 <= k, k < ob.n), z3.Select(a2, k) == z3.Select(ob.sh, k)), patterns=[z3.Select(a2, k)]))
                ob2.sh = a2
        st.objs[p.obj] = ob2
        s.note(("obj", p.obj, "size")); s.note(("obj", p.obj, "arr"))
        out.append((st, P(p.obj, null=FALSE, gen=ob2.gen, ety=ob.ety)))
        return out
    def x_free(s, vs, st, e):
        s.externals.add("free")
        p = vs[0]
        if isinstance(p, Opaque): return [(st, None)]
        if p.obj is None or z3.is_true(p.null): return [(st, None)]
        out = []
        if not z3.is_false(p.null) and s.feasible(st, p.null):
            stN = st.clone(); stN.assume(p.null); out.append((stN, None))
            if not s.feasible(st, lnot(p.null)): return out
            st.assume(lnot(p.null))
        ob = st.objs[p.obj]
        if ob.freed: s.oblige(st, "freed", "no double free", FALSE); return out
        if isinstance(ob, Arr) and p.gen is not None and not p.gen.eq(ob.gen): s.oblige(st, "stale", "freed pointer is the current block", p.gen == ob.gen)
        if not (isc(p.off) and cv(p.off) == 0): s.oblige(st, "bounds", "free of the start of the block", p.off == 0)
        if isinstance(ob, Raw):
            r = Raw(ob.blen, ob.name, ob.zero); r.freed = True; st.objs[p.obj] = r
        else: st.objs[p.obj] = ob.copy(freed=True)
        s.note(("obj", p.obj, "freed"))
        out.append((st, None)); return out
    def x_rand(s, vs, st, e):
        s.externals.add("rand")
        r = s.fresh("rand"); st.assume(r >= 0, r <= (1 << 31) - 1); return [(st, V(r, INT))]
    def x_snprintf(s, vs, st, e):
        s.externals.add("snprintf")
        p = vs[0]
        ob = s.check_ptr(st, p, "snprintf buffer")
        s.oblige(st, "bounds", "snprintf buffer large enough", vs[1].t <= sub(ob.n, p.off))
        st.objs[p.obj] = ob.copy(arr=s.fresh(ob.name, ob.arr.sort())); s.note(("obj", p.obj, "arr"))
        return [(st, V(s.fresh("snprintf"), INT))]
    def bytearr(s, st, p, n, what):
        """a byte array holding n bytes at p"""
        if isc(n) and cv(n) == 0: return None
        ob = s.check_ptr(st, p, what)
        if not isinstance(ob, Arr) or ob.ety.kind != "int" or ob.ety.bits != 8: raise ToolLimit("bytes of a typed array")
        off = p.off if ob.word is None or p.ety.bits == 8 else mul(I(4), p.off)
        s.oblige(st, "bounds", f"{what}: block in bounds", land(0 <= off, n >= 0, off + n <= ob.n))
        return ob, off
    def x_memcpy(s, vs, st, e):
        s.externals.add("memcpy")
        n = vs[2].t
        if isc(n) and cv(n) == 0: return [(st, vs[0])]
        (do, d0), (so, s0) = s.bytearr(st, vs[0], n, "memcpy target"), s.bytearr(st, vs[1], n, "memcpy source")
        if vs[0].obj == vs[1].obj: s.oblige(st, "overlap", "memcpy blocks do not overlap", lor(d0 + n <= s0, s0 + n <= d0))
        a = s.fresh(do.name, ARR); k = z3.Int("k!cpy")
        st.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(land(d0 <= k, k < d0 + n), z3.Select(so.arr, k - d0 + s0), z3.Select(do.arr, k)), patterns=[z3.Select(a, k)]))
        st.objs[vs[0].obj] = do.copy(arr=a); s.note(("obj", vs[0].obj, "arr"))
        return [(st, vs[0])]
    def x_memset(s, vs, st, e):
        s.externals.add("memset")
        p, v, n = vs[0], vs[1].t, vs[2].t
        ob = st.objs[p.obj] if isinstance(p, P) and p.obj is not None else None
        if isinstance(ob, Struct):
            s.check_ptr(st, p, "memset target")
            if not (isc(n) and cv(n) == s.tu.sizeof(ob.ty) and isc(v) and cv(v) == 0): raise ToolLimit("memset of part of a structure")
            def clear(o):
                x = st.objs[o]
                if isinstance(x, Arr):
                    if x.arr.sort() != ARR: raise ToolLimit("memset of floating-point array")
                    st.objs[o] = x.copy(arr=z3.K(z3.IntSort(), I(0)), sh=None if x.sh is None else z3.K(z3.IntSort(), I(0))); s.note(("obj", o, "arr")); return
                for k, y in list(x.f.items()):
                    if isinstance(y, V):
                        c = st.objs[o].copy(); c.f[k] = V(I(0), y.ty); st.objs[o] = c; s.note(("fld", o, k))
                    elif isinstance(y, Loc): clear(y.obj)
                    else: raise ToolLimit("memset of a pointer field")
            clear(p.obj); return [(st, p)]
        r = s.bytearr(st, p, n, "memset target")
        if r is None: return [(st, p)]
        do, d0 = r
        a = s.fresh(do.name, ARR); k = z3.Int("k!set"); c = v if isc(v) else v % 256
        st.assume(z3.ForAll([k], z3.Select(a, k) == z3.If(land(d0 <= k, k < d0 + n), c, z3.Select(do.arr, k)), patterns=[z3.Select(a, k)]))
        st.objs[p.obj] = do.copy(arr=a); s.note(("obj", p.obj, "arr"))
        return [(st, p)]
    def x_htonl(s, vs, st, e):
        s.externals.add("htonl"); return [(st, V(s.wvalue(st, list(reversed(s.wbytes(st, vs[0].t)))), U32))]
    x___bswap_32 = x___builtin_bswap32 = x_htonl
    def x_spasm_wtime(s, vs, st, e): return [(st, V(s.fresh("wtime", z3.RealSort()), DOUBLE))]
    def x_omp_get_max_threads(s, vs, st, e):
        r = s.fresh("threads"); st.assume(r >= 1, r <= 1024); return [(st, V(r, INT))]
    # contracts ---------------------------------------------------------------------
    def call_contract(s, con, vs, st, e):
        s.used_contracts.add(con.name)
        args = dict(zip(con.params, vs))
        old = st.clone()
        o = View(s, old, args, frame_only=True)
        specs = {g: s.fresh(f"{con.name}.{g}", srt) for g, srt in con.spec.items()}
        pick = getattr(s.con, "spec_" + con.name, None)
        if pick is not None and con.spec: specs.update(pick(View(s, old), o))
        o._ghosts = dict(specs)
        nulls = getattr(con, "shapes", {})
        objs = {}
        for pn, v in args.items():
            if isinstance(v, P):
                sp = nulls.get(pn); kinds = sp if isinstance(sp, tuple) else (sp,)
                if "nullable" not in kinds and "null" not in kinds:
                    if v.obj is None:
                        s.oblige(st, "pre", f"{con.name}: {pn} not null", FALSE); raise PathEnd()
                    s.oblige(st, "null", f"{con.name}: argument {pn} not null", lnot(v.null))
                    ob = st.objs[v.obj]
                    if ob.freed: s.oblige(st, "freed", f"{con.name}: argument {pn} is live", FALSE); raise PathEnd()
                    if isinstance(ob, Arr) and v.gen is not None and not v.gen.eq(ob.gen): s.oblige(st, "stale", f"{con.name}: argument {pn} still valid", v.gen == ob.gen)
        # separation of written arguments
        wr = [a.split(".")[0] for a in con.assigns]
        for a in wr:
            for b in args:
                if a != b and isinstance(args.get(a), P) and isinstance(args[b], P) and args[a].obj is not None and args[a].obj == args[b].obj and (a, b) not in getattr(con, "may_alias", ()):
                    va, vb = args[a], args[b]
                    ok = s.sep(con, st, va, vb, a, b)
                    if not ok: s.oblige(st, "separation", f"{con.name}: arguments {a} and {b} do not overlap", FALSE)
        for nme, g in named(con.pre(o), "pre"):
            s.oblige(st, "pre", f"{con.name}: {nme}", g)
        # effects
        for path in con.assigns: s.havoc_path(st, args, path, con)
        ghosts = {g: s.fresh(f"{con.name}.{g}", srt) for g, srt in con.ghost_out.items()}
        rt = s.tu.ty(e["qt"]) if e is not None else VOID
        res = con.result(s, st, o)
        if res is None and rt.kind != "void":
            if rt.isint(): t = s.fresh(f"{con.name}.ret"); st.assume(s.rng(t, rt)); res = V(t, rt)
            elif rt.kind in ("double", "float"): res = V(s.fresh(f"{con.name}.ret", z3.RealSort()), rt)
            elif rt.kind == "ptr" and rt.elem.kind in ("int", "bool", "double"):
                n = s.fresh(f"len({con.name}.ret)"); st.assume(n >= 0)
                sp = con.shapes.get("return"); kinds = sp if isinstance(sp, tuple) else (sp,)
                nl = s.fresh(f"{con.name}.ret.isnull", z3.BoolSort()) if "nullable" in kinds else FALSE
                res = P(s.new_arr(st, f"{con.name}.ret", rt.elem, n=n, fresh=True), null=nl, gen=I(0), ety=rt.elem)
            elif rt.kind == "ptr" and rt.elem.kind == "struct":
                sh = {k[7:]: v for k, v in con.shapes.items() if k.startswith("return.")}
                o2 = s.new_struct(st, f"{con.name}.ret", rt.elem, shapes=sh, fresh=True)
                s.mark_fresh(st, o2)
                res = P(o2, ety=rt.elem)
            else: raise ToolLimit("contract result " + repr(rt))
        ghosts.update(specs)
        n = View(s, st, args, frame_only=True); n._ghosts = ghosts
        st.ghost = dict(st.ghost); st.ghost["%calls"] = st.ghost.get("%calls", ()) + (CallRec(con.name, ghosts, o, View(s, st.clone(), args, frame_only=True), wrap(s, st, res)),)
        rec = st.ghost["%calls"][-1]
        for nme, g in named(con.post(o, n, wrap(s, st, res)), "post"):
            g = g if not isinstance(g, bool) else z3.BoolVal(g)
            st.assume(g); rec.post[nme] = g
        aft = getattr(s.con, "after", {}).get(con.name)
        if aft is not None:
            for _, f in named(aft(View(s, st), st.ghost["%calls"][-1]), "f"): st.assume(f)
        outs = con.split(s, st, o, n, res) if hasattr(con, "split") else [(st, res)]
        return outs
    def sep(s, con, st, va, vb, a, b):
        f = getattr(con, "separate", None)
        if f is None: return False
        return f(s, st, va, vb, a, b)
    def mark_fresh(s, st, o):
        ob = st.objs[o]
        ob = ob.copy(fresh=True); st.objs[o] = ob
        if isinstance(ob, Struct):
            for v in ob.f.values():
                if isinstance(v, P) and v.obj is not None: s.mark_fresh(st, v.obj)
                if isinstance(v, Loc): s.mark_fresh(st, v.obj)
    def havoc_path(s, st, args, path, con):
        parts = path.split(".")
        v = args[parts[0]]
        if isinstance(v, (Opaque, Str)): return
        if v.obj is None: return
        o = v.obj
        for k in parts[1:-1] if len(parts) > 1 else []:
            x = st.objs[o].f[k]
            if isinstance(x, (Loc, P)):
                if x.obj is None: return
                o = x.obj
        last = parts[-1] if len(parts) > 1 else None
        if last is None:
            if v.fld is not None and isinstance(st.objs[o], Struct):
                cur = st.objs[o].f[v.fld]; t = s.fresh("out"); st.assume(s.rng(t, cur.ty))
                ob = st.objs[o].copy(); ob.f[v.fld] = V(t, cur.ty); st.objs[o] = ob; s.note(("fld", o, v.fld)); return
            s.havoc_obj(st, o); return
        if last == "*":
            ob = st.objs[o]
            for k, x in list(ob.f.items()):
                if isinstance(x, (V, )): s.havoc_fld(st, o, k)
                elif isinstance(x, (Loc, P)) and x.obj is not None and isinstance(st.objs[x.obj], Arr): s.havoc_obj(st, x.obj)
            return
        if last.endswith("()"):        # block may be reallocated: pointer, length and contents change
            k = last[:-2]; x = st.objs[o].f[k]
            if x.obj is None: return
            s.havoc_obj(st, x.obj)
            a = st.objs[x.obj]; n = s.fresh(f"len({a.name})"); st.assume(n >= 0)
            g = s.fresh("gen"); st.assume(g > a.gen)
            st.objs[x.obj] = a.copy(n=n, blen=mul(I(s.tu.sizeof(a.ety)), n), gen=g); s.note(("obj", x.obj, "size"))
            nl = x.null if not getattr(con, "may_null", False) else x.null
            ob = st.objs[o].copy(); ob.f[k] = P(x.obj, x.off, nl, g, x.ety); st.objs[o] = ob; s.note(("fld", o, k))
            return
        x = st.objs[o].f[last]
        if isinstance(x, V): s.havoc_fld(st, o, last)
        elif x.obj is not None: s.havoc_obj(st, x.obj)
    def havoc_fld(s, st, o, k):
        ob = st.objs[o].copy(); x = ob.f[k]
        if x.ty.isint():
            t = s.fresh(f"{ob.name}.{k}"); st.assume(s.rng(t, x.ty))
        else: t = s.fresh(f"{ob.name}.{k}", z3.RealSort())
        ob.f[k] = V(t, x.ty); st.objs[o] = ob; s.note(("fld", o, k))
    def havoc_obj(s, st, o):
        ob = st.objs[o]
        if isinstance(ob, Struct):
            for k, x in list(ob.f.items()):
                if isinstance(x, V): s.havoc_fld(st, o, k)
                elif isinstance(x, Loc): s.havoc_obj(st, x.obj)
            return
        st.objs[o] = ob.copy(arr=s.fresh(ob.name, ob.arr.sort()), sh=s.fresh(ob.name + "'", ob.arr.sort()) if ob.ety.zzp else None)
        s.note(("obj", o, "arr"))
    # ---------------------------------------------------------------- statements
    def ex(s, n, st):
        """-> list of (st, signal)"""
        s.line = n.line or s.line
        if s.deadline and time.time() > s.deadline: raise ToolLimit("symbolic execution exceeded its time budget")
        m = getattr(s, "s_" + n.kind, None)
        if m is not None: return m(n, st)
        return [(st1, None) for st1, _ in s.ev(n, st)]
    def s_Null(s, n, st): return [(st, None)]
    def s_NullStmt(s, n, st): return [(st, None)]
    def s_AttributedStmt(s, n, st): return s.ex(n.kids[-1], st)
    def s_CompoundStmt(s, n, st):
        return s.seq(n.kids, 0, [st], n)
    def seq(s, kids, start, states, n):
        saved = [dict(x) for x in states[0].names] if states else None
        cur = [(st, None) for st in states]
        done = []
        i = start
        work = [(st, start) for st in states]
        pend = {}
        for st, i in work: pend.setdefault(i, []).append(st)
        out = []
        labels = {}
        for idx, k in enumerate(kids):
            m = k
            while m.kind == "LabelStmt":
                labels[m["declId"]] = idx; m = m.kids[0]
        budget = 0
        while pend:
            i = min(pend)
            sts = pend.pop(i)
            if i >= len(kids):
                for st in sts: out.append((st, None))
                continue
            for st in sts:
                for st2, sig in s.ex(kids[i], st):
                    if sig is None: pend.setdefault(i + 1, []).append(st2)
                    elif sig[0] == "goto" and sig[1] in labels:
                        t = labels[sig[1]]
                        if t <= i: raise ToolLimit("backward goto")
                        pend.setdefault(t, []).append(st2)
                    else: out.append((st2, sig))
        for st, _ in out:
            # restore visible names of this scope (annotations at the end of a loop body may still see them)
            st.ghost = dict(st.ghost)
            st.ghost["%inner"] = [dict(x) for x in st.names]
            for a, b in zip(st.names, saved or []):
                a.clear(); a.update(b)
        return out
    def s_LabelStmt(s, n, st): return s.ex(n.kids[0], st)
    def s_GotoStmt(s, n, st): return [(st, ("goto", n["targetLabelDeclId"]))]
    def s_DeclStmt(s, n, st):
        states = [st]
        for d in n.kids:
            if d.kind != "VarDecl": continue
            nxt = []
            for st1 in states: nxt += s.decl(d, st1)
            states = nxt
        return [(x, None) for x in states]
    def decl(s, d, st):
        t = s.tu.ty(d["qt"])
        init = d.kids[-1] if d.kids and d.get("hasInit", True) and d.d.get("init", True) else None
        if init is not None and not (init.kind.endswith("Expr") or init.kind.endswith("Operator") or init.kind.endswith("Literal")): init = None
        outs = []
        s.note(("decl", d.id))
        if t.kind == "struct" or (t.kind == "arr" and t.elem.kind == "struct"):
            tt = t if t.kind == "struct" else t.elem
            if init is not None: raise ToolLimit("struct initialiser")
            st.env[d.id] = Loc(s.new_struct(st, d["name"], tt, init=False)); st.names[-1][d["name"]] = d.id
            return [st]
        if t.kind == "arr":
            if t.n is None: raise ToolLimit("VLA")
            zero = False
            o = s.new_bytes(st, d["name"], t.elem, t.n) if d.id in s.asbytes else s.new_arr(st, d["name"], t.elem, n=I(t.n))
            st.env[d.id] = Loc(o); st.names[-1][d["name"]] = d.id
            states = [st]
            if init is not None:
                if init.kind == "StringLiteral": return [st]
                if init.kind != "InitListExpr": raise ToolLimit("array init")
                for i, c in enumerate(init.kids):
                    nxt = []
                    for st1 in states:
                        for st2, v in s.ev(c, st1):
                            ob = st2.objs[o]; st2.objs[o] = ob.copy(arr=z3.Store(ob.arr, I(i), v.t)); nxt.append(st2)
                    states = nxt
            return states
        if init is None:
            if d.id in s.boxed: st.env[d.id] = s.box(st, d["name"], t, None)
            elif t.isint():
                x = s.fresh(d["name"] + ".undef"); st.assume(s.rng(x, t)); st.env[d.id] = V(x, t)
            elif t.kind in ("double", "float"): st.env[d.id] = V(s.fresh(d["name"] + ".undef", z3.RealSort()), t)
            else: st.env[d.id] = P(None, null=s.fresh("undef", z3.BoolSort()))
            st.names[-1][d["name"]] = d.id
            return [st]
        for st1, v in s.ev(init, st):
            v = s.coerce(st1, v, t)
            if d.id in s.boxed: st1.env[d.id] = s.box(st1, d["name"], t, v)
            else: st1.env[d.id] = v
            st1.names[-1][d["name"]] = d.id
            outs.append(st1)
        return outs
    def s_IfStmt(s, n, st):
        kids = n.kids
        c = kids[0]; a = kids[1]; b = kids[2] if len(kids) > 2 else None
        out = []
        for st1, v in s.ev(c, st):
            cb = v.truth() if isinstance(v, V) else lnot(v.null)
            fa = s.feasible(st1, cb)
            fb = s.feasible(st1, lnot(cb))
            sb = st1.clone() if fa and fb else st1
            n0 = len(st1.facts); oa, ob = [], []
            if fa:
                st1.assume(cb)
                oa = s.ex(a, st1)
            if fb:
                sb.assume(lnot(cb))
                ob = s.ex(b, sb) if b is not None else [(sb, None)]
            m = s.join(cb, n0, oa, ob) if fa and fb and s.con.merge else None
            out += [m] if m is not None else oa + ob
            if not fa or not fb: s.stats["pruned"] += 1
        return out
    def join(s, c, n0, oa, ob):
        """one state after a conditional that changes local scalars only"""
        if len(oa) != 1 or len(ob) != 1 or oa[0][1] is not None or ob[0][1] is not None: return None
        x, y = oa[0][0], ob[0][0]
        if x.objs.keys() != y.objs.keys(): return None
        arrs = [k for k in x.objs if x.objs[k] is not y.objs[k]]
        for k in arrs:
            a, b = x.objs[k], y.objs[k]
            if not (isinstance(a, Arr) and isinstance(b, Arr) and (a.sh is None or a.sh.eq(a.arr)) and (b.sh is None or b.sh.eq(b.arr)) and all(u is v or (isinstance(u, z3.AstRef) and isinstance(v, z3.AstRef) and u.eq(v)) or (not isinstance(u, z3.AstRef) and u == v) for u, v in ((getattr(a, f), getattr(b, f)) for f in Arr.__slots__ if f not in ("arr", "sh")))): return None
        gx, gy = [{k: v for k, v in z.ghost.items() if k not in ("%calls", "%inner")} for z in (x, y)]
        if gx.keys() != gy.keys() or any(gx[k] is not gy[k] for k in gx): return None
        base = {f.get_id() for f in x.facts[:n0]}      # the obligations met in a branch are facts; most were facts before
        nx, ny = [[f for f in z.facts[n0:] if f.get_id() not in base] for z in (x, y)]
        if any(has_quant(f) for f in nx + ny): return None
        r = x.clone(); r.facts = x.facts[:n0]; diff = []
        cx, cy = x.ghost.get("%calls", ()), y.ghost.get("%calls", ())
        if len(cx) != len(cy) or any(a is not b for a, b in zip(cx, cy)): r.ghost["%calls"] = tuple(a for a, b in zip(cx, cy) if a is b)
        if "%inner" in y.ghost: r.ghost["%inner"] = y.ghost["%inner"]
        else: r.ghost.pop("%inner", None)
        for k in list(r.env):
            if k not in y.env: del r.env[k]; continue
            a, b = x.env[k], y.env[k]
            if a is b: continue
            if not (isinstance(a, V) and isinstance(b, V) and a.ty.kind == b.ty.kind and a.ty.bits == b.ty.bits and a.sh is None and b.sh is None and not s.maybe_nan(a) and not s.maybe_nan(b)): return None
            if a._t is not None and b._t is not None and a.t.eq(b.t): continue
            diff.append((k, a, b))
        r.names = [{n: v for n, v in d.items() if v in r.env} for d in x.names[:len(y.names)]]
        for f in nx: r.assume(z3.Implies(c, f))
        for f in ny: r.assume(z3.Implies(lnot(c), f))
        for k, a, b in diff:
            t = s.fresh("join", a.t.sort()); r.assume(z3.Implies(c, t == a.t), z3.Implies(lnot(c), t == b.t)); r.env[k] = V(t, a.ty)
        for k in arrs:
            a, b = x.objs[k], y.objs[k]; t = s.fresh(a.name, a.arr.sort()); r.assume(z3.Implies(c, t == a.arr), z3.Implies(lnot(c), t == b.arr)); r.objs[k] = a.copy(arr=t, sh=None if a.sh is None else t)
        s.stats["joined"] = s.stats.get("joined", 0) + 1
        return (r, None)
    def s_ReturnStmt(s, n, st):
        if not n.kids: outs = [(st, ("return", None))]
        else: outs = [(st1, ("return", v)) for st1, v in s.ev(n.kids[0], st)]
        if s.callpath == ():
            for st1, _ in outs: st1.ghost["%names"] = [dict(x) for x in st1.names]
        return outs
    def s_BreakStmt(s, n, st): return [(st, ("break",))]
    def s_ContinueStmt(s, n, st): return [(st, ("continue",))]
    def s_SwitchStmt(s, n, st):
        c, body = n.kids[0], n.kids[-1]
        out = []
        # flatten: list of (kind, values, stmts)
        items = []
        def flat(k):
            if k.kind == "CaseStmt":
                items.append(("case", k.kids[0])); flat(k.kids[-1])
            elif k.kind == "DefaultStmt":
                items.append(("default", None)); flat(k.kids[-1])
            else: items.append(("stmt", k))
        for k in body.kids: flat(k)
        for st1, v in s.ev(c, st):
            consts = []
            for i, (kd, x) in enumerate(items):
                if kd == "case":
                    _, cvv = s.ev1(x, st1.clone()); consts.append((i, cvv.t))
            entries = []
            for i, t in consts: entries.append((cmpc("==", v.t, t), i))
            dflt = [i for i, (kd, _) in enumerate(items) if kd == "default"]
            none = land(*[cmpc("!=", v.t, t) for _, t in consts])
            entries.append((none, dflt[0] if dflt else len(items)))
            for cond, i in entries:
                if not s.feasible(st1, cond): continue
                stc = st1.clone(); stc.assume(cond)
                stm = [x for kd, x in items[i:] if kd == "stmt"]
                for st2, sig in s.seq(stm, 0, [stc], n):
                    out.append((st2, None if sig and sig[0] == "break" else sig))
        return out
    # ---------------------------------------------------------------- loops
    def s_ForStmt(s, n, st):
        init, _, cond, inc, body = (n.kids + [None] * 5)[:5]
        saved = [dict(x) for x in st.names]
        starts = s.ex(init, st) if init is not None and init.kind != "Null" else [(st, None)]
        out = []
        for st1, sig in starts:
            out += s.loop(n, st1, cond if cond and cond.kind != "Null" else None, inc if inc and inc.kind != "Null" else None, body, False)
        for st2, _ in out:
            for a, b in zip(st2.names, saved): a.clear(); a.update(b)
        return out
    def s_WhileStmt(s, n, st): return s.loop(n, st, n.kids[0], None, n.kids[-1], False)
    def s_DoStmt(s, n, st):
        # do { body } while (0) from macros: no loop
        c = n.kids[1]
        if c.kind == "IntegerLiteral" and int(c["value"]) == 0:
            return [(st1, None if sig and sig[0] in ("break", "continue") else sig) for st1, sig in s.ex(n.kids[0], st)]
        return s.loop(n, st, n.kids[1], None, n.kids[0], True)
    def evc(s, cond, st):
        """evaluate a condition -> list of (st, bool)"""
        if cond is None: return [(st, TRUE)]
        return [(st1, v.truth() if isinstance(v, V) else lnot(v.null)) for st1, v in s.ev(cond, st)]
    def loop(s, n, st, cond, inc, body, dowhile):
        key = s.loopkey(n)
        s.loops_seen.add(key)
        ann = s.con.loops.get(key)
        if ann is None: ann = Loop()
        st.ghost = dict(st.ghost)
        s.name_arrays(st)
        # --- unrolling with concrete conditions
        if ann.unroll or (cond is not None and ann.inv is None and s.concrete_bound(n, st, cond, inc, body)):
            return s.unroll(n, st, cond, inc, body, dowhile, ann.unroll or 80)
        v_pre = View(s, st)
        if ann.pre: 
            for _, f in named(ann.pre(v_pre), "f"): st.assume(f)
        if ann.ghost_init:
            for g, t in ann.ghost_init(v_pre).items(): st.ghost[g] = s.nameite(st, g, t)
        if ann.cut_pre: s.cutlist(st, ann.cut_pre(View(s, st)), f"loop {key} ", n.line)
        at_entry = st.clone()
        W = {w for w in s.modcache.get(key, ()) if w[0] == "ghost" or w[1] in (at_entry.env if w[0] == "var" else at_entry.objs)}
        for attempt in range(8):
            nob = len(s.obls)
            saved_rec = s.rec
            s.rec = set()
            cnt0 = s.cnt
            res = s.loop_once(n, key, ann, at_entry.clone(), at_entry, W, cond, inc, body, dowhile)
            wr = s.rec; s.rec = saved_rec
            new = set()
            for w in wr:
                if w[0] == "var" and w[1] in at_entry.env: new.add(w)
                elif w[0] in ("obj", "fld") and w[1] in at_entry.objs: new.add(w)
                elif w[0] == "ghost" and w[1] in at_entry.ghost and w[1] not in ann.ghost: new.add(w)
            if new <= W:
                if s.rec is not None: s.rec |= {w for w in wr if w[0] != "ghost"}   # the enclosing loop compares its own back edge
                return res
            W |= new
            s.modcache[key] = frozenset(W) | s.modcache.get(key, frozenset())
            del s.obls[nob:]
        raise ToolLimit("loop modification set does not stabilise")
    def name_arrays(s, st):
        """a fresh constant for every array that is a chain of updates"""
        for o, ob in list(st.objs.items()):
            if isinstance(ob, Arr) and not ob.freed and z3.is_store(ob.arr):
                c = s.fresh(ob.name, ob.arr.sort()); st.assume(c == ob.arr)
                sh = c if ob.sh is None or ob.sh.eq(ob.arr) else ob.sh
                if z3.is_store(sh): d = s.fresh(ob.name + "'", sh.sort()); st.assume(d == sh); sh = d
                st.objs[o] = ob.copy(arr=c, sh=sh if ob.sh is not None else None)
    def concrete_bound(s, n, st, cond, inc, body):
        """for (i = c0; i < c1; i++) with small literal bounds and no annotation"""
        if cond is None or inc is None or cond.kind != "BinaryOperator": return False
        try:
            q, s.quiet = s.quiet, s.quiet + 1
            st2 = st.clone()
            l = s.ev1(cond.kids[0], st2)[1]; r = s.ev1(cond.kids[1], st2)[1]
            return isinstance(l, V) and isinstance(r, V) and l.ty.isint() and isc(l.t) and isc(r.t) and abs(cv(r.t) - cv(l.t)) <= 70
        except (ToolLimit, PathEnd): return False
        finally: s.quiet = q
    def unroll(s, n, st, cond, inc, body, dowhile, bound):
        out, cur = [], [st]
        for it in range(bound + 1):
            nxt = []
            for st1 in cur:
                for st2, c in s.evc(cond, st1) if not (dowhile and it == 0) else [(st1, TRUE)]:
                    if s.feasible(st2, lnot(c)):
                        stx = st2.clone(); stx.assume(lnot(c)); out.append((stx, None))
                    if not s.feasible(st2, c): continue
                    st2.assume(c)
                    for st3, sig in s.ex(body, st2):
                        if sig is None or sig[0] == "continue":
                            if inc is not None:
                                for st4, _ in s.ev(inc, st3): nxt.append(st4)
                            else: nxt.append(st3)
                        elif sig[0] == "break": out.append((st3, None))
                        else: out.append((st3, sig))
            cur = nxt
            if not cur: return out
        raise ToolLimit("unrolling bound exceeded")
    def loop_once(s, n, key, ann, st, at_entry, W, cond, inc, body, dowhile):
        line = n.line
        # auto invariants: bounds of counters
        auto = s.auto_inv(st, W, cond, inc, body)
        ventry = View(s, at_entry)
        def inv_list(view, final=False):
            r = []
            for i, f in enumerate(auto): r.append((f"auto{i}", f(view._st)))
            if ann.inv:
                r += named(ann.inv(view, ventry) if ann.inv.__code__.co_argcount >= 2 else ann.inv(view), "inv")
            return r
        if not dowhile:
            base = len(st.facts)
            for nme, g in inv_list(View(s, st)): s.oblige(st, "inv-init", f"loop {key} {nme}", g, line, base)
        # havoc
        st = at_entry.clone()
        if ann.forget:
            n0 = len(s.entry_facts)
            st.facts = st.facts[:n0] + [f for f in st.facts[n0:] if not has_quant(f)]
        s.havoc(st, W, at_entry)
        for g, srt in ann.ghost.items(): st.ghost[g] = s.fresh("ghost." + g, srt)
        vh = View(s, st)
        out = []
        if dowhile:
            raise ToolLimit("do-while loop")
        for nme, g in inv_list(vh): st.assume(g)
        if ann.head:
            for _, f in named(ann.head(vh), "f"): st.assume(f)
        head = st.clone(); vhead = View(s, head)
        for st1, c in s.evc(cond, st):
            stx = st1.clone()
            if s.feasible(stx, lnot(c)):
                stx.assume(lnot(c))
                if ann.exit:
                    for _, f in named(ann.exit(View(s, stx)), "f"): stx.assume(f)
                if ann.cut_exit:
                    s.cutlist(stx, ann.cut_exit(View(s, stx)), f"loop {key} ", line)
                out.append((stx, None))
            if not s.feasible(st1, c): continue
            st1.assume(c)
            for st2, sig in s.ex(body, st1):
                if sig is None or sig[0] == "continue":
                    nexts = [st3 for st3, _ in s.ev(inc, st2)] if inc is not None else [st2]
                    for st3 in nexts:
                        # the names visible at the loop head
                        for a, b in zip(st3.names, head.names): a.clear(); a.update(b)
                        v3 = View(s, st3)
                        if ann.ghost_end:
                            for g, t in ann.ghost_end(vhead, v3).items(): st3.ghost[g] = s.nameite(st3, g, t)
                        if ann.end:
                            for _, f in named(ann.end(vhead, v3), "f"): st3.assume(f)
                        if ann.cut:
                            s.cutlist(st3, ann.cut(vhead, v3), f"loop {key} ", line)
                        base = len(st3.facts)
                        # ghosts that a nested loop changes are modified by this loop too
                        if s.rec is not None:
                            for g, t in st3.ghost.items():
                                if g[0] != "%" and g in head.ghost and not t.eq(head.ghost[g]): s.rec.add(("ghost", g))
                        # calls made in the body are not visible at the head
                        if "%calls" in head.ghost: st3.ghost["%calls"] = head.ghost["%calls"]
                        else: st3.ghost.pop("%calls", None)
                        v3 = View(s, st3)
                        for nme, g in inv_list(v3): s.oblige(st3, "inv-keep", f"loop {key} {nme}", g, line, base)
                        if ann.variant:
                            v0, v1 = ann.variant(vhead), ann.variant(v3)
                            s.oblige(st3, "variant", f"loop {key} terminates", land(v1 < v0, v0 >= 0), line)
                        s.stats["paths"] += 1
                elif sig[0] == "break":
                    if ann.exit:
                        for a, b in zip(st2.names, head.names): a.clear(); a.update(b)
                        for _, f in named(ann.exit(View(s, st2)), "f"): st2.assume(f)
                    if ann.cut_exit:
                        s.cutlist(st2, ann.cut_exit(View(s, st2)), f"loop {key} ", line)
                    out.append((st2, None))
                else: out.append((st2, sig))
        return out
    def havoc(s, st, W, at_entry):
        for w in sorted(W, key=str):
            if w[0] == "ghost":
                st.ghost[w[1]] = s.fresh("ghost." + w[1], st.ghost[w[1]].sort())
            elif w[0] == "var":
                v = st.env.get(w[1])
                if isinstance(v, V):
                    if v.ty.isint():
                        t = s.fresh("v"); st.env[w[1]] = V(t, v.ty); st.assume(s.rng(t, v.ty))
                        for fr in reversed(st.names):
                            for nme, k in fr.items():
                                if k == w[1]:
                                    st.facts.pop(); t = s.fresh(nme); st.env[w[1]] = V(t, v.ty, sh=s.fresh(nme + "'") if v.ty.zzp else None); st.assume(s.rng(t, v.ty)); break
                            else: continue
                            break
                    else: st.env[w[1]] = V(s.fresh("v", z3.RealSort()), v.ty)
                elif isinstance(v, P):
                    if v.obj is None: 
                        st.env[w[1]] = P(None, null=s.fresh("null", z3.BoolSort())) if not z3.is_true(v.null) else v
                        if z3.is_true(v.null): raise ToolLimit("pointer variable reassigned in a loop from NULL")
                    else:
                        ob = st.objs[v.obj]
                        gen = v.gen
                        st.env[w[1]] = P(v.obj, s.fresh("off"), v.null, s.fresh("gen") if isinstance(ob, Arr) else None, v.ety)
            elif w[0] == "fld":
                x = st.objs[w[1]].f[w[2]]
                if isinstance(x, V): s.havoc_fld(st, w[1], w[2])
                elif isinstance(x, P) and x.obj is not None:
                    ob = st.objs[w[1]].copy(); g = s.fresh("gen") if isinstance(st.objs.get(x.obj), Arr) else None
                    ob.f[w[2]] = P(x.obj, s.fresh("off"), x.null, g, x.ety); st.objs[w[1]] = ob
                elif x is None or isinstance(x, P): raise ToolLimit("pointer field reassigned in a loop")
            elif w[0] == "obj":
                ob = st.objs[w[1]]
                if w[2] == "arr":
                    st.objs[w[1]] = ob.copy(arr=s.fresh(ob.name, ob.arr.sort()), sh=s.fresh(ob.name + "'", ob.arr.sort()) if ob.ety.zzp else None)
                elif w[2] == "size":
                    nn = s.fresh(f"len({ob.name})"); st.assume(nn >= 0)
                    st.objs[w[1]] = ob.copy(n=nn, blen=mul(I(s.tu.sizeof(ob.ety)), nn), gen=s.fresh("gen"))
                elif w[2] == "freed": raise ToolLimit("block freed in a loop")
    # automatic invariants: counters with constant step, and pointers that stay current
    def auto_inv(s, st, W, cond, inc, body):
        out = []
        entry = s.cur_entry = st
        vars_ = [w[1] for w in W if w[0] == "var"]
        steps = {}
        for key in vars_:
            v = entry.env.get(key)
            if isinstance(v, V) and v.ty.isint():
                d = s.step_of(key, inc, body)
                if d is None: continue
                e0 = v.t
                if d > 0: out.append(lambda q, k=key, e0=e0: cmpc(">=", q.env[k].t, e0))
                else: out.append(lambda q, k=key, e0=e0: cmpc("<=", q.env[k].t, e0))
                steps[key] = d
            elif isinstance(v, P) and v.obj is not None and isinstance(entry.objs.get(v.obj), Arr):
                # pointer variable refreshed after growth: it stays the start of the current block
                out.append(lambda q, k=key: land(cmpc("==", q.env[k].off, I(0)), q.env[k].gen == q.objs[q.env[k].obj].gen) if q.env[k].gen is not None else TRUE)
        for w in W:
            if w[0] == "fld":
                x = entry.objs[w[1]].f[w[2]]
                if isinstance(x, P) and x.obj is not None and isinstance(entry.objs.get(x.obj), Arr):
                    out.append(lambda q, o=w[1], f=w[2]: land(cmpc("==", q.objs[o].f[f].off, I(0)), q.objs[o].f[f].gen == q.objs[q.objs[o].f[f].obj].gen))
        # bound from the loop condition
        if cond is not None and cond.kind == "BinaryOperator" and cond["opcode"] in ("<", "<=", ">", ">=", "!="):
            l = strip(cond.kids[0]); r = cond.kids[1]
            if l.kind == "DeclRefExpr" and l["ref"] in steps and not s.refs_modified(r, W):
                k = l["ref"]; e0 = entry.env[k].t; d = steps[k]
                try:
                    s.quiet += 1
                    q = entry.clone(); rr = s.ev(r, q)
                    if len(rr) == 1 and isinstance(rr[0][1], V) and rr[0][1].ty.isint():
                        bt = rr[0][1].t; op = cond["opcode"]
                        if d == 1 and op in ("<", "!="): out.append(lambda q, k=k, e0=e0, b=bt: lor(cmpc("<=", q.env[k].t, b), cmpc("==", q.env[k].t, e0)))
                        elif d > 0 and op == "<=": out.append(lambda q, k=k, e0=e0, b=bt, d=d: lor(cmpc("<=", q.env[k].t, add(b, I(d))), cmpc("==", q.env[k].t, e0)))
                        elif d == -1 and op in (">",): out.append(lambda q, k=k, e0=e0, b=bt: lor(cmpc(">=", q.env[k].t, b), cmpc("==", q.env[k].t, e0)))
                        elif d == -1 and op in (">=",): out.append(lambda q, k=k, e0=e0, b=bt: lor(cmpc(">=", q.env[k].t, sub(b, I(1))), cmpc("==", q.env[k].t, e0)))
                except (ToolLimit, PathEnd): pass
                finally: s.quiet -= 1
        return out
    def refs_modified(s, e, W):
        if e.kind == "DeclRefExpr": return ("var", e["ref"]) in W
        if e.kind in ("CallExpr",): return True
        if e.kind == "ArraySubscriptExpr" or (e.kind == "UnaryOperator" and e["opcode"] == "*"):
            # conservative: any array of that object modified?
            if any(w[0] == "obj" and w[2] == "arr" for w in W):
                if s.may_touch(e, W): return True
        if e.kind == "MemberExpr":
            if any(w[0] == "fld" and w[2] == e["name"] for w in W): return True
        return any(s.refs_modified(k, W) for k in e.kids)
    def may_touch(s, e, W):
        if e.kind != "ArraySubscriptExpr": return True
        try:
            s.quiet += 1
            r = s.ev(e.kids[0], s.cur_entry.clone())
            return not (len(r) == 1 and isinstance(r[0][1], P) and r[0][1].obj is not None and ("obj", r[0][1].obj, "arr") not in W)
        except (ToolLimit, PathEnd): return True
        finally: s.quiet -= 1
    def step_of(s, key, inc, body):
        """constant step if every modification of the variable is ++/--/+= c in one direction"""
        ds = []
        def walk(n):
            if n.kind == "UnaryOperator" and n["opcode"] in ("++", "--") and isref(n.kids[0], key): ds.append(1 if n["opcode"] == "++" else -1)
            elif n.kind == "CompoundAssignOperator" and isref(n.kids[0], key):
                c = strip(n.kids[1])
                if n["opcode"] in ("+=", "-=") and c.kind == "IntegerLiteral": ds.append(int(c["value"]) * (1 if n["opcode"] == "+=" else -1))
                else: ds.append(None)
            elif n.kind == "BinaryOperator" and n["opcode"] == "=" and isref(n.kids[0], key):
                r = strip(n.kids[1])
                if r.kind == "BinaryOperator" and r["opcode"] in "+-" and isref(strip(r.kids[0]), key) and strip(r.kids[1]).kind == "IntegerLiteral":
                    ds.append(int(strip(r.kids[1])["value"]) * (1 if r["opcode"] == "+" else -1))
                else: ds.append(None)
            for k in n.kids: walk(k)
        if inc is not None: walk(inc)
        walk(body)
        if not ds or None in ds: return None
        if all(d > 0 for d in ds): return max(ds) if len(ds) == 1 else 2
        if all(d < 0 for d in ds): return min(ds) if len(ds) == 1 else -2
        return None
    # ---------------------------------------------------------------- loop numbering
    def loopkey(s, n):
        k = s.loopkeys.get((s.callpath, n.id))
        if k is not None: return k
        s.number_loops()
        k = s.loopkeys.get((s.callpath, n.id))
        if k is None: raise ToolLimit("unnumbered loop")
        return k
    def number_loops(s):
        r = s.prog.find(s.con.fname, s.tu0)
        counters = {"": 0}
        def visit(n, prefix, path, tu, stack, infn):
            if n.kind in ("ForStmt", "WhileStmt", "DoStmt"):
                if n.kind == "DoStmt" and n.kids[1].kind == "IntegerLiteral": 
                    for k in n.kids: visit(k, prefix, path, tu, stack, infn)
                    return
                i = counters.get(prefix, 0); counters[prefix] = i + 1
                key = f"{prefix}.{i}" if prefix else str(i)
                s.loopkeys[(path, n.id)] = key
                for k in n.kids: visit(k, key, path, tu, stack, infn)
                return
            if n.kind == "CallExpr":
                for k in n.kids: visit(k, prefix, path, tu, stack, infn)
                f = n.kids[0]
                while f.kind in ("ImplicitCastExpr", "ParenExpr"): f = f.kids[0]
                if f.kind == "DeclRefExpr":
                    name = f["refname"]
                    if name in stack or (name in s.contracts and name not in s.con.inline): return
                    r = s.prog.find(name, tu)
                    if r is not None and name != s.con.fname: visit(r[1].d["body"], prefix, path + (n.id,), r[0], stack + [name], name)
                return
            for k in n.kids: visit(k, prefix, path, tu, stack, infn)
        visit(r[1].d["body"], "", (), r[0], [s.con.fname], s.con.fname)
    # ---------------------------------------------------------------- verification of one function
    def run(s, budget=120):
        s.deadline = time.time() + budget
        con = s.con
        r = s.prog.find(con.fname, s.tu)
        if r is None: raise ToolLimit(f"function {con.name} not found")
        s.tu, fn = r; s.tu0 = s.tu
        s.boxed, s.scanned = set(), set()
        s.boxscan(fn)
        st = State()
        args = {}
        pds = fn.d["params"]
        if len(pds) != len(con.params): raise ToolLimit(f"{con.name}: number of parameters changed")
        for pd, cn in zip(pds, con.params):
            t = s.tu.ty(pd["qt"])
            if t.kind == "arr": t = Ty("ptr", elem=t.elem)
            v = s.symbolic(st, cn, t, con.shapes, cn)
            args[cn] = v
            if pd.id in s.boxed: st.env[pd.id] = s.box(st, cn, t, v)
            else: st.env[pd.id] = v
            st.names[-1][pd["name"]] = pd.id
        for a, b in getattr(con, "alias", ()): 
            args[b] = args[a]
            st.env[pds[con.params.index(b)].id] = args[a]
        s.args = args
        s.pnames = {cn: pd["name"] for pd, cn in zip(pds, con.params)}
        s.entry = st.clone()
        s.specs = {g: z3.Const(f"spec.{g}", srt) for g, srt in con.spec.items()}
        v0 = View(s, st, args)
        for nme, f in named(con.pre(v0), "pre"): st.assume(f)
        for _, f in named(con.facts_entry(v0), "f"): st.assume(f)
        s.entry = st.clone()
        s.entry_facts = list(st.facts)
        st.ghost.update(con.ghosts0(v0) if hasattr(con, "ghosts0") else {})
        outs = s.ex(fn.d["body"], st)
        s.returns = 0
        s.line = fn.line
        o = View(s, s.entry, args)
        s.exit_states = []
        for st1, sig in outs:
            if sig is not None and sig[0] != "return": raise ToolLimit("stray signal")
            res = sig[1] if sig else None
            rt = s.tu.ty(fn.d["rettype"]) if fn.d["rettype"] != "void" else None
            if rt is not None and res is not None: res = s.coerce(st1, res, rt)
            s.returns += 1
            n = View(s, st1, args)
            n._res = wrap(s, st1, res) if res is not None else None
            n._ghosts = con.witness(n)
            for _, f in named(con.facts_exit(o, n, wrap(s, st1, res)), "f"): st1.assume(f)
            s.cutlist(st1, con.cuts(o, n, wrap(s, st1, res)), "", fn.line)
            pre_n = len(st1.facts)
            for nme, g in named(con.post(o, n, wrap(s, st1, res)), "post"):
                s.oblige(st1, "post", nme, g, fn.line, pre_n)
            s.frame(st1, con, args, fn.line, res)
            s.exit_states.append(st1.facts[:pre_n])
        return s.obls
    def frame(s, st, con, args, line, res):
        allowed = set(); flds = set()
        for path in con.assigns:
            parts = path.split(".")
            v = args[parts[0]]
            if isinstance(v, (Opaque, Str)) or v.obj is None: continue
            o = v.obj
            if len(parts) == 1:
                allowed.add(o)
                todo = [o]
                while todo:
                    c = todo.pop(); ob = s.entry.objs[c]; allowed.add(c)
                    if isinstance(ob, Struct):
                        for k, x in ob.f.items():
                            if isinstance(x, V): flds.add((c, k))
                            elif isinstance(x, Loc): todo.append(x.obj)
                continue
            for k in parts[1:-1]:
                x = s.entry.objs[o].f[k]
                if x.obj is None: break
                o = x.obj
            last = parts[-1]
            if last == "*":
                for k, x in s.entry.objs[o].f.items():
                    if isinstance(x, V): flds.add((o, k))
                    elif isinstance(x, (P, Loc)) and x.obj: allowed.add(x.obj); flds.add((o, k))
                continue
            if last.endswith("()"):
                k = last[:-2]; x = s.entry.objs[o].f[k]; flds.add((o, k))
                if x.obj: allowed.add(x.obj); allowed.add(("size", x.obj))
                continue
            if last.endswith("&"): flds.add((o, last[:-1])); continue
            x = s.entry.objs[o].f[last]
            if isinstance(x, V) : flds.add((o, last))
            elif x.obj: allowed.add(x.obj); 
        frees = getattr(con, "frees", False)
        for oid, ob in s.entry.objs.items():
            cur = st.objs.get(oid)
            if cur.freed and not ob.freed:
                if not frees: s.oblige(st, "frame", f"{ob.name} not freed", FALSE, line)
                continue
            if isinstance(ob, Arr):
                if oid not in allowed and not cur.arr.eq(ob.arr):
                    k = z3.Int("k!frame")
                    s.oblige(st, "frame", f"{ob.name} unchanged", z3.ForAll([k], z3.Implies(land(0 <= k, k < ob.n), z3.Select(cur.arr, k) == z3.Select(ob.arr, k))), line)
                if ("size", oid) not in allowed and not cur.gen.eq(ob.gen): s.oblige(st, "frame", f"{ob.name} not reallocated", cur.gen == ob.gen, line)
            elif isinstance(ob, Struct):
                for k, x in ob.f.items():
                    y = cur.f[k]
                    if (oid, k) in flds: continue
                    if isinstance(x, V):
                        if not x.t.eq(y.t): s.oblige(st, "frame", f"{ob.name}.{k} unchanged", x.t == y.t, line)
                    elif isinstance(x, P):
                        if not isinstance(y, P) or y.obj != x.obj: s.oblige(st, "frame", f"{ob.name}.{k} unchanged", FALSE, line)
                        else:
                            g = land(cmpc("==", y.off, x.off), y.null == x.null if not y.null.eq(x.null) else TRUE)
                            if not z3.is_true(g): s.oblige(st, "frame", f"{ob.name}.{k} unchanged", g, line)

def conj(f):
    if z3.is_and(f): return [y for c in f.children() for y in conj(c)]
    return [] if z3.is_true(f) else [f]
def flatids(fs): return {y.get_id() for f in fs for y in conj(f)}
_hq = {}
def has_quant(f):
    """(the memo keeps the terms alive: ids are recycled)"""
    k = f.get_id()
    if k not in _hq: _hq[k] = (_hq_slow(f), f)
    return _hq[k][0]
def _hq_slow(f):
    seen = set(); todo = [f]
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x): return True
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        todo.extend(x.children())
    return False
def sel(a, i):
    """select with syntactic read-over-write"""
    while True:
        if z3.is_store(a):
            if a.arg(1).eq(i): return a.arg(2)
            if isc(a.arg(1)) and isc(i): a = a.arg(0); continue
        if z3.is_K(a): return a.arg(0)
        return z3.Select(a, i)
def absz(x): return z3.If(x >= 0, x, -x)
def absr(x): return z3.If(x >= 0, x, -x)
def strip(e):
    while e.kind in ("ImplicitCastExpr", "ParenExpr", "CStyleCastExpr", "ConstantExpr"): e = e.kids[0]
    return e
def isref(e, key):
    e = strip(e)
    return e.kind == "DeclRefExpr" and e.get("ref") == key
def short(t):
    r = str(t).replace("\n", " ")
    return r if len(r) < 60 else r[:57] + "..."
def nm(e):
    e = strip(e)
    if e.kind == "DeclRefExpr": return e["refname"]
    if e.kind == "MemberExpr": return nm(e.kids[0]) + ("->" if e.get("isArrow") else ".") + e["name"]
    if e.kind == "ArraySubscriptExpr": return nm(e.kids[0]) + "[]"
    return e.kind
def src(e):
    """readable rendering for obligation names"""
    k = e.kind
    if k in ("ImplicitCastExpr", "ParenExpr", "ConstantExpr"): return src(e.kids[0])
    if k == "CStyleCastExpr": return src(e.kids[0])
    if k == "DeclRefExpr": return e["refname"]
    if k in ("IntegerLiteral", "FloatingLiteral", "CharacterLiteral"): return str(e["value"])
    if k in ("BinaryOperator", "CompoundAssignOperator"): return f"{src(e.kids[0])} {e['opcode']} {src(e.kids[1])}"
    if k == "UnaryOperator": return (src(e.kids[0]) + e["opcode"]) if e.get("isPostfix") else e["opcode"] + src(e.kids[0])
    if k == "ArraySubscriptExpr": return f"{src(e.kids[0])}[{src(e.kids[1])}]"
    if k == "MemberExpr": return src(e.kids[0]) + ("->" if e.get("isArrow") else ".") + e["name"]
    if k == "CallExpr": return src(e.kids[0]) + "(...)"
    if k == "UnaryExprOrTypeTraitExpr": return "sizeof"
    return k
def const_eval(e):
    e = strip(e)
    if e.kind in ("IntegerLiteral", "CharacterLiteral"): return I(int(e["value"]))
    raise ToolLimit("constant")
def named(xs, default):
    out = []
    for i, x in enumerate(xs or []):
        if isinstance(x, tuple): out.append(x)
        else: out.append((f"{default}{i}", x))
    return [(a, z3.BoolVal(b) if isinstance(b, bool) else b) for a, b in out]

# -------------------------------------------------------------------- views for contracts
class Ptr:
    """proxy of a pointer in a view"""
    def __init__(s, ex, st, p): s._ex, s._st, s._p = ex, st, p
    @property
    def null(s): return s._p.null
    @property
    def obj(s): return s._st.objs[s._p.obj]
    @property
    def A(s): return s.obj.arr
    @property
    def S(s): return s.obj.sh if s.obj.sh is not None else s.obj.arr
    @property
    def len(s):
        return sub(s.obj.n, s._p.off)
    @property
    def off(s): return s._p.off
    @property
    def freed(s): return s.obj.freed
    @property
    def fresh(s): return z3.BoolVal(bool(s.obj.fresh)) if s._p.obj is not None else FALSE
    @property
    def ok(s):
        """valid, current pointer to the start of a live block"""
        if s._p.obj is None: return FALSE
        o = s.obj
        if o.freed: return FALSE
        if isinstance(o, Arr) and s._p.gen is not None and not s._p.gen.eq(o.gen): return land(s._p.off == 0, s._p.gen == o.gen)
        return cmpc("==", s._p.off, I(0))
    def __getitem__(s, i):
        if isinstance(i, int): i = I(i)
        return sel(s.obj.arr, add(s._p.off, i))
    def sh(s, i):
        if isinstance(i, int): i = I(i)
        return sel(s.S, add(s._p.off, i))
    def __getattr__(s, k):
        if k.startswith("_"): raise AttributeError(k)
        if s._p.obj is None: raise ToolLimit("view through a null pointer: ." + k)
        o = s._st.objs[s._p.obj]
        if isinstance(o, Struct) and k in o.f: return wrap(s._ex, s._st, o.f[k])
        raise AttributeError(k)
    def isnull(s): return s._p.obj is None
def wrap(ex, st, v):
    if v is None: return None
    if isinstance(v, V): return v.t
    if isinstance(v, P): return Ptr(ex, st, v)
    if isinstance(v, Loc): return Ptr(ex, st, P(v.obj))
    return v
class View:
    def __init__(s, ex, st, args=None, frame_only=False):
        s._ex, s._st, s._args, s._fo = ex, st, args, frame_only
        s._ghosts = {}
    def _val(s, k):
        if s._args is not None and k in s._args: return s._args[k]
        if s._fo: raise AttributeError(k)
        for fr in reversed(s._st.names):
            if k in fr: return s._st.env[fr[k]]
        for fr in reversed(s._st.ghost.get("%names", s._st.ghost.get("%inner", ()))):
            if k in fr and fr[k] in s._st.env: return s._st.env[fr[k]]
        # parameters under their contract name
        pn = s._ex.pnames.get(k) if hasattr(s._ex, "pnames") else None
        if pn is not None:
            for fr in reversed(s._st.names):
                if pn in fr: return s._st.env[fr[pn]]
            return s._ex.args[k]
        alt = s._ex.rename(k) if hasattr(s._ex, "rename") else None
        if alt:
            for fr in reversed(s._st.names):
                if alt in fr: return s._st.env[fr[alt]]
        raise Unattached(f"annotation refers to local '{k}', not found in {s._ex.con.name}")
    def __getattr__(s, k):
        if k.startswith("_"): raise AttributeError(k)
        v = s._val(k)
        if isinstance(v, Loc) and s._ex.boxed and isinstance(s._st.objs[v.obj], Arr):
            o = s._st.objs[v.obj]
            for fr in reversed(s._st.names):
                if k in fr and fr[k] in s._ex.boxed: return sel(o.arr, I(0))
        return wrap(s._ex, s._st, v)
    def sh(s, k):
        """shadow of a scalar local"""
        return s._val(k).shadow()
    def let(s, name, t):
        """a fresh constant equal to t (keeps conditionals out of patterns)"""
        c = s._ex.fresh(name, t.sort()); s._st.assume(c == t); return c
    def g(s, k):
        if k in s._ghosts: return s._ghosts[k]
        if not s._fo and k in s._ex.specs: return s._ex.specs[k]
        return s._st.ghost[k]
    def arg(s, k):
        """value of a parameter at entry, seen in this state's heap"""
        return wrap(s._ex, s._st, s._ex.args[k])
    @property
    def old(s): return View(s._ex, s._ex.entry, s._ex.args)
    @property
    def outer(s):
        """the locals of the function under contract, inside a loop of an inlined function"""
        import copy
        st = copy.copy(s._st); st.names = st.names[:1]; st.ghost = {k: (x[:1] if k in ("%inner", "%names") else x) for k, x in st.ghost.items()}
        v = View(s._ex, st, s._args, s._fo); v._ghosts = s._ghosts; return v
    def calls(s, name): return [c for c in s._st.ghost.get("%calls", ()) if c.name == name]
    def call(s, name):
        c = s.calls(name)
        if not c: raise Unattached(f"annotation refers to a call of {name}, not found on this path of {s._ex.con.name}")
        return c[-1]

class Unattached(ToolLimit): pass
