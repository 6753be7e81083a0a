"""C19: SHA-256 padding and chaining; C20: the generator. Arrays of bytes; blk(h, m, o): compression of the 64 bytes of m at o into h"""
from dv.lib import *
from contracts.rref import Compr
blk = z3.Function("sha256_compress", ARR, ARR, Int, ARR)
def eq8(a, b): return land(*[rd(a, w) == rd(b, w) for w in range(8)])
class BlkExt:
    """the compression function reads eight words of the state and 64 bytes of the message (definition; the code of the block function is compared with the standard in sha_bv.py)"""
    @staticmethod
    def inst(h, m, o, h2, m2, o2): nocap([k_], h, m, o, h2, m2, o2); return imp(land(eq8(h, h2), forall(k_, imp(land(0 <= k_, k_ < 64), rd(m, o + k_) == rd(m2, o2 + k_)))), blk(h, m, o) == blk(h2, m2, o2))
it = Def("sha256_chain", [ARR, ARR, Int], lambda h, m, o: (I(0), h), lambda prev, h, m, o, n: blk(prev, m, o + 64 * n), ret=ARR)
def agree(m, o, m2, o2, n): return forall(k_, imp(land(o <= k_, k_ < o + n), rd(m, k_) == rd(m2, k_ - o + o2)), [rd(m, k_)])
ItExt = Lemma("chain_ext", [ARR, ARR, Int, ARR, ARR, Int, Int], lambda h, m, o, h2, m2, o2, n: imp(land(eq8(h, h2), agree(m, o, m2, o2, 64 * n)), eq8(it(h, m, o, n), it(h2, m2, o2, n))), lo=lambda *a: I(0),
    uses_base=lambda h, m, o, h2, m2, o2: [it.zero(h, m, o), it.zero(h2, m2, o2)], uses_step=lambda h, m, o, h2, m2, o2, n: [it.unfold(h, m, o, n), it.unfold(h2, m2, o2, n), BlkAt.inst(it(h, m, o, n), m, o + 64 * n, it(h2, m2, o2, n), m2, o2 + 64 * n)])
class BlkAt:
    """BlkExt with the 64 bytes written out"""
    @staticmethod
    def inst(h, m, o, h2, m2, o2): return imp(land(eq8(h, h2), *[rd(m, o + k) == rd(m2, o2 + k) for k in range(64)]), blk(h, m, o) == blk(h2, m2, o2))
ItAdd = Lemma("chain_add", [ARR, ARR, Int, Int, Int], lambda h, m, o, a, n: imp(a >= 0, it(h, m, o, a + n) == it(it(h, m, o, a), m, o + 64 * a, n)), lo=lambda *a: I(0),
    uses_base=lambda h, m, o, a: [it.zero(it(h, m, o, a), m, o + 64 * a)], uses_step=lambda h, m, o, a, n: [it.unfold(it(h, m, o, a), m, o + 64 * a, n), it.unfold(h, m, o, a + n), a + (n + 1) == a + n + 1, o + 64 * a + 64 * n == o + 64 * (a + n), add(a, n + 1) == a + n + 1])
H0 = (0x6a09e667, 0xbb67ae85, 0x3c6ef372, 0xa54ff53a, 0x510e527f, 0x9b05688c, 0x1f83d9ab, 0x5be0cd19)
IV = z3.K(Int, I(0))
for w_, x_ in enumerate(H0): IV = z3.Store(IV, I(w_), I(x_))
LowDiv = Lemma("low_div", [Int, Int], lambda a, b: imp(land(a >= 0, b >= 0), land(*[(a * (1 << 32) + b) / I(1 << s) == a * (1 << (32 - s)) + b / I(1 << s) for s in (24, 16, 8)])), induct=False)
LowByte = Lemma("low_byte", [Int, Int], lambda a, b: imp(land(a >= 0, b >= 0), land(*[((a * (1 << 32) + b) / I(1 << s)) % 256 == (b / I(1 << s)) % 256 for s in (24, 16, 8)])), uses=lambda a, b: [LowDiv.inst(a, b)] + [LowMod.inst(a * (1 << (24 - s)), b / I(1 << s)) for s in (24, 16, 8)], induct=False)
HighDiv = Lemma("high_div", [Int, Int], lambda a, b: imp(land(a >= 0, b >= 0, b < (1 << 32)), land(*[(a * (1 << 32) + b) / I(1 << (32 + s)) == a / I(1 << s) for s in (24, 16, 8, 0)])), induct=False)
LowMod = Lemma("low_mod", [Int, Int], lambda a, b: (a * 256 + b) % 256 == b % 256, induct=False)
def nblocks(L): return (L + 72) / 64
PAD = Compr("sha256_padded", [ARR, Int], lambda M, L, k: pad_at(M, L, k))
def pad_at(M, L, k):
    e = 64 * nblocks(L) - 8; r = I(0)
    for d in range(8): r = z3.If(k == e + d, ((8 * L) / I(256 ** (7 - d))) % 256, r)
    return z3.If(k < L, rd(M, k), z3.If(k == L, I(128), z3.If(k < e, I(0), r)))
DG = z3.Function("sha256_digest", ARR, Int, ARR)
def dg_bytes(A, off, M, L): return land(*[rd(A, add(off, I(4 * w + k))) == (rd(it(IV, PAD(M, L), I(0), nblocks(L)), w) / I(256 ** (3 - k))) % 256 for w in range(8) for k in range(4)])
def dg_def(M, L): return dg_bytes(DG(M, L), I(0), M, L)
def represents(c, M, L):
    """the context holds the state after the first L bytes of M"""
    return [("message length", land(L >= 0, L < (1 << 61))), ("buffered bytes", c.num == L % 64), ("bit length", c.Nh * (1 << 32) + c.Nl == 8 * L), ("buffer", forall(k_, imp(land(0 <= k_, k_ < L % 64), rd(c.data.A, k_) == rd(M, L - L % 64 + k_)), [rd(c.data.A, k_)])),
            ("chaining value", eq8(c.h.A, it(IV, M, I(0), L / 64))), ("digest size", c.md_len == 32)]
class Init(Contract):
    name = "spasm_SHA256_init"; file = "sha256.c"; params = ["c"]; assigns = ("c",)
    def post(s, o, n, r): return [("initial value", eq8(n.c.h.A, IV)), ("empty", land(n.c.num == 0, n.c.Nl == 0, n.c.Nh == 0, n.c.md_len == 32))]
class Block(Contract):
    name = "sha256_block_data_order"; file = "sha256.c"; params = ["ctx", "in", "num"]; shapes = {"in": "elem:unsigned char"}; assigns = ("ctx.h",)
    def pre(s, v): return [("blocks", land(v.num >= 0, 64 * v.num <= getattr(v, "in").len))]
    def post(s, o, n, r): m = getattr(o, "in"); return [("chained", eq8(n.ctx.h.A, it(o.ctx.h.A, m.A, m.off, o.num))), ("words", land(*[land(rd(n.ctx.h.A, w) >= 0, rd(n.ctx.h.A, w) < (1 << 32)) for w in range(8)]))]
class Update(Contract):
    name = "spasm_SHA256_update"; file = "sha256.c"; params = ["c", "data", "len"]; shapes = {"data": "elem:unsigned char"}; spec = {"M": ARR, "L": Int}; assigns = ("c.h", "c.Nl", "c.Nh", "c.data", "c.num")
    def pre(s, v):
        M, L = v.g("M"), v.g("L")
        return represents(v.c, M, L) + [("length", land(v.len >= 0, L + v.len < (1 << 61), v.len <= v.data.len)), ("new bytes", forall(k_, imp(land(0 <= k_, k_ < v.len), rd(v.data.A, v.data.off + k_) == rd(M, L + k_)), [rd(v.data.A, v.data.off + k_)]))]
    def post(s, o, n, r): return represents(n.c, n.g("M"), n.g("L") + o.len)
    def facts_entry(s, v): return []
    def after_block(v, c):
        M, L = v.g("M"), v.g("L"); o, num = c.o, c.o.num; m = getattr(o, "in"); q = L / 64; h = o.ctx.h.A
        first = z3.simplify(num).eq(I(1)); at = L - L % 64; r = []
        # a completed buffer: bytes at .. at + 63 of the message; or the blocks that lie in the caller's data
        if m._p.obj == v.c.data._p.obj: return [it.zero(h, m.A, m.off), it.unfold(h, m.A, m.off, I(0)), it.unfold(IV, M, I(0), q), BlkExt.inst(h, m.A, m.off, it(IV, M, I(0), q), M, 64 * q)]
        b = v.old; base = L + m.off - b.data.off; q2 = base / 64
        return [ItExt.inst(h, m.A, m.off, it(IV, M, I(0), q2), M, 64 * q2, num), ItAdd.inst(IV, M, I(0), q2, num)]
    after = {"sha256_block_data_order": after_block}
class Final(Contract):
    name = "spasm_SHA256_final"; file = "sha256.c"; params = ["md", "c"]; spec = {"M": ARR, "L": Int}; assigns = ("md", "c.h", "c.data", "c.num")
    def pre(s, v): return represents(v.c, v.g("M"), v.g("L")) + [("room", v.md.len >= 32)]
    def post(s, o, n, r): M, L = n.g("M"), n.g("L"); return [("digest", land(*[n.md[k] == rd(DG(M, L), k) for k in range(32)]))]
    def facts_entry(s, v): M, L = v.g("M"), v.g("L"); return [PAD.at(M, L), dg_def(M, L), LowByte.inst(v.c.Nh, v.c.Nl), HighDiv.inst(v.c.Nh, v.c.Nl), ItExt.inst(IV, M, I(0), IV, PAD(M, L), I(0), L / 64)]
    def cuts(s, o, v, r):
        M, L = v.g("M"), v.g("L"); Pd = PAD(M, L); cs = v.calls("sha256_block_data_order"); Nh, Nl = o.c.Nh, o.c.Nl; e = 64 * nblocks(L) - 8; out = [("blocks", nblocks(L) == L / 64 + len(cs))]
        out += [(f"length byte {d}", ((8 * L) / I(256 ** (7 - d))) % 256 == ((Nh / I(256 ** (3 - d))) % 256 if d < 4 else (Nl / I(256 ** (7 - d))) % 256)) for d in range(8)]
        for n, c in enumerate(cs):
            m = getattr(c.o, "in"); b = 64 * (L / 64 + n); last = n == len(cs) - 1
            out += [(f"block {n}: body", forall(k_, imp(land(0 <= k_, k_ < (56 if last else 64)), rd(m.A, m.off + k_) == rd(Pd, b + k_)), [rd(m.A, m.off + k_)]))]
            if last: out += [(f"block {n}: byte {d}", rd(m.A, m.off + 56 + d) == rd(Pd, b + 56 + d)) for d in range(8)]
            out += [(f"block {n}: padded message", forall(k_, imp(land(0 <= k_, k_ < 64), rd(m.A, m.off + k_) == rd(Pd, b + k_)), [rd(m.A, m.off + k_)]), [f"block {n}: body"] + [f"block {n}: byte {d}" for d in range(8)]), (f"after block {n}", eq8(c.n.ctx.h.A, it(IV, Pd, I(0), L / 64 + n + 1)))]
        return out
    def after_block(v, c):
        M, L = v.g("M"), v.g("L"); m = getattr(c.o, "in"); h = c.o.ctx.h.A; q = L / 64 + (len(v.calls("sha256_block_data_order")) - 1); Pd = PAD(M, L)
        return [it.zero(h, m.A, m.off), it.unfold(h, m.A, m.off, I(0)), it.unfold(IV, Pd, I(0), q), BlkExt.inst(h, m.A, m.off, it(IV, Pd, I(0), q), Pd, 64 * q)]
    after = {"sha256_block_data_order": after_block}
# ------------------------------------------------------------------ C20
def be(x, k): return (x / I(256 ** (3 - k))) % 256
PadExt = Lemma("padded_ext", [ARR, ARR, Int], lambda M, M2, L: imp(land(L >= 0, agree(M, I(0), M2, I(0), L)), agree(PAD(M, L), I(0), PAD(M2, L), I(0), 64 * nblocks(L))), uses=lambda M, M2, L: [PAD.at(M, L), PAD.at(M2, L)], induct=False)
ChainExt = Lemma("padded_chain_ext", [ARR, ARR, Int], lambda M, M2, L: imp(land(L >= 0, agree(M, I(0), M2, I(0), L)), eq8(it(IV, PAD(M, L), I(0), nblocks(L)), it(IV, PAD(M2, L), I(0), nblocks(L)))), uses=lambda M, M2, L: [PadExt.inst(M, M2, L), ItExt.inst(IV, PAD(M, L), I(0), IV, PAD(M2, L), I(0), nblocks(L))], induct=False)
DgExt = Lemma("digest_ext", [ARR, ARR, Int], lambda M, M2, L: imp(land(L >= 0, agree(M, I(0), M2, I(0), L)), land(*[rd(DG(M, L), k) == rd(DG(M2, L), k) for k in range(32)])),
    uses=lambda M, M2, L: [dg_def(M, L), dg_def(M2, L), ChainExt.inst(M, M2, L)], induct=False)
Dg44 = Lemma("digest_ext_44", [ARR, ARR], lambda M, M2: imp(land(*[rd(M, k) == rd(M2, k) for k in range(44)]), land(*[rd(DG(M, I(44)), k) == rd(DG(M2, I(44)), k) for k in range(32)])), uses=lambda M, M2: [DgExt.inst(M, M2, I(44))], induct=False)
# the block hashed for eight consecutive words: seed, prime, counter, sequence number
def ctr_at(S, P, Q, c, k):
    r = I(0)
    for base, x in ((32, P), (36, c), (40, Q)):
        for d in range(4): r = z3.If(k == base + d, be(x, d), r)
    return z3.If(land(0 <= k, k < 32), rd(S, k), r)
BLK = Compr("prng_block", [ARR, Int, Int, Int], ctr_at)
def BLK44(*a): return land(*[rd(BLK(*a), k) == z3.simplify(ctr_at(*a, I(k))) for k in range(44)])
def blk_bytes(A, S, P, Q, c): return land(*[rd(A, k) == rd(S, k) for k in range(32)], *[rd(A, 32 + d) == be(P, d) for d in range(4)], *[rd(A, 36 + d) == be(c, d) for d in range(4)], *[rd(A, 40 + d) == be(Q, d) for d in range(4)])
def word(S, P, Q, c, w):
    """word w (0..7) of the digest of block c, big-endian"""
    D = DG(BLK(S, P, Q, c), I(44)); return z3.Sum(*[I(256 ** (3 - k)) * rd(D, 4 * w + k) for k in range(4)])
def wd(S, P, Q, T):
    """word T of the stream"""
    D = DG(BLK(S, P, Q, T / 8), I(44)); return z3.Sum(*[I(256 ** (3 - k)) * rd(D, 4 * (T % 8) + k) for k in range(4)])
WD = z3.Function("prng_word", ARR, Int, Int, Int, Int)
band = z3.Function("bitand32", Int, Int, Int)
POW2 = [1 << j for j in range(33)]
def seeded(x): return field_ok(x.field) + [("modulus", land(x.field.p == x.prime, lor(*[x.mask == q - 1 for q in POW2]), x.mask + 1 >= x.prime, x.mask + 1 < 2 * x.prime))]
def stream(v, S, Q):
    """the generator holds block number counter - 1; the next block is prepared"""
    P = v.prime
    return [("position", land(v.counter >= 1, v.counter < (1 << 31) - 2, 0 <= v.i, v.i <= 8)), ("next block", blk_bytes(v.block.A, S, P, Q, v.counter)), ("current words", land(*[rd(v.hash.A, k) == rd(DG(BLK(S, P, Q, v.counter - 1), I(44)), k) for k in range(32)])), ("seed bytes", land(*[land(rd(S, k) >= 0, rd(S, k) < 256) for k in range(32)])), ("sequence number", land(Q >= 0, Q < (1 << 32)))]
class Rehash(Contract):
    name = "rehash"; file = "spasm_prng.c"; params = ["ctx"]; assigns = ("ctx.block", "ctx.hash", "ctx.counter", "ctx.i")
    def pre(s, v): return [("counter", land(v.ctx.counter >= 0, v.ctx.counter < (1 << 31) - 2))]
    def post(s, o, n, r):
        b = o.ctx.block.A; c = o.ctx.counter + 1
        return [("digest of the block", land(*[rd(n.ctx.hash.A, k) == rd(DG(b, I(44)), k) for k in range(32)])), ("counter", land(n.ctx.counter == c, n.ctx.i == 0)), ("block", land(*[rd(n.ctx.block.A, k) == (be(c, k - 36) if 36 <= k < 40 else rd(b, k)) for k in range(44)]))]
    def spec_spasm_SHA256_update(s, v, o): return {"M": v.old.ctx.block.A, "L": I(0)}
    def spec_spasm_SHA256_final(s, v, o): return {"M": v.old.ctx.block.A, "L": I(44)}
    after = {"spasm_SHA256_init": lambda v, c: [it.zero(IV, v.old.ctx.block.A, I(0))]}
class U32c(Contract):
    name = "spasm_prng_u32"; file = "spasm_prng.c"; params = ["ctx"]; assigns = ("ctx.block", "ctx.hash", "ctx.counter", "ctx.i"); spec = {"S": ARR, "Q": Int}
    def pre(s, v): return stream(v.ctx, v.g("S"), v.g("Q"))[1:] + [("position", land(v.ctx.counter >= 1, v.ctx.counter < (1 << 31) - 3, 0 <= v.ctx.i, v.ctx.i <= 8))]
    def post(s, o, n, r):
        S, Q, P = n.g("S"), n.g("Q"), o.ctx.prime; c, i = o.ctx.counter, o.ctx.i
        return stream(n.ctx, S, Q) + [("one word further", imp(i < 8, land(n.ctx.counter == c, n.ctx.i == i + 1))), ("next block started", imp(i == 8, land(n.ctx.counter == c + 1, n.ctx.i == 1)))] + [("next word of the stream", r == wd(S, P, Q, 8 * (c - 1) + i))]
    def cuts(s, o, v, r):
        S, Q, P = v.g("S"), v.g("Q"), o.ctx.prime; c, i = o.ctx.counter, o.ctx.i
        return [(f"word {w}", imp(i == w, r == word(S, P, Q, c - 1 if w < 8 else c, w % 8))) for w in range(9)] + [("number of the word", land((8 * (c - 1) + i) / 8 == z3.If(i == 8, c, c - 1), (8 * (c - 1) + i) % 8 == z3.If(i == 8, 0, i)))]
    after = {"rehash": lambda v, c: [Dg44.inst(c.o.ctx.block.A, BLK(v.g("S"), c.o.ctx.prime, v.g("Q"), c.o.ctx.counter)), BLK44(v.g("S"), c.o.ctx.prime, v.g("Q"), c.o.ctx.counter)]}
class ZZp(Contract):
    name = "spasm_prng_ZZp"; file = "spasm_prng.c"; params = ["ctx"]; assigns = ("ctx.block", "ctx.hash", "ctx.counter", "ctx.i"); spec = {"S": ARR, "Q": Int}
    def pre(s, v): return stream(v.ctx, v.g("S"), v.g("Q")) + seeded(v.ctx)
    def at(x): return 8 * (x.counter - 1) + x.i
    def rejected(v, c0, x): return forall(t_, imp(land(ZZp.at(c0) <= t_, t_ < ZZp.at(x)), band(WD(v.g("S"), c0.prime, v.g("Q"), t_), c0.mask) >= c0.prime), [WD(v.g("S"), c0.prime, v.g("Q"), t_)])
    def post(s, o, n, r):
        S, Q, c0 = n.g("S"), n.g("Q"), o.ctx; T = ZZp.at(n.ctx) - 1; x = band(WD(S, c0.prime, Q, T), c0.mask)
        return stream(n.ctx, S, Q) + [("canonical", canon(o.ctx.field, r)), ("a word was drawn", T >= ZZp.at(c0)), ("first acceptable word", land(x < c0.prime, z0(c0.prime, x - r))), ("earlier words were rejected", forall(t_, imp(land(ZZp.at(c0) <= t_, t_ < T), band(WD(S, c0.prime, Q, t_), c0.mask) >= c0.prime), [WD(S, c0.prime, Q, t_)]))]
    def facts_entry(s, v): return [forall(t_, WD(v.g("S"), v.ctx.prime, v.g("Q"), t_) == wd(v.g("S"), v.ctx.prime, v.g("Q"), t_), [WD(v.g("S"), v.ctx.prime, v.g("Q"), t_)])]
    def spec_spasm_prng_u32(s, v, o): return {"S": v.g("S"), "Q": v.g("Q")}
    after = {"spasm_prng_u32": lambda v, c: [WD(v.g("S"), v.old.ctx.prime, v.g("Q"), ZZp.at(c.o.ctx)) == wd(v.g("S"), v.old.ctx.prime, v.g("Q"), ZZp.at(c.o.ctx))]}
    # head: the generator is not asked for more than 2^34 words in its life (see the assumptions of C20)
    loops = {"0": Loop(inv=lambda v: stream(v.ctx, v.g("S"), v.g("Q")) + [("rejected so far", ZZp.rejected(v, v.old.ctx, v.ctx)), ("forward", ZZp.at(v.ctx) >= ZZp.at(v.old.ctx))], head=lambda v: [v.ctx.counter < (1 << 31) - 4])}
class Seed(Contract):
    name = "spasm_prng_seed"; file = "spasm_prng.c"; params = ["seed", "prime", "seq", "ctx"]; assigns = ("ctx",); spec = {"S": ARR}
    def pre(s, v): return [("modulus", land(v.prime >= 3, v.prime <= 4294967291, v.prime % 2 == 1)), ("32 bytes", land(v.seed.len >= 32, *[land(v.seed[k] == rd(v.g("S"), k), 0 <= rd(v.g("S"), k), rd(v.g("S"), k) < 256) for k in range(32)]))]
    def post(s, o, n, r): return stream(n.ctx, n.g("S"), o.seq) + seeded(n.ctx) + [("first word next", land(n.ctx.counter == 1, n.ctx.i == 0, n.ctx.prime == o.prime))]
    after = {"rehash": lambda v, c: [Dg44.inst(c.o.ctx.block.A, BLK(v.g("S"), v.old.prime, v.old.seq, I(0))), BLK44(v.g("S"), v.old.prime, v.old.seq, I(0))]}
    loops = {"1": Loop(inv=lambda v: [("power of two", lor(*[v.mask == q for q in POW2])), ("smallest", land(v.mask < 2 * v.old.prime))])}
class SeedSimple(Contract):
    name = "spasm_prng_seed_simple"; file = "spasm_prng.c"; params = ["prime", "seed", "seq", "ctx"]; assigns = ("ctx",); spec = {"S": ARR}
    def pre(s, v):
        S = v.g("S"); lo, hi = v.seed % (1 << 32), v.seed / I(1 << 32)
        return [("modulus", land(v.prime >= 3, v.prime <= 4294967291, v.prime % 2 == 1)), ("bytes of the seed", land(*[rd(S, k) == be(lo, k) for k in range(4)], *[rd(S, 4 + k) == be(hi, k) for k in range(4)], *[rd(S, k) == 0 for k in range(8, 32)]))]
    def post(s, o, n, r): return stream(n.ctx, n.g("S"), o.seq) + seeded(n.ctx) + [("first word next", land(n.ctx.counter == 1, n.ctx.i == 0, n.ctx.prime == o.prime))]
    def spec_spasm_prng_seed(s, v, o): return {"S": v.g("S")}
ALL = [Rehash(), U32c(), ZZp(), Seed(), SeedSimple(), Init(), Block(), Update(), Final()]
