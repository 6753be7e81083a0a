"""C front end: clang's JSON AST of the real sources -> compact node objects.  No source text is rewritten."""
import json, subprocess, os, re, sys
sys.setrecursionlimit(100000)

class ToolLimit(Exception):
    """the engine cannot treat this construct (never a verdict)"""

# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ("kind", "bits", "signed", "elem", "name", "n", "zzp")
    def __init__(s, kind, bits=0, signed=True, elem=None, name=None, n=None, zzp=False):
        s.kind, s.bits, s.signed, s.elem, s.name, s.n, s.zzp = kind, bits, signed, elem, name, n, zzp
    def __repr__(s):
        if s.kind == "int": return ("zzp:" if s.zzp else "") + ("i" if s.signed else "u") + str(s.bits)
        if s.kind == "ptr": return repr(s.elem) + "*"
        if s.kind == "arr": return f"{s.elem!r}[{s.n}]"
        if s.kind == "struct": return "struct " + s.name
        return s.kind
    def isint(s): return s.kind in ("int", "bool")
    def range(s):
        if s.kind == "bool": return 0, 1
        if s.signed: return -(1 << (s.bits - 1)), (1 << (s.bits - 1)) - 1
        return 0, (1 << s.bits) - 1

BASE = {
 "void": Ty("void"), "char": Ty("int", 8), "signed char": Ty("int", 8), "unsigned char": Ty("int", 8, False),
 "short": Ty("int", 16), "unsigned short": Ty("int", 16, False), "int": Ty("int", 32), "unsigned int": Ty("int", 32, False),
 "unsigned": Ty("int", 32, False), "long": Ty("int", 64), "unsigned long": Ty("int", 64, False), "long long": Ty("int", 64),
 "unsigned long long": Ty("int", 64, False), "_Bool": Ty("bool", 8, False), "bool": Ty("bool", 8, False),
 "double": Ty("double", 64), "float": Ty("float", 32), "__int128": Ty("int", 128), "long double": Ty("double", 128),
 "unsigned __int128": Ty("int", 128, False),
}
VOID, INT, I64, U64, BOOL, DOUBLE = BASE["void"], BASE["int"], BASE["long"], BASE["unsigned long"], BASE["_Bool"], BASE["double"]
U8, U32 = BASE["unsigned char"], BASE["unsigned int"]

class Node:
    __slots__ = ("kind", "d", "kids", "id", "ty", "line", "file")
    def __init__(s, kind, d, kids): s.kind, s.d, s.kids, s.id = kind, d, kids, d.get("id")
    def __getitem__(s, k): return s.d[k]
    def get(s, k, default=None): return s.d.get(k, default)
    def __repr__(s): return f"<{s.kind}>"

KEEP = ("id", "name", "opcode", "value", "castKind", "isArrow", "isPostfix", "hasElse", "hasInit", "hasVar", "storageClass", "computeResultType", "computeLHSType", "hasElse", "declId", "targetLabelDeclId", "argType", "previousDecl", "tagUsed", "completeDefinition", "inline")

class TU:
    """one translation unit"""
    N = 0
    def __init__(s, path, extra=()):
        TU.N += 1; s.tag = "%d:" % TU.N
        s.path = path
        s.typedefs, s.structs, s.funcs, s.enums, s.globals_ = {}, {}, {}, {}, {}
        here = os.path.dirname(os.path.abspath(__file__))
        cmd = ["clang", "-std=gnu99", "-include", "omp.h", "-I", os.path.join(here, "inc"), "-I", os.path.dirname(path), *extra, "-Xclang", "-ast-dump=json", "-fsyntax-only", "-w", path]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0: raise ToolLimit("clang failed on %s: %s" % (path, r.stderr[:400]))
        s.line = 0; s.file = path
        root = json.loads(r.stdout)
        s.anon = {}
        for d in root.get("inner", []): s.top(d)
    # -- location tracking (clang omits unchanged line/file)
    def loc(s, d):
        l = d.get("loc") or {}
        l = l.get("expansionLoc", l)
        b = (d.get("range") or {}).get("begin") or {}
        b = b.get("expansionLoc", b)
        for q in (l, b):
            if "file" in q: s.file = q["file"]
            if "line" in q: s.line = q["line"]
        return s.line
    def top(s, d):
        s.loc(d)
        k = d["kind"]
        if k == "TypedefDecl":
            s.typedefs[d["name"]] = d["type"].get("qualType")
            inner = d.get("inner", [])
            # typedef struct {..} name;  typedef enum {..} name
            for q in inner:
                t = q.get("ownedTagDecl") or (q.get("inner") or [{}])[0].get("decl") if q.get("kind") == "ElaboratedType" else None
                if t and t.get("id") in s.anon:
                    if s.anon[t["id"]][0] == "struct": s.structs[d["name"]] = s.anon[t["id"]][1]; s.typedefs[d["name"]] = "struct " + d["name"]
                    else: s.typedefs[d["name"]] = "unsigned int"
        elif k == "RecordDecl":
            if d.get("completeDefinition"):
                fs = [(f["name"], f["type"].get("qualType")) for f in d.get("inner", []) if f["kind"] == "FieldDecl" and "name" in f]
                if "name" in d: s.structs[d["name"]] = fs
                s.anon[d["id"]] = ("struct", fs)
            for f in d.get("inner", []): s.loc(f)
        elif k == "EnumDecl":
            v = 0
            for c in d.get("inner", []):
                if c["kind"] != "EnumConstantDecl": continue
                for q in c.get("inner", []):
                    if "value" in q: v = int(q["value"])
                s.enums[s.tag + c["id"]] = v; v += 1
            s.anon[d["id"]] = ("enum", None)
            if "name" in d: s.typedefs["enum " + d["name"]] = "unsigned int"
        elif k == "FunctionDecl":
            n = s.conv(d)
            if any(c.kind == "CompoundStmt" for c in n.kids) or d["name"] not in s.funcs: 
                if not (d["name"] in s.funcs and s.funcs[d["name"]].d.get("body")):
                    s.funcs[d["name"]] = n
                    n.d["body"] = next((c for c in n.kids if c.kind == "CompoundStmt"), None)
                    n.d["params"] = [c for c in n.kids if c.kind == "ParmVarDecl"]
                    n.d["rettype"] = d["type"]["qualType"].split("(")[0].strip()
        elif k == "VarDecl":
            n = s.conv(d); s.globals_[n.id] = n
    def conv(s, d):
        if not d or "kind" not in d: return Node("Null", {"id": None}, [])
        line = s.loc(d)
        dd = {k: d[k] for k in KEEP if k in d}
        for k in ("id", "declId", "targetLabelDeclId", "previousDecl"):
            if k in dd: dd[k] = s.tag + dd[k]
        if "type" in d: dd["qt"] = d["type"].get("qualType"); dd["dt"] = d["type"].get("desugaredQualType")
        if "referencedDecl" in d:
            r = d["referencedDecl"]; dd["ref"] = s.tag + r["id"]; dd["refname"] = r.get("name"); dd["refkind"] = r["kind"]
        if "referencedMemberDecl" in d: dd["member"] = d.get("name")
        if "argType" in d: dd["argqt"] = d["argType"].get("qualType")
        kids = []
        for c in d.get("inner", []):
            if isinstance(c, dict) and c.get("kind", "").endswith("Attr"): continue
            if isinstance(c, dict) and c.get("kind", "").endswith("Comment"): continue
            kids.append(s.conv(c))
        n = Node(d["kind"], dd, kids)
        n.line, n.file = line, s.file
        n.ty = None
        return n
    # -- types
    def ty(s, q):
        if isinstance(q, Ty): return q
        c = s._tc.get(q) if hasattr(s, "_tc") else None
        if c is not None: return c
        if not hasattr(s, "_tc"): s._tc = {}
        t = s._ty(q); s._tc[q] = t
        return t
    def _ty(s, q, zz=False):
        q0 = q
        q = re.sub(r"\b(const|volatile|restrict|__restrict|register)\b", " ", q)
        q = re.sub(r"\s+", " ", q).strip()
        if q.endswith(")") and "(*)" in q: return Ty("ptr", elem=Ty("func"))
        if q.endswith(")"): return Ty("func")
        m = re.match(r"^(.*?)((\[\d*\])+)$", q)
        if m:
            dims = re.findall(r"\[(\d*)\]", m.group(2))
            t = s._ty(m.group(1))
            for n in reversed(dims): t = Ty("arr", elem=t, n=int(n) if n else None)
            return t
        m = re.match(r"^(.*)\[(\w+)\]$", q)
        if m: return Ty("arr", elem=s._ty(m.group(1)), n=None)
        if q.endswith("*"): return Ty("ptr", elem=s._ty(q[:-1]))
        if q in BASE: return BASE[q]
        if q == "spasm_ZZp": return Ty("int", 32, True, zzp=True)
        if q.startswith("struct "):
            return Ty("struct", name=q[7:])
        if q.startswith("enum "): return BASE["unsigned int"]
        if q in s.typedefs:
            u = s.typedefs[q]
            if u == q: return Ty("struct", name=q)
            return s._ty(u)
        if q in s.structs: return Ty("struct", name=q)
        if q == "FILE": return Ty("struct", name="_IO_FILE")
        if q.startswith("__builtin") or q.startswith("__va"): return Ty("opaque")
        raise ToolLimit("type " + q0)
    def sizeof(s, t):
        if t.kind in ("int", "bool", "double", "float"): return t.bits // 8
        if t.kind == "ptr": return 8
        if t.kind == "arr": return s.sizeof(t.elem) * t.n
        if t.kind == "struct":
            off, mx = 0, 1
            for _, q in s.structs[t.name]:
                u = s.ty(q); z = s.sizeof(u); a = s.align(u); mx = max(mx, a)
                off = (off + a - 1) // a * a + z
            return (off + mx - 1) // mx * mx
        if t.kind == "void": return 1
        raise ToolLimit("sizeof " + repr(t))
    def align(s, t):
        if t.kind == "arr": return s.align(t.elem)
        if t.kind == "struct": return max(s.align(s.ty(q)) for _, q in s.structs[t.name])
        return s.sizeof(t)
