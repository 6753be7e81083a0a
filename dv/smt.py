"""Discharging obligations: z3 (in forked workers) first, then cvc5 / z3 with other settings."""
import z3, os, time, subprocess, tempfile, multiprocessing as mp, signal, hashlib
from .core import *

UNSH = {}
def unshadow(f, bound=()):
    """the same formula with nested bound variables of distinct names: the text form of a term refers to them by name"""
    if not has_quant(f): return f
    if not bound:
        r = UNSH.get(f.get_id())
        if r is not None: return r[1]
    if not z3.is_quantifier(f):
        ch = [unshadow(c, bound) for c in f.children()]
        r = f if all(a.eq(b) for a, b in zip(ch, f.children())) else z3.And(*ch) if z3.is_and(f) else z3.Or(*ch) if z3.is_or(f) else f.decl()(*ch)
    else:
        names = [f.var_name(i) for i in range(f.num_vars())]
        if not has_quant(f.body()) and not any(n in bound for n in names): r = f
        else:
            new = [n if n not in bound else n + "^" * (1 + max([len(b) - len(n) for b in bound if b.startswith(n) and set(b[len(n):]) <= {"^"}])) for n in names]
            vs = [z3.Const(n, f.var_sort(i)) for i, n in enumerate(new)]; rv = list(reversed(vs))
            body = z3.substitute_vars(f.body(), *rv); b2 = unshadow(body, tuple(bound) + tuple(new))
            if b2.eq(body) and new == names: r = f
            else:
                pats = [z3.MultiPattern(*[z3.substitute_vars(c, *rv) for c in f.pattern(i).children()]) for i in range(f.num_patterns())]
                r = (z3.ForAll if f.is_forall() else z3.Exists)(vs, b2, patterns=pats)
    if not bound: UNSH[f.get_id()] = (f, r)
    return r
def smt2(facts, goal, logic="ALL"):
    s = z3.Solver()
    for f in facts: s.add(unshadow(f))
    s.add(z3.Not(unshadow(goal)))
    return s.to_smt2()

def z3_try(facts, goal, ms, opts=None, seed=0):
    # a fresh context per attempt: the outcome does not depend on what the process did before
    c = z3.Context()
    s = z3.Solver(ctx=c)
    s.set("timeout", ms)
    if seed: s.set("random_seed", seed)
    for k, v in (opts or {}).items(): s.set(k, v)
    for f in facts: s.add(f.translate(c))
    s.add(z3.Not(goal).translate(c))
    r = s.check()
    return str(r), (s if r == z3.sat else None)

_sy = {}
def syms(t):
    """uninterpreted symbols of a term (the memo keeps the terms alive: ids are recycled)"""
    k = t.get_id()
    if k in _sy: return _sy[k][0]
    out, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(x): todo.append(x.body()); continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED: out.add(d.name())
            todo.extend(x.children())
    _sy[k] = (out, t)
    return out
def relevant(facts, goal, rounds=2):
    """facts sharing uninterpreted symbols with the goal (transitively, a few rounds)"""
    cur = set(syms(goal)); keep = [False] * len(facts)
    ss = [syms(f) for f in facts]
    for _ in range(rounds):
        add_ = set()
        for i, q in enumerate(ss):
            if not keep[i] and (q & cur): keep[i] = True; add_ |= q
        cur |= add_
    return [f for f, k in zip(facts, keep) if k]

CVC5 = "/usr/bin/cvc5"
def find_bin(*names):
    for n in names:
        for d in os.environ.get("PATH", "").split(":"):
            p = os.path.join(d, n)
            if os.access(p, os.X_OK): return p
    return None
def ext_try(cmd, text, sec):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f: f.write(text); name = f.name
    try:
        r = subprocess.run(cmd + [name], capture_output=True, text=True, timeout=sec + 2)
        out = r.stdout.strip().split("\n")[0] if r.stdout.strip() else ""
        return out if out in ("sat", "unsat", "unknown") else "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally: os.unlink(name)

def prove(facts, goal, tmo, base=None):
    """-> (status, backend, seconds)"""
    t0 = time.time()
    if z3.is_true(goal): return "unsat", "syntactic", 0.0
    if base is not None and base < len(facts):
        r = prove_(facts[:base], goal, tmo)
        if r[0] == "unsat": return r
        r = prove_(facts, goal, tmo)
        return r[0], r[1], time.time() - t0
    return prove_(facts, goal, tmo)
def prove_(facts, goal, tmo):
    t0 = time.time()
    facts = flat(facts)
    if any(uses_mul(f) for f in facts) or uses_mul(goal): facts = facts + [MUL_COMM]
    nq = [f for f in facts if not has_quant(f)]
    r, m = z3_try(nq, goal, min(1000, int(tmo * 250)))
    if r == "unsat": return r, "z3-qf", time.time() - t0
    model = None
    if r == "sat" and len(nq) == len(facts) and not has_quant(goal): return "sat", "z3-qf", time.time() - t0
    rel = relevant(facts, goal, 2)
    c5 = find_bin("cvc5"); text = []
    def cvc(sec):
        if not c5: return "unknown"
        if not text: text.append(smt2(facts, goal))
        return ext_try([c5, "--tlimit=%d" % int(sec * 1000), "--lang=smt2"], text[0], sec)
    for share in (0.12, 0.45):
        r, m = z3_try(facts, goal, int(tmo * 1000 * share))
        if r in ("unsat", "sat"): return r, "z3", time.time() - t0
        r = cvc(tmo * share)
        if r in ("unsat", "sat"): return r, "cvc5", time.time() - t0
        r, m = z3_try(rel, goal, int(tmo * 800 * share), {"smt.mbqi": False})
        if r == "unsat": return r, "z3-rel", time.time() - t0
    r, m = z3_try(facts, goal, int(tmo * 500), {"smt.mbqi": False, "smt.arith.solver": 2}, seed=7)
    if r == "unsat": return r, "z3-old-arith", time.time() - t0
    return "unknown", "portfolio", time.time() - t0

def uses_mul(t):
    """does the term contain the opaque product?"""
    return "fmul" in syms(t)
_fl = {}
def flat1(f):
    k = f.get_id()
    if k not in _fl: _fl[k] = ([y for c in f.children() for y in flat1(c)] if z3.is_and(f) else [f], f)
    return _fl[k][0]
def flat(facts):
    out, seen = [], set()
    for f in facts:
        for y in flat1(f):
            k = y.get_id()
            if k not in seen: seen.add(k); out.append(y)
    return out

def worker(obls, q, rq, tmo):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        i = q.get()
        if i is None: return
        o = obls[i]
        try:
            r = prove_(o.focus, o.goal, tmo) if o.focus is not None else ("unknown",)
            if r[0] != "unsat": r = prove(o.facts or [], o.goal, tmo, o.base)
        except Exception as e: r = ("error", str(e)[:300], 0.0)
        rq.put((i, r))

def discharge(obls, tmo=20, jobs=None, total=None):
    """-> list of (status, backend, seconds) aligned with obls; identical obligations are solved once"""
    jobs = jobs or int(os.environ.get("DV_JOBS", "8"))
    res = [None] * len(obls)
    todo = []
    seen = {}
    for i, o in enumerate(obls):
        if z3.is_true(o.goal): res[i] = ("unsat", "syntactic", 0.0); continue
        k = (tuple(f.get_id() for f in (o.facts or [])), o.goal.get_id())
        if k in seen: res[i] = ("dup", seen[k], 0.0); continue
        seen[k] = i; todo.append(i)
    t_end = time.time() + total if total else None
    if todo:
        ctx = mp.get_context("fork")
        for i in todo:       # shared by the workers
            for f in flat((obls[i].facts or []) + (obls[i].focus or [])): has_quant(f); syms(f)
        q, rq = ctx.Queue(), ctx.Queue()
        # hard kinds first
        order = sorted(todo, key=lambda i: (0 if obls[i].kind in ("inv-keep", "post") else 1, i))
        for i in order: q.put(i)
        n = min(jobs, len(todo))
        for _ in range(n): q.put(None)
        ps = [ctx.Process(target=worker, args=(obls, q, rq, tmo), daemon=True) for _ in range(n)]
        for p in ps: p.start()
        got = 0
        while got < len(todo):
            try:
                i, r = rq.get(timeout=5)
                res[i] = r; got += 1
            except Exception:
                if t_end and time.time() > t_end: break
                if not any(p.is_alive() for p in ps):
                    while not rq.empty():
                        i, r = rq.get(); res[i] = r; got += 1
                    break
            if t_end and time.time() > t_end: break
        for p in ps:
            if p.is_alive(): p.terminate()
        for i in todo:
            if res[i] is None: res[i] = ("unknown", "time budget", 0.0)
    for i, r in enumerate(res):
        if r[0] == "dup": res[i] = (res[r[1]][0], "same as #%d" % r[1], 0.0)
    return res
