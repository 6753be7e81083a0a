#!/opt/veriftools/pyvenv/bin/python
"""check.py <PROPERTY> : verifies the contracts of one property against /repo's current sources.  See DESIGN.md."""
import sys, os, time, json, traceback, importlib
ROOT = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, ROOT)
import z3
from dv.core import *
from dv.smt import discharge
import dv.lib as lib, dv.harness as harness
from dv.props import PROPS

def registry():
    reg = {}
    for f in sorted(os.listdir(os.path.join(ROOT, "contracts"))):
        if f.endswith(".py") and f != "__init__.py":
            for c in importlib.import_module("contracts." + f[:-3]).ALL: reg[c.name] = c
    return reg

def verify(prop, src, tier, t_end, log):
    """-> per-function records, failed obligations, limits"""
    cfg = PROPS[prop]; reg = registry(); prog = Program(src)
    tmo = 10 if tier == "quick" else 30
    recs, failed, limits = [], [], []
    assumed = set()
    for name in cfg["functions"]:
        con = reg[name]; t0 = time.time()
        rec = dict(function=name, file="src/" + con.file)
        recs.append(rec)
        ex = Exec(prog, {k: c for k, c in reg.items() if k != name}, con)
        try:
            ex.run(budget=max(10, min(240, t_end - time.time())))
            if not ex.obls or not ex.returns: raise ToolLimit("no return reached")
        except (ToolLimit, AttributeError, KeyError, RecursionError, IndexError, TypeError, z3.Z3Exception, AssertionError, ValueError, NotImplementedError) as e:
            rec.update(status="not attached", why=f"{type(e).__name__}: {e}"[:300]); limits.append((name, rec["why"]))
            log(f"  {name}: contract does not attach to the current source ({rec['why']})")
            if os.environ.get("DV_DEBUG"): traceback.print_exc()
            continue
        assumed |= ex.used_contracts
        t1 = time.time()
        res = discharge(ex.obls, tmo, total=max(5, t_end - time.time()))
        bad = [i for i, r in enumerate(res) if r[0] != "unsat"]
        if bad and len(bad) <= 24:      # second chance with a long timeout (not when clearly refuted everywhere)
            sub = [ex.obls[i] for i in bad]
            for i, r in zip(bad, discharge(sub, 6 * tmo if len(bad) <= 8 else 2 * tmo, total=max(5, min(150, t_end - time.time())))):
                if r[0] == "unsat" or res[i][0] != "sat": res[i] = r
            bad = [i for i in bad if res[i][0] != "unsat"]
        vac = [Obl(name, "vacuity", "exit", 0, f, FALSE) for f in ex.exit_states[:24]]
        vr = discharge(vac, 1.2, total=max(3, t_end - time.time()))
        dead = sum(r[0] == "unsat" for r in vr)
        if vac and dead == len(vac): limits.append((name, "every exit state is contradictory: vacuous proof")); rec["why"] = "vacuous"
        by = {}
        for r in res: by[r[1].split(" ")[0]] = by.get(r[1].split(" ")[0], 0) + 1
        rec.update(status="proved" if not bad else "failed", obligations=len(res), discharged=len(res) - len(bad), backends=by, paths=ex.returns, exits_not_refuted=len(vac) - dead,
                   inlined=sorted(ex.inlined), callee_contracts=sorted(ex.used_contracts), externals=sorted(ex.externals), exec_s=round(t1 - t0, 2), solve_s=round(time.time() - t1, 2))
        late = [i for i in bad if res[i][1] == "time budget"]      # never tried: the run was out of time, which decides nothing
        if late:
            rec["why"] = f"{len(late)} obligations not tried, out of time"; limits.append((name, rec["why"])); bad = [i for i in bad if i not in set(late)]
            rec["status"] = "failed" if bad else "not finished"
        for i in bad: failed.append((ex.obls[i], res[i]))
        log(f"  {name}: {len(res) - len(bad) - len(late)}/{len(res)} obligations discharged ({ex.returns} returns, {time.time() - t0:.1f}s)")
    for name, fn in cfg.get("extra", []):
        t0 = time.time(); rec = dict(function=name, file="src/sha256.c"); recs.append(rec)
        try: res = fn(src)
        except (ToolLimit, AttributeError, KeyError, RecursionError, IndexError, TypeError, z3.Z3Exception, AssertionError, ValueError) as e:
            rec.update(status="not attached", why=f"{type(e).__name__}: {e}"[:300]); limits.append((name, rec["why"])); log(f"  {name}: contract does not attach to the current source ({rec['why']})"); continue
        bad = [r for r in res if not r[1]]; assumed.discard(name)
        rec.update(status="proved" if not bad else "failed", obligations=len(res), discharged=len(res) - len(bad), backends={"z3:bv": len(res) - len(bad)}, paths=1, callee_contracts=[], externals=[], solve_s=round(time.time() - t0, 2))
        for r in bad: failed.append((Obl(name, "bit-vector", r[0], 0, [], FALSE), ("sat", r[2], r[3])))
        log(f"  {name}: {len(res) - len(bad)}/{len(res)} obligations discharged ({time.time() - t0:.1f}s)")
    lib.USED.update(cfg.get("lemmas", []))
    lo = lib.close_used()
    lrec = dict(obligations=len(lo), discharged=0)
    if lo:
        lr = discharge(lo, 20, total=max(10, t_end - time.time()))
        for o, r in zip(lo, lr):
            if r[0] == "unsat": lrec["discharged"] += 1
            elif r[1] == "time budget": limits.append((o.label(), "lemma not tried, out of time"))
            else: failed.append((o, r))
        log(f"  lemmas: {lrec['discharged']}/{len(lo)}")
    return recs, failed, limits, lrec, assumed

def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv: tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    src = os.environ.get("DV_SRC", "/repo/src")
    cfg = PROPS[prop]; t0 = time.time()
    budget = 480 if tier == "quick" else 3000
    lines = []
    def log(s): print(s, flush=True); lines.append(s)
    log(f"{prop}: {cfg['title']}")
    recs, failed, limits, lrec, assumed = verify(prop, src, tier, t0 + budget, log)
    hs = cfg.get("harness_s", 8) if tier == "quick" else cfg.get("harness_s", 8) * 15
    if failed and tier == "quick": hs = max(hs, 25)
    h = harness.search(prop, src, hs, seed, jobs=8 if failed else 4)
    log(f"  bounded replay harness: {h['status']}, {h['cases']} cases, {h['seconds']:.1f}s")
    findings = known(prop)
    violation = None
    rp = os.path.join(ROOT, "out", f"{prop}.replay.txt"); os.makedirs(os.path.dirname(rp), exist_ok=True)
    if h["status"] == "fail":
        with open(rp, "w") as f:
            f.write(f"property {prop}: {cfg['title']}\nfailing input found by the replay harness replay/{prop.lower()}.c on the current sources ({src})\n")
            f.write(f"reproduce: seed={h.get('seed')} iteration={h.get('iter')}; {h.get('replayed')}\n\n{h['output']}\n\nfailed obligations:\n")
            for o, r in failed: f.write(f"  {o.label()}  [{r[0]}, {r[1]}]\n")
        violation = f"VIOLATION property={prop} replay={rp}"
    elif failed:
        with open(rp, "w") as f:
            f.write(f"property {prop}: {cfg['title']}\nno failing input found by the replay harness ({h['status']}, {h['cases']} cases)\n{h['output'] if h['status'] == 'nobuild' else ''}\nfailed obligations (verifier output):\n")
            for o, r in failed: f.write(f"\n== {o.label()}\n   verdict: {r[0]} ({r[1]}, {r[2]:.1f}s)\n   goal: {str(o.goal)[:1500]}\n   path facts:\n" + "".join(f"     {str(x)[:400]}\n" for x in (o.facts or [])[-12:]))
        violation = f"VIOLATION property={prop} replay={rp} no-failing-input-found"
    nob = sum(r.get("obligations", 0) for r in recs) + lrec["obligations"]; nd = sum(r.get("discharged", 0) for r in recs) + lrec["discharged"]
    backends = {}
    for r in recs:
        for k, v in r.get("backends", {}).items(): backends[k] = backends.get(k, 0) + v
    level = cfg["level"]
    proved_all = not failed and not limits and recs
    if level == "proof" and not (proved_all or failed): level = "other"
    cov = dict(obligations=nob, discharged=nd, checker_cmd=f"python3-vt check.py {prop}",
        trusted_base=TRUST + cfg.get("trusted", []) + [f"contract of {a}, proved by check {OWNER.get(a, '?')}" for a in sorted(assumed)],
        evaluations=h["cases"], distinct_nontrivial=h["cases"], rule=f"bounded stand-in (not counted as proof): replay/{prop.lower()}.c, random and small exhaustive cases compared with an independent dense oracle under AddressSanitizer and UBSan; each case is drawn afresh from (seed, iteration)",
        samples=[f"seed {seed}, iterations 0.. of replay/{prop.lower()}.c"], explanation=cfg["explanation"] + (" NOT RE-ESTABLISHED on this source: " + "; ".join(f"{a}: {b}" for a, b in limits) if limits else ""))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ASSUME + cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=1 if violation else 0,
        functions=recs, lemmas=lrec, backends=backends, bounded=dict(status=h["status"], cases=h["cases"], seconds=h["seconds"], what=cfg.get("bounded", "cross-check only")), bounded_only=cfg.get("bounded_only", []), not_attached=[dict(function=a, why=b) for a, b in limits])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for f in findings: print(f"KNOWN-FINDING: property={prop} {f}")
    if limits: log(f"  proof not re-established for: {', '.join(a for a, _ in limits)} (bounded stand-in only)")
    if h["status"] == "nobuild": log("  harness did not build: " + h["output"][:500])
    if violation: print(violation); sys.exit(1)
    print(f"{prop}: held ({nd}/{nob} obligations discharged, {time.time() - t0:.0f}s)")
    sys.exit(0)

def known(prop):
    p = os.path.join(ROOT, "known-findings.txt")
    if not os.path.exists(p): return []
    return [l.split(" ", 2)[2].strip() for l in open(p) if l.startswith(f"known: property={prop} ")]
TRUST = ["clang 18 AST of the current source (gnu99, x86-64 types)", "dv/core.py: semantics of C expressions, memory and loops, generation of obligations", "z3 5.3.2 / cvc5 1.1.2", "x86-64 IEEE-754 round-to-nearest for the floating-point operations (relative error bound)"]
ASSUME = ["parallel regions are verified as their sequential execution by one thread", "allocation never fails (spasm_malloc exits on failure)", "no two pointer parameters alias unless the contract says so (separation obligation at each verified caller)",
          "arrays have fewer than 2^58 elements; dimensions are below INT_MAX", "fprintf/fflush to stderr have no effect on the program state"]
OWNER = {f: p for p, c in PROPS.items() for f in c["functions"] + [x for x, _ in c.get("extra", [])]}
if __name__ == "__main__": main()
