#!/usr/bin/env python3
"""mkseed.py SPEC.py [id..]: makes /verif/seeded/<id>/ from a list of planted bugs and confirms them in a scratch copy of /repo.
SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new)], demo=<C text> or demo_sh=<sh text>, needs, breaks)]."""
import sys, os, subprocess, json, shutil, runpy
SR = "/tmp/sr"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/sh
# exit 0: the property holds in this demonstration; nonzero: it is broken
here=$(cd "$(dirname "$0")" && pwd); d=$(mktemp -d) || exit 99; trap 'rm -rf "$d"' EXIT
export OMP_NUM_THREADS=2 OPENBLAS_NUM_THREADS=1
gcc -O1 -g -std=gnu99 -w -fopenmp -Isrc "$here/demo.c" -o "$d/demo" -L_build/src -lspasm -lm -Wl,-rpath,"$PWD/_build/src" || exit 98
cd "$d" && timeout 120 ./demo 2>"$d/err"; r=$?; tail -3 "$d/err"; exit $r
'''
def setup():
    sh(f"rm -rf {SR}; mkdir -p {SR}; cd /repo && git archive HEAD | tar x -C {SR}; cd {SR} && git init -q && git add -A && git -c user.email=a@b -c user.name=x commit -qm base")
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", SR).replace("here=/opt/vp", "here=/tmp/srvp").replace('python3 "$here/results.py"', "python3 /opt/vp/results.py")
        os.makedirs("/tmp/srvp", exist_ok=True); open("/tmp/srvp/" + f, "w").write(t)
    r = sh("bash /tmp/srvp/build.sh"); assert r.returncode == 0, r.stdout[-2000:] + r.stderr[-2000:]
def tests():
    r = sh("bash /tmp/srvp/test.sh /tmp/srvp/out.json")
    d = json.load(open("/tmp/srvp/out.json")); b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    return sorted(b - set(d["passed"]))
def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]; want = sys.argv[2:]
    setup()
    for s in seeds:
        if want and s["id"] not in want: continue
        if not want and os.path.exists(f"/verif/seeded/{s['id']}/patch.diff"): continue
        sh(f"cd {SR} && git checkout -q -- .")
        ok = True
        for f, a, b in s["edits"]:
            t = open(f"{SR}/{f}").read()
            if t.count(a) != 1: print(s["id"], "EDIT does not apply uniquely:", t.count(a), repr(a[:60])); ok = False; break
            open(f"{SR}/{f}", "w").write(t.replace(a, b))
        if not ok: continue
        diff = sh(f"cd {SR} && git diff").stdout
        D = f"/verif/seeded/{s['id']}"; T = "/tmp/srvp/seed"; shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
        open(T + "/patch.diff", "w").write(diff)
        open(T + "/demo.sh", "w").write(s.get("demo_sh", DEMO))
        if "demo" in s: open(T + "/demo.c", "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(T + "/meta.json", "w"), indent=1)
        r = sh("bash /tmp/srvp/build.sh")
        if r.returncode: print(s["id"], "BUILD FAILS", r.stdout[-1500:]); continue
        w = sh(f"cd {SR} && sh {T}/demo.sh", timeout=300)
        miss = tests()
        sh(f"cd {SR} && git checkout -q -- ."); sh("bash /tmp/srvp/build.sh")
        g = sh(f"cd {SR} && sh {T}/demo.sh", timeout=300)
        good = w.returncode != 0 and w.returncode not in (98, 99) and g.returncode == 0 and not miss
        print(s["id"], "OK" if good else "REJECTED", "with patch:", w.returncode, w.stdout[-150:].strip(), "| without:", g.returncode, g.stdout[-150:].strip(), "| tests broken:", len(miss), miss[:3], flush=True)
        if good: shutil.rmtree(D, ignore_errors=True); shutil.copytree(T, D)
main()
