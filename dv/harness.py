"""Builds and runs the bounded replay harnesses (replay/c??.c) against the sources of /repo's working tree."""
import os, subprocess, tempfile, shutil, glob, time, concurrent.futures as cf
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPLAY = os.path.join(ROOT, "replay")
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,float-divide-by-zero,pointer-overflow", "-fno-sanitize-recover=all"]
CF = ["-O1", "-g", "-std=gnu99", "-fopenmp", "-w", "-fno-omit-frame-pointer"] + SAN
FFPACK = {"C11", "C12", "C15", "C16"}
TOOL = {"C15"}
class BuildError(Exception): pass
def run(cmd, **k): return subprocess.run(cmd, capture_output=True, text=True, **k)
def build(prop, src, out):
    """-> path of the harness binary"""
    objs, jobs = [], []
    def cc(cmd):
        r = run(cmd)
        if r.returncode: raise BuildError(" ".join(cmd) + "\n" + r.stderr[-3000:])
    for f in sorted(glob.glob(os.path.join(src, "*.c"))):
        o = os.path.join(out, os.path.basename(f) + ".o"); objs.append(o)
        jobs.append(["gcc", *CF, "-c", f, "-o", o, "-I", src])
    lib = []
    if prop in FFPACK:
        fl = run(["pkg-config", "--cflags", "--libs", "fflas-ffpack", "givaro"]).stdout.split()
        cflags = [x for x in fl if not x.startswith("-l")]
        lib = [x for x in fl if x.startswith("-l")] + ["-lopenblas", "-lblas", "-llapack", "-lgivaro", "-lgmpxx", "-lgmp", "-lstdc++"]
        for f in sorted(glob.glob(os.path.join(src, "*.cpp"))):
            o = os.path.join(out, os.path.basename(f) + ".o"); objs.append(o)
            jobs.append(["g++", "-O1", "-w", "-fopenmp", "-c", f, "-o", o, "-I", src, *cflags])
    h = os.path.join(out, "h.o"); jobs.append(["gcc", *CF, "-c", os.path.join(REPLAY, prop.lower() + ".c"), "-o", h, "-I", src, "-I", REPLAY])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(cc, jobs))
    ar = os.path.join(out, "lib.a"); run(["ar", "rcs", ar, *objs])
    exe = os.path.join(out, "harness")
    def link(libs): return run(["gcc", *CF, h, ar, "-o", exe, *libs, "-lm"])
    if lib:      # keep the libraries that exist
        ok = [l for l in dict.fromkeys(lib) if run(["gcc", "-shared", "-o", "/dev/null", "-xc", "/dev/null", l]).returncode == 0]
        r = link(ok)
    else: r = link([])
    if r.returncode: raise BuildError("link: " + r.stderr[-3000:])
    env = {}
    if prop in TOOL:
        t = os.path.join(os.path.dirname(src), "tools"); te = os.path.join(out, "check_cert")
        r = run(["gcc", "-O1", "-g", "-std=gnu99", "-w", "-fopenmp", *SAN, os.path.join(t, "check_cert.c"), os.path.join(t, "common.c"), "-I", src, "-I", t, ar, "-o", te, *([] if not lib else ok), "-lm"])
        if r.returncode: raise BuildError("check_cert: " + r.stderr[-3000:])
        env["CHECK_CERT"] = te
    return exe, env
ENV = {"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=4", "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=4", "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "OPENBLAS_NUM_THREADS": "1"}
def search(prop, src="/repo/src", seconds=10, seed=1, jobs=4):
    """-> dict(status 'ok'|'fail'|'nobuild', cases, output, replay_args)"""
    out = tempfile.mkdtemp(prefix="dvh")
    try:
        t0 = time.time()
        try: exe, extra = build(prop, src, out)
        except BuildError as e: return dict(status="nobuild", cases=0, output=str(e), seconds=time.time() - t0)
        tb = time.time() - t0
        env = dict(os.environ, **ENV, **extra, H_DIR=out)
        def one(k):
            s = seed if k == 0 else seed * 1000 + k
            try: r = run([exe, str(s), str(seconds)], env=env, timeout=seconds + 150, cwd=out)
            except subprocess.TimeoutExpired: return (s, 9, "", "the harness did not end")
            return (s, r.returncode, r.stdout, r.stderr)
        with cf.ThreadPoolExecutor(jobs) as ex: rs = list(ex.map(one, range(jobs)))
        bad = [r for r in rs if r[1] != 0]
        cases = sum(int(r[2].split("OK cases=")[1].split()[0]) for r in rs if "OK cases=" in r[2])
        if not bad: return dict(status="ok", cases=cases, output="", seconds=time.time() - t0, build=tb)
        s, rc, so, se = bad[0]
        it = None
        if "iter=" in so: it = int(so.split("iter=")[1].split()[0])
        # reproduce
        rep = ""
        if it is not None:
            r2 = run([exe, str(s), "60", str(it)], env=env, timeout=200, cwd=out); rep = f"replayed alone: exit {r2.returncode}"
        return dict(status="fail", cases=cases, seed=s, iter=it, output=so[-6000:] + "\n" + se[-4000:], rc=rc, replayed=rep, seconds=time.time() - t0)
    finally: shutil.rmtree(out, ignore_errors=True)
if __name__ == "__main__":
    import sys
    for p in sys.argv[1].split(","):
        r = search(p, os.environ.get("DV_SRC", "/repo/src"), float(sys.argv[2]) if len(sys.argv) > 2 else 5, int(os.environ.get("SEED", "1")))
        print(p, r["status"], r["cases"], "build %.1f total %.1f" % (r.get("build", 0), r["seconds"]))
        if r["status"] != "ok": print(r["output"][-3500:], r.get("replayed"))
