"""seedtest.py ID [...] [--no-tests] [--checks P1,P2]: confirm a planted change in a scratch copy
and run the checks of its property (or the given ones) against it."""
import json, os, shutil, subprocess, sys, time

V = "/verif/seeded"
PY = "/opt/venv/bin/python"
args = sys.argv[1:]
tests = "--no-tests" not in args
checks = None
if "--checks" in args:
    i = args.index("--checks"); checks = args[i + 1].split(","); del args[i:i + 2]
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V))
env = dict(os.environ, HOME="/root", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
           OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
base = json.load(open("/opt/vp/BASELINE.json"))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


for s in ids:
    d = f"/tmp/seed_{s}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    demo = f"/tmp/demo_{s}"
    shutil.rmtree(demo, ignore_errors=True)
    shutil.copytree(f"{V}/{s}", demo)
    e = dict(env, PYTHONPATH=f"{d}/src")
    try:
        meta = json.load(open(f"{V}/{s}/meta.json"))
        r0 = sh(f"bash {demo}/demo.sh", d, env=e, timeout=300)
        ap = sh(f"git apply {V}/{s}/patch.diff", d)
        if ap.returncode:
            print(s, "DOES NOT APPLY", ap.stderr); continue
        r1 = sh(f"bash {demo}/demo.sh", d, env=e, timeout=300)
        print(s, meta["property"], "demo clean:", r0.returncode, "patched:", r1.returncode, (r1.stdout + r1.stderr).strip()[-150:].replace("\n", " "), flush=True)
        if r0.returncode:
            print("   clean output:", (r0.stdout + r0.stderr)[-500:])
        if tests:
            t = sh(f"timeout 840 {PY} -m pytest -q -p no:cacheprovider -n 8 --timeout=300 tests 2>&1 | tail -12", d, env=e)
            print("   tests:", " | ".join(t.stdout.strip().splitlines()[-7:]), flush=True)
        for p in checks or [meta["property"]]:
            t0 = time.time()
            c = sh(f"VC_REPO={d} VERIF_SEED=1 bash run.sh {p}", "/verif", env=dict(os.environ, VC_REPO=d))
            out = [l for l in c.stdout.splitlines() if "VIOLATION" in l or "error" in l]
            print("  ", p, "exit", c.returncode, round(time.time() - t0), "s", "CAUGHT" if c.returncode == 1 else "MISSED", out[:3], flush=True)
            if c.returncode == 1 and "no-failing-input" in c.stdout:
                print("     ", [l for l in c.stdout.splitlines() if "obligation" in l][:3])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(demo, ignore_errors=True)
