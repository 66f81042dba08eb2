"""Runs the checks on behaviour-preserving rewrites of /repo's code.

    python3 tools/refactest.py [IDs] [--checks C01,C02]

Every rewrite of tools/refactorings.py is applied to a scratch copy of /repo's
sources, and the checks named there run against the copy (VC_REPO). They have to be
quiet: exit status 0. The scratch copy is removed afterwards.
"""
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from refactorings import REFACTORINGS  # noqa: E402


def main():
    args = sys.argv[1:]
    checks = None
    if "--checks" in args:
        i = args.index("--checks")
        checks = args[i + 1].split(",")
        del args[i:i + 2]
    bad = []
    for r in REFACTORINGS:
        if args and r["id"] not in args:
            continue
        scratch = f"/tmp/refac_{r['id']}"
        shutil.rmtree(scratch, ignore_errors=True)
        os.makedirs(scratch)
        shutil.copytree("/repo/src", scratch + "/src")
        try:
            for file, old, new in r["edits"]:
                path = f"{scratch}/src/tranquilo/{file}"
                text = open(path).read()
                # blank lines do not matter
                pattern = "\\n+".join(
                    re.escape(x) for x in old.strip("\n").split("\n") if x.strip())
                if len(re.findall(pattern, text)) < 1:
                    sys.exit(f"{r['id']}: text not found in {file}: {old!r}")
                text = re.sub(pattern, lambda _: new.rstrip("\n"), text)
                open(path, "w").write(text)
                compile(open(path).read(), path, "exec")
            for prop in checks or r["checks"]:
                start = time.time()
                env = dict(os.environ, VC_REPO=scratch)
                out = subprocess.run(["bash", "run.sh", prop], cwd=VERIF, env=env,
                                     capture_output=True, text=True)
                lines = [x for x in out.stdout.splitlines()
                         if x.startswith("VIOLATION")]
                notes = [x[:170] for x in out.stdout.splitlines()
                         if "unsupported" in x or "error" in x.lower()]
                status = "quiet" if out.returncode == 0 else "ALARM"
                if out.returncode:
                    bad.append((r["id"], prop))
                print(r["id"], prop, status, f"{time.time() - start:.0f} s",
                      lines[:4], flush=True)
                for x in notes[:6]:
                    print("     ", x, flush=True)
        finally:
            shutil.rmtree(scratch, ignore_errors=True)
    print("alarms:", bad)


if __name__ == "__main__":
    main()
