"""Development aid: run checks against a list of planted changes, each in a scratch copy of /repo.
usage: mutbatch.py [-j N] FILE.py [globs]    FILE.py defines M = [(name, checks, [(file, old, new[, n]), ...]), ...]"""
import fnmatch, os, runpy, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
a = sys.argv[1:]
J = 3
if a[0] == "-j":
    J = int(a[1]); a = a[2:]
M = runpy.run_path(a[0])["M"]
if a[1:]:
    M = [m for m in M if any(fnmatch.fnmatch(m[0], g) for g in a[1:])]


def run(m):
    name, checks, edits = m
    d = tempfile.mkdtemp(prefix="mb")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d + "/repo"], check=True)
        for e in edits:
            f, old, new = e[:3]
            n = e[3] if len(e) > 3 else 0
            p = f"{d}/repo/src/lib/pytornado/{f}"
            s = open(p).read()
            parts = s.split(old)
            if len(parts) <= 1 + n:
                print(f"{name}: NOT FOUND {old!r}", flush=True)
                return
            open(p, "w").write(old.join(parts[:n + 1]) + new + old.join(parts[n + 1:]))
        res = []
        for c in checks.split(","):
            env = dict(os.environ, PV_REPO=d + "/repo", PV_EVIDENCE=d + "/ev", PV_CACHE=d + "/cache", PV_PROCS=os.environ.get("PV_PROCS", "3"))
            r = subprocess.run(["nice", "timeout", "1200", "/verif/run.sh", c], env=env, capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            ok = r.returncode == 1 and v
            res.append(f"{c}:{'caught' if ok else 'MISSED rc=%d' % r.returncode}")
            if ok:
                break
            open(f"/tmp/mb/{name}.{c}", "w").write(r.stdout + r.stderr)
        print(("ok   " if any("caught" in x for x in res) else "MISS ") + name, *res, flush=True)
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(J) as ex:
    list(ex.map(run, M))
