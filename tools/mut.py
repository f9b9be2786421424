"""Development aid: run checks on a scratch copy of /repo with one textual change.
usage: mut.py CHECK[,CHECK] FILE OLD NEW [N]   (FILE under src/lib/pytornado; N-th occurrence)"""
import os, shutil, subprocess, sys, tempfile
checks, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
d = tempfile.mkdtemp(prefix="mut")
try:
    subprocess.run(["cp", "-a", "/repo/.", d + "/repo"], check=True)
    p = f"{d}/repo/src/lib/pytornado/{f}"
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    parts = s.split(old)
    assert len(parts) > 1 + n, f"not found: {old}"
    s = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
    open(p, "w").write(s)
    for c in checks.split(","):
        env = dict(os.environ, PV_REPO=d + "/repo", PV_EVIDENCE=d + "/ev", PV_CACHE=d + "/cache")
        r = subprocess.run(["timeout", "900", "/verif/run.sh", c], env=env, capture_output=True, text=True)
        out = [x for x in r.stdout.splitlines() if x.strip()]
        print(f"{c} exit={r.returncode}", *(x[:200] for x in out if x.startswith("VIOLATION")), (out or [""])[-1][:160], r.stderr[-300:] if r.returncode not in (0, 1) else "", sep="\n   ", flush=True)
finally:
    shutil.rmtree(d)
