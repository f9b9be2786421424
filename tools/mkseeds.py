"""Build /verif/seeded from the specifications in tools/seedsrc/*.py (module-level list SEEDS).

Each entry: id, property, file (under src/lib/pytornado), edits [(old, new[, nth])], needs, breaks, demo.
Run: python3 tools/mkseeds.py [id-glob]
"""
import fnmatch, glob, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = V + '/tools/seedsrc'
REPO = os.environ.get('PV_REPO', '/repo')
pat = sys.argv[1] if len(sys.argv) > 1 else '*'
for f in sorted(glob.glob(SRC + '/s_*.py')):
    ns = {}
    exec(compile(open(f).read(), f, 'exec'), ns)
    for s in ns['SEEDS']:
        if not fnmatch.fnmatch(s['id'], pat):
            continue
        d = f"{V}/seeded/{s['id']}"
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = f"/tmp/mkseed.{os.getpid()}"
        shutil.rmtree(w, ignore_errors=True)
        os.makedirs(w)
        files = s['file'] if isinstance(s['file'], list) else [s['file']]
        subprocess.run(['git', 'init', '-q', w], check=True)
        for rel in files:
            p = 'src/lib/pytornado/' + rel
            os.makedirs(os.path.dirname(f'{w}/{p}'), exist_ok=True)
            shutil.copy(f'{REPO}/{p}', f'{w}/{p}')
        subprocess.run(['git', '-C', w, 'add', '-A'], check=True)
        for e in s['edits']:
            e = list(e)
            rel = files[0]
            if e[0] in files:
                rel = e.pop(0)
            old, new = e[0], e[1]
            p = f'{w}/src/lib/pytornado/{rel}'
            t = open(p).read()
            n = t.count(old)
            if len(e) > 2:
                parts = t.split(old)
                k = e[2]
                t = old.join(parts[:k]) + new + old.join(parts[k:])
            else:
                assert n == 1, (s['id'], n, old)
                t = t.replace(old, new)
            open(p, 'w').write(t)
        diff = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, text=True, check=True).stdout
        assert diff, s['id']
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.py', 'w').write('from demolib import *\n' + s['demo'].strip('\n') + '\n\nrun(main)\n')
        shutil.copy(SRC + '/demolib.py', d + '/demolib.py')
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        shutil.rmtree(w)
        print(s['id'])
