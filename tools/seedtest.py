"""Try planted changes in private mount namespaces (a copy of /repo bound over /repo, nothing real is touched).

usage: seedtest.py [-t] [-d] [-j N] [id-glob ...]      -t: also run the stable tests;  -d: demos only (no checks)
"""
import concurrent.futures as cf, fnmatch, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
TESTS = '-t' in args
DEMO = '-d' in args
J = int(args[args.index('-j') + 1]) if '-j' in args else 4
pats = [a for i, a in enumerate(args) if not a.startswith('-') and (i == 0 or args[i - 1] != '-j')] or ['*']
ids = [d for d in sorted(os.listdir(V + '/seeded')) if any(fnmatch.fnmatch(d, p) for p in pats)]


def base_lines(d):
    """Removed lines that are not in the original repository"""
    out, f = [], None
    for line in open(d + '/patch.diff'):
        if line.startswith('--- a/'):
            f = subprocess.run(['git', '-C', '/repo', 'show', '3e54246:' + line[6:].strip()], capture_output=True, text=True).stdout
            f = set(f.split('\n'))
        elif line.startswith('-') and not line.startswith('---') and line[1:].rstrip('\n') not in f:
            out.append(line.strip())
    return out


def one(i):
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    ns = f'/tmp/seedns.{os.getpid()}.{i}'
    shutil.rmtree(ns, ignore_errors=True)
    os.makedirs(ns)
    subprocess.run(['cp', '-a', '/repo', ns + '/repo'], check=True)
    shutil.copytree(d, ns + '/demo')
    script = f'''
mount --bind {ns}/repo /repo || exit 9
export PV_EVIDENCE={ns}/ev PV_CACHE={ns}/cache VERIF_SEED=1 VERIF_TIER=quick
cd /repo
timeout 300 bash {ns}/demo/demo.sh >{ns}/d0 2>&1; echo demo0=$?
git apply {ns}/demo/patch.diff || exit 8
bash /opt/vp/build.sh >{ns}/b 2>&1; echo build=$?
timeout 300 bash {ns}/demo/demo.sh >{ns}/d1 2>&1; echo demo1=$?
'''
    if not DEMO:
        script += f'''
T=$(date +%s); cd {V}; timeout 900 ./run.sh {prop} >{ns}/c 2>&1; echo check=$?; echo violations=$(grep -c "^VIOLATION property={prop} " {ns}/c); echo secs=$(( $(date +%s) - T ))
'''
    if TESTS:
        script += f'''
cd /repo; bash /opt/vp/test.sh {ns}/t.json >{ns}/t 2>&1; echo tests=$(grep -o "[0-9]* passed" {ns}/t | tail -1 | tr ' ' _)
'''
    r = subprocess.run(['unshare', '-m', 'bash', '-c', script], capture_output=True, text=True)
    kv = dict(l.split('=', 1) for l in r.stdout.split('\n') if '=' in l)
    bad = base_lines(d)
    good = kv.get('demo0') == '0' and kv.get('build') == '0' and kv.get('demo1') not in ('0', None) and not bad
    if TESTS:
        good = good and kv.get('tests') == '6_passed'
    text = f"{i:28s} {'ok ' if good else 'BAD'} {'caught' if kv.get('check') == '1' and kv.get('violations', '0') != '0' else '' if DEMO else 'MISSED'} {kv} {bad or ''} {r.stderr[-200:]}"
    for n in ('d0', 'd1'):
        if not good and os.path.exists(f'{ns}/{n}'):
            text += f'\n   {n}: ' + open(f'{ns}/{n}').read()[-400:]
    shutil.rmtree(ns, ignore_errors=True)
    print(text, flush=True)


with cf.ThreadPoolExecutor(J) as ex:
    list(ex.map(one, ids))
