"""Run checks on behaviour-preserving rewrites (tools/refsrc) in scratch copies: every check must stay quiet.
usage: reftest.py [-j N] [id-glob ...]"""
import concurrent.futures as cf, fnmatch, glob, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
J = int(args[args.index('-j') + 1]) if '-j' in args else 3
pats = [a for i, a in enumerate(args) if not a.startswith('-') and (i == 0 or args[i - 1] != '-j')] or ['*']
refs = []
for f in sorted(glob.glob(V + '/tools/refsrc/r_*.py')):
    ns = {}
    exec(compile(open(f).read(), f, 'exec'), ns)
    refs += [r for r in ns['REFS'] if any(fnmatch.fnmatch(r['id'], p) for p in pats)]


def edit(t, e):
    """(old, new) replaces text; ('@Class.function', source) replaces a whole definition."""
    import ast, textwrap
    if not e[0].startswith('@'):
        if t.count(e[0]) == 1:
            return t.replace(e[0], e[1])
        import re
        rx = r'\n(?:[ \t]*\n)*'.join(re.escape(l) for l in e[0].split('\n') if l.strip())
        if e[0].endswith('\n'):
            rx += r'\n'
        m = re.findall(rx, t)
        return t.replace(m[0], e[1]) if len(m) == 1 and t.count(m[0]) == 1 else None
    body, node = ast.parse(t).body, None
    for n in e[0][1:].split('.'):
        node = next((x for x in body if getattr(x, 'name', None) == n and (len(e) < 3 or len(body))), None)
        if node is None:
            return None
        if isinstance(node, ast.FunctionDef):
            ds = [x for x in body if getattr(x, 'name', None) == n]
            node = ds[0]
        body = node.body
    lines = t.split('\n')
    first = min([node.lineno] + [d.lineno for d in node.decorator_list])
    new = textwrap.indent(textwrap.dedent(e[1]).strip('\n'), ' '*node.col_offset)
    return '\n'.join(lines[:first - 1] + [new] + lines[node.end_lineno:])


def one(r):
    d = f"/tmp/ref.{os.getpid()}.{r['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    for e in r['edits']:
        e = list(e)
        rel = r['file'] if len(e) == 2 else e.pop(0)
        p = f"{d}/repo/src/lib/pytornado/{rel}"
        t = open(p).read()
        new = edit(t, e)
        if new is None:
            print(r['id'], 'EDIT DOES NOT APPLY', t.count(e[0]), e[0][:80], flush=True)
            shutil.rmtree(d)
            return
        open(p, 'w').write(new)
    script = f"mount --bind {d}/repo /repo && bash /opt/vp/build.sh > {d}/b 2>&1 || echo BUILD; cd {V}\n"
    for c in r['checks']:
        script += f"T=$(date +%s); PV_EVIDENCE={d}/ev PV_CACHE={d}/cache timeout 900 ./run.sh {c} >{d}/{c} 2>&1; echo {c} $? $(( $(date +%s) - T ))\n"
    x = subprocess.run(['unshare', '-m', 'bash', '-c', script], capture_output=True, text=True)
    out = [r['id']]
    for l in x.stdout.split('\n'):
        if not l:
            continue
        if l == 'BUILD':
            out.append('BUILD FAILED ' + open(d + '/b').read()[-500:])
            continue
        c, rc, s = l.split()
        out.append(f'{c}:{"ok" if rc == "0" else "RC" + rc}({s}s)')
        if rc != '0':
            os.makedirs('/tmp/reflogs', exist_ok=True)
            shutil.copy(f'{d}/{c}', f"/tmp/reflogs/{r['id']}.{c}")
    print(' '.join(out), x.stderr[-200:], flush=True)
    shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(J) as ex:
    list(ex.map(one, refs))
