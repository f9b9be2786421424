"""Development aid: random small mutations (operators, constants, dropped statements) of the functions the checks are about.
usage: automut.py [-j N] [-n COUNT] [-s SEED] [file-glob]     each mutant runs in a scratch copy of /repo; prints ok / MISS
Only the first check that raises counts; survivors have to be read (many are equivalent)."""
import ast, fnmatch, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
opt = {"-j": "3", "-n": "60", "-s": "1"}
a = sys.argv[1:]
while a and a[0] in opt:
    opt[a[0]] = a[1]; a = a[2:]
GLOB = a[0] if a else "*"
SRC = "/repo/src/lib/pytornado/"
MAP = [  # file, function pattern, checks (cheap ones first)
    ("objects/aircraft.py", "Aircraft.(area|size|add_wing|generate|has_def.*)|Wing.(area|span|generate|is_def.*|symm.*|check_def.*)", "C18,C25,C17"),
    ("objects/aircraft.py", "Wing.add_.*", "C25,C26"),
    ("objects/aircraft.py", "WingSegment.(area|normal_vector|main_direction|generate|check.*)", "C18,C25"),
    ("objects/aircraft.py", "WingSegment._import.*|.*camber.*|StripSubdivision.get_xsi.*", "C15"),
    ("objects/aircraft.py", "WingSegment.(add_sub.*|_get.*)|SegmentStrip._.*", "C29,C11,C12,C13"),
    ("objects/aircraft.py", "WingSegment.get_def.*", "C17,C18"),
    ("objects/aircraft.py", "WingControl.check", "C25"),
    ("objects/aircraft.py", "WingControl.abs.*", "C27,C15"),
    ("objects/aircraft.py", "SegmentStrip.abs.*|StripSubdivision.(abs_v|abs_h|seg|symm).*", "C10,C17,C12"),
    ("objects/aircraft.py", "StripSubdivision.(rel|_add).*", "C14,C12,C15"),
    ("objects/aircraft.py", "get_abs_.*|xsi_int.*", "C12,C13,C17"),
    ("objects/aircraft.py", "mirror.*|order.*", "C10,C17,C15"),
    ("objects/objecttools.py", ".*", "C14,C11"),
    ("objects/vlm_struct.py", ".*", "C14,C09,C21"),
    ("objects/state.py", ".*", "C19,C20"),
    ("objects/settings.py", "Settings.(update|check|_check|__init|state|clean).*", "C24,C21"),
    ("objects/utils.py", ".*", "C19,C24"),
    ("aero/vlm.py", "set_auto.*", "C16"),
    ("aero/vlm.py", "pre_pan.*", "C29,C13,C11"),
    ("aero/vlm.py", "gen_lat.*", "C14,C15,C10,C29,C21"),
    ("aero/vlm.py", "calc.*|solver", "C09,C08,C21"),
    ("fileio/native/aircraft.py", ".*", "C23,C25"),
    ("fileio/native/deformation.py", ".*", "C17"),
    ("fileio/native/state.py", ".*", "C19,C21"),
    ("fileio/native/settings.py", ".*", "C24"),
    ("fileio/native/results.py", ".*", "C22,C21"),
    ("fileio/cpacs/(aircraft|utils|state|results).py", ".*", "C26"),
    ("stdfun/run.py", "standard_run", "C21"),
    ("plot/plottools.py", ".*", "C27"),
    ("plot/makeplots.py", ".*", "C27"),
    ("aero/c_lattice.cpp", None, "C02,C01,C03"),
    ("aero/c_downwash.cpp", None, "C04,C08"),
    ("aero/c_boundary.cpp", None, "C05,C08"),
    ("aero/c_results.cpp", None, "C06,C07,C08"),
    ("aero/c_vlm.cpp", None, "C08,C02,C04,C05,C07,C21"),
]
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*"}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
       ast.In: "not in", ast.NotIn: "in"}


def py_mutants(rel, pat, checks):
    src = open(SRC + rel).read()
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda l, c: off[l - 1] + c
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    out = []

    def add(n, new, fn):
        i, j = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        t = (b[:i] + new.encode() + b[j:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((rel, f"{fn}:{n.lineno}", seg(n)[:70].replace("\n", " "), new[:70].replace("\n", " "), t, checks))

    def visit(n, fn):
        s = ast.unparse(n) if isinstance(n, ast.stmt) else ""
        if isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or "logger" in s or "print" in s):
            return
        if isinstance(n, ast.Raise) or "logger" in s and not isinstance(n, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and not ("import" in s):
            add(n, "pass", fn)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            add(n, f"({seg(n.left)} {BIN[type(n.op)]} {seg(n.right)})", fn)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div)):
            add(n, f"({seg(n.right)} {'-' if isinstance(n.op, ast.Sub) else '/'} {seg(n.left)})", fn)
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"({seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])})", fn)
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(" + seg(v) + ")" for v in n.values) + ")", fn)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(n, seg(n.operand), fn)
        if isinstance(n, ast.Constant) and type(n.value) in (int, float):
            add(n, repr(n.value + 1), fn)
            if n.value:
                add(n, repr(n.value*0), fn)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            add(n, repr(not n.value), fn)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            add(n.test, "True" if not isinstance(n, ast.While) else "False", fn)
            add(n.test, "False", fn)
        if isinstance(n, ast.Call) and n.args and len(n.args) > 1:
            add(n, f"{seg(n.func)}({', '.join([seg(n.args[1]), seg(n.args[0])] + [seg(x) for x in n.args[2:]] + [seg(k) for k in n.keywords])})", fn)
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    def walk(n, p):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.FunctionDef) and re.fullmatch(pat, p + c.name):
                for x in c.body:
                    visit(x, p + c.name)
            elif isinstance(c, (ast.ClassDef, ast.FunctionDef)):
                walk(c, p + c.name + ".")
    walk(ast.parse(src), "")
    return out


def c_mutants(rel, checks):
    src = open(SRC + rel).read()
    out = []
    body = src
    for m in re.finditer(r"[+\-*/<>]=?|\b[a-zA-Z_]+_[xyz]\b|\b(?:sin|cos)\b|\b\d+(?:\.\d+)?\b|->[NCSPQTB]\b|\bindex_\w+\b|\[\w+\]", body):
        l0 = body.rfind("\n", 0, m.start()) + 1
        l1 = body.find("\n", m.start())
        line = body[l0:l1]
        st = line.strip()
        if st.startswith(("//", "*", "/*", "#", "using")) or "//" in body[l0:m.start()] or "printf" in line or "const char" in line or '"' in line:
            continue
        t = m.group()
        new = {"+": "-", "-": "+", "*": "/", "/": "*", "<": "<=", ">": ">=", "+=": "-=", "-=": "+=", "<=": "<", ">=": ">", "sin": "cos", "cos": "sin"}.get(t)
        if body[m.start():m.start() + 2] in ("++", "--", "->", "/*", "*/") or body[m.start() - 1:m.start() + 1] in ("++", "--", "->"):
            continue
        if re.fullmatch(r"[a-zA-Z_]+_[xyz]", t):
            new = t[:-1] + {"x": "y", "y": "z", "z": "x"}[t[-1]]
        elif re.fullmatch(r"\d+", t):
            new = str(int(t) + 1)
        elif re.fullmatch(r"\d+\.\d+", t):
            new = str(float(t)*2 + 1)
        if new:
            n = body.count("\n", 0, m.start()) + 1
            out.append((rel, f"{n}", st[:70], f"{t} -> {new} @{m.start() - l0}", body[:m.start()] + new + body[m.end():], checks))
    return out


def mutants():
    import glob
    out = []
    for f, pat, checks in MAP:
        for p in sorted(glob.glob(SRC + "**/*", recursive=True)):
            rel = p[len(SRC):]
            if re.fullmatch(f, rel) and fnmatch.fnmatch(rel, GLOB):
                out += py_mutants(rel, pat, checks) if pat else c_mutants(rel, checks)
    return out


def run(m):
    rel, where, old, new, text, checks = m
    d = tempfile.mkdtemp(prefix="am")
    try:
        subprocess.run(["cp", "-a", "/repo/.", d + "/repo"], check=True)
        open(f"{d}/repo/src/lib/pytornado/{rel}", "w").write(text)
        res = []
        for c in checks.split(","):
            env = dict(os.environ, PV_REPO=d + "/repo", PV_EVIDENCE=d + "/ev", PV_CACHE=d + "/cache", PV_PROCS=os.environ.get("PV_PROCS", "2"))
            r = subprocess.run(["nice", "timeout", "900", "/verif/run.sh", c], env=env, capture_output=True, text=True)
            ok = r.returncode == 1 and "VIOLATION property=" in r.stdout
            res.append(f"{c}:{'caught' if ok else 'rc=%d' % r.returncode}")
            if ok:
                break
        print(("ok   " if "caught" in res[-1] else "MISS "), rel, where, repr(old), "=>", repr(new), *res, flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    ms = mutants()
    rng = random.Random(int(opt["-s"]))
    by = {}
    for m in ms:
        by.setdefault((m[0], m[1].split(":")[0] if not m[0].endswith("cpp") else ""), []).append(m)
    pick, n = [], int(opt["-n"])
    keys = list(by)
    tot = sum(len(v)**0.5 for v in by.values())
    for k in keys:            # every function, the square root of its size as weight
        q = n*len(by[k])**0.5/tot
        q = int(q) + (rng.random() < q - int(q))
        pick += rng.sample(by[k], min(q, len(by[k])))
    rng.shuffle(pick)
    print(len(ms), "possible,", len(pick), "chosen", flush=True)
    with ThreadPoolExecutor(int(opt["-j"])) as ex:
        list(ex.map(run, pick))
