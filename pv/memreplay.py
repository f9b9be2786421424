"""Runs one call of the native code outside the model: with the address and
undefined-behaviour sanitizers, and in two builds which fill uninitialised
variables differently.  (As a program: the sanitized process.)"""
import fcntl
import hashlib
import os
import pickle
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))


def build():
    from . import cvlm
    src, hdr = cvlm._sources()
    k = hashlib.sha256()
    for f in src + hdr:
        k.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    d = f"{cvlm.CACHE}/{k.hexdigest()[:20]}/mem"
    os.makedirs(d, exist_ok=True)
    variants = {"asan": ["g++", "-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=float-divide-by-zero,vptr"],
                "zero": ["clang++", "-O0", "-ftrivial-auto-var-init=zero"],
                "pattern": ["clang++", "-O0", "-ftrivial-auto-var-init=pattern"]}
    out = {}
    with open(d + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ps = []
        for v, cmd in variants.items():
            out[v] = f"{d}/{v}/c_vlm.so"
            if not os.path.exists(out[v]):
                os.makedirs(f"{d}/{v}", exist_ok=True)
                ps.append((v, subprocess.Popen(cmd + ["-w", "-shared", "-fPIC", *cvlm._includes(), *src, "-o", out[v] + ".tmp"], stderr=subprocess.PIPE)))
        for v, p in ps:
            _, err = p.communicate()
            if p.returncode:
                raise cvlm.BuildError(err.decode()[-1000:])
            os.replace(out[v] + ".tmp", out[v])
    return out


def plain(x):
    """What the native code can see of an argument."""
    import numpy as np
    if isinstance(x, (np.ndarray, int, float, str, type(None))):
        return x
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items() if isinstance(v, (np.ndarray, int, float, str, dict))}
    return Obj({k: plain(v) for k, v in vars(x).items() if isinstance(v, (np.ndarray, int, float, str, dict))})


class Obj:
    def __init__(self, d):
        self.__dict__.update(d)


def run(name, args, outputs):
    """-> None, or what went wrong.  outputs: paths ('0.p') of the output arrays."""
    so = build()
    with tempfile.NamedTemporaryFile(suffix=".pkl") as f:
        pickle.dump((so, name, [plain(a) for a in args], outputs), f)
        f.flush()
        asan = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
        ubsan = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True).stdout.strip()
        for mode in ("asan", "plain"):
            env = dict(os.environ, PYTHONPATH=os.path.dirname(HERE), OPENBLAS_NUM_THREADS="1")
            if mode == "asan":
                env.update(LD_PRELOAD=f"{asan} {ubsan}", ASAN_OPTIONS="detect_leaks=0:symbolize=1:allocator_may_return_null=1", PYTHONMALLOC="malloc")
            r = subprocess.run([sys.executable, "-m", "pv.memreplay", f.name, mode], env=env, capture_output=True, text=True, timeout=300)
            if r.returncode:
                t = [x.strip() for x in r.stderr.splitlines()]
                t = [x for x in t if "ERROR: AddressSanitizer" in x or "runtime error" in x or x.startswith("DIFFERENCE") or "Error:" in x] or t[-1:] or ["?"]
                return f"{name}: exit {r.returncode}: {t[0][:300]}"
    return None


def get(args, path):
    i, *rest = path.split(".")
    x = args[int(i)]
    for k in rest:
        x = x[k] if isinstance(x, dict) else getattr(x, k)
    return x


def fresh(x):
    """A copy in blocks of memory of exactly the needed size."""
    import copy
    import numpy as np
    if isinstance(x, np.ndarray):
        y = np.empty(x.shape, dtype=x.dtype)
        y[...] = x
        return y
    if isinstance(x, dict):
        return {k: fresh(v) for k, v in x.items()}
    if isinstance(x, Obj):
        return Obj({k: fresh(v) for k, v in vars(x).items()})
    return copy.copy(x)


def arrays(x, name=""):
    import numpy as np
    if isinstance(x, np.ndarray):
        yield name, x
    elif isinstance(x, (dict, Obj)):
        for k, v in (x if isinstance(x, dict) else vars(x)).items():
            yield from arrays(v, f"{name}.{k}")
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        yield name, np.array([float(x)])


def holders(x):
    """Every object handed to the native code."""
    if isinstance(x, (dict, Obj)):
        yield x
        if isinstance(x, Obj):
            yield vars(x)
        for v in (x if isinstance(x, dict) else vars(x)).values():
            yield from holders(v)
    elif not isinstance(x, (int, str, type(None))):
        yield x


def main(path, mode):
    import importlib.util
    import numpy as np
    so, name, args, outputs = pickle.load(open(path, "rb"))

    def load(v):
        spec = importlib.util.spec_from_file_location("c_vlm", so[v])
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m

    def call(v, a):
        getattr(load(v), name)(*a)
        return [y for i, x in enumerate(a) for y in arrays(x, str(i))]

    def fail(what):
        print("DIFFERENCE " + what, file=sys.stderr)
        sys.exit(3)
    if mode == "asan":
        a = [fresh(x) for x in args]
        call("asan", a)
        return
    # references taken must not be given back more often than taken
    a = [fresh(x) for x in args]
    obs = [o for x in a for o in holders(x)]
    before = [sys.getrefcount(o) for o in obs]
    call("zero", a)
    after = [sys.getrefcount(o) for o in obs]
    low = [type(o).__name__ for o, b, c in zip(obs, before, after) if c < b and not isinstance(o, float)]
    if low:
        fail("references lost: " + ", ".join(low))
    one = [(k, v) for k, v in ((k, v.copy()) for k, v in [y for i, x in enumerate(a) for y in arrays(x, str(i))])]
    b = [fresh(x) for x in args]
    two = call("pattern", b)
    for (k, x), (_, y) in zip(one, two):
        if not np.array_equal(x, y, equal_nan=True):
            fail(f"{k} depends on uninitialised values")
    # entries of the outputs that are not set
    c = [fresh(x) for x in args]
    for n, o in enumerate(outputs):
        get(c, o).reshape(-1)[:] = [12345.0 + 17.0 * n + k for k in range(get(c, o).size)]
    call("zero", c)
    for n, o in enumerate(outputs):
        x = get(c, o).reshape(-1)
        if any(x[k] == 12345.0 + 17.0 * n + k for k in range(x.size)):
            fail(f"{o} is not completely set")


if __name__ == "__main__":
    from pv import memreplay          # the same classes as in the pickled data
    memreplay.main(*sys.argv[1:])
