"""JSON and text files with symbolic numbers: a symbolic number is written as a token, a float
that occurs nowhere else, and the token is turned back into the number when it is read."""
import json as _json
import math

from . import term

BASE = 7.0e200
TABLE = {}     # token -> symbolic number
_IDS = {}


def token(x):
    k = term.node(x).id
    if k not in _IDS:
        t = BASE * (1 + len(_IDS) / 2.0 ** 40)
        _IDS[k] = t
        TABLE[t] = x
    return _IDS[k]


def back(x):
    if isinstance(x, float) and abs(x) in TABLE:
        return TABLE[abs(x)] if x > 0 else -TABLE[abs(x)]
    if isinstance(x, list):
        return [back(v) for v in x]
    if isinstance(x, dict):
        return {k: back(v) for k, v in x.items()}
    return x


def out(x):
    """Plain JSON values, symbolic numbers as tokens."""
    import numpy as np
    if isinstance(x, (term.Sym, term.SymInt)):
        return token(x)
    if isinstance(x, np.ndarray):
        return out(x.tolist())
    if isinstance(x, dict):
        return type(x)((k, out(v)) for k, v in x.items()) if type(x) is dict else {k: out(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [out(v) for v in x]
    return x


class Json:
    """Stand-in for the json module."""
    JSONEncoder, JSONDecodeError = _json.JSONEncoder, _json.JSONDecodeError

    @staticmethod
    def load(fp, **k):
        return back(_json.load(fp, **k))

    @staticmethod
    def loads(s, **k):
        return back(_json.loads(s, **k))

    @staticmethod
    def dump(obj, fp, **k):
        return _json.dump(Json._arrays(obj, k), fp, **k)

    @staticmethod
    def dumps(obj, **k):
        return _json.dumps(Json._arrays(obj, k), **k)

    @staticmethod
    def _arrays(x, k):
        """Arrays are only written if the encoder of the code can write them."""
        import numpy as np
        if isinstance(x, (term.Sym, term.SymInt)):
            return token(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            a = np.empty(x.shape, dtype=float)
            for i in np.ndindex(*x.shape):
                a[i] = token(x[i]) if isinstance(x[i], (term.Sym, term.SymInt)) else x[i]
            return a
        if isinstance(x, dict):
            return {q: Json._arrays(v, k) for q, v in x.items()}
        if isinstance(x, (list, tuple)):
            return [Json._arrays(v, k) for v in x]
        return x


def write(h, path, obj):
    """A JSON file as a user would write it."""
    with open(path, "w") as fp:
        _json.dump(out(obj) if h.symbolic else plain(obj), fp)


def plain(x):
    import numpy as np
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, dict):
        return {k: plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return x


def read(h, path):
    with open(path) as fp:
        x = _json.load(fp)
    return back(x) if h.symbolic else x
