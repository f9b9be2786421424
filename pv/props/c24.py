import copy
import os

from ..check import H, THOROUGH
from .. import project as P, sjson

FUNCTIONS = ["objects/settings.py: Settings (construction, update_from_dict, checks)", "objects/utils.py: check_dict, get_default_dict, update_nested_dict",
             "fileio/native/settings.py: load, save, clean_dict"]
BOUNDS = ("every subset of the options, sub-options of two plots at a time, panel numbers 1..20 and the regularisation value symbolic; wrong types: one value of each other "
          "JSON type for every option")
OUTSIDE = "unknown options; the type of the deformation entry; file names are fixed; a truth value given for a number"

SUB = {"opt": [], "show": False, "save": False}
DEFAULT = {"deformation": None, "vlm_autopanels_c": 4, "vlm_autopanels_s": 4,
           "save_results": {k: False for k in ("global", "panelwise", "aeroperformance", "matrix_system")},
           "plot": {k: SUB for k in ("geometry", "lattice", "matrix_downwash", "results")},
           "_do_normal_rotations": True, "_deformation_check": True, "_epsilon": 1e-6}
NEED = {"aircraft": "a.json", "state": "s.json"}


def stubs():
    return P.json_stubs("fileio.native.settings")


def merged(base, given):
    out = copy.copy(base)
    for k, v in given.items():
        out[k] = merged(base[k], v) if isinstance(v, dict) else (list(v) if isinstance(v, list) else v)
    return out


def expected(given):
    e = merged(dict(DEFAULT, aircraft=None, state=None), given)
    if not e["plot"]["results"]["opt"]:
        e["plot"] = dict(e["plot"], results=dict(e["plot"]["results"], opt=["cp"]))
    return e


def same(h, label, got, want):
    """Only the options named in the specification are compared."""
    for k, v in want.items():
        h.holds(f"{label}.{k} there", k in got, info=sorted(got))
        if isinstance(v, dict):
            same(h, f"{label}.{k}", got[k], v)
        else:
            h.holds(f"{label}.{k} type", (got[k] is None) == (v is None) and isinstance(got[k], bool) == isinstance(v, bool))
            h.eq(f"{label}.{k}", got[k], v)


def some(h, key, values):
    """The option is left out, or has one of the values."""
    i = h.choose(key, ["left out"] + list(range(len(values))))
    return {} if i == "left out" else {key: values[i]}


def scalars(h):
    given = dict(NEED)
    given.update(some(h, "deformation", [None, False, "d.json"]))
    given.update(some(h, "vlm_autopanels_c", [h.integer("c", 1, 20)]))
    given.update(some(h, "vlm_autopanels_s", [h.integer("s", 1, 20)]))
    given.update(some(h, "_do_normal_rotations", [False]))
    given.update(some(h, "_deformation_check", [False]))
    given.update(some(h, "_epsilon", [h.real("eps", 1e-9, 0.999)]))
    return given


def switches(h):
    given = dict(NEED)
    out = {}
    for k in DEFAULT["save_results"]:
        out.update(some(h, k, [True, False]))
    given["save_results"] = out
    return given


def plots(h):
    given = dict(NEED)
    out = {}
    for k in h.choose("plots", [("geometry", "results"), ("lattice", "matrix_downwash"), ("results",), ()]):
        out[k] = {}
        for q, v in (("opt", [[], ["cz", "cp"]]), ("show", [True]), ("save", [True])):
            i = h.choose(k + q, ["left out"] + list(range(len(v))))
            if i != "left out":
                out[k][q] = v[i]
    given["plot"] = out
    return given


def use(h, make):
    """Construction, independence, saving and loading."""
    from pytornado.fileio.native import settings as io
    from pytornado.objects.settings import Settings
    given = make(h)
    if "_epsilon" in given:
        h.assume(given["_epsilon"] > 0)
        h.assume(given["_epsilon"] < 1)
    want = expected(given)
    backup = clone(given)
    with P.Scratch("c24") as d:
        s = Settings("case.json", d, settings_dict=given)
        same(h, "settings", s.settings, want)
        other = Settings("other.json", d, settings_dict=given)
        mine = clone(s.settings)
        spoil(other.settings)
        h.eq("independent", s.settings, mine)
        h.eq("given", given, backup)
        plain = Settings("plain.json", d, settings_dict=dict(NEED))
        same(h, "defaults", plain.settings, expected(NEED))
        io.save(s)
        h.eq("memory", s.settings, mine)
        path = os.path.join(d, "settings", "case.json")
        h.holds("file", os.path.isfile(path))
        saved = sjson.read(h, path)
        public = {k: v for k, v in want.items() if not k.startswith("_")}
        same(h, "saved", saved, public)
        h.holds("hidden", not hidden(saved), info=hidden(saved))
        back = io.load(path)
        same(h, "loaded", back.settings, dict(want, **{k: v for k, v in DEFAULT.items() if k.startswith("_")}))
        io.save(s)
        h.eq("saved twice", sjson.read(h, path), saved)


def clone(x):
    if isinstance(x, dict):
        return {k: clone(v) for k, v in x.items()}
    return [clone(v) for v in x] if isinstance(x, list) else x


def spoil(x):
    if isinstance(x, dict):
        for k, v in x.items():
            spoil(v)
            if not isinstance(v, (dict, list)):
                x[k] = "spoiled"
        x["spoiled"] = 1
    elif isinstance(x, list):
        x.append("spoiled")


def hidden(x):
    out = []
    for k, v in x.items():
        if k.startswith("_"):
            out.append(k)
        if isinstance(v, dict):
            out += hidden(v)
    return out


def construct(h, given):
    from pytornado.objects.settings import Settings
    out = []
    with P.Scratch("c24") as d:
        ex = h.raised(lambda: out.append(Settings("case.json", d, settings_dict=given)))
    return out[0] if out else None, ex


def epsilon(h):
    e = h.real("eps", -2, 3)
    s, ex = construct(h, dict(NEED, _epsilon=e))
    ok = bool(e > 0) and bool(e < 1)
    h.holds("accepted" if ok else "refused", (ex is None) == ok, info=repr(ex))
    if ok:
        h.eq("kept", s.settings["_epsilon"], e)


VALUES = {"str": "x", "int": 3, "float": 0.5, "bool": True, "list": ["x"], "dict": {"x": 1}, "none": None}
TYPES = {("aircraft",): ("str",), ("state",): ("str",), ("vlm_autopanels_c",): ("int", "bool"),
         ("vlm_autopanels_s",): ("int", "bool"), ("save_results",): ("dict",), ("plot",): ("dict",), ("_do_normal_rotations",): ("bool",),
         ("_deformation_check",): ("bool",), ("_epsilon",): ("float",)}
TYPES.update({("save_results", k): ("bool",) for k in DEFAULT["save_results"]})
TYPES.update({("plot", k): ("dict",) for k in DEFAULT["plot"]})
TYPES.update({("plot", k, q): (t,) for k in DEFAULT["plot"] for q, t in (("opt", "list"), ("show", "bool"), ("save", "bool"))})


def types(h):
    key = h.choose("option", sorted(TYPES))
    t = h.choose("type", sorted(VALUES))
    given = clone(dict(NEED))
    at = given
    for k in key[:-1]:
        at = at.setdefault(k, {})
    at[key[-1]] = VALUES[t]
    if t in TYPES[key]:
        return                  # acceptance of the right type is decided above
    s, ex = construct(h, given)
    # the list of quantities of the result plot may also be left empty
    if key == ("plot", "results", "opt") and not VALUES[t]:
        return
    h.holds("refused", ex is not None)


HARNESSES = [H("scalars", lambda h: use(h, scalars), stubs=stubs, validate=1, max_paths=5000), H("switches", lambda h: use(h, switches), stubs=stubs, validate=1),
             H("plots", lambda h: use(h, plots), stubs=stubs, validate=1), H("epsilon", epsilon), H("types", types)]
