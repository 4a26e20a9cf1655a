"""Real objects for the object records of the specification, and snapshots."""
import inspect

import numpy as np

from nums import ev, coord


def lib():
    import SciDataTool
    from SciDataTool.Classes import VectorField, DataDual, Norm_ref, Norm_affine
    from SciDataTool.Classes import Norm_indices, Norm_vector, Norm_func
    from SciDataTool.Classes import DataTime, DataFreq, DataND, Data1D, DataLinspace, DataPattern

    ns = {}
    for m in (
        VectorField, DataDual, Norm_ref, Norm_affine, Norm_indices, Norm_vector,
        Norm_func, DataTime, DataFreq, DataND, Data1D, DataLinspace, DataPattern,
    ):
        name = m.__name__.split(".")[-1]
        ns[name] = getattr(m, name)
    return ns


_LIB = None


def L(name):
    global _LIB
    if _LIB is None:
        _LIB = lib()
    return _LIB[name]


class SquarePlus:
    def __init__(self, p):
        self.p = p

    def __call__(self, x):
        return np.asarray(x) ** 2 + self.p

    def __eq__(self, other):
        return isinstance(other, SquarePlus) and other.p == self.p

    def __repr__(self):
        return "SquarePlus(%r)" % self.p


def norm(n, e):
    k = n["k"]
    kw = {}
    if n.get("u", "SI") not in ("", "SI"):
        kw["unit"] = n["u"]
    if k == "ref":
        return L("Norm_ref")(ref=coord(n["p"], n["e"]), **kw)
    if k == "affine":
        return L("Norm_affine")(slope=coord(n["p"], -n["e"]), offset=coord(n["q"], e - n["e"]), **kw)
    if k == "indices":
        return L("Norm_indices")(**kw)
    if k == "vector":
        return L("Norm_vector")(vector=np.array([ev(v) for v in n["vec"]], dtype=float), **kw)
    if k == "func":
        return L("Norm_func")(function=SquarePlus(ev(n["p"])), **kw)
    raise ValueError(k)


def norms(ns, e):
    return {n["name"]: norm(n, e) for n in ns}


def symmetries(a):
    s = a["sym"]
    if a.get("turns", 1) > 1:  # spectral axis of one period out of several
        d = {"period": a["turns"]}
    elif s["t"] == "per":
        d = {"period": s["n"]}
    elif s["t"] == "aper":
        d = {"antiperiod": s["n"]}
    else:
        return {}
    if a["delta"][0] != 0:
        d["delta"] = coord(a["delta"], 1 if a["name"] == "wavenumber" else a["e"])  # an angle
    return d


def axis(a):
    e = a["e"]
    kw = dict(name=a["name"], unit=a["unit"])
    if a["norms"]:
        kw["normalizations"] = norms(a["norms"], e)
    if a["comp"]:
        for opt in ("delimiter", "sort_indices", "filter", "char_to_rm", "is_overlay"):
            if a.get(opt):
                kw[opt] = a[opt]
        if a.get("keys"):
            kw["filter"] = {k["key"]: list(k["items"]) for k in a["keys"]}
        return L("Data1D")(values=list(a.get("nums") or a["lab"]), is_components=True, **kw)
    if a["pat"]["on"]:
        p = a["pat"]
        whole = p["whole"]
        return L("DataPattern")(
            values=np.array([coord(x, e) for x in a["x"]]),
            rebuild_indices=[i - 1 for i in p["idx"]],
            unique_indices=[p["idx"].index(i + 1) for i in range(len(a["x"]))],
            is_step=p["step"],
            values_whole=np.array([coord(x, e) for x in whole]) if whole else None,
            **kw
        )
    sym = symmetries(a)
    if sym:
        kw["symmetries"] = sym
    l = a["lin"]
    if l["on"]:
        f = {}
        form = l["form"]
        f["initial"] = float(coord(l["ini"], e))
        if "f" in form:
            f["final"] = float(coord(l["fin"], e))
        if "s" in form:
            f["step"] = float(coord(l["step"], e))
        if "n" in form:
            f["number"] = int(l["num"])
        return L("DataLinspace")(include_endpoint=l["ep"], **f, **kw)
    return L("Data1D")(values=np.array([coord(x, e) for x in a["x"]]), **kw)


def shape(o):
    return tuple(len(a["lab"]) if a["comp"] else len(a["x"]) for a in o["axes"])


def values(o):
    v = [ev(x) for x in o["val"]]
    return np.array(v, dtype=int if o.get("ints") else None).reshape(shape(o))


def field(o):
    kw = dict(
        name=o["name"], symbol=o["sym"], unit=o["unit"], is_real=o["real"],
        axes=[axis(a) for a in o["axes"]], values=values(o),
    )
    if o["norms"]:
        kw["normalizations"] = norms(o["norms"], 0)
    return L(o["cls"])(**kw)


def build(o):
    if "cls" not in o:  # an axis
        return axis(o)
    if o["cls"] == "VectorField":
        return L("VectorField")(
            name=o["name"], symbol=o["sym"],
            components={c["key"]: field(c["f"]) for c in o["comps"]},
        )
    if o["cls"] == "DataDual":
        t, f = field(o["t"]), field(o["f"])
        return L("DataDual")(
            name=t.name, symbol=t.symbol, unit=t.unit, is_real=t.is_real,
            normalizations=t.normalizations, axes_dt=t.axes, values_dt=t.values,
            axes_df=f.axes, values_df=f.values,
        )
    return field(o)


_SIG = {}


def attributes(cls):
    if cls not in _SIG:
        _SIG[cls] = [
            p for p in inspect.signature(cls.__init__).parameters
            if p not in ("self", "init_dict", "init_str", "args", "kwargs")
        ]
    return _SIG[cls]


def snap(x):
    """Declared content of an object (constructor arguments), hashable."""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ("arr", tuple(snap(y) for y in x.ravel()))
        return ("arr", x.dtype.kind, x.shape, x.tobytes())
    if isinstance(x, (np.floating, float)):
        return repr(float(x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (np.integer, int)):
        return int(x)
    if x is None or isinstance(x, (str, complex)):
        return x
    if isinstance(x, (list, tuple)):
        return (type(x).__name__,) + tuple(snap(y) for y in x)
    if isinstance(x, dict):
        return ("dict",) + tuple((k, snap(x[k])) for k in sorted(x, key=str))
    if type(x).__module__.startswith("SciDataTool"):
        # a dual field shows the side asked last as its axes and values
        skip = ("axes", "values") if type(x).__name__ == "DataDual" else ()
        return (type(x).__name__,) + tuple((p, snap(getattr(x, p, "?"))) for p in attributes(type(x)) if p not in skip)
    return ("opaque", type(x).__name__, id(x) if inspect.isroutine(x) else repr(x))


def scribble(x, seen=None, arrays=False):
    """Overwrites every array and number (or only the arrays of values and axes) reachable from an object."""
    seen = set() if seen is None else seen
    if id(x) in seen or (arrays and type(x).__name__.startswith("Norm_")):
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fciu" and x.flags.writeable:
            x[...] = 77
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y, seen, arrays)
    elif isinstance(x, dict):
        for y in x.values():
            scribble(y, seen, arrays)
        if not arrays:
            x.clear()
    elif type(x).__module__.startswith("SciDataTool"):
        for p in attributes(type(x)):
            y = getattr(x, p, None)
            scribble(y, seen, arrays)
            if isinstance(y, float) and not arrays:
                setattr(x, p, 77.0)


def snap_diff(a, b, path=""):
    if a == b:
        return None
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (p, q) in enumerate(zip(a, b)):
            if p != q:
                name = p[0] if isinstance(p, tuple) and p and isinstance(p[0], str) else str(i)
                return snap_diff(p, q, path + "/" + name)
    return "%s: %s -> %s" % (path, str(a)[:120], str(b)[:120])


def magnitude(objs):
    """Largest absolute value among the data of a case."""
    m = 1.0
    for o in objs:
        if isinstance(o, dict):
            for x in o.get("val", []):
                m = max(m, abs(ev(x)))
            m = max(m, magnitude([c["f"] for c in o.get("comps", [])]))
            m = max(m, magnitude([o[k] for k in ("t", "f") if isinstance(o.get(k), dict)]))
    return m
