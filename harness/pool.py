"""Pools of objects described attribute by attribute: the calls and the comparison
of the whole declared content after each of them."""
import os
import shutil

import numpy as np

import objects
from calls import call, check, CALLS


def double(x):
    return 2 * np.asarray(x)


def cube(x):
    return np.asarray(x) ** 3


CALLABLES = {1: double, 2: cube}


def cls(name):
    import importlib
    return getattr(importlib.import_module("SciDataTool.Classes." + name), name)


def entries(x):
    """Function of the specification with texts as arguments (empty: a sequence)."""
    return x if isinstance(x, dict) else {}


def make(v):
    """Python value of a tagged value."""
    t = v[0]
    if t == "none":
        return None
    if t in ("str", "bool", "int", "fun"):
        return v[1]
    if t == "num":
        return v[1][0] / v[1][1]
    if t == "cpx":
        return complex(v[1][0] / v[1][1], v[2][0] / v[2][1])
    if t == "arr":
        return np.array([make(x) for x in v[2]]).reshape(tuple(v[1]))
    if t == "list":
        return [make(x) for x in v[1]]
    if t == "dict":
        return {k: make(x) for k, x in entries(v[1]).items()}
    if t == "call":
        return CALLABLES[v[1]]
    if t == "objs":
        return [new(x) for x in v[1]]
    if t == "omap":
        return {k: new(x) for k, x in entries(v[1]).items()}
    if t == "alien":
        return ALIENS[v[1]]()
    raise ValueError(t)


ALIENS = {}


def new(o):
    return cls(o["cls"])(**{n: make(v) for n, v in o["at"].items()})


def number(x):
    return isinstance(x, (int, float, complex, np.number)) and not isinstance(x, (bool, np.bool_))


def diff(v, x, where):
    """Difference between a tagged value and a real one."""
    t = v[0]
    bad = "%s is %.200r" % (where, x)
    if t == "none":
        return None if x is None else bad + ", not None"
    if t == "str":
        return None if isinstance(x, str) and x == v[1] else bad + ", not %r" % v[1]
    if t == "bool":
        return None if isinstance(x, (bool, np.bool_)) and bool(x) == v[1] else bad + ", not %r" % v[1]
    if t in ("int", "num", "cpx"):
        return None if number(x) and x == make(v) else bad + ", not %r" % make(v)
    if t == "arr":
        e = make(v)
        if not isinstance(x, np.ndarray) or x.shape != e.shape:
            return bad + ", not %.200r" % e
        if e.size and ((x.dtype.kind in "SU") != (e.dtype.kind in "SU") or not (x == e).all()):
            return bad + ", not %.200r" % e
        return None
    if t == "list":
        if not isinstance(x, list) or len(x) != len(v[1]):
            return bad + ", not %r" % make(v)
        return first(diff(p, q, "%s[%d]" % (where, k)) for k, (p, q) in enumerate(zip(v[1], x)))
    if t == "dict":
        e = entries(v[1])
        if not isinstance(x, dict) or set(x) != set(e):
            return bad + ", not %r" % make(v)
        return first(diff(e[k], x[k], "%s[%s]" % (where, k)) for k in e)
    if t == "fun":
        probe = np.array([1.0, 3.0, -2.0])
        want = eval(v[1])(probe)
        return None if callable(x) and np.array_equal(x(probe), want) else bad + ", not " + v[1]
    if t == "call":
        return None if x is CALLABLES[v[1]] else bad + ", not the given function"
    if t == "objs":
        if not isinstance(x, list) or len(x) != len(v[1]):
            return bad + ", not %d objects" % len(v[1])
        return first(odiff(p, q, "%s[%d]" % (where, k)) for k, (p, q) in enumerate(zip(v[1], x)))
    if t == "omap":
        e = entries(v[1])
        if not isinstance(x, dict) or set(x) != set(e):
            return bad + ", not objects %s" % sorted(e)
        return first(odiff(e[k], x[k], "%s[%s]" % (where, k)) for k in e)
    raise ValueError(t)


def first(it):
    for m in it:
        if m:
            return m
    return None


def odiff(o, x, where):
    if type(x).__name__ != o["cls"]:
        return "%s is a %s, not a %s" % (where, type(x).__name__, o["cls"])
    return first(diff(v, getattr(x, n), where + "." + n) for n, v in sorted(o["at"].items()))


def part(x, path):
    for n, k in path:
        v = getattr(x, n)
        x = v[k - 1] if isinstance(k, int) else v[k]
    return x


# ----------------------------------- calls -----------------------------------
@call("new")
def _(pool, c, ctx):
    return [new(c["x"])]


@call("build")
def _(pool, c, ctx):
    kw = {n: make(v) for n, v in c["x"]["at"].items()}
    kw[c["n"]] = make(c["v"])
    return [cls(c["x"]["cls"])(**kw)]


@call("copy")
def _(pool, c, ctx):
    return [pool[c["o"] - 1].copy()]


@call("dict")
def _(pool, c, ctx):
    x = pool[c["o"] - 1]
    d = x.as_dict(type_handle_ndarray=c["h"])
    if d.get("__class__") != type(x).__name__:
        raise AssertionError("dictionary of class %r" % d.get("__class__"))
    return [type(x)(init_dict=d)]


def saved(x, ctx):
    path = os.path.join(ctx["scratch"], "object.json")
    x.save(path)
    return path


@call("json")
def _(pool, c, ctx):
    from SciDataTool.Functions.load import load
    path = saved(pool[c["o"] - 1], ctx)
    try:
        return [load(path)]
    finally:
        os.remove(path)


@call("str")
def _(pool, c, ctx):
    x = pool[c["o"] - 1]
    path = saved(x, ctx)
    try:
        return [type(x)(init_str=path)]
    finally:
        os.remove(path)


@call("dir")
def _(pool, c, ctx):
    """Saved in a directory, under the name of its class."""
    from SciDataTool.Functions.load import load
    x = pool[c["o"] - 1]
    d = os.path.join(ctx["scratch"], "saved")
    os.mkdir(d)
    try:
        x.save(d)
        return [load(os.path.join(d, type(x).__name__ + ".json"))]
    finally:
        shutil.rmtree(d)


@call("bare")
def _(pool, c, ctx):
    """Saved under a name without extension."""
    from SciDataTool.Functions.load import load
    path = os.path.join(ctx["scratch"], "object")
    pool[c["o"] - 1].save(path)
    try:
        return [load(path + ".json")]
    finally:
        os.remove(path + ".json")


@call("inlist")
def _(pool, c, ctx):
    """Saved in a list beside another object and something else."""
    from SciDataTool.Functions.save import save_data
    from SciDataTool.Functions.load import load_list
    path = os.path.join(ctx["scratch"], "objects.json")
    save_data([pool[0], "text", pool[c["o"] - 1]], path)
    try:
        got = load_list(path)
    finally:
        os.remove(path)
    if len(got) != 3 or got[1] != "text" or type(got[0]) is not type(pool[0]):
        raise AssertionError("list read back as %r" % (got,))
    return [got[2]]


@call("inmap")
def _(pool, c, ctx):
    from SciDataTool.Functions.save import save_data
    from SciDataTool.Functions.load import load_dict
    path = os.path.join(ctx["scratch"], "objects.json")
    save_data({"a": {"b": pool[c["o"] - 1]}, "n": 3}, path)
    try:
        got = load_dict(path)
    finally:
        os.remove(path)
    if sorted(got) != ["a", "n"] or got["n"] != 3:
        raise AssertionError("dictionary read back as %r" % (got,))
    return [got["a"]["b"]]


@call("pkl")
def _(pool, c, ctx):
    import cloudpickle
    from SciDataTool.Functions.load import load
    path = os.path.join(ctx["scratch"], "object.pkl")
    with open(path, "wb") as f:
        cloudpickle.dump(pool[c["o"] - 1], f)
    try:
        return [load(path)]
    finally:
        os.remove(path)


@call("clone")
def _(heap, c, ctx):
    return CALLS[c["way"]](heap, c, ctx)[0]


@check("clone")
def _(got, ans, c, heap):
    from calls import object_diff
    if type(got) is not type(heap[c["o"] - 1]):
        return "class %s" % type(got).__name__
    return object_diff(got, ans) or (None if got == heap[c["o"] - 1] else "not equal to the original")


@call("set")
def _(pool, c, ctx):
    setattr(part(pool[c["o"] - 1], c["path"]), c["n"], make(c["v"]))


@call("poke")
def _(pool, c, ctx):
    x = getattr(part(pool[c["o"] - 1], c["path"]), c["n"])
    if isinstance(x, np.ndarray):
        if x.size and x.dtype.kind in "iufc":
            x[(0,) * x.ndim] = 77
    elif isinstance(x, list):
        x.append(77)
    else:
        for y in x.values():
            if isinstance(y, list):
                y.append(77)
        x["poke"] = 77


@call("eq")
def _(pool, c, ctx):
    a, b = pool[c["o"] - 1], pool[c["p"] - 1]
    return a == b, a != b


@check("eq")
def _(got, ans, c, pool):
    if got != (ans["b"], not ans["b"]):
        return "== is %r and != is %r" % got


@call("cmp")
def _(pool, c, ctx):
    kw = {}
    if c["ign"]:
        kw["ignore_list"] = list(c["ign"])
    if c["add"]:
        kw["is_add_value"] = True
    return pool[c["o"] - 1].compare(pool[c["p"] - 1], **kw)


def bare(s):
    for w in ("type(", "len(", ")", "."):
        s = s.replace(w, "")
    return s


@check("cmp")
def _(got, ans, c, pool):
    left = list(got)
    for d in sorted(ans["d"], key=lambda d: not d["exact"]):
        p = d["p"]
        if d["exact"]:
            hits = [g for g in left if g == p or g.startswith(p + " (")]
        else:  # some text about this attribute
            hits = [g for g in left if bare(g).startswith(bare(p))]
        if len(hits) < 1:
            return "%s is not reported in %s" % (p, got)
        left.remove(min(hits, key=len))
    if left:
        return "reports %s without a difference" % left


def run_case(case, ctx, describe):
    cnt = {"steps": 0, "ok": 0, "err": 0, "unspec": 0}
    expected = list(case["pool"])
    pool = [new(o) for o in expected]
    from replay import settle
    for k, st in enumerate(case["steps"]):
        c, ans = st["call"], st["ans"]
        cnt["steps"] += 1
        cnt[ans["k"]] += 1
        where = "step %d %s: " % (k + 1, describe(c))
        msg, got = settle(pool, c, ans, ctx)
        if msg:
            return where + msg, cnt
        if isinstance(got, list) and c["m"] not in ("cmp",):
            pool.extend(got)
        for y in ans["now"]:
            expected[y["o"] - 1:y["o"]] = [y["x"]]
        for j, (o, x) in enumerate(zip(expected, pool)):
            msg = odiff(o, x, "object %d" % (j + 1))
            if msg:
                return where + "afterwards " + msg, cnt
    return None, cnt
