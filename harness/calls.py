"""The calls of the specification, made on real objects.

Each entry of CALLS takes (heap, call, ctx) and returns the raw result; the
matching entry of CHECKS compares the raw result with the answer."""
from zlib import crc32

import numpy as np

import objects
from nums import ev, coord, is_free
from compare import result_dict, close, array, values, same_labels, axis_entry, SCALE

CALLS = {}
CHECKS = {}


def call(name):
    def deco(f):
        CALLS[name] = f
        return f
    return deco


def check(*names):
    def deco(f):
        for n in names:
            CHECKS[n] = f
        return f
    return deco


def num(x, e=0):
    return repr(float(coord(x, e)))


def render(r):
    """Request record -> (string, axis_data entry or None)."""
    n, f, e = r["ax"], r["f"], r.get("e", 0)
    vs = [num(v, e) for v in r["vs"]]
    data = None
    if f == "whole":
        s = n
    elif f == "one":
        s = n + "[oneperiod]"
    elif f == "small":
        s = n + "[smallestperiod]"
    elif f == "anti":
        s = n + "[antiperiod]"
    elif f == "pattern":
        s = n + "[pattern]"
    elif f == "idx":
        s = n + "[" + ",".join(str(i) for i in r["ns"]) + "]"
    elif f == "range":
        s = n + "[%d:%d]" % tuple(r["ns"])
    elif f == "val":
        s = n + "=" + vs[0]
    elif f in ("ivl", "list"):
        s = n + "=[" + ",".join(vs) + "]"
    elif f == "gt":
        s = n + ">" + vs[0]
    elif f == "lt":
        s = n + "<" + vs[0]
    elif f == "data":
        s = n + "=axis_data"
        data = np.array([float(coord(v, e)) for v in r["vs"]])
    elif f == "all":
        s = n + "[]"
    elif f == "largest":
        s = n + "[%dlargest]" % r["ns"][0]
    elif f == "op":
        s = n + "=" + r["op"]
    elif f == "raw":
        s = n + r["op"]
    else:
        raise ValueError("request form " + f)
    if r["u"]:
        if r.get("arrow"):
            s = n + "->" + r["u"] + s[len(n):]
        else:
            s += "{" + r["u"] + "}"
    return s, data


def request(c):
    args, data = [], {}
    for r in c["reqs"]:
        s, d = render(r)
        args.append(s)
        if d is not None:
            data[r["ax"]] = d
    kw = {}
    if data:
        kw["axis_data"] = data
    u = c.get("u", "")
    if u:
        if u.startswith("->"):
            kw["is_norm"] = True
        else:
            kw["unit"] = u
    if not c.get("sq", True):
        kw["is_squeeze"] = False
    # these also take the requests as one tuple
    if c["m"] in ("get_along", "get_magnitude_along", "get_phase_along", "get_harmonics", "vec_along", "vec_harm") \
            and len(args) > 0 and crc32("".join(args).encode()) % 5 == 0:
        args = [tuple(args)]
    return args, kw


@call("evaluate")
@call("get_along")
def _(heap, c, ctx):
    args, kw = request(c)
    return heap[c["o"] - 1].get_along(*args, **kw)


@check("get_along", "evaluate")
def _(got, ans, c, heap):
    return result_dict(got, ans, heap[c["o"] - 1].symbol)


@call("get_magnitude_along")
def _(heap, c, ctx):
    args, kw = request(c)
    return heap[c["o"] - 1].get_magnitude_along(*args, **kw)


@check("get_magnitude_along")
def _(got, ans, c, heap):
    return result_dict(got, ans, heap[c["o"] - 1].symbol)


@call("get_phase_along")
def _(heap, c, ctx):
    args, kw = request(c)
    if c["deg"]:
        kw["unit"] = "°"
    return heap[c["o"] - 1].get_phase_along(*args, **kw)


@check("get_phase_along")
def _(got, ans, c, heap):
    """A phase is compared as a direction: it turns the modulus into the answer."""
    symbol = heap[c["o"] - 1].symbol
    if not isinstance(got, dict) or symbol not in got:
        return "no values in the result"
    p = np.asarray(got[symbol])
    if p.dtype.kind != "f":
        return "phase is not real: %r" % (p,)
    if c["deg"]:
        p = p * np.pi / 180
    if (np.abs(p) > np.pi * (1 + 1e-9)).any():
        return "phase out of range: %r" % (p,)
    exp = array(ans)
    if p.shape != exp.shape:
        return "shape %s instead of %s" % (p.shape, exp.shape)
    return result_dict(dict(got, **{symbol: np.abs(exp) * np.exp(1j * p)}), ans, symbol)


@call("get_harmonics")
def _(heap, c, ctx):
    args, kw = request(c)
    return heap[c["o"] - 1].get_harmonics(c["n"], *args, **kw)


@check("get_harmonics")
def _(got, ans, c, heap):
    """n lines of the table, each once, in decreasing order, none of the others larger."""
    return table_diff(got, ans, heap[c["o"] - 1].symbol, ans["tab"])


def table_diff(got, ans, symbol, tab, lines=True):
    exp = np.array([ev(t["v"]) for t in tab], dtype=float)
    xs = np.array([[coord(x, 0) for x in t["x"]] for t in tab])
    n = min(ans["n"], len(exp))
    v = np.asarray(got[symbol])
    best = np.sort(exp)[::-1][:n]
    msg = close(v, best)
    if msg:
        return "values: " + msg
    if not lines:
        return None
    span = np.abs(xs).max() or 1.0
    left = list(range(len(exp)))
    cols = []
    for name in ans["names"]:
        col = np.asarray(got[name])
        if col.shape != (n,):
            return "coordinates of %s: shape %s instead of %s" % (name, col.shape, (n,))
        cols.append(col)
    for j in range(n):
        at = [i for i in left if all(abs(col[j] - xs[i][q]) <= 1e-8 * span for q, col in enumerate(cols))]
        if not at:
            return "line %s is not a line of the answer, or twice" % [col[j] for col in cols]
        m = max(abs(best).max(), SCALE[0] * 1e-3)
        if abs(exp[at[0]] - v[j]) > 1e-7 * m:
            return "value %r instead of %r at %s" % (v[j], exp[at[0]], [col[j] for col in cols])
        left.remove(at[0])


@call("get_data_along")
def _(heap, c, ctx):
    args, kw = request(c)
    return heap[c["o"] - 1].get_data_along(*args, **kw)


@check("get_data_along")
def _(got, ans, c, heap):
    return object_diff(got, ans)


def unit_diff(got, expr):
    """The declared unit is the unit of the expression."""
    from SciDataTool.Functions.conversions import convert
    try:
        f = convert(1.0, got, expr)
    except Exception as e:
        return "declared unit %r instead of %s (%s)" % (got, expr, type(e).__name__)
    if abs(f - 1) > 1e-9:
        return "declared unit %r is %r %s" % (got, f, expr)


@call("scribble")
def _(heap, c, ctx):
    objects.scribble(heap[c["o"] - 1])


@check("scribble")
def _(got, ans, c, heap):
    return None


def object_diff(got, ans):
    """Content of a new object."""
    o = ans["obj"]
    if type(got).__name__ != o["cls"]:
        return "class %s instead of %s" % (type(got).__name__, o["cls"])
    if "uexp" in ans:
        msg = unit_diff(got.unit, ans["uexp"])
        if msg:
            return msg
    for attr, key in (("name", "name"), ("symbol", "sym"), ("unit", "unit"), ("is_real", "real")):
        if attr == "unit" and "uexp" in ans:
            continue
        if getattr(got, attr) != o[key]:
            return "%s %r instead of %r" % (attr, getattr(got, attr), o[key])
    if sorted(got.normalizations) != sorted(n["name"] for n in o["norms"]):
        return "normalizations %s" % sorted(got.normalizations)
    if [a.name for a in got.axes] != [a["name"] for a in o["axes"]]:
        return "axes %s instead of %s" % ([a.name for a in got.axes], [a["name"] for a in o["axes"]])
    for g, a, full in zip(got.axes, o["axes"], ans["full"]):
        msg = axis_diff(g, a, full)
        if msg:
            return "axis %s: %s" % (a["name"], msg)
    sh = tuple(len(a["lab"]) if a["comp"] else len(a["x"]) for a in o["axes"])
    msg = values(got.values, {"v": o["val"], "sh": sh})
    return msg and "stored values: " + msg


def axis_diff(g, a, full):
    if g.unit != a["unit"]:
        return "unit %r instead of %r" % (g.unit, a["unit"])
    if sorted(g.normalizations) != sorted(n["name"] for n in a["norms"]):
        return "normalizations %s" % sorted(g.normalizations)
    if a["comp"]:
        if not same_labels(g.get_values(), a["lab"]):
            return "labels %s instead of %s" % (g.get_values(), a["lab"])
        return None
    e = a["e"]
    msg = close(g.get_values(), np.array([coord(x, e) for x in full]))
    if msg:
        return msg
    msg = close(g.get_values(is_smallestperiod=True), np.array([coord(x, e) for x in a["x"]]))
    return msg and "stored part: " + msg


def method(name):
    def f(heap, c, ctx):
        return getattr(heap[c["o"] - 1], name)()
    CALLS[name] = f
    CHECKS[name] = lambda got, ans, c, heap: object_diff(got, ans)


method("time_to_freq")
method("freq_to_time")


@call("unleak")
def _(heap, c, ctx):
    return heap[c["o"] - 1].filter_spectral_leakage(np.array([ev(f) for f in c["fs"]], dtype=float))


@check("unleak")
def _(got, ans, c, heap):
    return vector_diff(got, ans, c) if "comps" in ans["obj"] else object_diff(got, ans)


@call("to_dual")
def _(heap, c, ctx):
    other = {} if c["p"] == 0 else {
        "datatime" if type(heap[c["o"] - 1]).__name__ == "DataFreq" else "datafreq": heap[c["p"] - 1]}
    return heap[c["o"] - 1].to_datadual(**other)


COMPARE = {"plain": "compare_along", "mag": "compare_magnitude_along", "phase": "compare_phase_along"}


@call("compare")
def _(heap, c, ctx):
    args, kw = request(c)
    return getattr(heap[c["o"] - 1], COMPARE[c["kind"]])(
        *args, data_list=[heap[k - 1] for k in c["others"]], **kw)


def interpolate(y, x, at, dim):
    """Linear interpolation of y, given at x along dimension dim, at the points at."""
    i = np.clip(np.searchsorted(x, at, side="right") - 1, 0, len(x) - 2)
    t = (at - x[i]) / (x[i + 1] - x[i])
    t = t.reshape((-1,) + (1,) * (y.ndim - dim - 1))
    return np.take(y, i, axis=dim) * (1 - t) + np.take(y, i + 1, axis=dim) * t


@check("compare")
def _(got, ans, c, heap):
    """Every array is the answer of its field, interpolated on the coordinates returned."""
    fields = [heap[k - 1] for k in [c["o"]] + list(c["others"])]
    at = []
    for ax in ans["axes"]:
        if ax["n"] not in got:
            return "axis %s missing" % ax["n"]
        if ax["same"]:
            msg = axis_entry(got[ax["n"]], ax)
            if msg:
                return msg
            at.append(None)
            continue
        x = np.asarray(got[ax["n"]], dtype=float)
        lo, hi = coord(ax["over"]["lo"], ax["e"]), coord(ax["over"]["hi"], ax["e"])
        tol = 1e-9 * (hi - lo)
        if x.ndim != 1 or len(x) < ax["over"]["n"] or (np.diff(x) <= 0).any() or x[0] < lo - tol or x[-1] > hi + tol:
            return "axis %s: %s are not common coordinates of [%s, %s]" % (ax["n"], x, lo, hi)
        at.append(x)
    for k, (f, part) in enumerate(zip(fields, ans["parts"])):
        key = f.symbol if k == 0 else "%s_%d" % (f.symbol, k - 1)
        if key not in got:
            return "values %s missing" % key
        if ans["kind"] == "phase":  # the phases of the field itself (see get_phase_along)
            args, kw = request(c)
            exp = np.asarray(f.get_phase_along(*args, **kw)[f.symbol]).reshape(tuple(part["sh"]))
        else:
            if any(is_free(x) for x in part["v"]):
                return None
            exp = array(part)
        for j, x in enumerate(at):
            if x is not None:
                own = np.array([coord(q, ans["axes"][j]["e"]) for q in part["own"][j]["x"]])
                exp = interpolate(exp, own, x, part["own"][j]["dim"] - 1)
        msg = close(np.asarray(got[key]), np.squeeze(exp))
        if msg:
            return "%s: %s" % (key, msg)


@call("get_filter")
def _(heap, c, ctx):
    return heap[c["o"] - 1].axes[c["d"] - 1].get_filter({w["key"]: list(w["items"]) for w in c["want"]})


@check("get_filter")
def _(got, ans, c, heap):
    exp = [i for i, n in enumerate(ans["ns"]) if n]
    return None if list(got) == exp else "indices %s instead of %s" % (got, exp)


# ------------------------------- axes ----------------------------------------
PARTS = {"whole": {}, "one": {"is_oneperiod": True}, "anti": {"is_antiperiod": True},
         "small": {"is_smallestperiod": True}}


@call("axis_length")
def _(heap, c, ctx):
    return heap[c["o"] - 1].get_length(**PARTS[c["part"]])


@check("axis_length")
def _(got, ans, c, heap):
    return None if got == ans["n"] else "length %r instead of %d" % (got, ans["n"])


@call("axis_values")
def _(heap, c, ctx):
    kw = dict(PARTS[c["part"]])
    if c["u"]:
        kw["unit"] = c["u"]
    return heap[c["o"] - 1].get_values(**kw)


@check("axis_values")
def _(got, ans, c, heap):
    if "lab" in ans:
        return None if [str(s) for s in got] == ans["lab"] else "labels %s" % (got,)
    return close(got, np.array([coord(x, ans["e"]) for x in ans["x"]]))


@call("axis_periodicity")
def _(heap, c, ctx):
    a = heap[c["o"] - 1]
    return a.has_period(), a.get_periodicity()


@check("axis_periodicity")
def _(got, ans, c, heap):
    has, (n, aper) = got
    if bool(has) != (ans["n"] > 1) or n != ans["n"] or bool(aper) != ans["aper"]:
        return "periodicity %s %s %s instead of %s %s" % (has, n, aper, ans["n"], ans["aper"])


@call("named_axes")
def _(heap, c, ctx):
    return heap[c["o"] - 1].get_axes(*c["names"])


@check("named_axes")
def _(got, ans, c, heap):
    if [a.name for a in got] != [x["a"]["name"] for x in ans["axes"]]:
        return "axes %s instead of %s" % ([a.name for a in got], [x["a"]["name"] for x in ans["axes"]])
    for a, x in zip(got, ans["axes"]):
        msg = axis_diff(a, x["a"], x["full"])
        if msg:
            return msg


@call("field_period")
def _(heap, c, ctx):
    return heap[c["o"] - 1].has_period()


@check("field_period")
def _(got, ans, c, heap):
    return None if bool(got) == ans["has"] else "has_period %s instead of %s" % (got, ans["has"])


@call("axis_periodic")
def _(heap, c, ctx):
    return heap[c["o"] - 1].get_axis_periodic(c["n"], is_aper=c["aper"])


@call("axis_to_linspace")
def _(heap, c, ctx):
    return heap[c["o"] - 1].to_linspace()


@check("axis_periodic", "axis_to_linspace")
def _(got, ans, c, heap):
    if got.name != ans["obj"]["name"]:
        return "name %r" % got.name
    return axis_diff(got, ans["obj"], ans["full"])


import functions  # noqa: E402,F401 registers its calls
import plots  # noqa: E402,F401
import pool  # noqa: E402,F401


@call("export")
def _(heap, c, ctx):
    """Files written, as rows of cells by file name; the directory is made and removed here."""
    import os
    import shutil
    args, kw = request(c)
    options = {k: kw.pop(k) for k in ("axis_data", "is_norm") if k in kw}
    where = os.path.join(ctx["scratch"], "export")
    os.makedirs(where)
    try:
        heap[c["o"] - 1].export_along(
            *args, save_path=where, is_2D=c["flat"], is_multiple_files=c["multi"],
            file_name="out" if c["file"] else None, plot_options=options, **kw)
        return rows_of(where)
    finally:
        shutil.rmtree(where)


def cells(row, ax):
    """Cells of coordinates or names against an axis."""
    if ax["t"] == "lab":
        return axis_entry(row, ax)
    try:
        row = np.array([complex(t) for t in row])  # real coordinates beside complex values
        return axis_entry(row if row.imag.any() else row.real, ax)
    except ValueError:
        return "axis %s: cells %r" % (ax["n"], row)


def heading(ax):
    return {ax["n"] + "[" + u + "]" for u in ([ax["u"]] if ax["u"] not in ("", "dimless") else ["", "dimless", "SI"])}


@check("export")
def _(got, ans, c, heap):
    o = heap[c["o"] - 1]
    axes, files = ans["axes"], ans["files"]
    base = "out" if c["file"] else o.symbol + "_Data"
    if len(got) != len(files):
        return "%d files instead of %d: %s" % (len(got), len(files), sorted(got))
    if len(files) == 1:
        if sorted(got) != [base + ".csv"]:
            return "file %s" % sorted(got)
        order = [base + ".csv"]
    else:  # the third coordinate is at the end of the name
        ax = axes[2]
        start = base + "_" + ax["n"]
        if any(not n.startswith(start) or not n.endswith(".csv") for n in got):
            return "files %s" % sorted(got)
        order = []
        for k in range(len(files)):
            one = dict(ax, x=ax["x"][k:k + 1], lab=ax["lab"][k:k + 1])
            hit = [n for n in got if cells([n[len(start):-4]], one) is None]
            if len(hit) != 1:
                return "files %s: no single one for sample %d of %s" % (sorted(got), k, ax["n"])
            order += hit
    for n, f in zip(order, files):
        rows = got[n]
        if len(rows) < 2 or len(rows[0]) < 3 or rows[0][:2] != [o.symbol, o.name]:
            return "first lines %s" % rows[:2]
        u = ans["unit"]
        if u == "dB":
            u = "dB re. %s %s" % (float(ev(ans["ref"])), ans["own"])
        if u != "->" and rows[0][2].replace("re. 1 ", "re. 1.0 ").replace("re. 2 ", "re. 2.0 ") != "[" + u + "]":
            return "unit cell %r instead of [%s]" % (rows[0][2], u)
        head, body = rows[1], rows[2:]
        if not c["flat"]:
            want = heading(axes[0])
            if len(axes) > 1:
                want = {a + "/" + b for a in want for b in heading(axes[1])}
            if head[0] not in want:
                return "heading %r instead of %s" % (head[0], sorted(want))
            if len(axes) > 1:
                msg = cells(head[1:], axes[1])
                if msg:
                    return "second line: " + msg
        elif axes[0]["u"] and axes[0]["n"] in ("time", "angle", "freqs") and "[" + axes[0]["u"] + "]" not in head[0]:
            return "heading %r has not the unit %s" % (head[0], axes[0]["u"])
        if any(len(r) != f["sh"][1] + 1 for r in body):
            return "lines of %s cells instead of %d" % (sorted({len(r) for r in body}), f["sh"][1] + 1)
        if not (c["flat"] and axes[0]["t"] == "lab"):  # curves over names are drawn over their ranks
            msg = cells([r[0] for r in body], axes[0])
            if msg:
                return "first column: " + msg
        try:
            v = np.array([[complex(t) for t in r[1:]] for r in body])
        except ValueError:
            return "values %r" % (body,)
        if not v.imag.any():
            v = v.real
        msg = values(v.reshape(len(body), -1), f)
        if msg:
            return "values: " + msg


def rows_of(where):
    """Files written in a directory, as rows of cells by file name."""
    import csv
    import os
    got = {}
    for n in sorted(os.listdir(where)):
        with open(os.path.join(where, n), newline="") as f:
            got[n] = list(csv.reader(f))
    return got


def periodic(a):
    """An axis rewritten on other periodicities, when it can be."""
    return [a.get_axis_periodic(n) for n in (1, 2)] + [a.copy()] if hasattr(a, "get_axis_periodic") and not a.is_components else []


@call("read")
def _(heap, c, ctx):
    """A read that needs no answer of its own."""
    o, f = heap[c["o"] - 1], c["f"]
    args, kw = request(c)
    if f == "axes":
        return [[a.get_values(), a.get_values(is_oneperiod=True), a.get_values(is_smallestperiod=True),
                 a.get_length(), a.has_period()] + periodic(a) for a in o.get_axes()]
    if f == "==":
        return [o == heap[k] for k in range(len(heap))]
    if f == "compare":
        return [o.compare(heap[k]) for k in range(len(heap)) if type(heap[k]) is type(o)]
    if f == "filter_spectral_leakage":
        return o.filter_spectral_leakage(np.array([-1.0, 0.0, 1.0]))
    if f == "change_periodicity":
        return o.change_periodicity(2, 1)
    if f == "export_along":
        import os
        import shutil
        options = {k: kw.pop(k) for k in ("axis_data", "is_norm") if k in kw}
        kw.pop("is_squeeze", None)
        where = os.path.join(ctx["scratch"], "export")
        os.makedirs(where)
        try:
            o.export_along(*args, save_path=where, plot_options=options, **kw)
            return rows_of(where)
        finally:
            shutil.rmtree(where)
    if "_harm" in f:
        args.insert(0, c["n"])
    if f.startswith("compare_"):
        kw["data_list"] = [heap[k - 1] for k in c["others"]]
    if f in ("get_along", "get_xyz_along", "get_rphiz_along"):
        return getattr(o, f)(*args, **kw)
    kw.pop("is_squeeze", None)
    return getattr(o, f)(*args, **kw)


@call("vec_along")
def _(heap, c, ctx):
    args, kw = request(c)
    if c["mag"]:
        kw.pop("is_squeeze", None)
    return getattr(heap[c["o"] - 1], "get_%s%s_along" % ("mag_" if c["mag"] else "", c["rep"]))(*args, **kw)


@check("vec_along")
def _(got, ans, c, heap):
    for p in ans["comps"]:
        msg = result_dict(got, dict(ans, sh=p["sh"], v=p["v"]), p["n"])
        if msg:
            return p["n"] + ": " + msg


@call("vec_harm")
def _(heap, c, ctx):
    args, kw = request(c)
    return getattr(heap[c["o"] - 1], "get_harm_%s_along" % c["rep"])(c["n"], *args, **kw)


@check("vec_harm")
def _(got, ans, c, heap):
    """Each table holds the largest values of its component, beside the lines of one of them."""
    for p in ans["comps"]:
        msg = table_diff(got, ans, p["n"], p["tab"], False)
        if msg:
            return p["n"] + ": " + msg
    msgs = [table_diff(got, ans, p["n"], p["tab"]) for p in ans["comps"] if p["given"]]
    if all(msgs):
        return msgs[0]


@call("vec_convert")
def _(heap, c, ctx):
    return getattr(heap[c["o"] - 1], "to_" + c["rep"])()


@call("vec_fourier")
def _(heap, c, ctx):
    return heap[c["o"] - 1].freq_to_time() if c["inv"] else heap[c["o"] - 1].time_to_freq()


@call("vec_extract")
def _(heap, c, ctx):
    args, kw = request(c)
    return heap[c["o"] - 1].get_vectorfield_along(*args, **kw)


@call("rotate")
def _(heap, c, ctx):
    kw = {}
    if c["wave"] and c["tsym"]["t"] != "none":
        kw["sym_t_new"] = {{"per": "period", "aper": "antiperiod"}[c["tsym"]["t"]]: c["tsym"]["n"]}
    if not c["drop"] and not c["wave"]:  # keep lines of no amplitude
        kw["atol"] = 0
    got = heap[c["o"] - 1].change_referential(60 * ev(c["s"]), c["ask"], **kw)
    return got[0] if isinstance(got, tuple) else got


def lines_diff(got, o):
    """A rotated spectrum as a set of lines: those not listed are zero."""
    if type(got).__name__ != "DataFreq":
        return "class %s instead of DataFreq" % type(got).__name__
    for attr, key in (("name", "name"), ("symbol", "sym"), ("unit", "unit"), ("is_real", "real")):
        if getattr(got, attr) != o[key]:
            return "%s %r instead of %r" % (attr, getattr(got, attr), o[key])
    if [a.name for a in got.axes[:2]] != ["freqs", "wavenumber"]:
        return "axes %s" % [a.name for a in got.axes]
    f, r = (np.asarray(a.get_values()) for a in got.axes[:2])
    v = np.asarray(got.values)
    if v.ndim < 2 or v.shape[:2] != (f.size, r.size) or v.size != f.size * r.size * o["rest"]:
        return "values of shape %s for %d frequencies, %d wavenumbers" % (v.shape, f.size, r.size)
    v = v.reshape(f.size, r.size, o["rest"])
    for x, what in ((f, "frequencies"), (r, "wavenumbers")):
        y = np.sort(x)
        if y.size > 1 and np.diff(y).min() < 1e-7:
            return "repeated %s %s" % (what, x)
    if o["real"] and f.size and f.min() < -1e-9:
        return "negative frequencies %s" % f
    left = np.abs(v) > 1e-9 * SCALE[0]
    for e in o["lines"]:
        fe, re, ke, x = ev(e["f"]), ev(e["r"]), e["k"] - 1, ev(e["v"])
        i, j = np.flatnonzero(np.abs(f - fe) < 1e-7), np.flatnonzero(np.abs(r - re) < 1e-7)
        y = v[i[0], j[0], ke] if i.size and j.size else 0
        if abs(y - x) > 1e-8 * SCALE[0]:
            return "line %g, %g: %s instead of %s" % (fe, re, y, x)
        if i.size and j.size:
            left[i[0], j[0], ke] = False
    if left.any():
        i, j, k = np.argwhere(left)[0]
        return "line %g, %g: %s instead of 0" % (f[i], r[j], v[i, j, k])
    return None


@check("rotate")
def _(got, ans, c, heap):
    if ans["obj"]["cls"] == "VectorField":
        return vector_diff(got, ans, c)
    return object_diff(got, ans) if c["wave"] else lines_diff(got, ans["obj"])


@call("change_periodicity")
def _(heap, c, ctx):
    return heap[c["o"] - 1].change_periodicity(c["na"], c["nt"], is_aper_a_new=c["apera"], is_aper_t_new=c["apert"])


@check("vec_convert", "vec_fourier", "vec_extract", "change_periodicity")
def _(got, ans, c, heap):
    return vector_diff(got, ans, c)


def vector_diff(got, ans, c):
    o = ans["obj"]
    if type(got).__name__ != "VectorField" or got.symbol != o["sym"] or got.name != o["name"]:
        return "not the vector field %s" % o["name"]
    if sorted(got.components) != sorted(p["key"] for p in o["comps"]):
        return "components %s instead of %s" % (sorted(got.components), sorted(p["key"] for p in o["comps"]))
    if c["m"] == "rotate" and not c["wave"]:
        for p in o["comps"]:
            msg = lines_diff(got.components[p["key"]], p["f"])
            if msg:
                return p["key"] + ": " + msg
        return None
    for p, part in zip(o["comps"], ans["parts"]):
        f = got.components[p["key"]]
        if c["m"] == "vec_convert":  # turned components have names of their own
            part = dict(part, obj=dict(part["obj"], name=f.name, sym=f.symbol))
        msg = object_diff(f, part)
        if msg:
            return p["key"] + ": " + msg
