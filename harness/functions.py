"""Calls of the function library (set routines, ...)."""
import numpy as np

import objects

from calls import call, check
from compare import result_dict, short, values
from nums import ev


def nudge(x, ulps):
    for _ in range(abs(ulps)):
        x = np.nextafter(x, np.inf if ulps > 0 else -np.inf)
    return x


def elements(a):
    return np.array([nudge(ev(v), u) for v, u in a], dtype=float)


def sets(name):
    from SciDataTool.Functions import set_routines
    return getattr(set_routines, name)


@call("unique_tol")
def _(heap, c, ctx):
    d = c["c"]
    return sets("unique_tol")(
        elements(d["a"]), tol=ev(d["tol"]), is_abs_tol=d["abs"], return_index=c["idx"],
        return_inverse=c["inv"], return_counts=c["cnt"], is_stable=c["stable"])


def members(b, groups, a, what="result"):
    """b holds one member per group."""
    b = np.asarray(b)
    if b.shape != (len(groups),):
        return "%s %s has %s values instead of %d" % (what, b, b.shape, len(groups))
    for x, g in zip(b, groups):
        if not any(a[j - 1] == x for j in g):
            return "%s %s: %r is not one of %s" % (what, b, x, [a[j - 1] for j in g])


def located(I, b, groups, a, what):
    I = np.asarray(I)
    if I.shape != (len(groups),):
        return "%s %s has the wrong length" % (what, I)
    for k, g in enumerate(groups):
        if I[k] + 1 not in g:
            return "%s %s: entry %d is not in %s" % (what, I, k, [j - 1 for j in g])
    return None


def exactly(got, exp, what):
    got = [int(x) for x in np.asarray(got)]
    return None if got == exp else "%s %s instead of %s" % (what, got, exp)


@check("unique_tol")
def _(got, ans, c, heap):
    a = elements(c["c"]["a"])
    got = list(got) if isinstance(got, tuple) else [got]
    if len(got) != 1 + c["idx"] + c["inv"] + c["cnt"]:
        return "%d results" % len(got)
    g = ans["groups"]
    msg = members(got[0], g, a)
    b = np.asarray(got.pop(0))
    if not msg and c["idx"]:
        msg = located(got.pop(0), b, g, a, "direct index")
    if not msg and c["inv"]:
        msg = exactly(got.pop(0), [j - 1 for j in ans["inv"]], "inverse index")
    if not msg and c["cnt"]:
        msg = exactly(got.pop(0), [len(x) for x in g], "counts")
    return msg


@call("union1d_tol")
def _(heap, c, ctx):
    d = c["c"]
    return sets("union1d_tol")(elements(d["a"]), elements(d["b"]), tol=ev(d["tol"]), is_abs_tol=d["abs"],
                               return_indices=c["idx"])


@check("union1d_tol")
def _(got, ans, c, heap):
    a, b = elements(c["c"]["a"]), elements(c["c"]["b"])
    u = got[0] if c["idx"] else got
    msg = members(u, ans["groups"], np.concatenate((a, b)))
    if not msg and c["idx"]:
        msg = exactly(got[1], [j - 1 for j in ans["ia"]], "first index") or \
            exactly(got[2], [j - 1 for j in ans["ib"]], "second index")
    return msg


@call("intersect1d_tol")
def _(heap, c, ctx):
    d = c["c"]
    return sets("intersect1d_tol")(elements(d["a"]), elements(d["b"]), tol=ev(d["tol"]), is_abs_tol=d["abs"],
                                   return_indices=c["idx"], assume_unique=c["uniq"])


@check("intersect1d_tol")
def _(got, ans, c, heap):
    a, b = elements(c["c"]["a"]), elements(c["c"]["b"])
    r = got[0] if c["idx"] else got
    msg = members(r, ans["groups"], a)
    if not msg and c["idx"]:
        msg = located(got[1], r, ans["groups"], a, "first index") or \
            located(got[2], r, ans["other"], b, "second index")
    return msg


# ------------------------- sums and products of spectra ----------------------
META = {"name": "Result", "symbol": "R_{s}", "unit": "Pa"}


def spectra(heap, c, method, **kw):
    if c["given"]:
        kw["tol_freq"] = ev(c["t"])
    if c["meta"]:
        kw.update(META, normalizations={"ref": objects.L("Norm_ref")(ref=11)})
    return getattr(heap[c["o"] - 1], method)(heap[c["p"] - 1], **kw)


@call("freq_sum")
def _(heap, c, ctx):
    return spectra(heap, c, "sum")


@call("freq_conv")
def _(heap, c, ctx):
    kw = {}
    if c["lo"][0]:
        kw["f_min"] = ev(c["lo"])
    if c["hi"][0]:
        kw["f_max"] = ev(c["hi"])
    return spectra(heap, c, "conv", **kw)


@check("freq_sum", "freq_conv")
def _(got, ans, c, heap):
    src = heap[c["o"] - 1]
    if type(got) is not type(src):
        return "class %s" % type(got).__name__
    for attr in META:
        want = META[attr] if c["meta"] else getattr(src, attr)
        if getattr(got, attr) != want:
            return "%s %r instead of %r" % (attr, getattr(got, attr), want)
    norms = {"ref": objects.L("Norm_ref")(ref=11)} if c["meta"] else src.normalizations
    if objects.snap(got.normalizations) != objects.snap(norms):
        return "normalizations %s" % got.normalizations
    if objects.snap(got.axes[0].normalizations) != objects.snap(src.axes[0].normalizations):
        return "normalizations of the axis %s" % got.axes[0].normalizations
    if [a.name for a in got.axes] != ["freqs"] or got.axes[0].unit != src.axes[0].unit:
        return "axes %s" % [(a.name, a.unit) for a in got.axes]
    f = np.asarray(got.axes[0].get_values())
    exp = np.array([ev(x) for x in ans["f"]])
    if f.shape != exp.shape or (abs(f - exp) > ev(ans["tol"])).any() or (np.diff(f) <= 0).any():
        return "lines %s instead of %s" % (short(f), short(exp))
    msg = values(got.values, {"v": ans["v"], "sh": [len(exp)]})
    if msg:
        return "amplitudes: " + msg
    r = got.get_along("freqs")
    return result_dict(r, {"axes": [], "v": ans["v"], "sh": [len(exp)] if len(exp) > 1 else []}, got.symbol)


# ------------------------------ unit conversion ------------------------------
def spell(u):
    """Text of a unit: atoms (prefix, symbol, power) of numerator and denominator."""
    st = u["style"]
    hat = "^" if st == 1 else ""

    def atoms(s):
        return "*".join(p + n + (hat + str(k) if k != 1 else "") for p, n, k in s)
    num = atoms(u["num"])
    if not u["den"]:
        return num
    return num + (" / " if st == 2 else "/") + atoms(u["den"])


def converter():
    from SciDataTool.Functions import conversions
    return conversions.convert


@call("convert")
def _(heap, c, ctx):
    v = [ev(x) for x in c["vs"]]
    v = v[0] if c["scalar"] else np.array(v)
    return converter()(v, spell(c["u"]), spell(c["w"]))


@check("convert")
def _(got, ans, c, heap):
    a, b, t, e = ans["q"]
    f = 2.0 ** a * 3.0 ** b * 10.0 ** t * np.pi ** e
    exp = np.array([ev(x) for x in c["vs"]]) * f
    if c["scalar"]:
        exp = exp[0]
    g = np.asarray(got, dtype=float)
    if g.shape != np.shape(exp) or (abs(g - exp) > 1e-9 * abs(exp)).any():
        return "%s -> %s: %s instead of %s" % (spell(c["u"]), spell(c["w"]), got, exp)


@call("convert_text")
def _(heap, c, ctx):
    return converter()(ev(c["v"]), c["u"], c["w"])


@check("convert_text")
def _(got, ans, c, heap):
    if abs(got - ev(ans["v"])) > 1e-9 * (1 + abs(ev(ans["v"]))):
        return "%s -> %s: %s instead of %s" % (c["u"], c["w"], got, ev(ans["v"]))


@call("coordinates")
def _(heap, c, ctx):
    from SciDataTool.Functions import conversions
    f = getattr(conversions, {"rphi_to_xyz": "rphiz_to_xyz"}.get(c["f"], c["f"]))
    real = lambda x: np.array([np.real(ev(v)) for v in x], dtype=float)
    angles = lambda x: np.pi * real(x)
    if "a" in c:
        a, b, phi = real(c["a"]), real(c["b"]), angles(c["phi"])
        if c["f"] in ("cart2pol", "pol2cart"):
            args = (a.reshape(c["sh"]), b.reshape(c["sh"]), phi)
            kw = {"axis_index": c["d"]}
        else:
            args, kw = (np.column_stack((a, b, real(c["c"]))), phi), {}
    else:
        kw = {}
        x, y = (real(v) for v in c["xy"])
        args = {"xyz_to_rphiz": lambda: (np.column_stack((x, y, real(c["z"]))),),
                "xy_to_rphi": lambda: (x, y),
                "rphiz_to_xyz": lambda: (np.column_stack((real(c["r"]), angles(c["p"]), real(c["z"]))),),
                "rphi_to_xyz": lambda: (np.column_stack((real(c["r"]), angles(c["p"]))),),
                "rphi_to_xy": lambda: (real(c["r"]), angles(c["p"]))}[c["f"]]()
    before = [np.array(v) for v in args]
    got = f(*args, **kw)
    if any((u != v).any() for u, v in zip(before, args)):
        raise AssertionError("arguments of %s changed" % c["f"])
    if isinstance(got, np.ndarray):
        got = [got[:, k] for k in range(got.shape[1])]
    return [np.asarray(g) for g in got]


@check("coordinates")
def _(got, ans, c, heap):
    real = lambda x: np.array([np.real(ev(v)) for v in x], dtype=float)
    if "cols" in ans:
        exp = [real(x).reshape(c.get("sh", [-1])) for x in ans["cols"]]
    else:
        exp = [real(ans["r"]), np.pi * real(ans["p"])] + ([real(ans["z"])] if c["f"] == "xyz_to_rphiz" else [])
    if len(got) != len(exp):
        return "%s gives %d columns instead of %d" % (c["f"], len(got), len(exp))
    if "cols" not in ans and got[1].shape == exp[1].shape:
        got = [got[0], np.where(exp[0] == 0, exp[1], got[1])] + got[2:]  # no direction at the origin
    scale = max(1.0, *[np.abs(e).max() for e in exp])
    for k, (g, e) in enumerate(zip(got, exp)):
        if g.shape != e.shape or not (np.abs(g - e) <= 1e-9 * scale).all():
            return "%s: column %d is %s instead of %s" % (c["f"], k, g, e)
