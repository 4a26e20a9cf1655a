"""Comparison of an implementation result with an answer of the specification."""
import numpy as np

from nums import ev, coord, is_free

RTOL = 1e-8


# magnitude of the data of the current case
SCALE = [1.0]


def close(got, exp):
    """got, exp: arrays of the same shape; returns None or a message."""
    got = np.asarray(got)
    exp = np.asarray(exp)
    if got.dtype.kind not in "biufc":
        return "not numeric: %r" % (got,)
    if got.shape != exp.shape:
        return "shape %s instead of %s" % (got.shape, exp.shape)
    if exp.size == 0:
        return None
    ng, ne = np.isnan(got), np.isnan(exp)
    if (ng != ne).any():
        return "nan pattern differs: %s instead of %s" % (short(got), short(exp))
    ok = ~ne
    if not ok.any():
        return None
    g, e = got[ok], exp[ok]
    fin = np.isfinite(e)
    if (np.isfinite(g) != fin).any() or (g[~fin] != e[~fin]).any():
        return "%s instead of %s" % (short(got), short(exp))
    if not fin.any():
        return None
    g, e = g[fin], e[fin]
    m = np.abs(e).max()
    if m <= 1e-13 * SCALE[0]:  # zero is reached up to the rounding of the data
        m = SCALE[0]
    if (np.abs(g - e) > RTOL * (np.abs(e) + m)).any():
        return "%s instead of %s" % (short(got), short(exp))
    return None


def short(a):
    s = np.array2string(np.asarray(a), precision=8, threshold=40).replace("\n", " ")
    return s if len(s) < 400 else s[:400] + "..."


def array(ans):
    return np.array([ev(x) for x in ans["v"]]).reshape(tuple(ans["sh"]))


def values(got, ans):
    exp = array(ans)
    free = np.array([is_free(x) for x in ans["v"]], dtype=bool).reshape(exp.shape)
    if free.any():
        got = np.asarray(got)
        if got.shape != exp.shape or got.dtype.kind not in "biufc":
            return close(got, exp)
        got, exp = got[~free], exp[~free]
    return close(got, exp)


def coords(ax):
    return np.array([coord(x, ax["e"]) for x in ax["x"]], dtype=float)


def same_labels(got, exp):
    """Names, or numbers however they are written."""
    got, exp = [str(s) for s in got], [str(s) for s in exp]
    try:
        return [float(s) for s in got] == [float(s) for s in exp]
    except ValueError:
        return got == exp


def axis_entry(got, ax):
    if ax["t"] == "op":
        if isinstance(got, str) and got == ax["op"]:
            return None
        return "axis %s: %r instead of operation name" % (ax["n"], got)
    if ax["t"] == "lab":
        g = [str(s) for s in np.ravel(np.asarray(got))]
        return None if same_labels(g, ax["lab"]) else "axis %s: %s instead of %s" % (ax["n"], g, ax["lab"])
    msg = close(np.ravel(np.asarray(got)), coords(ax))
    return None if msg is None else "axis %s: %s" % (ax["n"], msg)


def result_dict(got, ans, symbol):
    """Dictionary answers of the get_along family."""
    if not isinstance(got, dict):
        return "result is %s" % type(got).__name__
    for ax in ans["axes"]:
        if ax["n"] not in got:
            return "axis %s missing in result %s" % (ax["n"], sorted(got))
        msg = axis_entry(got[ax["n"]], ax)
        if msg:
            return msg
    for n in ans.get("absent", []):
        if n in got:
            return "axis %s in result although not requested" % n
    if symbol not in got:
        return "values missing in result %s" % sorted(got)
    msg = values(got[symbol], ans)
    if msg:
        return "values: " + msg
    if "other" in ans:
        oth = got.get("axes_dict_other", {})
        if set(oth) != {ax["n"] for ax in ans["other"]}:
            return "unrequested axes %s" % sorted(oth)
        for ax in ans["other"]:
            at, unit = oth[ax["n"]]
            msg = axis_entry([at] if ax["t"] == "lab" else at, ax)
            if msg:
                return "unrequested " + msg
            if unit not in (ax["u"], "SI") and {unit, ax["u"]} != {"", "dimless"}:
                return "unrequested axis %s in %r" % (ax["n"], unit)
    return None
