"""Plots: what the figure contains."""
import numpy as np

from calls import call, check, num, request
from compare import array, close, coords, same_labels


def axes_of(f, c, **kw):
    """Call a plot on an empty figure and give what the figure then contains."""
    import logging
    logging.getLogger("matplotlib").setLevel(logging.ERROR)
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    fig, ax = plt.subplots()
    try:
        args, k = request(c)
        if c["type"]:
            k["type_plot"] = c["type"]
        f(*args, fig=fig, ax=ax, is_show_fig=False, **k, **kw)
        legend = ax.get_legend()
        return {
            "lines": [(np.array(l.get_xdata()), np.array(l.get_ydata())) for l in ax.lines],
            "bars": [(np.array([p.get_x() + p.get_width() / 2 for p in b]), np.array([p.get_height() for p in b]),
                      max(abs(p.get_width()) for p in b)) for b in ax.containers],
            "arrows": [(s.X, s.Y, s.U, s.V) for s in ax.collections if hasattr(s, "U")],
            "points": [(np.array(s.get_offsets()), np.ma.filled(s.get_array().astype(float), np.nan)) for s in ax.collections
                       if s.get_array() is not None and not hasattr(s, "get_coordinates")],
            "meshes": [(np.array(s.get_coordinates()), np.array(s.get_array())) for s in ax.collections if hasattr(s, "get_coordinates")],
            "images": [(np.array(im._Ax), np.array(im._Ay), np.array(im._A)) for im in ax.images],
            "title": ax.get_title(), "xlabel": ax.get_xlabel(), "ylabel": ax.get_ylabel(),
            "ticks": [t.get_text() for t in ax.get_xticklabels()], "yticks": [t.get_text() for t in ax.get_yticklabels()],
            "legend": [t.get_text() for t in legend.get_texts()] if legend else [],
        }
    finally:
        plt.close(fig)


@call("plot_2D")
def _(heap, c, ctx):
    kw = {"data_list": [heap[k - 1] for k in c["others"]]} if c["others"] else {}
    return axes_of(heap[c["o"] - 1].plot_2D_Data, c, **kw)


@call("vec_plot")
def _(heap, c, ctx):
    kw = {"data_list": [heap[k - 1] for k in c["others"]]} if c["others"] else {}
    return axes_of(heap[c["o"] - 1].plot_2D_Data, c, component_list=[c["comp"]], **kw)


@call("vec_arrows")
def _(heap, c, ctx):
    kw = {"component_list": [c["comp"]]} if c["comp"] else {}
    if float(num(c["radius"])):
        kw["radius"] = float(num(c["radius"]))
    return axes_of(heap[c["o"] - 1].plot_2D_Data, c, **kw)


@check("vec_arrows")
def _(got, ans, c, heap):
    phi, r = coords(ans["phi"]), float(num(c["radius"])) or 1.0
    u, v = (array(p) for p in ans["comps"][:2])
    if c["comp"]:  # one component, along its own direction
        u, v = (u * np.cos(phi), u * np.sin(phi)) if c["comp"] == "radial" else (-v * np.sin(phi), v * np.cos(phi))
    if len(got["arrows"]) != 1:
        return "%d sets of arrows" % len(got["arrows"])
    x, y, *uv = got["arrows"][0]
    for name, a, b in (("abscissae", x, r * np.cos(phi)), ("ordinates", y, r * np.sin(phi)),
                       ("components", np.concatenate(uv), np.concatenate([u.ravel(), v.ravel()]))):
        msg = same(a, b)
        if msg:
            return "%s of arrows: %s" % (name, msg)


@call("plot_3D")
def _(heap, c, ctx):
    kw = {"is_switch_axes": True} if c["switch"] else {}
    return axes_of(heap[c["o"] - 1].plot_3D_Data, c, is_2D_view=True, **kw)


def hidden(v, level):
    """Levels of zero and below are not drawn."""
    return np.where(v > 1e-9, v, np.nan) if level else v


def ranks(ax):
    """Names are drawn at their ranks."""
    return np.arange(len(ax["lab"]), dtype=float) if ax["t"] == "lab" else coords(ax)


def same(got, exp):
    got, exp = np.array(got, dtype=float), np.array(exp, dtype=float)
    if got.shape != exp.shape or (np.isnan(got) != np.isnan(exp)).any():
        return "%s instead of %s" % (got, exp)
    return close(got[~np.isnan(exp)], exp[~np.isnan(exp)])


def label_of(text, n, u):
    if u and n in ("time", "angle", "freqs") and "[" + u + "]" not in text:
        return "label %r has not the unit %s of %s" % (text, u, n)


def entries(texts, lists, names):
    """Legend of curves, one per entry of a listed axis."""
    exp = [(n, v) for n, l in zip(names, lists) for v in (l["lab"] if l["t"] == "lab" else coords(l))]
    if len(texts) != len(exp):
        return "legend %s of %d curves" % (texts, len(exp))
    for t, (n, v) in zip(texts, exp):
        got = t.partition("=")[2]
        if len(names) > 1 and not t.startswith(n):
            return "legend %r of field %s" % (t, n)
        if v not in got if isinstance(v, str) else abs(float(got.split()[0]) - v) > 6e-3 * abs(v):
            return "legend %r of entry %s" % (t, v)


@check("plot_2D", "vec_plot")
def _(got, ans, c, heap):
    curves, n = ans["curves"], len(ans["curves"])
    drawn = got["bars"] if ans["bars"] else got["lines"][::2] if c["type"] == "curve_point" else got["lines"]
    if len(drawn) != n:
        return "%d curves instead of %d" % (len(drawn), n)
    for k, q in enumerate(curves):
        x, y = ranks(q["x"]), hidden(array({"v": q["y"], "sh": [len(q["y"])]}), ans["level"])
        shift = 0
        if ans["bars"] and n > 1:  # bars of several curves are side by side
            shift = np.mean(drawn[k][0] - x) if drawn[k][0].shape == x.shape else 0
            if abs(shift) > drawn[k][2] / 2 * (1 + 1e-9):
                return "bars of curve %d at %s instead of %s" % (k, drawn[k][0], x)
        msg = same(drawn[k][0] - shift, x)
        if msg:
            return "abscissae of curve %d: %s" % (k, msg)
        msg = same(drawn[k][1], y)
        if msg:
            return "ordinates of curve %d: %s" % (k, msg)
    main = curves[0]["x"]
    if main["t"] == "lab" and not same_labels(got["ticks"], main["lab"]):
        return "ticks %s instead of %s" % (got["ticks"], main["lab"])
    if n == len(ans["names"]) and n > 1 and c["type"] != "point" and got["legend"] != ans["names"]:
        return "legend %s instead of %s" % (got["legend"], ans["names"])
    if ans["list"] and c["type"] != "point":
        msg = entries(got["legend"], ans["list"], ans["names"])
        if msg:
            return msg
    if ans["names"][0].lower() not in got["title"].lower():
        return "title %r has not the name %s" % (got["title"], ans["names"][0])
    if ans["unit"] not in ("", "dimless") and ans["unit"] not in got["ylabel"]:
        return "label %r has not the unit %s" % (got["ylabel"], ans["unit"])
    return label_of(got["xlabel"], main["n"], ans["u"])


@check("plot_3D")
def _(got, ans, c, heap):
    x, y, z = ranks(ans["x"]), ranks(ans["y"]), array(ans)
    p, q = (ans["y"], ans["uy"]), (ans["x"], ans["ux"])
    if c["switch"]:
        x, y, z = y, x, z.T
    else:
        p, q = q, p
    Y, X = np.meshgrid(y, x)
    exp = np.stack([X.ravel(), Y.ravel(), z.ravel()], axis=1)
    if ans["points"]:
        if len(got["points"]) != 1:
            return "%d sets of points" % len(got["points"])
        pts = np.column_stack(got["points"][0])
        exp[:, 2] = np.where(exp[:, 2] < 0, np.nan, exp[:, 2])  # spectra are drawn from zero on
    elif got["images"]:
        ax, ay, a = got["images"][0]
        if a.shape != (ay.size, ax.size):
            return "image of shape %s over %d and %d samples" % (a.shape, ax.size, ay.size)
        exp[:, :2] = exp[:, :2].astype(np.float32)  # coordinates of images have this precision
        X, Y = np.meshgrid(ax, ay)
        pts = np.stack([X.ravel(), Y.ravel(), a.ravel()], axis=1)
    elif got["meshes"]:
        xy, a = got["meshes"][0]
        if a.size * 2 != xy.size:
            return "mesh of %d values over %d points" % (a.size, xy.size // 2)
        pts = np.column_stack([xy.reshape(-1, 2), a.ravel()])
    else:
        return "nothing drawn"
    if pts.shape != exp.shape:
        return "%d points instead of %d" % (len(pts), len(exp))
    order = lambda a: a[np.lexsort((np.round(a[:, 1], 7), np.round(a[:, 0], 7)))]
    pts, exp = order(pts), order(exp)
    for k, what in enumerate(("abscissae", "ordinates", "values")):
        msg = same(pts[:, k], exp[:, k])
        if msg:
            return "%s: %s" % (what, msg)
    for ticks, (a, _) in ((got["ticks"], p), (got["yticks"], q)):
        if a["t"] == "lab" and not ans["points"] and not same_labels(ticks, a["lab"]):  # maps of spectra show some only
            return "ticks %s instead of %s" % (ticks, a["lab"])
    if heap[c["o"] - 1].name.lower() not in got["title"].lower():
        return "title %r has not the name %s" % (got["title"], heap[c["o"] - 1].name)
    return label_of(got["xlabel"], p[0]["n"], p[1]) or label_of(got["ylabel"], q[0]["n"], q[1])
