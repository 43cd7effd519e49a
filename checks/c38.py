"""C38: plots show the data of the fields, lines and points they are given"""
import itertools
import json

import matplotlib
matplotlib.use("Agg")
import matplotlib.pyplot as plt
from matplotlib.colors import LogNorm, Normalize, to_rgba
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.plot import vpyplot as vlt
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, require, rng, seeds


def axis_(r, n, uniform, a=-1.0, b=2.0):
    c = np.linspace(a, b, n)
    if not uniform:
        c[1:-1] += 0.3 * (c[1] - c[0]) * r.uniform(-1, 1, size=n - 2)
    return c


def closing(fn):
    def wrapped(case):
        plt.close("all")
        try:
            fn(case)
        finally:
            plt.close("all")
    return wrapped


def as_opts(opts, how):
    """the same options in another form"""
    if how == "kw":
        return {}, dict(opts)
    strs, kw = [], {}
    if how == "yaml":
        for k, v in opts.items():
            if isinstance(v, tuple):
                v = list(v)
            if v is True:
                strs.append(k)
            elif isinstance(v, (bool, int, float, str, list)):
                strs.append("{0}: {1}".format(k, json.dumps(v)))
            else:
                kw[k] = v
        return ({"plot_opts": "{" + ", ".join(strs) + "}"} if strs else {}), kw
    for k, v in opts.items():
        if "_" in k:
            # underscores separate values here
            kw[k] = v
            continue
        if isinstance(v, (bool, int, float)) and not isinstance(v, str):
            strs.append(k if v is True else "{0}={1}".format(k, v))
        elif isinstance(v, tuple) and all(isinstance(x, (int, float)) for x in v):
            strs.append("{0}={1}".format(k, "_".join(str(x) for x in v)))
        else:
            kw[k] = v
    return ({"plot_opts": ", ".join(strs)} if strs else {}), kw


# ---------------------------------------------------------------- 2d fields
@st.composite
def f2_cases(draw):
    return {"n": [draw(st.integers(2, 7)), draw(st.integers(2, 7))], "center": draw(st.sampled_from(["cell", "cell", "node"])), "names": draw(st.sampled_from(["xy", "xz", "yz", "zx"])), "uniform": draw(st.booleans()), "seed": draw(seeds),
            "style": draw(st.sampled_from(["pcolormesh", "pcolormesh", "pcolor", "contour", "contourf"])), "nan": draw(st.sampled_from([0, 0, 0.2])), "data": draw(st.sampled_from(["normal", "positive", "linear"])), "scale": draw(st.sampled_from([None, None, 2.0, -0.5])),
            "mod": draw(st.sampled_from([None, None, (2.0, 3.0)])), "flip": draw(st.sampled_from([False, False, "flip_plot", "flipplot"])), "levels": draw(st.sampled_from([None, 5, "list"])), "tight": draw(st.sampled_from([None, True, False])),
            "lims": draw(st.sampled_from([None, None, "x", "y", "xy"])), "lab": draw(st.sampled_from([None, None, "xlabel", "nolabels"])), "title": draw(st.sampled_from([None, None, True, "a title"])), "cbl": draw(st.sampled_from([None, None, "cb label"])),
            "cbar": draw(st.sampled_from([True, False, False])), "val": draw(st.sampled_from(["none", "none", "lin", "lin0", "lin2", "lin1", "clim", "vmin", "vmax", "vminmax", "symmetric", "sym", "log", "log2", "logscale", "loglog", "norm", "lognorm", "norescale", "limnone"])), "axis": draw(st.sampled_from([None, None, "none", "equal", "image", "equalaxis"])),
            "how": draw(st.sampled_from(["kw", "str", "yaml"])), "sel": draw(st.booleans()), "f4": draw(st.booleans()), "fn": draw(st.sampled_from(["plot", "plot", "plot2d_field"])), "grid": draw(st.sampled_from([None, None, "g", "p"])), "amr": draw(st.sampled_from([False, False, True])), "newax": draw(st.booleans())}


def want_norm(val, vmin, vmax, opts):
    """limits of the colors, or None if they may not be made"""
    log = val in ("log", "log2", "logscale", "loglog")
    a, b = vmin, vmax
    sym = False
    if val == "lin0":
        opts["lin"], sym = 0, True
    elif val == "lin":
        opts["lin"] = True
    elif val == "lin2":
        a, b = -0.5, 1.25
        opts["lin"] = (a, b)
    elif val == "lin1":
        a = -0.75
        opts["lin"] = a
    elif val == "clim":
        a, b = -0.25, 0.75
        opts["clim"] = (a, b)
    elif val == "vmin":
        a = opts["vmin"] = -0.5
    elif val == "vmax":
        b = opts["vmax"] = 0.5
    elif val == "vminmax":
        a = opts["vmin"] = -0.5
        b = opts["vmax"] = 0.5
    elif val in ("symmetric", "sym"):
        opts[val] = sym = True
    elif val in ("log", "logscale", "loglog"):
        opts[val] = True
    elif val == "log2":
        a, b = 0.01, 10.0
        opts["log"] = (a, b)
    elif val == "limnone":
        b = 1.25
        opts["lin"] = ("None", b)
    elif val == "norescale":
        opts[val] = True
    elif val == "norm":
        b = 1.25
        opts["norm"] = Normalize(None, b)
    elif val == "lognorm":
        a, b = 0.02, 5.0
        opts["norm"] = LogNorm(a, b)
        return True, a, b, False
    if sym:
        m = max(abs(a), abs(b))
        a, b = -m, m
    neg = False
    if log and a <= 0 < b:
        a, neg = b / 1e4, True
    elif log and b <= 0:
        a, b, neg = 1e-20, 1e-20, True
    return log, a, b, neg


@closing
def check_f2(case):
    r = rng(case["seed"])
    n, names, style = case["n"], case["names"], case["style"]
    cc = case["center"] == "cell"
    contour = style.startswith("contour")
    if contour:
        n = [k + 1 for k in n]
    if case["val"] == "norescale" and case["amr"]:
        # then each patch has colors of its own
        raise Discard()
    nc = [axis_(r, n[0] + cc, case["uniform"]), axis_(r, n[1] + cc, case["uniform"], 0.5, 3.0)]
    pts = [0.5 * (c[1:] + c[:-1]) if cc else c for c in nc]
    Xp = np.meshgrid(*pts, indexing="ij")
    lin = r.normal(size=3)
    if case["data"] == "linear":
        arr = lin[0] + lin[1] * Xp[0] + lin[2] * Xp[1]
    else:
        arr = r.normal(size=n) if case["data"] == "normal" else r.uniform(0.1, 2, size=n)
    arr = arr.astype("f4" if case["f4"] else "f8")
    if case["nan"] and not contour:
        arr[r.uniform(size=n) < case["nan"]] = np.nan
        if np.isnan(arr).all():
            raise Discard()
    amr = case["amr"] and cc and not case["sel"] and n[0] > 3 and not contour
    mk = lambda a, c: viscid.wrap_field(np.array(a), viscid.arrays2crds([np.array(x) for x in c], crd_names=names), name="fld", center=case["center"], pretty_name="pretty name")
    if amr:
        k = n[0] // 2
        pieces = [(arr[:k], [nc[0][:k + 1], nc[1]]), (arr[k:], [nc[0][k:], nc[1]])]
        grids = []
        fields = [mk(a, c) for a, c in pieces]
        skel = viscid.amr_grid.AMRSkeleton if hasattr(viscid.amr_grid, "AMRSkeleton") else None
        fld = viscid.amr_field.AMRField(fields, None)
        label("amr")
    elif case["sel"]:
        third = [a for a in "xyz" if a not in names][0]
        zc = np.linspace(0, 1, 3 + cc)
        order = sorted(range(3), key=lambda i: (names + third)[i]) if names != "zx" else [0, 1, 2]
        big = np.stack([arr + 5, arr, arr - 7], axis=-1)
        allc = nc + [zc]
        big = np.ascontiguousarray(np.transpose(big, order))
        full = viscid.wrap_field(big, viscid.arrays2crds([np.array(allc[i]) for i in order], crd_names="".join((names + third)[i] for i in order)), name="fld", center=case["center"], pretty_name="pretty name")
        fld = full
    else:
        fld = mk(arr, nc)
    opts = {}
    if style != "pcolormesh" or case["how"] == "kw":
        opts["style"] = style
    scale = case["scale"]
    shown = arr.astype("f8") * (1 if scale is None else scale)
    if scale is not None:
        opts["scale"] = scale
    mod = case["mod"]
    if mod:
        opts["mod"] = mod
    flip = bool(case["flip"])
    if flip:
        opts[case["flip"]] = True
    if case["tight"] is not None:
        opts["tightlim"] = case["tight"]
    val = case["val"]
    cells = shown
    log, vmin, vmax, neg = want_norm(val, np.nanmin(shown), np.nanmax(shown), opts)
    if log and (contour or vmax <= 0) or val == "loglog" or (vmin >= vmax and not (vmin == vmax and val == "none")):
        raise Discard()
    levels = None
    if contour:
        if case["levels"] == 5:
            opts["levels"] = 5
        elif case["levels"] == "list":
            levels = np.linspace(np.nanmin(shown), np.nanmax(shown), 6)[1:-1]
            if not (np.diff(levels) > 1e-6).all():
                raise Discard()
            opts["levels"] = levels
        if levels is None:
            levels = np.linspace(vmin, vmax, 5 if case["levels"] == 5 else 10)
        if not ((levels > shown.min()) & (levels < shown.max())).any():
            # matplotlib then has one level that's not one of them
            raise Discard()
    cb = case["cbar"]
    opts["colorbar"] = cb
    lims = {"x": (-0.75, 1.5), "y": (0.625, 2.5)}
    for k in (case["lims"] or ""):
        opts[k] = lims[k]
    if case["lab"] == "xlabel":
        opts.update(xlabel="an x", ylabel="a y")
    elif case["lab"] == "nolabels":
        opts["nolabels"] = True
    for k, name in (("title", "title"), ("cbl", "cbarlabel"), ("axis", "axis")):
        if k == "axis" and case[k] == "equalaxis":
            opts["equalaxis"] = True
        elif case[k] is not None:
            opts[name] = case[k]
    if case["grid"] == "p" or case["grid"] == "g" and style == "pcolormesh":
        opts[case["grid"]] = True
    patches0 = [(p.data.copy(), [np.array(p.crds.get_nc(a)) for a in p.crds.axes], [np.array(p.crds.get_cc(a)) for a in p.crds.axes]) for p in fld.patches]
    po, kw = as_opts(opts, case["how"])
    fig = plt.figure()
    ax = fig.add_subplot(1, 1, 1)
    if case["newax"]:
        other = fig.add_axes([0.8, 0.8, 0.1, 0.1])
        kw["ax"] = ax
    if case["fn"] == "plot2d_field" and not case["sel"]:
        p, cbar = vlt.plot2d_field(fld, **dict(po, **kw))
    elif case["sel"]:
        p, cbar = vlt.plot(fld, "{0}={1}".format(third, 1), **dict(po, **kw))
    else:
        p, cbar = vlt.plot(fld, **dict(po, **kw))
    label("{0} {1}".format(style, val))
    require(plt.gca() is ax, "the current axis is another one")
    for pt, (d, c, ctr) in zip(fld.patches, patches0):
        eq_arr(pt.data, d, "data afterwards")
        for a, x, y in zip(pt.crds.axes, c, ctr):
            eq_arr(np.array(pt.crds.get_nc(a)), x, "coordinates afterwards")
            eq_arr(np.array(pt.crds.get_cc(a)), y, "cell centers afterwards")
    tol = dict(rtol=1e-5, atol=1e-6) if case["f4"] else dict(rtol=1e-9, atol=1e-12)
    m = mod or (1.0, 1.0)
    X, Y = nc[0] * m[0], nc[1] * m[1]
    CX, CY = X, Y
    if not cc and not contour:
        # the cells are those around the nodes
        CX, CY = (np.concatenate([[1.5 * c[0] - 0.5 * c[1]], 0.5 * (c[1:] + c[:-1]), [1.5 * c[-1] - 0.5 * c[-2]]]) for c in (X, Y))
    # ---- values and where they are
    if not contour:
        colls = ax.collections
        got = {}
        nm = 0
        for cl in colls:
            if hasattr(cl, "_coordinates"):
                co = np.asarray(cl._coordinates)
                a = np.ma.asarray(cl.get_array()).reshape(co.shape[0] - 1, co.shape[1] - 1)
                for i in range(a.shape[0]):
                    for j in range(a.shape[1]):
                        q = co[i:i + 2, j:j + 2].reshape(4, 2)
                        got[tuple(np.round(np.concatenate([q.min(axis=0), q.max(axis=0)]), 6))] = (a[i, j], bool(np.ma.getmaskarray(a)[i, j]))
            else:
                a = np.ma.asarray(cl.get_array()).reshape(-1)
                for path, v, mk_ in zip(cl.get_paths(), a, np.ma.getmaskarray(a)):
                    q = path.vertices
                    got[tuple(np.round(np.concatenate([q.min(axis=0), q.max(axis=0)]), 6))] = (v, bool(mk_))
        want = {}
        for i in range(len(CX) - 1):
            for j in range(len(CY) - 1):
                k = (CX[i], CY[j], CX[i + 1], CY[j + 1])
                if flip:
                    k = (k[1], k[0], k[3], k[2])
                want[tuple(np.round(k, 6))] = cells[i, j]
        hidden = {k for k, v in want.items() if np.isnan(v) or (log and neg and v <= 0)}
        if style == "pcolor":
            # it leaves what is masked out
            want = {k: v for k, v in want.items() if k not in hidden}
        require(set(got) == set(want), "cells at {0}, expected {1}", sorted(set(got) - set(want))[:4], sorted(set(want) - set(got))[:4])
        for k, v in want.items():
            g, masked = got[k]
            if k in hidden:
                require(masked, "the value {0} of the cell at {1} is shown", v, k)
            else:
                require(not masked, "the value {0} of the cell at {1} is not shown", v, k)
                require(np.isclose(g, v, **tol), "the cell at {0} shows {1}, expected {2}", k, g, v)
        nrm = p.norm
        require(isinstance(nrm, LogNorm) == log, "the colors are on scale {0}", type(nrm))
        close(np.array([nrm.vmin, nrm.vmax]), np.array([vmin, vmax]), "limits of the colors ({0})".format(val), **tol)
    else:
        close(np.asarray(p.levels), np.asarray(levels), "levels", **tol)
        close(np.array([p.zmin, p.zmax]), np.array([shown.min(), shown.max()]), "range of the values", **tol)
        if case["data"] == "linear" and style == "contour" and np.abs(lin[1:]).min() > 0.05:
            # where cells are in the middle of others
            lo, hi = ([c[1] for c in pts], [c[-2] for c in pts]) if cc else ([c[0] for c in pts], [c[-1] for c in pts])
            nv = 0
            for lev, segs in zip(p.levels, p.allsegs):
                for s in segs:
                    s = np.asarray(s)[:, ::-1] if flip else np.asarray(s)
                    s = s / np.array(m)
                    ok = ((s >= np.array(lo) - 1e-9) & (s <= np.array(hi) + 1e-9)).all(axis=1)
                    v = (lin[0] + s[ok].dot(lin[1:])) * (1 if scale is None else scale)
                    nv += ok.sum()
                    require(np.allclose(v, lev, atol=1e-4 if case["f4"] else 1e-6), "the contour of {0} is where the field is {1}", lev, v)
    # ---- limits, labels, bar
    asp = ax.get_aspect()
    want_ax = "equal" if case["axis"] == "equalaxis" else case["axis"]
    L = [abs(lims["x"][1] - lims["x"][0]) if "x" in opts else X[-1] / m[0] - X[0] / m[0], abs(lims["y"][1] - lims["y"][0]) if "y" in opts else Y[-1] / m[1] - Y[0] / m[1]]
    if want_ax is None:
        want_ax = "image" if max(L) / min(L) <= 4 else "none"
    require((asp != "auto") == (want_ax != "none"), "aspect is {0} with axis {1}", asp, want_ax)
    if want_ax != "equal":
        xl, yl = ((Y[0], Y[-1]), (X[0], X[-1])) if flip else ((X[0], X[-1]), (Y[0], Y[-1]))
        tight = case["tight"] is not False
        for nm, w, g in (("x", xl, ax.get_xlim()), ("y", yl, ax.get_ylim())):
            if nm in (case["lims"] or ""):
                close(np.array(g), np.array(lims[nm]), "limits of {0} as given".format(nm))
            elif tight:
                close(np.array(g), np.array(w), "limits of {0}".format(nm), rtol=1e-6)
    names_ = names[::-1] if flip else names
    lab = (ax.get_xlabel(), ax.get_ylabel())
    wl = {"xlabel": ("an x", "a y"), "nolabels": ("", ""), None: tuple(names_)}[case["lab"]]
    require(lab == wl, "labels {0}, expected {1}", lab, wl)
    t = "" if case["lab"] == "nolabels" or not case["title"] else "pretty name" if case["title"] is True else case["title"]
    require(ax.get_title() == t, "title {0}, expected {1}", ax.get_title(), t)
    require((cbar is not None) == cb, "colorbar {0}", cbar)
    if cb:
        cl = cbar.ax.get_ylabel()
        w = "" if case["lab"] == "nolabels" else case["cbl"] if case["cbl"] else "" if case["title"] is True else "pretty name"
        require(cl == w, "label of the colorbar {0}, expected {1}", cl, w)
    if case["grid"] == "g" and style == "pcolormesh":
        close(np.asarray(p.get_edgecolors())[0], np.array(to_rgba("k")), "color of the grid lines")
    rects = [a for a in ax.patches + ax.artists if isinstance(a, matplotlib.patches.Rectangle)]
    if case["grid"] == "p":
        require(len(rects) == (2 if amr else 1), "{0} outlines of patches", len(rects))
        if style.startswith("pcolor"):
            bb = sorted((q.get_x(), q.get_y(), q.get_width(), q.get_height()) for q in rects)
            A, B = (CY, CX) if flip else (CX, CY)
            full_ = (min(b[0] for b in bb), min(b[1] for b in bb), max(b[0] + b[2] for b in bb), max(b[1] + b[3] for b in bb))
            close(np.array(full_), np.array([A[0], B[0], A[-1], B[-1]]), "outlines of patches", rtol=1e-6, atol=1e-9)
    nontrivial(scale is not None or bool(mod) or flip or val != "none")


# ---------------------------------------------------------------- 1d fields
@st.composite
def f1_cases(draw):
    return {"n": draw(st.integers(2, 9)), "center": draw(st.sampled_from(["cell", "node"])), "uniform": draw(st.booleans()), "seed": draw(seeds), "nan": draw(st.sampled_from([0, 0, 0.3])), "scale": draw(st.sampled_from([None, 2.0, -0.5])), "mod": draw(st.sampled_from([None, 3.0])),
            "opt": draw(st.sampled_from([None, None, "clim", "vmin", "vmax", "lin", "lin2", "lin0", "symmetric", "sym", "log", "log2", "loglog", "norescale"])), "lims": draw(st.sampled_from([None, "x", "y", "xy"])), "lab": draw(st.sampled_from([None, "labels", "nolabels", "label"])),
            "legend": draw(st.sampled_from([None, True, 3])), "how": draw(st.sampled_from(["kw", "str", "yaml"])), "sel": draw(st.booleans()), "style": draw(st.sampled_from([None, "color"])), "two": draw(st.booleans()), "time": draw(st.sampled_from([False, False, True]))}


@closing
def check_f1(case):
    r = rng(case["seed"])
    n, cc = case["n"], case["center"] == "cell"
    nc = axis_(r, n + cc, case["uniform"], 1.0, 4.0)
    x = 0.5 * (nc[1:] + nc[:-1]) if cc else nc
    pos = case["opt"] in ("log", "log2", "loglog")
    arr = r.uniform(0.1, 3, size=n) if pos else r.normal(size=n)
    if case["nan"]:
        arr[r.uniform(size=n) < case["nan"]] = np.nan
        if np.isfinite(arr).sum() < 2:
            raise Discard()
    if case["sel"]:
        zc = np.linspace(0, 1, 3 + cc)
        fld = viscid.wrap_field(np.stack([arr - 3, arr + 1, arr], axis=-1), viscid.arrays2crds([nc.copy(), zc], crd_names="yz"), name="fld", center=case["center"], pretty_name="pretty")
    else:
        fld = viscid.wrap_field(arr.copy(), viscid.arrays2crds([nc.copy()], crd_names="y"), name="fld", center=case["center"], pretty_name="pretty")
    opts = {}
    ylim = None
    o = case["opt"]
    sc = case["scale"] or 1.0
    if pos and sc < 0:
        raise Discard()
    dat = arr * sc
    if case["scale"]:
        opts["scale"] = case["scale"]
    if case["mod"]:
        opts["mod"] = case["mod"]
    lo, hi = np.nanmin(dat), np.nanmax(dat)
    if o in ("clim", "lin2"):
        opts["clim" if o == "clim" else "lin"] = ylim = (-0.5, 1.5)
    elif o == "vmin":
        opts["vmin"], ylim = -3.5, (-3.5, None)
    elif o == "vmax":
        opts["vmax"], ylim = 7.5, (None, 7.5)
    elif o == "lin0":
        opts["lin"] = 0
    elif o == "log2":
        opts["log"] = ylim = (0.03, 20.0)
    elif o:
        opts[o] = True
    if o in ("lin0", "symmetric", "sym"):
        m = max(abs(lo), abs(hi)) + 0.05 * (hi - lo)
        ylim = (-m, m)
    for k in case["lims"] or "":
        opts[k] = {"x": (0.5, 5.5), "y": (0.25, 2.5)}[k]
    if case["lab"] == "labels":
        opts.update(xlabel="an x", ylabel="a y")
    elif case["lab"] == "label":
        opts["label"] = "a label"
    elif case["lab"] == "nolabels":
        opts["nolabels"] = True
    if case["legend"]:
        opts["legend"] = case["legend"]
    if case["style"]:
        opts["color"] = "r"
    keep = fld.data.copy(), np.array(fld.crds.get_nc("y")), np.array(fld.crds.get_cc("y"))
    po, kw = as_opts(opts, case["how"])
    fig, ax = plt.subplots(1, 1)
    if case["two"]:
        vlt.plot1d_field(viscid.wrap_field(arr * 0 + 1, viscid.arrays2crds([nc.copy()], crd_names="y"), name="o", center=case["center"]), ax=ax)
    if case["sel"]:
        p, _ = vlt.plot(fld, "z=2", **dict(po, **kw))
    else:
        p, _ = vlt.plot(fld, **dict(po, **kw))
    label(str(o))
    eq_arr(fld.data, keep[0], "data afterwards")
    eq_arr(np.array(fld.crds.get_nc("y")), keep[1], "coordinates afterwards")
    eq_arr(np.array(fld.crds.get_cc("y")), keep[2], "cell centers afterwards")
    require(len(p) == 1 and p[0] in ax.lines, "{0} lines", len(p))
    close(np.asarray(p[0].get_xdata()), x * (case["mod"] or 1), "coordinates of the line")
    y = p[0].get_ydata()
    require((np.ma.getmaskarray(y) | np.isnan(np.ma.getdata(y)))[np.isnan(dat)].all(), "not a numbers are shown: {0}", y)
    fin = np.isfinite(dat)
    close(np.ma.getdata(y)[fin], dat[fin], "values of the line")
    require(not np.ma.getmaskarray(y)[fin].any(), "values are hidden: {0}", y)
    require(ax.get_yscale() == ("log" if pos else "linear"), "scale of y is {0}", ax.get_yscale())
    require(ax.get_xscale() == ("log" if o == "loglog" else "linear"), "scale of x is {0}", ax.get_xscale())
    gy = ax.get_ylim()
    if ylim is not None:
        for g, w in zip(gy, ylim):
            if w is not None:
                require(abs(g - w) < 1e-9 * max(1, abs(w)), "limits of y are {0}, expected {1}", gy, ylim)
    elif "y" in opts:
        close(np.array(gy), np.array(opts["y"]), "limits of y as given")
    if "x" in opts:
        close(np.array(ax.get_xlim()), np.array(opts["x"]), "limits of x as given")
    lb = (ax.get_xlabel(), ax.get_ylabel())
    w = {"labels": ("an x", "a y"), "label": ("y", "a label"), "nolabels": None, None: ("y", "pretty")}[case["lab"]]
    if w:
        require(lb == w, "labels {0}, expected {1}", lb, w)
    elif not case["two"]:
        require(lb == ("", ""), "labels {0} with nolabels", lb)
    require(p[0].get_label() == ("a label" if case["lab"] == "label" else "pretty"), "label of the line {0}", p[0].get_label())
    leg = ax.get_legend()
    require((leg is not None) == bool(case["legend"]), "legend {0}", leg)
    if case["legend"]:
        require(leg._loc == (0 if case["legend"] is True else case["legend"]), "legend at {0}, asked for {1}", leg._loc, case["legend"])
    if case["style"]:
        require(p[0].get_color() == "r", "color {0}", p[0].get_color())
    nontrivial(bool(case["scale"] or case["mod"]) or o is not None)


# -------------------------------------------------------------------- lines
@st.composite
def ln_cases(draw):
    nl = draw(st.integers(1, 4))
    return {"ns": [draw(st.integers(2, 8)) for _ in range(nl)], "dim": draw(st.sampled_from([2, 2, 2, 3])), "flat": draw(st.sampled_from(["x", "y", "z", "none", "none", "xz"])), "symdir": draw(st.sampled_from(["", "", "x", "y", "z", " Y "])), "flip": draw(st.booleans()),
            "sub": draw(st.sampled_from([None, None, 1, 2, 3, 0.5, 0])), "sc": draw(st.sampled_from([None, "verts", "lines", "hex", "hexn", "rgbn", "zloc", "czloc", "colors"])), "kind": draw(st.sampled_from([None, None, "nearest"])), "marker": draw(st.booleans()), "seed": draw(seeds), "one": draw(st.booleans()),
            "dup": draw(st.booleans()), "mc": draw(st.booleans()), "lim": draw(st.sampled_from([None, None, "big", "rev", "revx"])), "axis": draw(st.sampled_from([None, None, "equal", "image", "eq", "none"]))}


@closing
def check_ln(case):
    r = rng(case["seed"])
    ns, dim, sc = list(case["ns"]), case["dim"], case["sc"]
    if case["one"]:
        ns = ns[:1]
    nl, N = len(ns), sum(ns)
    if sc in ("lines", "rgbn", "verts") and ({nl, N} & {1, 3, 4} or nl == N):
        raise Discard()
    if dim == 3 and sc in ("zloc", "czloc"):
        raise Discard()
    lines = [r.uniform(-2, 3, size=(3, n)) for n in ns]
    for ln in lines:
        for k in case["flat"]:
            if k in "xyz":
                ln["xyz".index(k)] = 0.25
    keep = [ln.copy() for ln in lines]
    sub = 2 if case["sub"] is None else case["sub"]
    kw = {} if case["sub"] is None else {"subsample": sub}
    if case["kind"]:
        kw["scalar_interp"] = case["kind"]
    cols = ["#ff0000", "#00ff00", "#0000ff", "#102030"]
    scal = None
    vs, vc = None, None
    per = lambda v: [np.full(n, x) for n, x in zip(ns, v)]
    if sc == "verts":
        vs = [r.normal(size=n) for n in ns]
        scal = np.concatenate(vs)
    elif sc == "lines":
        v = r.normal(size=nl)
        scal, vs = v.copy(), per(v)
    elif sc == "hex":
        scal = cols[3]
        vc = [np.tile(np.array(to_rgba(cols[3]))[:3], (n, 1)) for n in ns]
    elif sc == "hexn":
        scal = [cols[i % 4] for i in range(nl)]
        vc = [np.tile(np.array(to_rgba(c))[:3], (n, 1)) for c, n in zip(scal, ns)]
    elif sc == "rgbn":
        c = r.randint(2, 256, size=(nl, 3)) / 255.0
        scal = c.copy()
        vc = [np.tile(c[i], (n, 1)) for i, n in enumerate(ns)]
    elif sc == "zloc":
        scal = "zloc"
    elif sc == "czloc":
        kw["colors"] = "zloc"
    elif sc == "colors":
        kw["colors"] = [(1.0, 0.5, 0.0, 1.0)]
    fig = plt.figure()
    ax = fig.add_subplot(1, 1, 1, **({"projection": "3d"} if dim == 3 else {}))
    if case["lim"] and dim == 2:
        ax.set_xlim(*((0.2, 0.1) if case["lim"] == "revx" else (-10, 10)))
        ax.set_ylim(*((0.2, 0.1) if case["lim"] == "rev" else (-10, 10)))
    # which way it is seen
    sd = case["symdir"].strip().lower()
    if dim == 2:
        if sd:
            ix = {"x": (1, 2, 0), "y": (0, 2, 1), "z": (0, 1, 2)}[sd]
        else:
            flat = [k for k in (2, 1, 0) if all((ln[k] == 0.25).all() for ln in lines)][:1]
            z = flat[0] if flat else 2
            ix = tuple(k for k in range(3) if k != z) + (z,)
        if case["flip"]:
            ix = (ix[1], ix[0], ix[2])
        kw.update(symdir=case["symdir"], flip_plot=case["flip"])
    else:
        ix = (0, 1, 2)
    if case["marker"]:
        kw["marker"] = "o"
        if case["mc"]:
            kw["marker_kwargs"] = {"c": "k", "s": 3}
    if dim == 2 and case["axis"]:
        kw.update({"equal": True} if case["axis"] == "eq" else {"axis": case["axis"]})
    if dim == 2 and case["symdir"].strip():
        raises(lambda: vlt.plot2d_lines(lines, ax=ax, symdir="q"), "a plane across q", (ValueError, ))
    fn = {(2, False): vlt.plot2d_lines, (2, True): vlt.plot2d_line, (3, False): vlt.plot3d_lines, (3, True): vlt.plot3d_line}[dim, case["one"]]
    arg = lines[0] if case["one"] else lines
    if case["one"] and sc in ("hexn", "lines", "rgbn"):
        scal = scal[0]
    lc = fn(arg, scal, ax=ax, **kw)
    label("{0}d {1}".format(dim, sc))
    for a, b in zip(lines, keep):
        eq_arr(a, b, "line afterwards")

    def fine(v, kind="linear"):
        n = v.shape[-1]
        if sub <= 0:
            return v
        m = int(np.ceil(sub * (n - 1)) + 1)
        from scipy.interpolate import interp1d
        return interp1d(np.linspace(0, 1, n), v, kind=kind)(np.linspace(0, 1, m))
    fl = [fine(ln) for ln in lines]
    segs = [np.stack([f[list(ix[:dim])][:, k], f[list(ix[:dim])][:, k + 1]]) for f in fl for k in range(f.shape[1] - 1)]
    got = lc._segments3d if dim == 3 else lc.get_segments()
    got = [np.asarray(g)[:, :dim] for g in got]
    require(len(got) == len(segs), "{0} segments, expected {1}", len(got), len(segs))
    close(np.array(got), np.array(segs), "segments", rtol=1e-6, atol=1e-6)
    kind = case["kind"] or "linear"
    zl = None
    if sc in ("zloc", "czloc"):
        vs_f = [f[ix[2]] for f in fl]
    elif vs is not None:
        vs_f = [fine(v, kind) for v in vs]
    else:
        vs_f = None
    if vs_f is not None:
        w = np.concatenate([v[:-1] for v in vs_f])
        close(np.ma.getdata(lc.get_array()).astype("f8"), w, "values of the segments", rtol=1e-6, atol=1e-6)
    else:
        require(lc.get_array() is None, "values {0} of the segments", lc.get_array())
    if vc is not None:
        w = np.concatenate([np.tile(c[:1], (f.shape[1] - 1, 1)) for c, f in zip(vc, fl)])
        g = np.asarray(lc.get_colors() if dim == 2 else lc.get_colors())
        close(g[:, :3], w, "colors of the segments", atol=1e-9)
    if sc == "colors":
        close(np.asarray(lc.get_colors())[0], np.array([1.0, 0.5, 0, 1]), "color of the segments")
    allv = np.concatenate([f[list(ix[:dim])] for f in fl], axis=1)
    if case["marker"]:
        pc = [c for c in ax.collections if c is not lc]
        require(len(pc) == 1, "{0} sets of markers", len(pc))
        off = np.array(pc[0]._offsets3d) if dim == 3 else np.asarray(pc[0].get_offsets()).T
        close(np.asarray(off, dtype="f8"), allv, "markers", rtol=1e-6, atol=1e-6)
        if case["mc"]:
            pass
        elif vs_f is not None:
            close(np.ma.getdata(pc[0].get_array()).astype("f8"), np.concatenate(vs_f), "values of the markers", rtol=1e-6, atol=1e-6)
    else:
        lims = [ax.get_xlim(), ax.get_ylim()] + ([ax.get_zlim()] if dim == 3 else [])
        for l, v in zip(lims, allv):
            require(min(l) <= v.min() + 1e-9 and max(l) >= v.max() - 1e-9, "limits {0} hide {1}", l, (v.min(), v.max()))
        if case["lim"] == "rev" and dim == 2:
            require(lims[1][0] > lims[1][1], "the axis was turned around: {0}", lims[1])
        if case["lim"] == "revx" and dim == 2 and case["axis"] in (None, "none"):
            require(lims[0][0] > lims[0][1], "the axis was turned around: {0}", lims[0])
    if dim == 2:
        require((ax.get_aspect() != "auto") == (case["axis"] in ("equal", "image", "eq")), "aspect is {0} with axis {1}", ax.get_aspect(), case["axis"])
    nontrivial(nl > 1 and sc is not None)


# ------------------------------------------------------- vectors and points
@st.composite
def vec_cases(draw):
    return {"n": [draw(st.integers(4, 8)), draw(st.integers(4, 8))], "names": draw(st.sampled_from(["xy", "xz", "yz"])), "center": draw(st.sampled_from(["cell", "node"])), "layout": draw(st.sampled_from(["flat", "interlaced"])), "three": draw(st.booleans()), "seed": draw(seeds), "uniform": draw(st.booleans()),
            "step": draw(st.sampled_from([None, 1, 2, 3, "21", "13"])), "fn": draw(st.sampled_from(["quiver", "stream"])), "lw": draw(st.sampled_from([None, "linewidth", "color", "num"])), "equal": draw(st.booleans()), "axis": draw(st.sampled_from([None, "equal", "none"])), "flag": draw(st.booleans())}


@closing
def check_vec(case):
    r = rng(case["seed"])
    n, names, cc = case["n"], case["names"], case["center"] == "cell"
    nc = [axis_(r, n[0] + cc, case["uniform"]), axis_(r, n[1] + cc, case["uniform"], 0.5, 4.0)]
    pts = [0.5 * (c[1:] + c[:-1]) if cc else c for c in nc]
    comps = ["xyz".index(k) for k in names]
    P = np.meshgrid(*pts, indexing="ij")
    stream = case["fn"] == "stream"
    A = r.normal(size=(3, 3))
    if stream:
        arr = A[0] + P[0][..., None] * A[1] + P[1][..., None] * A[2]
    else:
        arr = r.normal(size=n + [3])
    crds, order, dat = list(nc), [0, 1], arr
    cn = names
    if case["three"]:
        third = [k for k in "xyz" if k not in names][0]
        k = "xyz".index(third)
        crds.insert(k, np.array([-0.1, 0.1]) if cc else np.array([0.3]))
        cn = "xyz"
        dat = np.expand_dims(arr, k)
    wrap = lambda d, **kw: viscid.wrap_field(d, viscid.arrays2crds([c.copy() for c in crds], crd_names=cn), center=case["center"], **kw)
    if case["layout"] == "flat":
        if 3 in dat.shape[:-1]:
            raise Discard()
        fld = wrap(np.ascontiguousarray(np.moveaxis(dat, -1, 0)), name="v", fldtype="vector", layout=viscid.field.LAYOUT_FLAT)
    else:
        if 3 in dat.shape[:-1]:
            raise Discard()
        fld = wrap(np.ascontiguousarray(dat), name="v", fldtype="vector", layout=viscid.field.LAYOUT_INTERLACED)
    keep = fld.data.copy()
    fig, ax = plt.subplots(1, 1)
    rec = []
    kw = {}
    if case["equal"]:
        kw["equal"] = True
    elif case["axis"]:
        kw["axis"] = case["axis"]
    if case["flag"]:
        kw["ax"] = ax
        ax2 = fig.add_axes([0.8, 0.8, 0.1, 0.1])
    tgt = ax
    if not stream:
        orig = ax.quiver
        ax.quiver = lambda *a, **k: rec.append((a, k)) or orig(*a, **k)
        step = case["step"]
        if step is not None:
            kw["step"] = [int(k) for k in step] if isinstance(step, str) else step
        q = vlt.plot2d_quiver(fld, color="b", **kw)
        s = [1, 1] if step is None else [int(k) for k in step] if isinstance(step, str) else [step, step]
        # every arrow is at a point of the field, every step'th of them
        X, Y, U, V = (np.asarray(a, dtype="f8").reshape(-1) for a in (q.X, q.Y, q.U, q.V))
        ii = [int(np.abs(pts[0] - x).argmin()) for x in X]
        jj = [int(np.abs(pts[1] - y).argmin()) for y in Y]
        close(X, pts[0][ii], "arrows along the first axis", atol=1e-9)
        close(Y, pts[1][jj], "arrows along the second axis", atol=1e-9)
        for idx, k, m in ((sorted(set(ii)), s[0], n[0]), (sorted(set(jj)), s[1], n[1])):
            require(all(b - a == k for a, b in zip(idx, idx[1:])) and idx[0] < k and idx[-1] >= m - k, "arrows at {0} of {1} with step {2}", idx, m, k)
            f = (m % k) // 2
            require(idx[0] == f, "arrows begin at {0}, in the middle of {1} left over it is {2}", idx[0], m % k, f)
        require(len(ii) == len(set(zip(ii, jj))) == len(set(ii)) * len(set(jj)), "arrows at {0}", list(zip(ii, jj)))
        close(U, arr[ii, jj, comps[0]], "first component of arrows")
        close(V, arr[ii, jj, comps[1]], "second component of arrows")
        require(rec[0][1].get("color") == "b", "options {0}", rec[0][1])
    else:
        if min(n) < 4 or np.abs(arr[..., comps]).max() < 1e-3:
            raise Discard()
        w = None
        B = r.uniform(0.5, 1, size=3)
        if case["lw"] in ("linewidth", "color"):
            s = B[0] + B[1] * P[0] + B[2] * P[1] + 3
            kw[case["lw"]] = w = wrap(np.ascontiguousarray(np.expand_dims(s, "xyz".index(third))) if case["three"] else s, name="w")
            if case["three"]:
                kw[case["lw"]] = w = w.slice_reduce(":") if case["uniform"] else w
            wkeep = w.data.copy()
        elif case["lw"] == "num":
            kw["linewidth"] = 2.5
        orig = ax.streamplot
        ax.streamplot = lambda *a, **k: rec.append((a, k)) or orig(*a, **k)
        q = vlt.streamplot(fld, density=0.5, **kw)
        (x, y, u, v), k = rec[0]
        x, y, u, v = (np.asarray(a, dtype="f8") for a in (x, y, u, v))
        require(u.shape == v.shape == (len(y), len(x)), "shapes {0} {1} {2}", u.shape, len(x), len(y))
        require(np.allclose(np.diff(x), x[1] - x[0]) and np.allclose(np.diff(y), y[1] - y[0]), "the grid is not uniform: {0} {1}", x, y)
        if case["uniform"]:
            close(x, pts[0], "first axis")
            close(y, pts[1], "second axis")
        require(x[0] >= nc[0][0] - 1e-9 and x[-1] <= nc[0][-1] + 1e-9 and y[0] >= nc[1][0] - 1e-9 and y[-1] <= nc[1][-1] + 1e-9, "the grid goes to {0} {1}", x, y)
        XX, YY = np.meshgrid(x, y)
        ok = (XX >= pts[0][0]) & (XX <= pts[0][-1]) & (YY >= pts[1][0]) & (YY <= pts[1][-1])
        require(ok.sum() >= 4, "the grid is outside of the field: {0} {1}", x, y)
        for got, c in ((u, comps[0]), (v, comps[1])):
            ref = A[0, c] + A[1, c] * XX + A[2, c] * YY
            close(got[ok], ref[ok], "component {0}".format(c), rtol=1e-6, atol=1e-6)
        if w is not None:
            g = np.asarray(k[case["lw"]], dtype="f8")
            require(g.shape == u.shape, "shape of {0} is {1}, expected {2}", case["lw"], g.shape, u.shape)
            ref = B[0] + B[1] * XX + B[2] * YY + 3
            close(g[ok], ref[ok], case["lw"], rtol=1e-6, atol=1e-6)
            eq_arr(w.data, wkeep, "the given " + case["lw"])
        elif case["lw"] == "num":
            require(k["linewidth"] == 2.5, "linewidth {0}", k["linewidth"])
    eq_arr(fld.data, keep, "data afterwards")
    asp = ax.get_aspect()
    require((asp != "auto") == bool(case["equal"] or case["axis"] == "equal"), "aspect {0}", asp)
    nontrivial(case["step"] not in (None, 1) or stream)


@st.composite
def pt_cases(draw):
    return {"n": draw(st.sampled_from([2, 5, 6, 9])), "seed": draw(seeds), "flat": draw(st.sampled_from(["", "x", "y", "z"])), "symdir": draw(st.sampled_from(["", "x", "y", "z", " Z"])), "flip": draw(st.booleans()), "c": draw(st.sampled_from([None, "r", "zloc", "arr"])), "dim": draw(st.sampled_from([2, 2, 3])),
            "plane": draw(st.sampled_from("xyz")), "at": draw(st.sampled_from([0.0, 0.5, -0.5, 2.0, -3.0, 1.5])), "scale": draw(st.sampled_from([None, 1.0, 2.0])), "sys": draw(st.sampled_from([None, "mhd", "gse"])), "fld": draw(st.booleans()), "cols": draw(st.booleans())}


@closing
def check_pt(case):
    r = rng(case["seed"])
    pts = r.uniform(-2, 2, size=(3, case["n"]))
    for k in case["flat"]:
        pts["xyz".index(k)] = 0.5
    keep = pts.copy()
    kw = {}
    val = r.normal(size=case["n"])
    if case["c"]:
        kw["c"] = val if case["c"] == "arr" else case["c"]
    fig = plt.figure()
    ax = fig.add_subplot(1, 1, 1, **({"projection": "3d"} if case["dim"] == 3 else {}))
    if case["dim"] == 2:
        sd = case["symdir"].strip().lower()
        z = "xyz".index(sd) if sd else "xyz".index(case["flat"]) if case["flat"] else 2
        ix = [k for k in range(3) if k != z]
        if case["flip"]:
            ix = ix[::-1]
        p, _ = vlt.scatter_2d(pts, symdir=case["symdir"], flip_plot=case["flip"], s=11, **kw)
        close(np.asarray(p.get_offsets()).T, pts[ix], "points")
        require((ax.get_xlabel(), ax.get_ylabel()) == ("xyz"[ix[0]], "xyz"[ix[1]]), "labels {0}, expected {1}", (ax.get_xlabel(), ax.get_ylabel()), ix)
    else:
        z = 2
        p, _ = vlt.scatter_3d(pts, s=11, **kw)
        close(np.array([np.ma.getdata(a) for a in p._offsets3d]), pts, "points")
        require((ax.get_xlabel(), ax.get_ylabel()) == ("x", "y"), "labels {0}", (ax.get_xlabel(), ax.get_ylabel()))
    if case["c"] == "zloc":
        close(np.ma.getdata(p.get_array()), pts[z], "values of the points")
    elif case["c"] == "arr":
        close(np.ma.getdata(p.get_array()), val, "values of the points")
    elif case["dim"] == 2:
        close(np.asarray(p.get_facecolors())[0], np.array(to_rgba(case["c"] or "k")), "color of the points")
    require(np.allclose(p.get_sizes(), 11), "sizes {0}", p.get_sizes())
    eq_arr(pts, keep, "points afterwards")
    plt.close(fig)
    # ---- the earth in a plane
    fig, ax = plt.subplots(1, 1)
    other = fig.add_axes([0.8, 0.8, 0.1, 0.1])
    R = case["scale"] or 1.0
    kw = {} if case["scale"] is None else {"scale": R}
    at, plane = case["at"], case["plane"]
    sy = case["sys"]
    if case["fld"]:
        f = viscid.zeros(viscid.arrays2crds([np.linspace(-4, 4, 17)] * 3), center="node", name="f")
        if sy:
            f.set_info("crd_system", sy)
        spec = f["{0}={1}j".format(plane, at)]
        close(np.abs(float(spec.meta["reduced"][0][1])), abs(at), "the plane")
    else:
        spec = "{0} = {1}".format(plane, at)
        if sy:
            kw["crd_system"] = sy
    if case["cols"]:
        kw.update(daycol="r", nightcol="b")
    vlt.plot_earth(spec, ax=ax, zorder=7, **kw)
    day, night = (to_rgba(c) for c in (("r", "b") if case["cols"] else ("w", "k")))
    require(not other.patches, "the earth is in the other axis")
    if abs(at) >= R:
        require(not ax.patches, "{0} parts of an earth that is not in the plane", len(ax.patches))
        return
    rad = np.sqrt(R * R - at * at)
    label("{0} {1}".format(plane, sy))
    if plane == "x":
        require(len(ax.patches) == 1 and abs(ax.patches[0].radius - rad) < 1e-6, "earth {0}", ax.patches)
        if at:
            require(ax.patches[0].get_facecolor() == (day if at * (-1 if sy == "mhd" else 1) > 0 else night), "color of the earth at x={0} is {1}", at, ax.patches[0].get_facecolor())
    else:
        require(len(ax.patches) == 2, "{0} parts", len(ax.patches))
        seen = {}
        for w in ax.patches:
            require(abs(w.r - rad) < 1e-6 and tuple(w.center) == (0, 0) and w.zorder == 7, "part of the earth {0} {1}", w.r, w.center)
            mid = np.deg2rad(0.5 * (w.theta1 + w.theta2))
            require(abs((w.theta2 - w.theta1) % 360 - 180) < 1e-9, "angles {0} {1}", w.theta1, w.theta2)
            seen[int(np.sign(np.round(np.cos(mid), 6)))] = w.get_facecolor()
        sun = -1 if sy == "mhd" else 1
        require(seen.get(sun) == day and seen.get(-sun) == night, "sides of the earth in {0}: {1}", sy, seen)
    nontrivial(case["flat"] != "" or case["symdir"] != "")


# ------------------------------------------------------------------ maps
@st.composite
def map_cases(draw):
    return {"order": draw(st.sampled_from([["phi", "theta"], ["theta", "phi"], ["lon", "lat"], ["lat", "lon"]])), "unit": draw(st.sampled_from(["deg", "deg", "rad"])), "n": [draw(st.integers(4, 9)), draw(st.integers(5, 12))], "uniform": draw(st.booleans()), "center": draw(st.sampled_from(["cell", "node"])),
            "part": draw(st.sampled_from(["all", "all", "north", "south"])), "hemi": draw(st.sampled_from([None, None, "north", "south", "S ", "North"])), "bl": draw(st.sampled_from([None, None, 30.0, 50.0, 75.0])), "seed": draw(seeds), "scale": draw(st.sampled_from([None, None, 2.0, -1.5])),
            "fn": draw(st.sampled_from(["iono", "iono", "mapfield", "plot", "contour"])), "units": draw(st.sampled_from([None, "kV"])), "ann": draw(st.sampled_from([None, "pot", "none", ""])), "title": draw(st.sampled_from([None, "a map"])), "label": draw(st.sampled_from([None, False, "from_pole"])), "mlt": draw(st.sampled_from([None, False])),
            "how": draw(st.sampled_from(["kw", "str", "yaml"])), "f4": draw(st.booleans()), "sub": draw(st.booleans()), "ec": draw(st.sampled_from([None, "r", ""]))}


@closing
def check_map(case):
    r = rng(case["seed"])
    cc = case["center"] == "cell"
    contour = case["fn"] == "contour"
    nlon, nlat = case["n"]
    part = case["part"]
    a, b = {"all": (-89.0, 88.0) if not cc else (-90.0, 90.0), "north": (20.0, 90.0), "south": (-90.0, -20.0)}[part]
    uniform = case["uniform"] or not cc
    lon = axis_(r, nlon + cc, uniform, 0.0, 360.0 if cc else 360.0 * (nlon - 1) / nlon)
    lat = axis_(r, nlat + cc, uniform, a, b)
    cl = [0.5 * (c[1:] + c[:-1]) if cc else c for c in (lon, lat)]
    arr = r.normal(size=(nlon, nlat)).astype("f4" if case["f4"] else "f8")
    order = case["order"]
    d, crds = arr, [lon, lat]
    if "theta" in order:
        d, crds = d[:, ::-1], [lon, 90.0 - lat[::-1]]
    if order[0] in ("theta", "lat"):
        d, crds = d.T, crds[::-1]
    u = np.pi / 180 if case["unit"] == "rad" else 1.0
    if uniform:
        crds = viscid.wrap_crds("uniform_spherical", [(k, [c[0] * u, c[-1] * u, len(c)]) for k, c in zip(order, crds)], units=case["unit"], full_arrays=False)
    else:
        crds = viscid.wrap_crds("nonuniform_spherical", [(k, c * u) for k, c in zip(order, crds)], units=case["unit"])
    fld = viscid.wrap_field(np.ascontiguousarray(d), crds, name="pot", center=case["center"], pretty_name="the pot")
    keep = fld.data.copy()
    keepc = [np.array(fld.get_crd(k)) for k in order]
    hemi, bl, opts = case["hemi"], case["bl"], {}
    if part != "all" and hemi and hemi.strip().lower()[0] != part[0]:
        hemi = part
    if hemi:
        opts["hemisphere"] = hemi
    if bl is not None:
        opts["bounding_lat"] = bl
    south = (hemi or part).strip().lower().startswith("s")
    eff = bl if bl is not None else 40.0 if abs(cl[1][-1] - cl[1][0]) >= 90.01 else 90.0
    lim = -90 + eff if south else 90 - eff
    if np.abs(cl[1] - lim).min() < 1e-3 and eff != 90 or np.abs(np.abs(cl[1]) - 10).min() < 1e-3:
        raise Discard()
    ok = cl[1] < lim + 1e-9 if south else cl[1] > lim - 1e-9
    if ok.sum() < 2:
        raise Discard()
    scale = case["scale"]
    if scale is not None:
        opts["scale"] = scale
    shown = arr.astype("f8") * (scale or 1)
    iono = case["fn"] == "iono"
    if contour:
        opts["style"] = "contour"
    if case["title"] and case["how"] != "str":
        opts["title"] = case["title"]
    for k, v in (("label_lat", case["label"]), ("label_mlt", case["mlt"])):
        if v is not None:
            opts[k] = v
    if case["ec"] is not None and case["how"] == "kw":
        opts["axgridec"] = case["ec"]
    ikw = {}
    if iono:
        for k in ("hemisphere", "title", "scale"):
            if k in opts:
                ikw[k] = opts.pop(k)
        for k, v in (("units", case["units"]), ("annotations", case["ann"])):
            if v is not None:
                ikw[k] = v
    po, kw = as_opts(opts, case["how"])
    kw.update(ikw)
    given = dict(kw)
    fig = plt.figure()
    if case["sub"]:
        other = fig.add_subplot(1, 2, 1)
        kw["ax"] = fig.add_subplot(1, 2, 2, projection="polar")
        plt.sca(other)
    p, cbar = {"iono": vlt.plot_iono, "mapfield": vlt.plot2d_mapfield, "plot": vlt.plot, "contour": vlt.plot2d_mapfield}[case["fn"]](fld, **dict(po, **kw))
    label("{0} {1} {2}".format(case["fn"], "/".join(order), "south" if south else "north"))
    eq_arr(fld.data, keep, "data afterwards")
    for k, c in zip(order, keepc):
        eq_arr(np.array(fld.get_crd(k)), c, k + " afterwards")
    ax = plt.gca()
    if case["sub"]:
        require(ax is kw["ax"], "the current axis is another one")
        require(not other.collections and not other.get_title() and not other.texts, "something is drawn in the other axis")
    require(ax.name == "polar", "the axis is {0}", ax.name)
    close(np.array(np.exp(1j * ax.get_theta_offset())), np.array(np.exp(-0.5j * np.pi)), "where midnight is")
    tol = dict(rtol=1e-5, atol=1e-6) if case["f4"] else dict(rtol=1e-9, atol=1e-12)
    I = np.where(ok)[0]
    if not contour:
        ed = [c if cc else np.concatenate([[1.5 * c[0] - 0.5 * c[1]], 0.5 * (c[1:] + c[:-1]), [1.5 * c[-1] - 0.5 * c[-2]]]) for c in (lon, lat)]
        R = np.deg2rad(ed[1] + 90 if south else 90 - ed[1])
        want = {}
        for i in range(nlon):
            for j in I:
                w, e = np.deg2rad(ed[0][i]), np.deg2rad(ed[0][i + 1])
                want[tuple(np.round([w, min(R[j], R[j + 1]), e, max(R[j], R[j + 1])], 5) + 0.0)] = shown[i, j]
        co = np.asarray(p._coordinates)
        g = np.ma.asarray(p.get_array()).reshape(co.shape[0] - 1, co.shape[1] - 1)
        got = {}
        for i in range(g.shape[0]):
            for j in range(g.shape[1]):
                q = co[i:i + 2, j:j + 2].reshape(4, 2)
                got[tuple(np.round(np.concatenate([q.min(axis=0), q.max(axis=0)]), 5) + 0.0)] = g[i, j]
        kg, kw_ = np.array(sorted(got)), np.array(sorted(want))
        require(kg.shape == kw_.shape and np.allclose(kg, kw_, atol=3e-5), "cells at {0}, expected {1}", kg[:4], kw_[:4])
        close(np.array([got[k] for k in sorted(got)]), np.array([want[k] for k in sorted(want)]), "values in the cells", **tol)
        sel = shown[:, I]
        close(np.array([p.norm.vmin, p.norm.vmax]), np.array([sel.min(), sel.max()]), "limits of the colors", **tol)
    else:
        sel = shown[:, I]
        close(np.array([p.zmin, p.zmax]), np.array([sel.min(), sel.max()]), "range of the values", **tol)
    if bl is not None:
        close(np.array(ax.get_rmax()), np.array(np.deg2rad(bl)), "the edge of the map", rtol=1e-9) if case["ec"] != "" or case["how"] != "kw" else None
    gridded = not (case["ec"] == "" and case["how"] == "kw")
    if gridded:
        t = [x.get_text() for x in ax.get_xticklabels()]
        require(t == ([] if case["mlt"] is False else ["24", "3", "6", "9", "12", "15", "18", "21"]) or case["mlt"] is False and not any(t), "hours {0}", t)
        tt = ax.get_yticks()
        t = [x.get_text() for x in ax.get_yticklabels()]
        if case["label"] is False:
            require(not any(t), "latitudes {0}", t)
        else:
            for x, s in zip(tt, t):
                c = np.rad2deg(x)
                w = c if case["label"] == "from_pole" else -90 + c if south else 90 - c
                require(abs(float(s) - w) < 1e-6, "latitude {0} is labelled {1}", w, s)
            require(len(t) > 0 or ax.get_rmax() <= np.deg2rad(10.01), "no latitudes are labelled")
    title = ax.get_title()
    w = "the pot" if case["title"] is None or case["how"] == "str" and not iono else case["title"]
    if iono and "title" not in given:
        w = "the pot"
    require(title.strip() == w, "title {0}, expected {1}", title, w)
    texts = [t.get_text() for t in ax.texts]
    if iono and case["ann"] in (None, "pot"):
        m = cl[1] < -10 if south else cl[1] > 10
        v = shown[:, m]
        un = " " + case["units"] if case["units"] else ""
        wt = ["Min: {0:.1f}{1}", "Max: {0:.1f}{1}", "CPCP: {0:.1f}{1}"]
        require(len(texts) == 3, "annotations {0}", texts)
        for s, f, x in zip(texts, wt, (v.min(), v.max(), v.max() - v.min())):
            alt = [f.format(x + e, un) for e in (0, -1e-5, 1e-5)]
            require(s in alt, "annotation {0}, expected {1}", s, alt[0])
    else:
        require(not texts, "annotations {0}", texts)
    nontrivial(south or scale is not None or bl is not None)



# ------------------------------------------------------------------ dates
@st.composite
def date_cases(draw):
    return {"n": [draw(st.integers(3, 8)), draw(st.integers(2, 6))], "dim": draw(st.sampled_from([1, 2, 2])), "kind": draw(st.sampled_from(["M", "M", "m"])), "center": draw(st.sampled_from(["node", "cell"])), "uniform": draw(st.booleans()), "first": draw(st.booleans()), "seed": draw(seeds),
            "start": draw(st.sampled_from(["2006-06-10T12:30:00.0", "1999-12-31T23:59:00.0", "1970-01-01T00:00:00.0", "2012-02-28T20:00:00.25"])), "step": draw(st.sampled_from([250, 12000, 60000, 3600000])), "lims": draw(st.sampled_from([None, None, "t", "v", "tv"])), "flip": draw(st.booleans()),
            "style": draw(st.sampled_from(["pcolormesh", "pcolormesh", "contour"])), "cut": draw(st.booleans()), "axis": draw(st.sampled_from([None, None, "none"])), "fmt": draw(st.sampled_from([None, "%H"])), "scale": draw(st.sampled_from([None, 2.0])), "tight": draw(st.sampled_from([None, False]))}


def num(t):
    """days since 1970, of datetime64[us] or timedelta64[us]"""
    return np.asarray(t).astype("i8") / 86400e6


@closing
def check_date(case):
    r = rng(case["seed"])
    n, dim = case["n"], case["dim"]
    cc = case["center"] == "cell"
    ms = np.arange(n[0] + cc) * case["step"]
    if not case["uniform"]:
        ms[1:-1] += (r.randint(-2, 3, size=len(ms) - 2) * case["step"] // 20) * 2
    t0 = np.datetime64(case["start"], "us") if case["kind"] == "M" else np.timedelta64(0, "us")
    # whole numbers of microseconds between the ends of cells
    t = t0 + (ms * 1000).astype("m8[us]")
    tc = num(t)
    val = axis_(r, n[1] + cc, case["uniform"], 0.5, 3.0)
    crds, names = ([t.astype(t.dtype.kind + "8[ns]"), val], ["t", "y"]) if dim == 2 else ([t.astype(t.dtype.kind + "8[ns]")], ["t"])
    shape = n[:dim]
    arr = r.normal(size=shape)
    swap = dim == 2 and not case["first"]
    fld = viscid.wrap_field(np.ascontiguousarray(arr.T) if swap else arr.copy(), viscid.arrays2crds(crds[::-1] if swap else crds, crd_names=names[::-1] if swap else names), name="fld", center=case["center"])
    ctr = [0.5 * (c[1:] + c[:-1]) if cc else c for c in (tc, val)]
    edge = [tc, val]
    if case["cut"] and n[0] > 4:
        # everything between two times
        keep = (ctr[0] > ctr[0][0] + 1e-12) & (ctr[0] < ctr[0][-2] + 0.5 * (ctr[0][-1] - ctr[0][-2]))
        I = np.where(keep)[0]
        us = lambda d: int(round(d * 86400e6))
        a, b = (us(0.5 * (ctr[0][I[0] - 1] + ctr[0][I[0]])), us(0.5 * (ctr[0][I[-1]] + ctr[0][I[-1] + 1])))
        k = t.dtype.kind
        a, b = (np.array(x, k + "8[us]")[()] for x in (a, b))
        sel = slice(a, b)
        fld = fld[:, sel] if swap else fld[sel]
        arr = arr[I]
        edge[0] = edge[0][I[0]:I[-1] + 1 + cc]
        ctr[0] = ctr[0][I]
        label("cut")
    opts, scale = {}, case["scale"]
    if scale:
        opts["scale"] = scale
    if case["axis"]:
        opts["axis"] = case["axis"]
    if case["fmt"]:
        opts["datefmt" if case["kind"] == "M" else "timefmt"] = case["fmt"]
    lt = t[[0, -1]] + np.array([1000, -500], "m8[us]")
    lv = (0.25, 2.5)
    flip = case["flip"] and dim == 2
    if flip:
        opts["flip_plot"] = True
    onx = dim == 1 or (swap == flip)
    kt, kv = ("x", "y") if onx else ("y", "x")
    if "t" in (case["lims"] or ""):
        opts[kt] = tuple(lt.astype(t.dtype.kind + "8[ns]"))
    if "v" in (case["lims"] or ""):
        opts[kv] = lv
    if dim == 2:
        opts.update(style=case["style"], colorbar=False)
        if case["tight"] is not None:
            opts["tightlim"] = False
    if dim == 2 and case["style"] == "contour":
        if min(arr.shape) < 2:
            raise Discard()
    before = fld.data.copy()
    fig = plt.figure()
    ax = fig.add_subplot(1, 1, 1)
    p = vlt.plot(fld, **opts)[0]
    label("{0}d {1} {2}".format(dim, case["kind"], case["center"]))
    eq_arr(fld.data, before, "data afterwards")
    shown = arr * (scale or 1)
    tol = 1e-10 + 2e-16 * abs(tc).max() * 4
    lo, hi = {}, {}
    if dim == 1:
        line, = ax.lines
        x, y = line.get_xdata(orig=False), line.get_ydata(orig=False)
        close(np.asarray(x, "f8"), ctr[0], "times of the line", rtol=0, atol=tol)
        close(np.asarray(y, "f8"), shown, "values of the line")
    elif case["style"] == "pcolormesh":
        co = np.asarray(p._coordinates)
        g = np.ma.asarray(p.get_array()).reshape(co.shape[0] - 1, co.shape[1] - 1)
        ed = edge if cc else [np.concatenate([[1.5 * c[0] - 0.5 * c[1]], 0.5 * (c[1:] + c[:-1]), [1.5 * c[-1] - 0.5 * c[-2]]]) for c in edge]
        T, V = np.meshgrid(*ed, indexing="ij")
        w = shown
        # co[row, column] where columns are along the first axis of the field unless flipped
        if swap == flip:
            T, V, w = T.T, V.T, w.T
        if not onx:
            T, V = V, T
        if co.shape[:2] != T.shape:
            raise AssertionError("shape of the cells {0}, expected {1}".format(co.shape, T.shape))
        close(co[..., 0], T, "x of the cells", rtol=1e-12, atol=tol)
        close(co[..., 1], V, "y of the cells", rtol=1e-12, atol=tol)
        close(np.asarray(g), w, "values of the cells")
    else:
        close(np.array([p.zmin, p.zmax]), np.array([shown.min(), shown.max()]), "range of the values")
    tl, vl = (ax.get_xlim(), ax.get_ylim()) if onx else (ax.get_ylim(), ax.get_xlim())
    if "t" in (case["lims"] or ""):
        close(np.array(tl), num(lt), "limits of the times as given", rtol=0, atol=tol)
    elif dim == 2 and case["tight"] is None:
        close(np.array(tl), edge[0][[0, -1]], "limits of the times", rtol=0, atol=tol)
    if "v" in (case["lims"] or ""):
        close(np.array(vl), np.array(lv), "limits of the values as given")
    elif dim == 2 and case["tight"] is None:
        close(np.array(vl), edge[1][[0, -1]], "limits of the other axis")
    if case["axis"] is None and dim == 2:
        require(ax.get_aspect() == "auto", "aspect of an axis of dates is {0}", ax.get_aspect())
    f = case["fmt"] or ("%Y-%m-%d %H:%M:%S" if case["kind"] == "M" else "%H:%M:%S")
    axis = ax.xaxis if onx else ax.yaxis
    got = axis.get_major_formatter()(float(num(t[1])) + 1e-7)
    tt = (np.datetime64(0, "us") + (np.int64(round(float(num(t[1])) * 86400e6)) + np.int64(8640)) * np.timedelta64(1, "us")).item()
    require(got in [tt.strftime(f)], "{0} is labelled {1}", tt, got)
    nontrivial(case["kind"] == "M" and case["lims"] is not None or case["cut"])


FACETS = [
    Facet("field2d", f2_cases(), check_f2, quick=150, thorough=4000, rule="scaled, flipped or with limits of the values"),
    Facet("field1d", f1_cases(), check_f1, quick=100, thorough=3000, rule="scaled or with limits of the values"),
    Facet("lines", ln_cases(), check_ln, quick=150, thorough=4000, rule="several lines with values or colors"),
    Facet("vectors", vec_cases(), check_vec, quick=80, thorough=2000, rule="steps or streams"),
    Facet("points", pt_cases(), check_pt, quick=100, thorough=2500, rule="a direction is given or found"),
    Facet("maps", map_cases(), check_map, quick=100, thorough=2500, rule="scaled, bounded or in the south"),
    Facet("dates", date_cases(), check_date, quick=100, thorough=3000, rule="limits given as dates, or a slice between dates"),
]
