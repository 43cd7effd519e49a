"""C40: labels next to the lines, color maps and plot styles"""
import numpy as np
from hypothesis import strategies as st
import matplotlib
matplotlib.use("agg")
from matplotlib import pyplot as plt
from matplotlib.colors import Colormap, LinearSegmentedColormap, ListedColormap, to_rgba
from matplotlib.ticker import FuncFormatter, MultipleLocator

import viscid
from viscid.plot import _cm_cubehelix, _cm_tools, mpl_direct_label
from viscid.plot import vpyplot as vlt
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds


# ----------------------------------------------------------------- labels
@st.composite
def label_cases(draw):
    return {"seed": draw(seeds), "n": draw(st.integers(1, 4)), "npts": draw(st.integers(2, 30)), "dpi": draw(st.sampled_from([100, 100, 60, 150])),
            "magnet": [draw(st.floats(-0.2, 1.2)), draw(st.floats(-0.2, 1.2))], "mcoords": draw(st.sampled_from(["axes fraction", "axes fraction", "offset pixels", "offset points"])),
            "padding": draw(st.sampled_from([None, None, 5, [3, 8], 0, [12.0, None]])), "pcoords": draw(st.sampled_from(["offset points", "offset points", "offset pixels", "axes fraction", None])),
            "choices": draw(st.sampled_from([None, None, "01", "12", "21:01", "00:02:20:22:12:10:01:21", "11", "20:02"])), "ncand": draw(st.sampled_from([None, None, 1, 5, 50])),
            "size": draw(st.sampled_from([None, None, 6, 15.5])), "colors": draw(st.sampled_from([None, None, "one", "names", "rgb", "rgba", "array", "short"])),
            "labels": draw(st.sampled_from([None, None, "all", "some", "multi"])), "spacing": draw(st.sampled_from([None, "linear", "random"])),
            "zoom": draw(st.sampled_from(["no", "no", "in", "out", "flipx", "flipy"])), "scale": draw(st.sampled_from(["lin", "lin", "logx", "logy"])),
            "fill": draw(st.sampled_from(["no", "no", "yes", "ignore"])), "ax": draw(st.sampled_from(["given", "current"])), "nolabel": draw(st.booleans()),
            "kind": draw(st.sampled_from(["wave", "rand", "straight", "steps"])), "big": draw(st.sampled_from([1.0, 1.0, 1e-3, 1e4]))}


def mk_lines(case, r, ax):
    out = []
    for i in range(case["n"]):
        x = np.sort(r.uniform(0.5, 10, case["npts"])) if r.randint(2) else np.linspace(0.5, 10, case["npts"])
        if case["kind"] == "wave":
            y = 2 + np.sin(x * (i + 1) * 0.4 + i) + 0.3 * i
        elif case["kind"] == "rand":
            y = r.uniform(0.5, 4, len(x))
        elif case["kind"] == "straight":
            y = 1 + i + 0.2 * r.uniform(-1, 1) * x
            y = np.abs(y) + 0.1
        else:
            y = 1.0 + r.randint(0, 4, len(x))
            x = np.round(x, 1)
        y = y * case["big"]
        out.append(ax.plot(x, y, label="series {0}".format(i), color=["r", "b", "#00aa55", "0.3"][i])[0])
    return out


def seg_hits(p, q, lo, hi):
    """do segments p - q touch the box (Liang-Barsky)"""
    d = q - p
    t0, t1 = np.zeros(len(p)), np.ones(len(p))
    ok = np.ones(len(p), dtype=bool)
    for k in range(2):
        par = d[:, k] == 0
        ok &= ~(par & ((p[:, k] < lo[k]) | (p[:, k] > hi[k])))
        with np.errstate(divide="ignore", invalid="ignore"):
            a, b = (lo[k] - p[:, k]) / d[:, k], (hi[k] - p[:, k]) / d[:, k]
        a, b = np.minimum(a, b), np.maximum(a, b)
        t0 = np.where(par, t0, np.maximum(t0, a))
        t1 = np.where(par, t1, np.minimum(t1, b))
    return bool(np.any(ok & (t0 <= t1)))


def in_poly(v, c):
    x, y = v[:, 0], v[:, 1]
    x2, y2 = np.roll(x, -1), np.roll(y, -1)
    cr = (y > c[1]) != (y2 > c[1])
    with np.errstate(divide="ignore", invalid="ignore"):
        xs = x + (c[1] - y) / (y2 - y) * (x2 - x)
    return int(np.sum(cr & (c[0] < xs))) % 2 == 1


def penalty(lo, hi, grow, paths, boxes, axlo, axhi):
    lo, hi = lo - grow, hi + grow
    if np.any(hi <= lo):
        return 0
    out = 0
    for v, filled in paths:
        hit = seg_hits(v[:-1], v[1:], lo, hi) if len(v) > 1 else False
        if not hit and filled:
            hit = in_poly(v, 0.5 * (lo + hi))
        out += hit
    for v in boxes:
        out += 5 * bool(np.all(lo <= v[1]) and np.all(hi >= v[0]))
    # beyond the axes
    out += 100 * (not (np.all(lo - axlo >= 0) and np.all(axhi - hi >= 0)))
    return out


def check_labels(case):
    r = rng(case["seed"])
    plt.close("all")
    fig = plt.figure(figsize=(5, 4), dpi=case["dpi"])
    ax = fig.add_axes([0.15, 0.2, 0.7, 0.65])
    lines = mk_lines(case, r, ax)
    if case["nolabel"]:
        ax.plot([1, 5, 9], [case["big"], 3 * case["big"], 2 * case["big"]], color="c")
    polys = []
    if case["fill"] != "no":
        xs = np.linspace(3, 6, 6)
        polys.append(ax.fill_between(xs, 0.5 * case["big"], 1.7 * case["big"], color="0.8"))
    if case["scale"] == "logx":
        ax.set_xscale("log")
    elif case["scale"] == "logy":
        ax.set_yscale("log")
    ax.autoscale_view()
    if case["zoom"] == "in":
        ax.set_xlim(2, 7)
    elif case["zoom"] == "out":
        ax.set_xlim(0.1, 30)
        ax.set_ylim(0.1 * case["big"], 9 * case["big"])
    elif case["zoom"] == "flipx":
        ax.set_xlim(*ax.get_xlim()[::-1])
    elif case["zoom"] == "flipy":
        ax.set_ylim(*ax.get_ylim()[::-1])
    kw = {}
    if case["ax"] == "given":
        plt.figure()
        plt.plot([0, 1e5], [0, 1e6])
        kw["ax"] = ax
    if case["magnet"]:
        magnet = np.array(case["magnet"])
        if case["mcoords"] != "axes fraction":
            magnet = magnet * 300
            kw["magnetcoords"] = case["mcoords"]
        kw["magnet"] = tuple(magnet)
    px = case["dpi"] / 72.0
    axlo, axhi = ax.bbox.min, ax.bbox.max
    mag = {"axes fraction": lambda: axlo + magnet * (axhi - axlo), "offset pixels": lambda: magnet, "offset points": lambda: magnet * px}[case["mcoords"]]()
    fs = case["size"] or matplotlib.font_manager.FontProperties().get_size_in_points()
    if case["size"]:
        kw["size"] = case["size"]
    pc = case["pcoords"] or "offset points"
    if case["pcoords"]:
        kw["paddingcoords"] = case["pcoords"]
    if case["padding"] is not None:
        kw["padding"] = [(p if p is None or pc != "axes fraction" else p / 100.0) for p in case["padding"]] if isinstance(case["padding"], list) else (
            case["padding"] if pc != "axes fraction" else case["padding"] / 100.0)
    pad = kw.get("padding")
    pad = list(pad) if isinstance(pad, list) else [pad, pad]
    # by default it's the size of the font
    pad = np.array([{"offset points": fs, "offset pixels": fs * px, "axes fraction": 0.05}[pc] if p is None else p for p in pad], dtype="f8")
    pad = {"offset points": pad * px, "offset pixels": pad, "axes fraction": pad * (axhi - axlo)}[pc]
    choices = case["choices"] or "00:02:20:22"
    if case["choices"]:
        kw["choices"] = choices
    choices = [np.array([int(c[0]), int(c[1])]) - 1 for c in choices.split(":")]
    ncand = case["ncand"] or 32
    if case["ncand"]:
        kw["n_candidates"] = ncand
    if case["spacing"]:
        kw["spacing"] = case["spacing"]
    if case["fill"] == "ignore":
        kw["ignore_filling"] = True
    texts = ["series {0}".format(i) for i in range(case["n"])]
    if case["labels"] == "all":
        texts = kw["labels"] = ["L{0}{0}".format(i) for i in range(case["n"])]
    elif case["labels"] == "some":
        kw["labels"] = ["first"]
        texts[0] = "first"
    elif case["labels"] == "multi":
        texts = kw["labels"] = ["two\nlines {0}".format(i) for i in range(case["n"])]
    cols = [ln.get_color() for ln in lines]
    if case["colors"] == "one":
        kw["colors"], cols = "#123456", ["#123456"] * 9
    elif case["colors"] == "names":
        kw["colors"] = ["orange", "purple", "k", "y"]
        cols = kw["colors"]
    elif case["colors"] in ("rgb", "rgba", "array", "short"):
        a = r.uniform(0, 1, (2 if case["colors"] == "short" else case["n"], 3 if case["colors"] in ("rgb", "short") else 4))
        kw["colors"] = a if case["colors"] == "array" else a.tolist()
        cols = [tuple(a[i % len(a)]) for i in range(case["n"])]
    np.random.seed(7)
    want_rand = np.random.RandomState(7).randint(0, 1000, 3)
    # lines of which nothing is in view get no label
    segs = []
    (xl, xh), (yl, yh) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    for ln in lines:
        v = ln.get_xydata()
        inside = (v[:, 0] >= xl) & (v[:, 0] <= xh) & (v[:, 1] >= yl) & (v[:, 1] <= yh)
        p = ax.transData.transform(v)
        m = inside[:-1] & inside[1:] & (np.linalg.norm(p[1:] - p[:-1], axis=1) > 0)
        segs.append((p[:-1][m], p[1:][m]))
    ann = vlt.apply_labels(**kw)
    nontrivial(case["n"] > 1)
    label(pc, case["colors"] or "own colors", case["zoom"], case["scale"])
    eq_arr(np.random.randint(0, 1000, 3), want_rand, "random numbers afterwards")
    shown = [i for i in range(case["n"]) if len(segs[i][0])]
    require(len(ann) == len(shown), "{0} labels, expected {1}", len(ann), len(shown))
    require(all(a.axes is ax for a in ann), "labels in other axes")
    paths = [(ax.transData.transform(q.get_xydata()), False) for q in ax.lines]
    for p in polys:
        for q in p.get_paths():
            paths.append((ax.transData.transform(q.vertices), case["fill"] == "yes"))
    boxes = []
    for a, i in zip(ann, shown):
        require(a.get_text() == texts[i], "label of {0} is {1!r}, expected {2!r}", i, a.get_text(), texts[i])
        require(np.allclose(to_rgba(a.get_color()), to_rgba(cols[i]), atol=1e-6), "color of {0} is {1}, expected {2}", i, a.get_color(), cols[i])
        if case["size"]:
            require(a.get_size() == case["size"], "font size")
        root = ax.transData.transform(np.asarray(a.xy))
        p, q = segs[i]
        # the point is on the line
        d = q - p
        t = np.clip(((root - p) * d).sum(axis=1) / (d**2).sum(axis=1), 0, 1)
        dist = np.linalg.norm(p + d * t[:, None] - root, axis=1)
        lin = case["scale"] == "lin"
        # points between those of the line are on straight lines in the data only
        if lin:
            require(dist.min() < 0.05, "label of {0} points to {1}, that's {2} pixels away from the line", i, a.xy, dist.min())
        txt = texts[i].split("\n")
        h = px * fs
        size = np.array([0.618 * h * max(len(s) for s in txt), 1.62 * h * len(txt)])
        close(mpl_direct_label.estimate_text_size_px(texts[i], fig=fig, size=fs), size, "size of the text", 1e-6)
        require(a.xycoords == "data" and a.anncoords == "offset pixels", "{0} {1}", a.xycoords, a.anncoords)
        off = np.asarray(a.xyann, dtype="f8")
        offs = [-0.5 * size + c * (pad + 0.5 * size) for c in choices]
        err = min(np.abs(off - o).max() for o in offs)
        require(err < 0.01, "label of {0} is moved by {1}, possible are {2}", i, off, offs)
        lo = root + off
        hi = lo + size
        # is there a better place?
        if lin and case["spacing"] != "random":
            ln = np.linalg.norm(d, axis=1)
            s = np.concatenate([[0], np.cumsum(ln)])
            best, cands = None, []
            for sd in np.linspace(0, s[-1], ncand):
                k = min(max(int(np.searchsorted(s, sd, side="left")) - 1, 0), len(ln) - 1)
                rt = p[k] + d[k] * (sd - s[k]) / ln[k]
                for o in offs:
                    cands.append((rt + o, rt + o + size))
            require(min(np.abs(c[0] - lo).max() for c in cands) < 0.1, "label of {0} at {1} isn't one of the candidates", i, lo)
            mine = penalty(lo, hi, -0.1, paths, boxes, axlo, axhi)
            pens = [penalty(c[0], c[1], 0.1, paths, boxes, axlo, axhi) for c in cands]
            require(mine <= min(pens), "label of {0} overlaps {1}, but {2} is possible", i, mine, min(pens))
            me = np.linalg.norm(0.5 * (lo + hi) - mag)
            near = [np.linalg.norm(0.5 * (c[0] + c[1]) - mag) for c, w in zip(cands, pens) if w <= mine]
            require(not near or me <= min(near) + 0.2, "label of {0} is {1} away from the magnet, {2} is possible", i, me, near and min(near))
        boxes.append((lo, hi))
    plt.close("all")


# --------------------------------------------------------------- text size
@st.composite
def size_cases(draw):
    return {"txt": draw(st.lists(st.text("abcx ", min_size=1, max_size=12), min_size=1, max_size=3)), "size": draw(st.sampled_from([None, 8, 20.0])),
            "dpi": draw(st.sampled_from([None, 50, 200])), "figdpi": draw(st.sampled_from([72, 100])), "lims": [draw(st.floats(-5, 5)), draw(st.floats(0.5, 30)), draw(st.floats(-5, 5)), draw(st.floats(0.5, 30))],
            "other": draw(st.booleans()), "asp": draw(st.sampled_from([None, 0.5, 1.0])), "sp": draw(st.sampled_from([None, 1.0, 2.0])), "fp": draw(st.booleans())}


def check_size(case):
    plt.close("all")
    fig = plt.figure(figsize=(4, 3), dpi=case["figdpi"])
    ax = fig.add_axes([0.1, 0.1, 0.8, 0.7])
    ax.set_xlim(case["lims"][0], case["lims"][0] + case["lims"][1])
    ax.set_ylim(case["lims"][2], case["lims"][2] + case["lims"][3])
    if case["other"]:
        plt.figure(dpi=33)
        plt.plot([0, 1], [5, 6])
    kw = {}
    for k, nm in (("size", "size"), ("dpi", "dpi"), ("asp", "char_aspect_ratio"), ("sp", "line_spacing")):
        if case[k]:
            kw[nm] = case[k]
    fs = case["size"] or matplotlib.font_manager.FontProperties().get_size_in_points()
    if case["fp"] and not case["size"]:
        kw["fontproperties"], fs = {"size": 17}, 17
    txt = "\n".join(case["txt"])
    h = (case["dpi"] or case["figdpi"]) * fs / 72.0
    w = (case["asp"] or 0.618) * h * max(len(t) for t in case["txt"])
    ht = (case["sp"] or 1.62) * h * len(case["txt"])
    nontrivial(case["other"])
    close(mpl_direct_label.estimate_text_size_px(txt, fig=fig, **kw), [w, ht], "pixels", 1e-9)
    got = mpl_direct_label.estimate_text_size_data(txt, ax=ax, **kw)
    close(got, [w * case["lims"][1] / ax.bbox.width, ht * case["lims"][3] / ax.bbox.height], "in the data", 1e-6)
    for xy, want in ((case["lims"][:2], case["lims"][:2]), (3.0, [3.0, 3.0]), ([2.0], [2.0, 2.0])):
        want = np.array(want)
        close(mpl_direct_label.xy_as_pixels(xy, "offset pixels", ax=ax), want, "pixels", 1e-5, 1e-5)
        close(mpl_direct_label.xy_as_pixels(xy, "offset points", ax=ax), want * case["figdpi"] / 72.0, "points", 1e-5, 1e-5)
        close(mpl_direct_label.xy_as_pixels(xy, "axes fraction", ax=ax), ax.transAxes.transform(want), "fractions", 1e-4, 1e-3)
    plt.close("all")


# -------------------------------------------------------------- color maps
@st.composite
def cmap_cases(draw):
    return {"seed": draw(seeds), "n": draw(st.integers(2, 12)), "src": draw(st.sampled_from(["rgb", "rgba", "listed", "linear", "viridis", "jet", "helix"])),
            "rev": draw(st.booleans()), "what": draw(st.sampled_from(["listed", "linear", "register", "rgba", "ours"]))}


_reg = [0]
HELIX = ["redhelix", "bloodhelix", "coolhelix", "cubeYF"]


def check_cmap(case):
    r = rng(case["seed"])
    a = r.uniform(0, 1, (case["n"], 3 if case["src"] == "rgb" else 4))
    full = np.hstack([a, np.ones((len(a), 1))]) if a.shape[1] == 3 else a
    src = {"rgb": lambda: a.copy(), "rgba": lambda: a.copy(), "listed": lambda: ListedColormap(a, name="src"), "linear": lambda: LinearSegmentedColormap.from_list("src", a, N=case["n"] * 20),
           "viridis": lambda: plt.get_cmap("viridis"), "jet": lambda: plt.get_cmap("jet"), "helix": lambda: plt.get_cmap(HELIX[case["n"] % 4])}[case["src"]]()
    if isinstance(src, Colormap):
        full = src(np.arange(src.N))
    want = full[::-1] if case["rev"] else full
    what = case["what"]
    label(what, case["src"])
    nontrivial(case["rev"])
    if what == "rgba":
        close(_cm_tools.to_rgba(src), full, "colors", 1e-6, 1e-6)
        return
    if what == "ours":
        for nm in HELIX:
            m, b = plt.get_cmap(nm), plt.get_cmap(nm + "_r")
            i = np.arange(m.N)
            close(m(i), b(i)[::-1], "reverse of " + nm, 1e-9, 1e-9)
            close(m(i)[:, :3], np.asarray(getattr(_cm_cubehelix, nm + "_rgba"))[:, :3], nm, 1e-9, 1e-9)
            v = m(i)
            require(np.all((v >= 0) & (v <= 1)), "colors of {0} aren't between 0 and 1", nm)
        return
    if what == "listed":
        cm = _cm_tools.to_listed_cmap("somename", src, reverse=case["rev"])
        require(isinstance(cm, ListedColormap), "got {0}", type(cm))
        require(cm.N == len(want), "{0} colors, expected {1}", cm.N, len(want))
        close(cm(np.arange(cm.N)), want, "colors", 1e-6, 1e-6)
        if not isinstance(src, Colormap):
            require(cm.name == "somename", "name {0!r}", cm.name)
        return
    if what == "linear":
        cm = _cm_tools.to_linear_cmap("somename", src, reverse=case["rev"])
    else:
        _reg[0] += 1
        nm = "vf-{0}".format(_reg[0])
        _cm_tools.register_cmap(nm, src, reverse=case["rev"])
        cm = plt.get_cmap(nm)
    require(isinstance(cm, LinearSegmentedColormap), "got {0}", type(cm))
    t = r.uniform(0, 1, 50)
    exp = np.array([np.interp(t, np.linspace(0, 1, len(want)), want[:, k]) for k in range(4)]).T
    # tables of finitely many colors
    tol = 0.02 + 1.2 * np.abs(np.diff(want, axis=0)).max() * max(1.0, (len(want) - 1) / 128.0) * min(1.0, len(want) / 100.0)
    close(cm(t), exp, "colors", 0, min(tol, 0.15) if case["src"] not in ("linear", ) else 0.4 * (1 if case["n"] < 3 else 1))
    close(cm(np.array([0.0, 1.0])), want[[0, -1]], "ends", 0, 0.02)


# ------------------------------------------------------------- ticks and bars
@st.composite
def tick_cases(draw):
    return {"seed": draw(seeds), "fmt": draw(st.sampled_from([None, "kw", "rc"])), "loc": draw(st.sampled_from([None, "kw"])), "minor": draw(st.booleans()),
            "cbar": draw(st.sampled_from([None, "kw", "rc"])), "sym": draw(st.sampled_from([None, "seismic", "coolwarm"])), "opts": draw(st.sampled_from(["lin_0", "lin,0", None, "log"])),
            "dim": draw(st.sampled_from([1, 2, 2]))}


def check_ticks(case):
    plt.close("all")
    r = rng(case["seed"])
    nd = case["dim"]
    crds = viscid.arrays2crds([np.linspace(0, 4, 6), np.linspace(0, 3, 5)][:nd])
    f = viscid.zeros(crds, center="cell", name="f")
    f.data[...] = r.uniform(0.5 if case["opts"] == "log" else -3, 5, f.shape)
    old = dict(matplotlib.rcParams)
    fmt = FuncFormatter(lambda v, _: "<{0:.1f}>".format(v))
    nontrivial(nd == 2)
    label(case["fmt"], case["cbar"], case["opts"])
    fig, ax = plt.subplots()
    kw = {}
    try:
        if case["fmt"] == "kw":
            kw["majorfmt"] = fmt
            if case["minor"]:
                kw["minorfmt"] = fmt
        if case["loc"] == "kw":
            kw["majorloc"] = MultipleLocator(0.5)
            if case["minor"]:
                kw["minorloc"] = MultipleLocator(0.25)
        if nd == 1:
            vlt.plot(f, ax=ax, **kw)
        else:
            if case["cbar"] == "kw":
                kw["cbar_kwargs"] = {"format": "%.3f!"}
            elif case["cbar"] == "rc":
                matplotlib.rcParams["viscid.cbarfmt"] = "%.3f!"
            if case["sym"]:
                matplotlib.rcParams["viscid.symmetric_cmap"] = case["sym"]
            if case["opts"] in ("lin_0", "lin,0"):
                kw["clim"] = None
                kw.pop("clim")
                kw["symmetric"] = True
            elif case["opts"]:
                kw["logscale"] = True
            p, cb = vlt.plot(f, ax=ax, **kw)
        fig.canvas.draw()
        for axis in (ax.xaxis, ax.yaxis):
            if case["loc"] == "kw":
                d = np.diff(axis.get_majorticklocs())
                require(len(d) and np.allclose(d, 0.5), "ticks at {0}", axis.get_majorticklocs())
                if case["minor"]:
                    mt = np.asarray(axis.get_minorticklocs(), dtype=float)
                    require(np.allclose(mt / 0.25, np.round(mt / 0.25)), "minor ticks at {0}", mt)
            if case["fmt"] == "kw":
                txt = [t.get_text() for t in axis.get_majorticklabels()]
                require(all(t.startswith("<") for t in txt if t), "tick labels {0}", txt)
        if nd == 2:
            txt = [t.get_text() for t in cb.ax.get_yticklabels()]
            if case["cbar"] and case["opts"] != "log":
                require(all(t.endswith("!") for t in txt if t), "labels of the color bar {0}", txt)
            if case["opts"] in ("lin_0", "lin,0"):
                lo, hi = p.get_clim()
                m = np.abs(f.data).max()
                close([lo, hi], [-m, m], "limits", 1e-6)
                if case["sym"]:
                    require(p.get_cmap().name == case["sym"], "symmetric plots use {0}, expected {1}", p.get_cmap().name, case["sym"])
            elif case["sym"]:
                require(p.get_cmap().name == matplotlib.rcParams["image.cmap"], "plots use {0}", p.get_cmap().name)
    finally:
        for k in ("viscid.cbarfmt", "viscid.symmetric_cmap"):
            matplotlib.rcParams[k] = old[k]
        plt.close("all")


FACETS = [
    Facet("labels", label_cases(), check_labels, quick=120, rule="more than one line"),
    Facet("sizes", size_cases(), check_size, quick=60, rule="another figure is current"),
    Facet("cmaps", cmap_cases(), check_cmap, quick=120, rule="reversed"),
    Facet("ticks", tick_cases(), check_ticks, quick=50, rule="2D"),
]
