"""C39: the command line tools do what their documentation says"""
import contextlib
import io
import itertools
import json
import logging
import os
import shutil
import sys

import matplotlib
import numpy as np
from hypothesis import strategies as st

import viscid
from checks import c25
from vf.core import Facet, close, eq_arr, label, nontrivial, raises, require, rng, seeds

matplotlib.use("agg")

_count = [0]
NAMES = ["pp", "rr", "by", "vx", "q"]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c39-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


def run(script, args, cwd):
    """run main() of a script -> (what it returned, stdout)"""
    path = os.path.join(os.path.dirname(os.path.abspath(viscid.__file__)), "..", "scripts", script)
    with open(path) as fh:
        code = compile(fh.read(), script, "exec")
    ns = {"__name__": "script", "__file__": path}
    out = io.StringIO()
    argv, old = sys.argv, os.getcwd()
    logging.disable(logging.CRITICAL)
    sys.argv = [script] + [str(a) for a in args]
    try:
        os.chdir(cwd)
        with contextlib.redirect_stdout(out):
            exec(code, ns)
            try:
                ret = ns["main"]()
            except SystemExit as e:
                require(e.code in (None, 0), "{0} {1} exits with {2}", script, args, e.code)
                ret = e.code
    finally:
        sys.argv = argv
        os.chdir(old)
        logging.disable(logging.NOTSET)
        viscid.logger.setLevel(40)
    return ret, out.getvalue()


@contextlib.contextmanager
def evaluator():
    from viscid.calculator import evaluator as ev
    old = ev.enabled
    ev.enabled = True
    try:
        yield
    finally:
        ev.enabled = old
        viscid.unload_all_files()


def axes(spec):
    return [np.arange(n) * dx + lo for n, dx, lo in zip(spec["n"], spec["dx"], spec["lo"])]


def array(spec, it, name):
    r = rng(spec["seed"] + 101 * it + NAMES.index(name))
    return np.round(r.uniform(0.5, 2.0, spec["n"]), 3)


def write(d, prefix, spec, times, arrs):
    """arrs: list of dicts; one file per time and a collection of them"""
    crds = viscid.arrays2crds(axes(spec))
    for i, (t, a) in enumerate(zip(times, arrs)):
        g = viscid.grid.Grid(name="g", time=t)
        g.set_crds(crds)
        for n in a:
            g.add_field(viscid.wrap_field(a[n], crds, name=n, center="node", time=t))
        viscid.save_grid(os.path.join(d, "{0}.{1:06d}.h5".format(prefix, i)), g)
    with open(os.path.join(d, prefix + ".xdmf"), "w") as fh:
        fh.write("<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>\n<Domain>\n"
                 "<Grid GridType=\"Collection\" CollectionType=\"Temporal\">\n")
        for i in range(len(times)):
            fh.write("<xi:include href='{0}.{1:06d}.xdmf' xpointer='xpointer(//Xdmf/Domain/Grid)'/>\n".format(prefix, i))
        fh.write("</Grid>\n</Domain>\n</Xdmf>\n")
    return prefix + ".xdmf"


@st.composite
def specs(draw, lo=2):
    return {"n": [draw(st.integers(lo, 5)) for _ in range(3)], "dx": [draw(st.sampled_from([0.25, 0.5, 1.0, 2.0])) for _ in range(3)],
            "lo": [draw(st.integers(-4, 3)) for _ in range(3)], "seed": draw(seeds)}


# --------------------------------------------------------------------- diff
@st.composite
def diff_cases(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=4, unique=True))
    return {"spec": draw(specs()), "a": names, "drop": draw(st.lists(st.sampled_from(NAMES), max_size=2)),
            "more": draw(st.lists(st.sampled_from(NAMES), max_size=2, unique=True)), "nt": draw(st.integers(1, 3)), "nt2": draw(st.integers(1, 3)),
            "changes": draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(NAMES), seeds, st.sampled_from([1e-6, 0.01, 1.0, -0.3])), max_size=4)),
            "t": draw(st.sampled_from([None, 0.0, 60.0, 120.0, 61.0, 58.5, 119.0])), "tol": draw(st.sampled_from([None, None, 0.0, 100.0])),
            "named": draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True)), "single": draw(st.booleans())}


def check_diff(c):
    d = fresh()
    spec = c["spec"]
    b_names = [n for n in c["a"] if n not in c["drop"]] + [n for n in c["more"] if n not in c["a"]]
    if not b_names:
        b_names = list(c["a"])
    ta, tb = [60.0 * i for i in range(c["nt"])], [60.0 * i for i in range(c["nt2"])]
    aa = [{n: array(spec, i, n) for n in c["a"]} for i in range(c["nt"])]
    bb = [{n: array(spec, i, n) for n in b_names} for i in range(c["nt2"])]
    for i, n, s, by in c["changes"]:
        if i < len(bb) and n in bb[i]:
            bb[i][n].flat[s % bb[i][n].size] += by
    fa, fb = write(d, "a", spec, ta, aa), write(d, "b", spec, tb, bb)
    t = 60.0 if c["t"] is None else c["t"]
    ia, ib = [int(np.argmin(np.abs(np.array(ts) - t))) for ts in (ta, tb)]
    args = [fa, fb]
    if c["single"]:
        # files of one time
        args = ["a.{0:06d}.xdmf".format(ia), "b.{0:06d}.xdmf".format(ib)]
    tol = c["tol"] or 0.0
    A, B = aa[ia], bb[ib]
    want = 0
    for n in (c["named"] or list(A)):
        want += n not in A or n not in B or bool((np.abs(B[n] - A[n]) > tol).any())
    if not c["named"]:
        want += sum(n not in A for n in B)
    opts = ([] if c["t"] is None else ["-t", c["t"]]) + ([] if c["tol"] is None else ["-p", c["tol"]])
    ret, _ = run("viscid_diff", opts + args + c["named"], d)
    require(ret == want, "viscid_diff finds {0} fields with differences, there are {1}", ret, want)
    # a file doesn't differ from itself
    ret, _ = run("viscid_diff", opts + [args[0], args[0]], d)
    require(ret == 0, "viscid_diff finds {0} differences of a file from itself", ret)
    label("named" if c["named"] else "all", "single" if c["single"] else "times")
    nontrivial(want > 0 and len(A) > 1)
    viscid.unload_all_files()


# -------------------------------------------------------------- time series
def slc_of(draw, n):
    """one (selection string with a format for location and index, index) per axis"""
    i = draw(st.integers(0, n - 1))
    return [draw(st.sampled_from(["loc", "locf", "ind", "near", "neg"])), i]


def slc_str(spec, sel, order=(0, 1, 2)):
    x = axes(spec)
    out = []
    for k in order:
        kind, i = sel[k]
        v = {"loc": "{0!r}j".format(float(x[k][i])), "locf": "{0!r}f".format(float(x[k][i])), "ind": str(i), "neg": str(i - len(x[k])),
             "near": "{0!r}j".format(float(x[k][i] + 0.2 * spec["dx"][k]))}[kind]
        out.append("{0}={1}".format("xyz"[k], v))
    return ",".join(out)


EQNS = [("A=pp*2+by", lambda a: a["pp"] * 2 + a["by"], "A"), ("|V|=sqrt(vx**2+rr)", lambda a: np.sqrt(a["vx"]**2 + a["rr"]), "|V|"),
        ("B$_x$=by", lambda a: a["by"], "B$_x$")]


@st.composite
def ts_cases(draw):
    spec = draw(specs())
    nv = draw(st.integers(1, 3))
    vs = []
    for _ in range(nv):
        vs.append([draw(st.sampled_from(NAMES + [0, 1, 2])), [slc_of(draw, n) for n in spec["n"]], draw(st.permutations([0, 1, 2])),
                   draw(st.sampled_from([None, None, "log", "color=r", "linewidth_2,log"]))])
    return {"spec": spec, "nt": draw(st.integers(2, 5)), "dt": draw(st.sampled_from([60.0, 0.5, 3600.0])), "vars": vs,
            "slice": draw(st.one_of(st.none(), st.builds(lambda x: x, st.lists(st.integers(0, 1), min_size=3, max_size=3)))),
            "t": draw(st.sampled_from([None, ":", "1:", "::2", ":-1", ":1", "::-1", "loc"])), "one": draw(st.booleans()), "gopt": draw(st.sampled_from([None, None, "log", "marker=o"])),
            "fmt": draw(st.sampled_from([None, "hms", ".02f", "dhms"])), "rl": draw(st.booleans()), "x": draw(st.booleans()), "nofname": draw(st.booleans())}


class Recorder(object):
    """remember what is given to vpyplot.plot and the figures that are saved (in a file, since there may be subprocesses)"""
    def __init__(self, fn, draw=True):
        self.fn, self.draw = fn, draw

    def __enter__(self):
        from matplotlib import pyplot as plt
        from matplotlib.figure import Figure
        from viscid.plot import vpyplot as vlt
        plt.close("all")
        self.old = vlt.plot, Figure.savefig
        fn, (plot0, save0) = self.fn, self.old

        def plot(fld, *args, **kwargs):
            ax, given = plt.gca(), fld
            fld = fld.slice_reduce(Ellipsis)
            ss = ax.get_subplotspec()
            geo = None if ss is None else list(ss.get_gridspec().get_geometry()) + [ss.rowspan.start, ss.colspan.start]
            rec = {"what": "plot", "name": fld.name, "pretty": fld.pretty_name, "time": fld.time, "shape": list(fld.shape), "data": np.asarray(fld.data).ravel().tolist(),
                   "x": [np.asarray(x).tolist() for x in fld.get_crds()], "args": len(args), "geo": geo,
                   "kw": {k: v for k, v in kwargs.items() if isinstance(v, (str, int, float, bool, type(None)))}}
            ret = plot0(given, *args, **kwargs)
            with open(fn, "a") as fh:
                fh.write(json.dumps(rec, default=float) + "\n")
            return ret

        def save(fig, fname, *args, **kwargs):
            tops = [a for a in fig.axes if getattr(a, "get_subplotspec", int)()]
            rec = {"what": "save", "fname": str(fname), "sup": fig._suptitle.get_text() if fig._suptitle else None, "pid": os.getpid(), "size": list(fig.get_size_inches()),
                   "lines": [[ln.get_label(), len(ln.get_xdata())] for a in fig.axes for ln in a.get_lines()],
                   "fmt": [tops[-1].xaxis.get_major_formatter()(t, 0) for t in self.ticks] if tops and self.ticks else None,
                   "xlim": list(fig.axes[-1].get_xlim()) if fig.axes else None, "titles": [a.get_title() for a in fig.axes],
                   "yscale": [a.get_yscale() for a in fig.axes], "ylabels": [a.get_ylabel() for a in fig.axes], "legend": [a.get_legend() is not None for a in fig.axes]}
            ret = save0(fig, fname, *args, **kwargs)
            with open(fn, "a") as fh:
                fh.write(json.dumps(rec, default=float) + "\n")
            return ret
        vlt.plot, Figure.savefig = plot, save
        return self

    ticks = ()

    def __exit__(self, *exc):
        from matplotlib import pyplot as plt
        from matplotlib.figure import Figure
        from viscid.plot import vpyplot as vlt
        vlt.plot, Figure.savefig = self.old
        plt.close("all")

    def records(self):
        if not os.path.isfile(self.fn):
            return []
        with open(self.fn) as fh:
            return [json.loads(ln) for ln in fh]


def elapsed(t, fmt):
    s = int(t)
    if fmt == ".02f":
        return "{0:.02f}".format(t)
    if fmt == "hms":
        return "{0:02d}:{1:02d}:{2:02d}".format(s // 3600, s // 60 % 60, s % 60)
    if fmt == "dhms":
        n = s // 86400
        return "{0} day{4} {1:02d}:{2:02d}:{3:02d}".format(n, s // 3600 % 24, s // 60 % 60, s % 60, "" if n == 1 else "s")
    return None


def check_ts(c):
    d = fresh()
    spec = c["spec"]
    ts = [c["dt"] * i for i in range(c["nt"])]
    arrs = [{n: array(spec, i, n) for n in NAMES} for i in range(c["nt"])]
    f = write(d, "a", spec, ts, arrs)
    t = c["t"]
    if t == "loc":
        t, idx = "{0!r}j:".format(ts[1]), list(range(1, len(ts)))
    else:
        idx = list(range(len(ts)))[slice(*[int(i) if i else None for i in (t or ":").split(":")])]
    opts, want = [], []
    if c["gopt"]:
        opts += ["-o", c["gopt"]]
    shared = c["slice"] is not None
    common = c["vars"][0][1]
    for v, sel, order, po in c["vars"]:
        if shared:
            # the last of the axes come from --slice, and the slices of each variable have the rest
            sel = [common[k] if c["slice"][k] else sel[k] for k in range(3)]
        own = [k for k in order if not (shared and c["slice"][k])]
        name, fn, lab = (v, lambda a, v=v: a[v], v) if isinstance(v, str) else EQNS[v]
        s = slc_str(spec, sel, own)
        opts += ["-p", name + ("," + s if s else "")]
        if po:
            opts += ["-o", po]
        at = tuple(i for _, i in sel)
        want.append((lab, [float(fn(arrs[i])[at]) for i in idx], po))
    if shared and any(c["slice"]):
        opts += ["--slice", slc_str(spec, common, [k for k in range(3) if c["slice"][k]])]
    if c["t"] is not None:
        opts += ["-t", t]
    if c["fmt"]:
        opts += ["--timeformat", c["fmt"]]
    for k, flag in (("one", "--one"), ("rl", "--rl"), ("nofname", "--nofname")):
        if c[k]:
            opts.append(flag)
    if c["x"]:
        opts += ["-x", "10_200", "-y", "0.1_9"]
    opts += ["--prefix", "out", f]
    label("one" if c["one"] else "many", str(c["fmt"]), "t" + str(c["t"]))
    nontrivial(len(idx) > 2 and len(want) > 1)
    rec = Recorder(os.path.join(d, "log"))
    rec.ticks = [0.0, c["dt"], 90061.0]
    with rec, evaluator():
        if len(idx) < 2:
            if not idx:
                raises(lambda: run("viscid_ts", opts, d), "no times")
            return
        run("viscid_ts", opts, d)
    rs = rec.records()
    plots, saves = [r for r in rs if r["what"] == "plot"], [r for r in rs if r["what"] == "save"]
    require(len(plots) == len(want), "{0} series for {1} variables", len(plots), len(want))
    tw = [ts[i] for i in idx]
    for j, (r, (lab, w, po)) in enumerate(zip(plots, want)):
        require(len(r["x"]) == 1 and np.allclose(r["x"][0], tw, rtol=1e-12), "times {0}, expected {1}", r["x"], tw)
        close(np.array(r["data"]), np.array(w), "values of {0} ({1})".format(lab, opts), 1e-12, 1e-12)
        require(r["name"] == lab or r["kw"].get("label") == lab, "series {0} is called {1}", lab, r["name"])
        if not c["one"]:
            require(r["geo"][:2] == [len(want), 1] and r["geo"][2] == j, "panel of variable {0} of {1}: {2}", j, len(want), r["geo"])
        else:
            require(r["geo"] is None or r["geo"][:2] == [1, 1], "panel of variable {0}: {1}", j, r["geo"])
    require(len(saves) == 1 and os.path.isfile(os.path.join(d, "out.png")), "figures {0}, there are {1}", saves, os.listdir(d))
    s = saves[0]
    require(len(s["lines"]) == len(want) and all(n == len(tw) for _, n in s["lines"]), "lines {0}", s["lines"])
    if not c["one"]:
        for j, (lab, w, po) in enumerate(want):
            log = "log" in (po or "") or c["gopt"] == "log"
            require(s["yscale"][j] == ("log" if log else "linear"), "scale of panel {0} is {1}", j, s["yscale"])
            require(s["ylabels"][j] == lab, "label of panel {0} is {1}", j, s["ylabels"])
    else:
        require(any(s["legend"]), "no legend")
    if c["fmt"]:
        require(s["fmt"] == [elapsed(x, c["fmt"]) for x in rec.ticks], "ticks {0} are {1}", rec.ticks, s["fmt"])
    if c["x"]:
        require(np.allclose(s["xlim"], [10, 200]), "limits {0}", s["xlim"])


# ----------------------------------------------------------- series of plots
OWN = ["log", "lin_0_3", "cmap_viridis", "cbar=0", "x_-1_1,cmap_viridis"]
GLOB = ["y=0_2", "title_yes", "xlabel_no,ylabel_no"]


@st.composite
def plot_cases(draw):
    spec = draw(specs(lo=3))
    ax = draw(st.integers(0, 2))
    vs = []
    for i in range(draw(st.integers(1, 4))):
        vs.append([draw(st.sampled_from(NAMES + [0, 1, 2])), [slc_of(draw, n) for n in spec["n"]], draw(st.sampled_from([None, None] + OWN)), i > 0 and draw(st.integers(0, 3)) == 0])
    return {"spec": spec, "ax": ax, "nt": draw(st.integers(1, 4)), "dt": draw(st.sampled_from([60.0, 0.5, 3600.0])), "vars": vs, "how": draw(st.sampled_from(["each", "slice", "both"])),
            "t": draw(st.sampled_from([None, ":", "1:", "::2", "-1", "::-1"])), "T": draw(st.booleans()), "gopt": draw(st.sampled_from([None, None] + GLOB)),
            "fmt": draw(st.sampled_from([None, None, "none", "hms", ".03f"])), "own": draw(st.booleans()), "procs": draw(st.sampled_from([1, 1, 1, 2])),
            "tighten": draw(st.booleans()), "size": draw(st.booleans()), "api": draw(st.booleans()), "sub": draw(st.booleans())}


def check_plots(c):
    d = fresh()
    spec, ax = c["spec"], c["ax"]
    ts = [c["dt"] * i for i in range(c["nt"])]
    arrs = [{n: array(spec, i, n) for n in NAMES} for i in range(c["nt"])]
    f = write(d, "a", spec, ts, arrs)
    idx = list(range(len(ts)))
    if c["t"] == "-1":
        idx = idx[-1:]
    elif c["t"]:
        idx = idx[slice(*[int(i) if i else None for i in c["t"].split(":")])]
    other = [k for k in range(3) if k != ax]
    part = "{0}=1:".format("xyz"[other[0]])
    at0 = c["vars"][0][1][ax]
    plot_vars, want, row = [], [], -1
    for v, sel, po, same in c["vars"]:
        isname = isinstance(v, str)
        name, fn, lab = (v, lambda a, v=v: a[v], v) if isname else EQNS[v]
        # equations can't have slices of their own
        at = at0 if c["how"] == "slice" or not isname else sel[ax]
        tup = [slice(None)] * 3
        tup[ax] = at[1]
        sl = spec_sel = ""
        if isname and c["how"] != "slice":
            sl = "," + slc_str(spec, [at] * 3, [ax])
        if not isname and c["how"] == "each":
            name, fn, lab, isname = "pp", (lambda a: a["pp"]), "pp", True
            sl = "," + slc_str(spec, [at0] * 3, [ax])
            tup[ax] = at0[1]
        if c["how"] == "both" and not isname:
            name, fn, lab = "rr", (lambda a: a["rr"]), "rr"
            sl = "," + slc_str(spec, [at0] * 3, [ax])
            tup[ax] = at0[1]
        if c["how"] == "both":
            tup[other[0]] = slice(1, None)
        row += not same
        plot_vars.append([("^" if same else "") + name + sl, po])
        want.append((lab, fn, tuple(tup), row, po))
    nrows = row + 1
    selection = {"each": None, "slice": slc_str(spec, [at0] * 3, [ax]), "both": part}[c["how"]]
    label(c["how"], "procs{0}".format(c["procs"]), "api" if c["api"] else "script")
    nontrivial(len(idx) > 1 and len(want) > 1)
    rec = Recorder(os.path.join(d, "log"))
    with rec, evaluator():
        if not idx:
            return
        if c["api"]:
            from viscid import multiplot
            fl = viscid.load_file(os.path.join(d, f))
            pv = [[n, {} if po is None else {"plot_opts": po}] for n, po in plot_vars]
            kwopts = {"transpose": c["T"], "out_prefix": os.path.join(d, "out"), "selection": selection, "tighten": c["tighten"]}
            if c["fmt"]:
                kwopts["timeformat"] = c["fmt"]
            if c["size"]:
                kwopts["plot_size"] = [3.0, 5.0]
            keep = json.dumps([pv, kwopts])
            kw = {}
            if c["sub"]:
                kw["subplot_params"] = {"left": 0.2, "right": 0.7}
            multiplot.make_multiplot(fl, plot_vars=pv, nr_procs=c["procs"], time_slice=c["t"] or ":", global_popts=c["gopt"], share_axes=not c["own"], kwopts=kwopts, **kw)
            require(json.dumps([pv, kwopts]) == keep, "make_multiplot changed its arguments: {0}, given {1}", json.dumps([pv, kwopts]), keep)
        else:
            opts = ["-o", c["gopt"]] if c["gopt"] else []
            for n, po in plot_vars:
                opts += ["-p", n] + (["-o", po] if po else [])
            opts += (["--slice", selection] if selection else []) + (["-t", c["t"]] if c["t"] and c["t"] != "-1" else ["-t=-1"] if c["t"] else [])
            opts += ["-T"] * c["T"] + ["--own"] * c["own"] + ["--tighten"] * c["tighten"] + (["-s", "3,5"] if c["size"] else [])
            opts += (["--timeformat", c["fmt"]] if c["fmt"] else []) + ["-n", c["procs"], "--prefix", "out", f]
            run("viscid_2d", opts, d)
    rs = rec.records()
    plots, saves = [r for r in rs if r["what"] == "plot"], [r for r in rs if r["what"] == "save"]
    from viscid.plot import vpyplot as vlt
    files = sorted(x for x in os.listdir(d) if x.startswith("out"))
    require(files == ["out_{0:06d}.png".format(j + 1) for j in range(len(idx))], "files {0} for {1} times", files, len(idx))
    require(len(plots) == len(want) * len(idx), "{0} plots of {1} variables at {2} times", len(plots), len(want), len(idx))
    x = axes(spec)
    for j, i in enumerate(idx):
        mine = [r for r in plots if abs(r["time"] - ts[i]) < 1e-9 * max(1, ts[i])]
        require(len(mine) == len(want), "{0} plots of {1} variables at time {2}", len(mine), len(want), ts[i])
        for r, (lab, fn, tup, rw, po) in zip(mine, want):
            w = fn(arrs[i])[tup]
            require(r["name"] == lab or r["pretty"] == lab, "{0} is called {1}", lab, r["name"])
            require(r["shape"] == list(w.shape), "{0} has shape {1}, expected {2}", lab, r["shape"], w.shape)
            close(np.array(r["data"]).reshape(w.shape), w, "values of {0}".format(lab), 1e-12, 1e-12)
            xs = [x[k][tup[k]] for k in range(3) if k != ax]
            require(all(np.allclose(a, b) for a, b in zip(r["x"], xs)), "coordinates {0}, expected {1}", r["x"], xs)
            geo = [1, nrows, 0, rw] if c["T"] else [nrows, 1, rw, 0]
            require(r["geo"] == geo, "{0} is in panel {1}, expected {2}", lab, r["geo"], geo)
            got = vlt.plot_opts_to_kwargs(r["kw"].get("plot_opts"), {})
            exp = dict(vlt.plot_opts_to_kwargs(po, {}), **vlt.plot_opts_to_kwargs(c["gopt"], {}))
            require(got == exp, "options of {0} at time {1}: {2}, expected {3}", lab, ts[i], got, exp)
        sv = [s for s in saves if os.path.basename(s["fname"]) == "out_{0:06d}.png".format(j + 1)]
        require(len(sv) == 1, "figure {0} saved {1} times", j, len(sv))
        title = {None: "{0:.02f}".format(ts[i]), "none": None, ".03f": "{0:.03f}".format(ts[i]), "hms": elapsed(ts[i], "hms")}[c["fmt"]]
        require(sv[0]["sup"] == title, "title of figure {0} is {1!r}, expected {2!r}", j, sv[0]["sup"], title)
        if c["size"]:
            require(np.allclose(sv[0]["size"], [3, 5]), "size {0}", sv[0]["size"])


# --------------------------------------------------------------- athena2xdmf
@st.composite
def ath_cases(draw):
    return {"blocks": [draw(st.lists(st.integers(2, 4), min_size=1, max_size=3)) for _ in range(3)], "dx": [draw(st.sampled_from([0.25, 0.5, 1.0])) for _ in range(3)],
            "lo": [draw(st.integers(-4, 3)) for _ in range(3)], "nt": draw(st.integers(1, 3)), "seed": draw(seeds), "order": draw(seeds),
            "run": draw(st.sampled_from(["run", "shk"]))}


def check_athena(c):
    d = fresh()
    lens = [sum(b) for b in c["blocks"]]
    names = ["d", "M1", "M2", "M3"]
    nodes = [lo + dx * np.arange(n + 1) for lo, dx, n in zip(c["lo"], c["dx"], lens)]
    ccs = [0.5 * (x[1:] + x[:-1]) for x in nodes]
    full = [{n: rng(c["seed"] + 7 * i + k).uniform(0.5, 2.0, lens).astype("f8") for k, n in enumerate(names)} for i in range(c["nt"])]
    cuts = [np.concatenate([[0], np.cumsum(b)]) for b in c["blocks"]]
    blocks = list(itertools.product(*[list(zip(cu[:-1], cu[1:])) for cu in cuts]))
    blocks = [blocks[i] for i in rng(c["order"]).permutation(len(blocks))]
    spec = {"big": False, "f8": True, "nscal": 0}
    files = []
    for k, blk in enumerate(blocks):
        os.makedirs(os.path.join(d, "id{0}".format(k)))
        s = tuple(slice(int(a), int(b)) for a, b in blk)
        for i in range(c["nt"]):
            fn = "id{0}/{1}{2}.{3:04d}.bin".format(k, c["run"], "-id{0}".format(k) if k else "", i)
            c25.write_bin(os.path.join(d, fn), spec, 0.5 * i, [x[q] for x, q in zip(ccs, s)], [full[i][n][s] for n in names])
            files.append(fn)
    same = all(len(set(b)) == 1 for b in c["blocks"])
    label("same" if same else "different", "{0} blocks".format(min(len(blocks), 9)))
    nontrivial(len(blocks) > 1)
    run("athena2xdmf", files, d)
    viscid.unload_all_files()
    outs = sorted(x for x in os.listdir(d) if x.endswith(".xdmf"))
    require(outs == ["{0}.{1:06d}.ath.xdmf".format(c["run"], i) for i in range(c["nt"])], "files {0}", outs)
    for i, fn in enumerate(outs):
        g = viscid.load_file(os.path.join(d, fn)).get_grid()
        require(abs(g.time - 0.5 * i) < 1e-6, "time {0}, expected {1}", g.time, 0.5 * i)
        require(set(g.field_names) >= set(names), "fields {0}", g.field_names)
        for x, w in zip(g.get_crds_nc("xyz"), nodes):
            close(x, w, "nodes", 1e-6, 1e-6)
        for n in names:
            require(g[n].center.lower() == "cell", "{0} is {1} centered", n, g[n].center)
            eq_arr(np.asarray(g[n].data), full[i][n], "{0} of blocks {1}".format(n, c["blocks"]))
    viscid.unload_all_files()


# -------------------------------------------------------------- small tools
@st.composite
def small_cases(draw):
    return {"rgb": draw(st.lists(st.integers(0, 255), min_size=3, max_size=3)), "frac": draw(st.booleans()), "number": draw(st.one_of(st.integers(0, 300), st.integers(0, 2**70))),
            "base": draw(st.sampled_from(["{0}", "0x{0:x}", "0b{0:b}"])), "n": draw(st.integers(1, 9)), "sel": draw(st.sampled_from(["1", "-1", ":", "::2", "1:", ":2", "::-1", "1:3"]))}


def check_small(c):
    r, g, b = c["rgb"]
    frac = c["frac"] or max(c["rgb"]) <= 1
    ret, out = run("rgb2hex", [v / 255.0 for v in c["rgb"]] if frac else c["rgb"], ".")
    h = out.strip()
    require(len(h) == 7 and h[0] == "#" and max(abs(int(h[1 + 2 * i:3 + 2 * i], 16) - v) for i, v in enumerate(c["rgb"])) <= (1 if frac else 0),
            "rgb2hex of {0} is {1}", c["rgb"], h)
    n = c["number"]
    ret, out = run("bitmaskbits", [c["base"].format(n)], ".")
    bits = [ln.replace("(", " ").replace(")", " ").split() for ln in out.splitlines() if "(" in ln and "," not in ln]
    want = [[str(i), str(2**i)] for i in range(80) if n >> i & 1]
    require(bits == want, "bitmaskbits of {0}: {1}, expected {2}", n, bits, want)
    require((n == 0) == ("no bits" in out), "bitmaskbits of {0}: {1}", n, out)
    d = fresh()
    for i in range(c["n"]):
        open(os.path.join(d, "f.{0:03d}.dat".format(i)), "w").close()
    open(os.path.join(d, "other.dat"), "w").close()
    sel = c["sel"]
    if ":" in sel:
        idx = list(range(c["n"]))[slice(*[int(x) if x else None for x in sel.split(":")])]
    else:
        idx = [range(c["n"])[int(sel)]] if int(sel) < c["n"] else None
    nontrivial(c["n"] > 2 and n > 1)
    if idx is None or not idx:
        return
    ret, out = run("fnslice", ["f.[{0}].dat".format(sel)], d)
    require(sorted(os.path.basename(x) for x in out.split()) == ["f.{0:03d}.dat".format(i) for i in sorted(idx)], "fnslice {0} of {1} files: {2}", sel, c["n"], out.split())


FACETS = [
    Facet("diff", diff_cases(), check_diff, quick=60, rule="several fields, some with differences"),
    Facet("series", ts_cases(), check_ts, quick=30, rule="more than two times, more than one variable"),
    Facet("plots", plot_cases(), check_plots, quick=25, thorough=800, rule="more than one time and variable"),
    Facet("athena", ath_cases(), check_athena, quick=40, rule="more than one block"),
    Facet("small", small_cases(), check_small, quick=300, rule="more than two files, number > 1"),
]
