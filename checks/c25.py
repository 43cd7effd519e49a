"""C25: Athena's output (bin, tab, hst, xdmf): what is in the files, at their cells and times, and what is derived from it"""
import os
import shutil
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.readers import athena
from vf.core import Facet, close, eq_arr, label, nontrivial, require, rng, seeds
from vf.fallback import restore, switch
from vf.fields import ambiguous, flat_vec

_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c25-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


CONS = ["d", "M1", "M2", "M3", "E", "B1", "B2", "B3"]
PRIM = ["d", "V1", "V2", "V3", "P", "B1c", "B2c", "B3c"]


@st.composite
def common(draw, min_dim=1):
    n = draw(st.sampled_from([(4, 3, 1), (5, 1, 1), (3, 4, 2), (2, 2, 2), (2, 5, 4), (6, 2, 1), (1, 4, 3), (2, 1, 3), (4, 5, 6)]))
    nt = draw(st.integers(1, 4))
    return {"n": list(n), "steps": sorted(draw(st.lists(st.integers(0, 9999), min_size=nt, max_size=nt, unique=True))),
            "t0": draw(st.sampled_from([0.0, 0.5, 100.0, 1e-3, 12345.678, 2e-5])), "dt": draw(st.sampled_from([0.1, 1.0, 2.5e-4, 37.0, 1e-6])),
            "prim": draw(st.booleans()), "mhd": draw(st.booleans()), "adiab": draw(st.booleans()), "nscal": draw(st.integers(0, 2)),
            "seed": draw(seeds), "run": draw(st.sampled_from(["run", "a.b", "sh-2d"])), "other": draw(st.booleans()),
            "how": draw(st.sampled_from(["glob", "files", "one"])), "uniform": draw(st.booleans()), "order": draw(seeds),
            "lt": draw(st.integers(0, 4)) == 0, "layout": draw(st.sampled_from(["flat", "interlaced", "none"]))}


@st.composite
def bin_cases(draw):
    c = draw(common())
    c.update(f8=draw(st.booleans()), big=draw(st.integers(0, 2)) == 0, give=draw(st.booleans()))
    return c


def var_names(case):
    names = (PRIM if case["prim"] else CONS)
    out = names[:4] + (names[4:5] if case["adiab"] else []) + (names[5:] if case["mhd"] else [])
    return out


def centers(case, n):
    r = rng(case["seed"])
    out = []
    for k in n:
        if case["uniform"]:
            d = r.randint(1, 9) / 4.0
            out.append(r.randint(-8, 8) / 2.0 + d * np.arange(k))
        else:
            out.append(np.cumsum(np.round(r.uniform(0.2, 2.0, k), 2)) - 3)
    return out


def values(case, name, i, n):
    r = rng(case["seed"] + 13 * i + 1000 * sum(ord(c) for c in name) + len(name))
    v = r.uniform(-5, 5, n)
    return v + 6 if name in ("d", "E", "P") else v


def check_crds(g, ccs, axes, rt):
    dxmin = min([np.min(np.diff(c)) for c in ccs if len(c) > 1] or [np.nan])
    for ax, cc in zip(axes, ccs):
        nc = g.get_crd_nc(ax)
        require(len(nc) == len(cc) + 1, "{0} nodes for {1} cells along {2}", len(nc), len(cc), ax)
        if len(cc) == 1:
            want = np.array([cc[0] - 0.5 * dxmin, cc[0] + 0.5 * dxmin])
        else:
            mid = 0.5 * (cc[1:] + cc[:-1])
            want = np.concatenate([[cc[0] - 0.5 * (cc[1] - cc[0])], mid, [cc[-1] + 0.5 * (cc[-1] - cc[-2])]])
        close(nc, want, "nodes along " + ax, rt, rt * 10)


def derived(want, names, mhd):
    """name -> (values, vector?)"""
    out = {}
    d = want["d"]
    v = [want["V%d" % i] if "V1" in want else want["M%d" % i] / d for i in (1, 2, 3)]
    m = [want["M%d" % i] if "M1" in want else want["V%d" % i] * d for i in (1, 2, 3)]
    for c, a, b in zip("xyz", v, m):
        out["v" + c] = a
        out["m" + c] = b
    out["rr"] = d
    out["speed"] = np.sqrt(v[0]**2 + v[1]**2 + v[2]**2)
    out["v"] = np.array(v)
    if mhd:
        suff = "c" if "B1c" in want else ""
        b = [want["B%d%s" % (i, suff)] for i in (1, 2, 3)]
        for c, a in zip("xyz", b):
            out["b" + c] = a
        out["b"] = np.array(b)
        out["bmag"] = np.sqrt(b[0]**2 + b[1]**2 + b[2]**2)
        if "P" in want:
            out["beta"] = 2 * want["P"] / (b[0]**2 + b[1]**2 + b[2]**2)
    if "P" in want:
        out["pp"] = want["P"]
        out["p"] = want["P"]
    return out


def check_grid(case, g, f, want, t, rt, sh, single=False):
    """want: dict name -> values"""
    require(abs(g.time - t) <= 2e-6 * abs(t) + 1e-12, "time of the grid is {0}, expected {1}", g.time, t)
    names = sorted(want)
    require(sorted(g.field_names) == names, "fields {0}, expected {1}", g.field_names, names)
    der = derived(want, names, case["mhd"])
    todo = list(want.items()) + list(der.items())
    slc = tuple(slice(1, None) if s > 2 else slice(None) for s in sh)
    todo = [todo[i] for i in rng(case["order"]).permutation(len(todo))]
    for name, w in todo:
        vec = w.ndim > len(sh)
        if vec and (ambiguous(tuple(sh), 3) or 3 in sh):
            continue
        fld = g[name]
        require(fld.center.lower() == "cell", "{0} is {1} centered", name, fld.center)
        got = flat_vec(fld) if vec else np.asarray(fld.data)
        scale = np.abs(w).max() + 1e-300
        require(got.shape == w.shape, "{0} has shape {1}, expected {2}", name, got.shape, w.shape)
        close(got.astype("f8") / scale, w / scale, name, rt, rt)
        if name == "vz" or name[0] in "vmb" and len(name) == 2:
            require(fld.name == name, "{0} is called {1}", name, fld.name)
        require(abs(fld.time - t) <= 2e-6 * abs(t) + 1e-12, "time of {0} is {1}, expected {2}", name, fld.time, t)
        if not vec:
            close(np.asarray(g[name][slc].data, dtype="f8") / scale, w[slc] / scale, name + " sliced", rt, rt)
    close(np.asarray(f[names[0]].data, dtype="f8"), want[names[0]], names[0] + " of the file", rt, rt)


class settings(object):
    def __init__(self, case):
        self.case = case

    def __enter__(self):
        from viscid import grid
        self.old = grid.Grid.longterm_field_caches, grid.Grid.force_vector_layout
        self.ne = switch(athena, self.case["order"] % 4 != 1)
        grid.Grid.longterm_field_caches = self.case["lt"]
        grid.Grid.force_vector_layout = self.case["layout"]

    def __exit__(self, *exc):
        from viscid import grid
        grid.Grid.longterm_field_caches, grid.Grid.force_vector_layout = self.old
        restore(athena, self.ne)
        viscid.unload_all_files()


def load(case, d, ext, **kw):
    names = [os.path.join(d, "{0}.{1:04d}.{2}".format(case["run"], s, ext)) for s in case["steps"]]
    if case["how"] == "one":
        del case["steps"][1:]
        return viscid.load_file(names[0], **kw)
    if case["how"] == "glob":
        return viscid.load_file(os.path.join(d, case["run"] + ".*." + ext), **kw)
    fs = viscid.load_files([names[i] for i in rng(case["order"]).permutation(len(names))], **kw)
    require(len(fs) == 1, "one run became {0} files", len(fs))
    return fs[0]


def check_all(case, f, ts, check):
    if len(case["steps"]) > 1:
        got = [g.time for g in f.iter_times()]
        require(len(got) == len(ts), "{0} times, expected {1}", len(got), len(ts))
    for j in rng(case["order"] + 1).permutation(len(case["steps"])):
        if len(case["steps"]) > 1:
            f.activate_time(int(j))
        check(f.get_grid(), int(j))


# ------------------------------------------------------------------- bin
def write_bin(fn, case, t, ccs, arrs):
    e = ">" if case["big"] else "<"
    ft = e + ("f8" if case["f8"] else "f4")
    n = [len(c) for c in ccs]
    with open(fn, "wb") as f:
        np.array([-1] + n + [len(arrs), case["nscal"], 0, 0], dtype=e + "i4").tofile(f)
        np.array([0.6667, 0.0], dtype=ft).tofile(f)
        np.array([t, 1e-3], dtype=ft).tofile(f)
        for c in ccs:
            c.astype(ft).tofile(f)
        for a in arrs:
            a.T.astype(ft).tofile(f)


def check_bin(case):
    d = fresh()
    n = case["n"]
    ccs = centers(case, n)
    base = var_names(case)
    names = base + [str(len(base) + i) for i in range(case["nscal"])]
    ts = [case["t0"] + case["dt"] * i for i in range(len(case["steps"]))]
    vals = [{nm: values(case, nm, i, n) for nm in names} for i in range(len(ts))]
    nontrivial(len(ts) > 1 or case["big"])
    label("big" if case["big"] else "little", "f8" if case["f8"] else "f4", case["how"])
    for s, t, v in zip(case["steps"], ts, vals):
        write_bin(os.path.join(d, "{0}.{1:04d}.bin".format(case["run"], s)), case, t, ccs, [v[nm] for nm in names])
    if case["other"]:
        write_bin(os.path.join(d, "zz.{0:04d}.bin".format(case["steps"][0])), case, -1.0, ccs, [v[nm] for nm in names])
    kw = {}
    if case["prim"]:
        kw["var_type"] = "prim"
    elif case["give"]:
        kw["var_type"] = "cons"
    if not case["f8"] or case["give"]:
        kw["float_type_name"] = "f8" if case["f8"] else "f4"
    rt = 1e-13 if case["f8"] else 2e-6
    with settings(case):
        f = load(case, d, "bin", **kw)
        require(f.get_info("run") == case["run"], "run {0}", f.get_info("run"))

        def check(g, j):
            check_crds(g, ccs, "xyz", rt)
            require(all(x.dtype == np.dtype("f8" if case["f8"] else "f4") for x in g.iter_fields()), "dtypes {0}", [x.dtype for x in g.iter_fields()])
            check_grid(case, g, f, vals[j], ts[j], rt * 100, n)
        check_all(case, f, ts, check)


# ------------------------------------------------------------------- tab
def write_tab(fn, case, t, ccs, names, arrs):
    axes = [i for i in range(3) if len(ccs[i]) > 1]
    with open(fn, "w") as f:
        for i in axes:
            f.write("# Nx{0} = {1}\n# x{0}-size = {2:g}\n".format(i + 1, len(ccs[i]), ccs[i][-1] - ccs[i][0]))
        f.write("# {0} vars at Time= {1:g}, level= 0, domain= 0\n".format("PRIMITIVE" if case["prim"] else "CONSERVED", t))
        heads = ["ijk"[i] + "-zone" for i in axes] + ["x{0}".format(i + 1) for i in axes] + names
        f.write("# " + " ".join("[{0}]={1}".format(i + 1, h) for i, h in enumerate(heads)) + "\n")
        n = [len(c) for c in ccs]
        for k in range(n[2]):
            for j in range(n[1]):
                for i in range(n[0]):
                    ijk = (i, j, k)
                    row = ["%3d" % (ijk[a] + 4) for a in axes] + ["%.8e" % ccs[a][ijk[a]] for a in axes] + ["%.8e" % v[i, j, k] for v in arrs]
                    f.write(" ".join(row) + "\n")


def tab_names(case):
    # tab files always have cell centered fields
    return [nm + "c" if nm[0] == "B" and len(nm) == 2 else nm for nm in var_names(case)] + ["s{0}".format(i) for i in range(case["nscal"])]


def check_tab(case):
    d = fresh()
    # Athena has no x3 without x2
    n = sorted(case["n"], key=lambda k: k == 1)
    ccs = centers(case, n)
    names = tab_names(case)
    ts = [float("%g" % (case["t0"] + case["dt"] * i)) for i in range(len(case["steps"]))]
    vals = [{nm: values(case, nm, i, n) for nm in names} for i in range(len(ts))]
    nontrivial(len(ts) > 1 or n.count(1) == 0)
    label("{0}d".format(3 - n.count(1)), case["how"])
    for s, t, v in zip(case["steps"], ts, vals):
        write_tab(os.path.join(d, "{0}.{1:04d}.tab".format(case["run"], s)), case, t, ccs, names, [v[nm] for nm in names])
    if case["other"]:
        write_tab(os.path.join(d, "zz.{0:04d}.tab".format(case["steps"][0])), case, 7.0, ccs, names, [v[nm] for nm in names])
    sh = [k for k in n if k > 1]
    axes = "".join(a for a, k in zip("xyz", n) if k > 1)
    with settings(case):
        f = load(case, d, "tab")

        def check(g, j):
            check_crds(g, [c for c in ccs if len(c) > 1], axes, 1e-7)
            check_grid(case, g, f, {nm: v.reshape(sh) for nm, v in vals[j].items()}, ts[j], 2e-5, sh)
        check_all(case, f, ts, check)


# ------------------------------------------------------------------- hst
@st.composite
def hst_cases(draw):
    return {"nt": draw(st.integers(1, 12)), "nv": draw(st.integers(1, 6)), "seed": draw(seeds), "run": draw(st.sampled_from(["run", "a.b"])),
            "comments": draw(st.booleans())}


def check_hst(case):
    d = fresh()
    r = rng(case["seed"])
    names = ["dt", "mass", "x1 Mom.", "x1-KE", "total E", "scalar 0"][:case["nv"]]
    t = np.cumsum(r.uniform(0.1, 1.0, case["nt"]))
    dat = r.uniform(-1, 1, (len(names), case["nt"]))
    nontrivial(case["nt"] > 1)
    fn = os.path.join(d, case["run"] + ".hst")
    with open(fn, "w") as f:
        f.write("# Athena history dump for level=0 domain=0 volume=1.00000e+00\n")
        head = "#   " + "   ".join("[{0}]={1:<10s}".format(i + 1, nm) for i, nm in enumerate(["time"] + names)) + "\n"
        f.write(head)
        for i in range(case["nt"]):
            if case["comments"] and i == case["nt"] // 2:
                f.write(head)
            f.write(" ".join("%14.6e" % v for v in [t[i]] + list(dat[:, i])) + "\n")
    f = viscid.load_file(fn)
    g = f.get_grid()
    require(sorted(g.field_names) == sorted(names), "fields {0}, expected {1}", g.field_names, names)
    for nm, w in zip(names, dat):
        fld = f[nm]
        close(np.asarray(fld.data), w, nm, 2e-6, 1e-12)
        close(fld.get_crd_nc("t"), t, "times", 2e-6, 1e-12)
    viscid.unload_all_files()


# ------------------------------------------------------------------ xdmf
def check_xdmf(case):
    d = fresh()
    n = [max(k, 2) for k in case["n"]]
    ccs = centers(case, [k + 1 for k in n])  # node positions here
    names = tab_names(case)
    ts = [case["t0"] + case["dt"] * i for i in range(len(case["steps"]))]
    vals = [{nm: values(case, nm, i, n).astype("f4") for nm in names} for i in range(len(ts))]
    nontrivial(len(ts) > 1)
    label(case["how"])
    for s, t, v in zip(case["steps"], ts, vals):
        base = "{0}.{1:04d}".format(case["run"], s)
        with h5py.File(os.path.join(d, base + ".h5"), "w") as f:
            for nm, a in v.items():
                f[nm] = a.T
            for c, a in zip("xyz", ccs):
                f["crd/" + c] = a
        x = "<?xml version='1.0' ?>\n<Xdmf Version='2.0'>\n<Domain>\n<Grid GridType='Uniform'>\n<Time Type='Single' Value='{0!r}'/>\n".format(t)
        x += "<Topology TopologyType='3DRectMesh' Dimensions='{0}'/>\n<Geometry GeometryType='VXVYVZ'>\n".format(" ".join(str(k + 1) for k in n[::-1]))
        for c, a in zip("xyz", ccs):
            x += "<DataItem Name='V{0}' Dimensions='{1}' NumberType='Float' Precision='8' Format='HDF'>{2}.h5:/crd/{3}</DataItem>\n".format(c.upper(), len(a), base, c)
        x += "</Geometry>\n"
        for nm in names:
            x += "<Attribute Name='{0}' AttributeType='Scalar' Center='Cell'><DataItem Dimensions='{1}' NumberType='Float' Precision='4' Format='HDF'>{2}.h5:/{0}</DataItem></Attribute>\n".format(
                nm, " ".join(str(k) for k in n[::-1]), base)
        x += "</Grid>\n</Domain>\n</Xdmf>\n"
        with open(os.path.join(d, base + ".ath.xdmf"), "w") as f:
            f.write(x)
    with settings(case):
        f = load(case, d, "ath.xdmf")
        require(f.get_info("run") == case["run"], "run {0}", f.get_info("run"))

        def check(g, j):
            for c, a in zip("xyz", ccs):
                close(g.get_crd_nc(c), a, "nodes along " + c, 1e-12, 1e-12)
            check_grid(case, g, f, {nm: v.astype("f8") for nm, v in vals[j].items()}, ts[j], 2e-5, n)
        check_all(case, f, ts, check)


FACETS = [
    Facet("bin", bin_cases(), check_bin, quick=600, rule="more than one time step, or big endian"),
    Facet("tab", common(), check_tab, quick=300, rule="more than one time step, or 3d"),
    Facet("hst", hst_cases(), check_hst, quick=200, rule="more than one time"),
    Facet("xdmf", common(), check_xdmf, quick=200, rule="more than one time step"),
]
