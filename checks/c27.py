"""C27: Gkeyll and PSC output: what is in the files, and the moments and vectors derived from it"""
import os
import shutil

import h5py
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.readers import psc
from vf.core import Facet, close, eq_arr, label, nontrivial, require, rng, seeds
from vf.fields import ambiguous, flat_vec
from checks.c25 import settings

_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c27-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


HYDRO = "rho rhoux rhouy rhouz e".split()
EM = "Ex Ey Ez Bx By Bz".split()
M5 = [n + s for s in ("_e", "_i") for n in HYDRO] + EM
M10 = [n + s for s in ("_e", "_i") for n in "rho rhoux rhouy rhouz pxx pxy pxz pyy pyz pzz".split()] + EM
KINDS = {"hydro": HYDRO, "5m": M5, "10m": M10}


@st.composite
def gk_cases(draw):
    nd = draw(st.sampled_from([1, 2, 2, 3]))
    nt = draw(st.integers(1, 3))
    return {"n": [draw(st.integers(2, 6)) for _ in range(nd)], "kind": draw(st.sampled_from(["hydro", "5m", "5m", "10m", "10m", "other"])),
            "phi": draw(st.booleans()), "nq": draw(st.integers(1, 4)), "mesh": draw(st.sampled_from(["uniform", "uniform", "rectilinear", "structured"])),
            "steps": sorted(draw(st.lists(st.integers(0, 200), min_size=nt, max_size=nt, unique=True))), "t0": draw(st.sampled_from([0.0, 1.25, 1e-9, 4.8e5])),
            "dt": draw(st.sampled_from([0.5, 1e-3, 200.0])), "seed": draw(seeds), "run": draw(st.sampled_from(["run", "a_q", "5m.x"])),
            "how": draw(st.sampled_from(["glob", "files", "one"])), "other": draw(st.booleans()), "order": draw(seeds), "dtype": draw(st.sampled_from(["f8", "f4"])),
            "lt": draw(st.integers(0, 4)) == 0, "layout": draw(st.sampled_from(["flat", "interlaced", "none"]))}


def gk_names(case):
    if case["kind"] == "other":
        return ["Q{0}".format(i) for i in range(case["nq"])]
    return KINDS[case["kind"]] + (["phi_E", "phi_B"] if case["phi"] else [])


def gk_nodes(case):
    r = rng(case["seed"])
    out = []
    for k in case["n"]:
        if case["mesh"] == "uniform":
            lo = r.randint(-8, 8) / 2.0
            out.append(np.linspace(lo, lo + k * r.randint(1, 8) / 4.0, k + 1))
        else:
            out.append(np.cumsum(r.uniform(0.2, 2.0, k + 1)) - 3)
    return out


def gk_values(case, i, names):
    r = rng(case["seed"] + 17 * i + 1)
    v = r.uniform(-2, 2, tuple(case["n"]) + (len(names), )).astype(case["dtype"])
    for k, nm in enumerate(names):
        if nm.startswith("rho") and "u" not in nm:
            v[..., k] += 3
    return v


def write_gk(fn, case, t, step, ncs, v):
    n = case["n"]
    with h5py.File(fn, "w") as f:
        f["StructGridField"] = v
        f["StructGridField"].attrs["vsCentering"] = np.string_("zonal")
        td = f.create_group("timeData")
        td.attrs["vsStep"] = step
        td.attrs["vsTime"] = t
        if case["mesh"] == "structured":
            f["StructGrid"] = np.stack(np.meshgrid(*ncs, indexing="ij"), axis=-1)
        else:
            g = f.create_group("StructGrid")
            if case["mesh"] == "uniform":
                g.attrs["vsLowerBounds"] = np.array([a[0] for a in ncs])
                g.attrs["vsUpperBounds"] = np.array([a[-1] for a in ncs])
                g.attrs["vsNumCells"] = np.array(n, dtype="u4")
            else:
                for i, a in enumerate(ncs):
                    g["axis%d" % i] = a
        f["StructGrid"].attrs["vsKind"] = np.string_(case["mesh"])


def gk_derived(case, want):
    out = {}
    if "Bx" in want:
        out["b"] = np.array([want["B" + c] for c in "xyz"])
    for s in ("_e", "_i"):
        if "rho" + s not in want:
            continue
        rho = want["rho" + s]
        m = {c: want["rhou" + c + s] for c in "xyz"}
        for c in "xyz":
            out["u" + c + s] = m[c] / rho
        out["u" + s] = np.array([m[c] / rho for c in "xyz"])
        if "pxx" + s in want:
            for ab in ("xx", "xy", "xz", "yy", "yz", "zz"):
                # pressure in the frame of the bulk flow
                out["P" + ab + s] = want["p" + ab + s] - m[ab[0]] * m[ab[1]] / rho
    return out


def check_gkeyll(case):
    d = fresh()
    names, ncs = gk_names(case), gk_nodes(case)
    ts = [case["t0"] + case["dt"] * i for i in range(len(case["steps"]))]
    vals = [gk_values(case, i, names) for i in range(len(ts))]
    nontrivial(len(ts) > 1 or case["kind"] in ("5m", "10m"))
    label(case["kind"], case["mesh"], case["how"])
    fn = os.path.join(d, case["run"] + "_q_{0}.h5")
    for i, s in enumerate(case["steps"]):
        write_gk(fn.format(s), case, ts[i], 10 * s, ncs, vals[i])
    if case["other"]:
        write_gk(os.path.join(d, "zz_q_{0}.h5".format(case["steps"][0])), case, -1.0, 0, ncs, vals[0])
    sh = tuple(case["n"])
    axes = "xyz"[:len(sh)]
    rt = 1e-12 if case["dtype"] == "f8" else 2e-5
    with settings(case):
        if case["how"] == "one":
            del case["steps"][1:]
            f = viscid.load_file(fn.format(case["steps"][0]))
        elif case["how"] == "glob":
            f = viscid.load_file(fn.format("*"))
        else:
            fns = [fn.format(case["steps"][i]) for i in rng(case["order"]).permutation(len(ts))]
            groups = type(viscid.load_file(fns[0])).group_fnames(fns)
            require([list(gr) for gr in groups] == [[fn.format(s) for s in case["steps"]]], "files {0} are grouped as {1}", fns, groups)
            viscid.unload_all_files()
            fs = viscid.load_files(fns)
            require(len(fs) == 1, "one run became {0} files", len(fs))
            f = fs[0]
        nt = len(case["steps"])
        if nt > 1:
            close(np.array([g.time for g in f.iter_times()]), np.array(ts), "times", 1e-12, 1e-15)
        for j in rng(case["order"] + 1).permutation(nt):
            j = int(j)
            if nt > 1:
                f.activate_time(j)
            g = f.get_grid()
            require(abs(g.time - ts[j]) <= 1e-12 * abs(ts[j]), "time {0}, expected {1}", g.time, ts[j])
            require(sorted(g.field_names) == sorted(names), "fields {0}, expected {1}", g.field_names, names)
            for ax, a in zip(axes, ncs):
                close(g.get_crd_nc(ax), a, "nodes along " + ax, 1e-12, 1e-12)
            want = {nm: vals[j][..., k].astype("f8") for k, nm in enumerate(names)}
            todo = list(want.items()) + list(gk_derived(case, want).items())
            slc = tuple(slice(1, None) if s > 2 else slice(None) for s in sh)
            for k in rng(case["order"] + 2).permutation(len(todo)):
                nm, w = todo[k]
                vec = w.ndim > len(sh)
                if vec and (ambiguous(sh, 3) or 3 in sh):
                    continue
                fld = g[nm]
                require(fld.center.lower() == "cell", "{0} is {1} centered", nm, fld.center)
                close((flat_vec(fld) if vec else np.asarray(fld.data)).astype("f8"), w, nm, rt, rt)
                require(abs(fld.time - ts[j]) <= 1e-12 * abs(ts[j]), "time of {0} is {1}, expected {2}", nm, fld.time, ts[j])
                if not vec:
                    close(np.asarray(g[nm][slc].data, dtype="f8"), w[slc], nm + " sliced", rt, rt)
                    if nm in want and len(sh) > 1:
                        got = g[nm][(0, ) + slc[1:]]
                        close(np.asarray(got.data, dtype="f8"), w[(0, ) + slc[1:]], nm + " cut", rt, rt)


# -------------------------------------------------------------------- PSC
@st.composite
def psc_cases(draw):
    nt = draw(st.integers(1, 3))
    return {"n": [draw(st.integers(2, 6)) for _ in range(3)], "steps": sorted(draw(st.lists(st.integers(0, 999999), min_size=nt, max_size=nt, unique=True))),
            "seed": draw(seeds), "pfx": draw(st.sampled_from(["p", "t", "run.p"])), "coll": draw(st.booleans()), "order": draw(seeds),
            "lt": draw(st.integers(0, 4)) == 0, "layout": draw(st.sampled_from(["flat", "interlaced", "none"])), "open": draw(st.booleans())}


PSC = ["hx", "hy", "hz", "ex", "ey", "ez", "jx", "jy", "jz", "n_e"]


def check_psc(case):
    d = fresh()
    n = case["n"]
    r = rng(case["seed"])
    ncs = [np.cumsum(r.uniform(0.2, 2.0, k + 1)) - 3 for k in n]
    vals = [{nm: rng(case["seed"] + 31 * i + k).uniform(-3, 3, n).astype("f4") for k, nm in enumerate(PSC)} for i in range(len(case["steps"]))]
    nontrivial(len(case["steps"]) > 1)
    label("collection" if case["coll"] else "one")
    inc = ""
    for s, v in zip(case["steps"], vals):
        base = "{0}fd.{1:06d}".format(case["pfx"], s)
        with h5py.File(os.path.join(d, base + "_p000000.h5"), "w") as f:
            for nm, a in v.items():
                f[nm + "/p0/3d"] = a.T
            for c, a in zip("xyz", ncs):
                f["crd/" + c] = a
        x = "<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>\n<Domain>\n<Grid GridType='Collection' CollectionType='Spatial'>\n<Time Type='Single' Value='{0}'/>\n".format(s)
        x += "<Grid GridType='Uniform'><Topology TopologyType='3DRectMesh' Dimensions='{0}'/>\n<Geometry GeometryType='VXVYVZ'>\n".format(" ".join(str(k + 1) for k in n[::-1]))
        for c, a in zip("xyz", ncs):
            x += "<DataItem Name='V{0}' Dimensions='{1}' NumberType='Float' Precision='8' Format='HDF'>{2}_p000000.h5:/crd/{3}</DataItem>\n".format(c.upper(), len(a), base, c)
        x += "</Geometry>\n"
        for nm in PSC:
            x += "<Attribute Name='{0}' AttributeType='Scalar' Center='Cell'><DataItem Dimensions='{1}' NumberType='Float' Precision='4' Format='HDF'>{2}_p000000.h5:/{0}/p0/3d</DataItem></Attribute>\n".format(
                nm, " ".join(str(k) for k in n[::-1]), base)
        x += "</Grid></Grid>\n</Domain>\n</Xdmf>\n"
        with open(os.path.join(d, base + ".xdmf"), "w") as f:
            f.write(x)
        inc += "<xi:include href='{0}.xdmf' xpointer='xpointer(//Xdmf/Domain/Grid)'/>\n".format(base)
    main = os.path.join(d, case["pfx"] + "fd.xdmf")
    with open(main, "w") as f:
        f.write("<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>\n<Domain>\n<Grid GridType='Collection' CollectionType='Temporal'>\n" +
                inc + "</Grid>\n</Domain>\n</Xdmf>\n")
    sh = tuple(n)
    with settings(case):
        if case["coll"]:
            f = viscid.load_file(main)
            got = [g.time for g in f.iter_times()]
            require(got == [float(s) for s in case["steps"]], "times {0}, expected {1}", got, case["steps"])
            which = [int(i) for i in rng(case["order"]).permutation(len(vals))]
        else:
            which = [int(rng(case["order"]).randint(len(vals)))]
            s = case["steps"][which[0]]
            if case["open"]:
                f = psc.open_psc_file(d, s, case["pfx"])
            else:
                f = viscid.load_file(os.path.join(d, "{0}fd.{1:06d}.xdmf".format(case["pfx"], s)))
        for j in which:
            if case["coll"] and len(vals) > 1:
                f.activate_time(j)
            g = f.get_grid()
            w = {nm: a.astype("f8") for nm, a in vals[j].items()}
            h, e = [w["h" + c] for c in "xyz"], [w["e" + c] for c in "xyz"]
            want = dict(w, bx=h[0], by=h[1], bz=h[2], h=np.array(h), b=np.array(h), e=np.array(e), j=np.array([w["j" + c] for c in "xyz"]),
                        epar=sum(a * b for a, b in zip(h, e)) / np.sqrt(sum(a**2 for a in h)))
            names = sorted(want)
            for nm in [names[i] for i in rng(case["order"] + 2).permutation(len(names))]:
                vec = want[nm].ndim > 3
                if vec and (ambiguous(sh, 3) or 3 in sh):
                    continue
                fld = g[nm]
                close((flat_vec(fld) if vec else np.asarray(fld.data)).astype("f8"), want[nm], nm, 1e-5, 1e-5)
                require(fld.time == case["steps"][j], "time of {0} is {1}, expected {2}", nm, fld.time, case["steps"][j])
            for c, a in zip("xyz", ncs):
                close(g.get_crd_nc(c), a, "nodes along " + c, 1e-12, 1e-12)


FACETS = [
    Facet("gkeyll", gk_cases(), check_gkeyll, quick=400, rule="more than one time step, or moments of two fluids"),
    Facet("psc", psc_cases(), check_psc, quick=200, rule="more than one time step"),
]
