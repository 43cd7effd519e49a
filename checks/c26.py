"""C26: XDMF files: topologies, number types, inline and HDF5 data, collections, includes, OpenGGCM's own"""
import os
import shutil
import warnings

import h5py
import numpy as np
from hypothesis import strategies as st
from xml.sax.saxutils import escape, quoteattr

import viscid
from viscid.readers import ggcm_xdmf, openggcm
from vf import ggcm
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds
from vf.fields import ambiguous, flat_vec
from checks import c24

_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c26-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


DT = {"f4": ("Float", 4), "f8": ("Float", 8), "i4": ("Int", 4), "i8": ("Int", 8), "u4": ("UInt", 4), "u1": ("UChar", 1), "i1": ("Char", 1)}


@st.composite
def attr_specs(draw):
    return {"vec": draw(st.integers(0, 2)) == 0, "center": draw(st.sampled_from(["Node", "Cell", "Cell", "cell", "node", None])),
            "dtype": draw(st.sampled_from(["f4", "f4", "f8", "i4", "i8", "u4", "u1", "i1"])), "fmt": draw(st.sampled_from(["XML", "HDF", "HDF"]))}


@st.composite
def cases(draw):
    n = [draw(st.integers(2, 6)) for _ in range(3)]
    nt = draw(st.integers(1, 5))
    names = draw(st.lists(st.sampled_from(["rr", "pp", "b", "my v", "a&b", "T<0"]), min_size=1, max_size=4, unique=True))
    return {"n": n, "mesh": draw(st.sampled_from(["uniform", "rect", "rect_h5", "shuffled"])), "coll": draw(st.sampled_from(["none", "spatial", "temporal", "temporal"])),
            "times": draw(st.lists(st.integers(-50, 500), min_size=nt, max_size=nt, unique=True)), "tdiv": draw(st.sampled_from([1, 1, 4, 10])),
            "how": draw(st.sampled_from(["single", "single", "list", "hyper"])), "inner": draw(st.booleans()),
            "attrs": [dict(draw(attr_specs()), name=nm) for nm in names], "inc": draw(st.sampled_from([None, None, "file", "xptr", "same"])),
            "missing": draw(st.booleans()), "seed": draw(seeds), "info": draw(st.sampled_from([None, "value", "text", "item"])),
            "root": draw(st.booleans()), "abs": draw(st.booleans()), "crdt": draw(st.sampled_from(["f4", "f8"])), "ws": draw(st.sampled_from([" ", " ", "  ", "\n   "])),
            "dir": draw(st.sampled_from([".", ".", "with space", "t12:00"])), "ext": draw(st.sampled_from(["xdmf", "xmf"]))}


class Writer(object):
    def __init__(self, case, d):
        self.case, self.d = case, d
        self.h5 = {}
        self.k = 0

    def item(self, arr, dtype, fmt, name=None, h5name="data.h5"):
        nt, prec = DT[dtype]
        arr = np.asarray(arr)
        dims = self.case["ws"].join(str(s) for s in arr.shape) if self.case["ws"] == " " or fmt == "HDF" else " ".join(str(s) for s in arr.shape)
        nm = "" if name is None else ' Name="{0}"'.format(name)
        if fmt == "XML":
            body = self.case["ws"].join("%.17g" % v if dtype[0] == "f" else "%d" % v for v in arr.reshape(-1))
        else:
            loc = "/g{0}/d".format(self.k)
            self.k += 1
            self.h5.setdefault(h5name, []).append((loc, arr.astype(dtype)))
            body = ("./" if not self.case["abs"] or self.case["root"] else os.path.join(self.d, "")) + h5name + ":" + loc
        return '<DataItem{0} Dimensions="{1}" NumberType="{2}" Precision="{3}" Format="{4}">\n {5}\n</DataItem>\n'.format(nm, dims, nt, prec, fmt, escape(body))

    def flush(self):
        where = self.d if not self.case["root"] else os.path.join(self.d, "h5data")
        os.makedirs(where, exist_ok=True)
        for fn, dats in self.h5.items():
            with h5py.File(os.path.join(where, fn), "w") as f:
                for loc, arr in dats:
                    f[loc] = arr


def values(case, a, t, shape):
    r = rng(case["seed"] + 31 * t + 1000 * sum(ord(c) for c in a["name"]))
    if a["dtype"][0] == "f":
        v = r.uniform(-10, 10, shape)
    else:
        v = r.randint(0 if a["dtype"][0] == "u" else -100, 100, shape)
    return v.astype(a["dtype"])


def arrays(case):
    r = rng(case["seed"])
    out = []
    for n in case["n"]:
        if case["mesh"] == "uniform":
            dx = r.randint(1, 9) / 4.0
            x = r.randint(-8, 8) / 2.0 + dx * np.arange(n)
        else:
            x = np.cumsum(np.round(r.uniform(0.1, 2, n), 3)) - 3
        out.append(x.astype(case["crdt"]))
    return out


def grid_xml(w, case, i, t, arrs, time_tag):
    n = [len(a) for a in arrs]
    dims = " ".join(str(k) for k in n[::-1])
    cf = "HDF" if case["mesh"] == "rect_h5" else "XML"
    s = '<Grid Name="grid {0}" GridType="Uniform">\n'.format(i)
    if case["mesh"] == "uniform":
        s += '<Topology TopologyType="3DCoRectMesh" Dimensions="{0}"/>\n<Geometry GeometryType="ORIGIN_DXDYDZ">\n'.format(dims)
        s += w.item([a[0] for a in arrs[::-1]], case["crdt"], "XML", "Origin")
        s += w.item([a[1] - a[0] for a in arrs[::-1]], case["crdt"], "XML", "Spacing")
    else:
        s += '<Topology TopologyType="3DRectMesh" Dimensions="{0}"/>\n<Geometry GeometryType="VXVYVZ">\n'.format(dims)
        items = [w.item(a, case["crdt"], cf, nm) for a, nm in zip(arrs, ["VX", "VY", "VZ"])]
        if case["mesh"] == "shuffled":
            items = [items[k] for k in rng(case["seed"] + 5).permutation(3)]
        s += "".join(items)
    s += "</Geometry>\n" + time_tag
    for a in case["attrs"]:
        sh = shape_of(case, a)
        v = values(case, a, t, (3, ) + sh if a["vec"] else sh)
        # files have zyx order, components last
        v = v.transpose(3, 2, 1, 0) if a["vec"] else v.T
        c = "" if a["center"] is None else ' Center="{0}"'.format(a["center"])
        s += "<Attribute Name={0} AttributeType=\"{1}\"{2}>\n".format(quoteattr(a["name"]), "Vector" if a["vec"] else "Scalar", c)
        s += w.item(v, a["dtype"], a["fmt"], h5name="data{0}.h5".format(i % 2))
        s += "</Attribute>\n"
    if case["info"] == "value":
        s += '<Information Name="note" Value="n {0}"/>\n'.format(i)
    elif case["info"] == "text":
        s += '<Information Name="note">n {0}</Information>\n'.format(i)
    elif case["info"] == "item":
        s += '<Information Name="note">' + w.item([1.5, 2.0 + i], "f8", "XML") + '</Information>\n'
    return s + "</Grid>\n"


def shape_of(case, a):
    return tuple(n if (a["center"] or "node").lower() == "node" else n - 1 for n in case["n"])


HEAD = "<?xml version='1.0' ?>\n<Xdmf xmlns:xi='http://www.w3.org/2001/XInclude' Version='2.0'>\n<Domain>\n"
TAIL = "</Domain>\n</Xdmf>\n"


def prepare(case):
    # fields whose layout could not be told apart become scalars
    for a in case["attrs"]:
        sh = shape_of(case, a)
        if a["vec"] and (3 in sh or ambiguous(sh, 3)):
            a["vec"] = False
    if case["coll"] != "temporal":
        case["times"] = case["times"][:1]
    if case["how"] != "single":
        case["inner"] = False
    if case["how"] == "hyper":
        t0, dt = case["times"][0], abs(case["times"][-1] - case["times"][0]) + 1
        case["times"] = [t0 + dt * i for i in range(len(case["times"]))]
    if len(case["times"]) < 2 and case["inc"] == "same":
        case["inc"] = "file"


def write(case, d):
    w = Writer(case, d)
    arrs = arrays(case)
    ts = [t / float(case["tdiv"]) for t in case["times"]]
    temporal = case["coll"] == "temporal"
    body = []
    for i, (t, tf) in enumerate(zip(case["times"], ts)):
        tag = '<Time Type="Single" Value="{0!r}"/>\n'.format(tf)
        if temporal and case["how"] != "single":
            tag = ""
        if case["coll"] == "spatial" or case["inner"]:
            g = grid_xml(w, case, i, t, arrs, "")
            g = '<Grid Name="coll {0}" GridType="Collection" CollectionType="Spatial">\n{1}{2}</Grid>\n'.format(i, tag, g)
        else:
            g = grid_xml(w, case, i, t, arrs, tag)
        body.append(g)
    main = os.path.join(d, "main." + case["ext"])
    if case["inc"] is not None:
        inc = []
        if case["inc"] == "same":
            # all time steps in one file, pointed at one by one
            with open(os.path.join(d, "steps.xml"), "w") as f:
                f.write(HEAD.replace("<Domain>\n", "") + "".join("<Domain{0}>\n{1}</Domain{0}>\n".format(i, g) for i, g in enumerate(body)) + "</Xdmf>\n")
            inc = ["<xi:include href='./steps.xml' xpointer='xpointer(//Xdmf/Domain{0}/Grid)'/>\n".format(i) for i in range(len(body))]
        else:
            for i, g in enumerate(body):
                fn = "step.{0:03d}.xdmf".format(i)
                with open(os.path.join(d, fn), "w") as f:
                    f.write(HEAD + g + TAIL if case["inc"] == "xptr" else g)
                xp = " xpointer='xpointer(//Xdmf/Domain/Grid)'" if case["inc"] == "xptr" else ""
                inc.append("<xi:include href='{0}{1}'{2}/>\n".format("" if i % 2 else "./", fn, xp))
        if case["missing"]:
            inc.append("<xi:include href='./gone.xdmf' xpointer='xpointer(//Xdmf/Domain/Grid)'/>\n")
        body = inc
    s = "".join(body)
    if temporal:
        tag = ""
        if case["how"] == "list":
            tag = '<Time Type="List">' + w.item(ts, "f8", "XML") + "</Time>\n"
        elif case["how"] == "hyper":
            dt = ts[1] - ts[0] if len(ts) > 1 else 1.0
            tag = '<Time Type="HyperSlab">' + w.item([ts[0], dt, len(ts)], "f8", "XML") + "</Time>\n"
        s = '<Grid Name="all" GridType="Collection" CollectionType="Temporal">\n' + tag + s + "</Grid>\n"
    with open(main, "w") as f:
        f.write(HEAD + s + TAIL)
    w.flush()
    return main, arrs, ts


def check_xdmf(case):
    prepare(case)
    d = os.path.join(fresh(), case["dir"])
    os.makedirs(d, exist_ok=True)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        main, arrs, ts = write(case, d)
        kw = {"h5_root_dir": os.path.join(d, "h5data")} if case["root"] else {}
        nontrivial(len(ts) > 1 or any(a["vec"] for a in case["attrs"]))
        label(case["mesh"], case["coll"], case["how"], str(case["inc"]))
        f = viscid.load_file(main, **kw)
        require(f is not None, "nothing loaded")
        temporal = case["coll"] == "temporal"
        order = sorted(range(len(ts)), key=lambda i: ts[i])
        if temporal:
            require(f.nr_times() == len(ts), "{0} times, expected {1}", f.nr_times(), len(ts))
            close(np.array([g.time for g in f.iter_times()]), np.array([ts[i] for i in order]), "times", 1e-12, 1e-12)
            close(np.array([g.time for g in f.get_times()]), np.array([ts[i] for i in order]), "times", 1e-12, 1e-12)
        seq = rng(case["seed"] + 3).permutation(len(ts))
        for j in seq:
            i = order[j]
            if temporal:
                f.activate_time(int(j))
            g = f.get_grid()
            check_grid(case, g, arrs, case["times"][i], ts[i], i)
            for a in case["attrs"]:
                check_attr(case, f[a["name"]], a, case["times"][i], ts[i])
        viscid.unload_all_files()


def check_grid(case, g, arrs, t, tf, i):
    require(g.time is not None and abs(g.time - tf) < 1e-12, "time of the grid is {0}, expected {1}", g.time, tf)
    require(sorted(fl.name for fl in g.iter_fields()) == sorted(a["name"] for a in case["attrs"]),
            "fields {0}", g)
    for c, a in zip("xyz", arrs):
        close(g.get_crd_nc(c), a, "nodes along " + c, 1e-6 if case["crdt"] == "f4" else 1e-12, 1e-6 if case["crdt"] == "f4" else 1e-12)
    for a in case["attrs"]:
        check_attr(case, g[a["name"]], a, t, tf)
    if case["info"]:
        n = g.get_info("note")
        if case["info"] == "item":
            close(np.asarray(n, dtype="f8"), np.array([1.5, 2.0 + i]), "information item")
        else:
            require(n == "n {0}".format(i), "information {0!r}", n)


def check_attr(case, fld, a, t, tf):
    sh = shape_of(case, a)
    require(fld.name == a["name"], "name {0!r}, expected {1!r}", fld.name, a["name"])
    require(fld.center.lower() == (a["center"] or "node").lower(), "{0} is at {1}", a["name"], fld.center)
    require(abs(fld.time - tf) < 1e-12, "time of {0}: {1}, expected {2}", a["name"], fld.time, tf)
    w = values(case, a, t, (3, ) + sh if a["vec"] else sh)
    if a["vec"]:
        require(fld.nr_comps == 3, "{0} has {1} components", a["name"], fld.nr_comps)
        got = flat_vec(fld)
    else:
        got = np.asarray(fld.data)
    require(got.dtype == np.dtype(a["dtype"]), "dtype of {0} is {1}, not {2}", a["name"], got.dtype, a["dtype"])
    eq_arr(got, w, "{0} at {1}".format(a["name"], tf))


# ------------------------------------------------------- OpenGGCM's files
@st.composite
def gg_cases(draw):
    n = [draw(st.integers(2, 6)) for _ in range(3)]
    c = {"cc": [draw(c24.axis(k)) for k in n], "run": draw(st.sampled_from(["run01", "a.b", "r-1"])),
         "ftype": draw(st.sampled_from(["3d", "3d", "3df", "py_0", "pz_10", "mp_info", "topo", "iof"])),
         "tm": draw(c24.times()), "seed": draw(seeds),
         "flds": draw(st.lists(st.sampled_from(["rr", "pp", "b", "v", "j", "e_cc", "b1", "e_ec", "divB", "vecb"]), min_size=1, max_size=6, unique=True)),
         "flip": draw(st.sampled_from(["force", "auto", "auto", "auto", "auto_true", False])), "copy": draw(st.booleans()),
         "assume": draw(st.sampled_from([None, None, True])),
         "log": draw(st.sampled_from([None, "c", "c3", "c", "off"])), "box": draw(st.sampled_from(["mhd", "mhd", "gse", "other", "nomag"])),
         "info": draw(st.sampled_from([None, None, "gse", "mhd", "gsm"])),
         "base_in": draw(st.booleans()), "how": draw(st.sampled_from(["glob", "run", "one", "both"])), "sub": draw(seeds),
         "layout": draw(st.sampled_from(["flat", "interlaced", "default"])), "up": draw(st.integers(0, 1))}
    return c


GVECS = {"b": ["bx", "by", "bz"], "v": ["vx", "vy", "vz"], "j": ["jx", "jy", "jz"], "e_cc": ["ex_cc", "ey_cc", "ez_cc"],
         "b1": ["b1x", "b1y", "b1z"], "e_ec": ["ex_ec", "ey_ec", "ez_ec"]}
BBNORM = 30574.0


def write_gg(case, d):
    ccs = [np.array(c, dtype="f8") for c in case["cc"]]
    plane = "xyz".index(case["ftype"][1]) if case["ftype"][:2] in ("py", "pz") else None
    ncs = []
    for k, cc in enumerate(ccs):
        mid = 0.5 * (cc[1:] + cc[:-1])
        nc = np.concatenate([[cc[0] - 0.5 * (cc[1] - cc[0])], mid, [cc[-1] + 0.5 * (cc[-1] - cc[-2])]])
        ncs.append(np.array([-0.01, 0.01]) if k == plane else nc.astype("f4").astype("f8"))
    sh = tuple(len(nc) - 1 for nc in ncs)
    out, steps = {}, []
    for i, t in enumerate(case["tm"]["t"]):
        r = rng(case["seed"] + 7 * i)
        base = "{0}.{1}.{2:06d}".format(case["run"], case["ftype"], t)
        flds = []
        for name in case["flds"]:
            for c in GVECS.get(name, [name]):
                flds.append((c, r.uniform(-10, 10, sh + (3, ) if c == "vecb" else sh).astype("f4")))
        with h5py.File(os.path.join(d, base + "_p0.h5"), "w") as f:
            for c, v in flds:
                f["/" + case["ftype"] + "/" + c + "/3d"] = v.transpose(2, 1, 0, 3) if v.ndim == 4 else v.T
            if case["base_in"]:
                grp = f.create_group("openggcm-uid-0x7f9c21519920")
                grp.attrs["time_str"] = np.string_(c24.tstr(case["tm"], t))
            for c, nc in zip("xyz", ncs):
                f["/crd/" + c] = nc.astype("f4")
        s = HEAD + '<Grid GridType="Collection" CollectionType="Spatial">\n<Time Type="Single" Value="{0}"/>\n'.format(t)
        if case["info"]:
            s += '<Information Name="crd_system" Value="{0}"/>\n'.format(case["info"])
        s += '<Grid Name="mesh" GridType="Uniform">\n<Topology TopologyType="3DRectMesh" Dimensions="{0}"/>\n<Geometry GeometryType="VXVYVZ">\n'.format(
            " ".join(str(len(nc)) for nc in ncs[::-1]))
        for c, nc in zip("xyz", ncs):
            s += '<DataItem Name="V{0}" DataType="Float" Dimensions="{1}" Format="HDF">././/{2}_p0.h5:/crd/{3}</DataItem>\n'.format(c.upper(), len(nc), base, c)
        s += "</Geometry>\n"
        for c, v in flds:
            s += '<Attribute Name="{0}" AttributeType="{5}" Center="Cell">\n<DataItem Dimensions="{1}" NumberType="Float" Precision="4" Format="HDF">.//{2}_p0.h5:/{3}/{4}/3d</DataItem></Attribute>\n'.format(
                c, " ".join(str(n) for n in sh[::-1] + v.shape[3:]), base, case["ftype"], c, "Vector" if v.ndim == 4 else "Scalar")
        s += "</Grid>\n</Grid>\n" + TAIL
        with open(os.path.join(d, base + ".xdmf"), "w") as f:
            f.write(s)
        steps.append(base + ".xdmf")
        out[t] = {c: v.astype("f8") for c, v in flds}
    # run level file
    with open(os.path.join(d, "{0}.{1}.xdmf".format(case["run"], case["ftype"])), "w") as f:
        f.write(HEAD + "<Grid GridType='Collection' CollectionType='Temporal'>\n" +
                "".join("<xi:include href='.//{0}' xpointer='xpointer(//Xdmf/Domain/Grid)'/>\n".format(s) for s in steps) + "</Grid>\n" + TAIL)
    if case["log"] in ("c", "c3"):
        l, h = {"mhd": ("-30, -50, -50", "90, 50, 50"), "gse": ("-90, -50, -50", "30, 50, 50"), "other": ("0, -1, -1", "4, 1, 1"),
                "nomag": ("-30, -50, -50", "90, 50, 50")}[case["box"]]
        ggcm.write_log(os.path.join(d, ".." if case["up"] else ".", case["run"] + ".log"),
                       [("ggcm_mhd", [("bbnorm0", "1e-09"), ("bbnorm", "%g" % BBNORM)], ["box" if case["box"] == "nomag" else "ggcm"]),
                        ("mrc_crds", [("l", l), ("h", h), ("sw", "3")], ["rectilinear"]),
                        ("ggcm_mhd_ic", [("x", "1")], ["whistler" if case["box"] == "nomag" else "mirdip_double"]),
                        ("ggcm_dipole", [("dipoltime", "1967:01:01:00:00:00.000")], ["fortran"]),
                        ("ggcm_mhd_fld", [("mhd_type", "1" if case["log"] == "c" else "2")], ["float"])], 3 if case["up"] else 0)
    return out, ncs, steps


def gg_system(case):
    """(crd_system that is known, flip?)"""
    known = None
    if case["info"]:
        known = case["info"]
    elif case["assume"]:
        known = "mhd"
    elif case["log"] in ("c", "c3"):
        known = {"mhd": "mhd", "gse": "gse", "other": "other", "nomag": "other"}[case["box"]]
    else:
        known = "unknown"
    req = str(case["flip"]).lower()
    if req == "force":
        return known, True
    if req == "false":
        return known, False
    if known == "mhd":
        return known, True
    if known == "gse":
        return known, False
    return known, req == "auto_true"


def check_gg(case):
    top = fresh()
    d = os.path.join(top, "target")
    os.makedirs(d)
    out, ncs, steps = write_gg(case, d)
    ts = sorted(out)
    known, flip = gg_system(case)
    if case["ftype"] in ("mp_info", "topo", "iof"):
        flip = False  # these are in gse already
    label(case["ftype"], case["how"], "flip" if flip else "as is", "log" if case["log"] in ("c", "c3") else "no log")
    nontrivial(len(ts) > 1 or flip)
    kw = {"assume_mhd_crds": True} if case["assume"] else {}
    with c24.settings(case):
        pre = os.path.join(d, case["run"] + "." + case["ftype"])
        if case["how"] == "one" or (case["how"] == "glob" and len(ts) == 1):
            ts = ts[:1]
            f = viscid.load_file(pre + ".{0:06d}.xdmf".format(ts[0]), **kw)
        elif case["how"] == "run":
            f = viscid.load_file(pre + ".xdmf", **kw)
        elif case["how"] == "glob":
            f = viscid.load_file(pre + ".??????.xdmf", **kw)
        else:
            fs = viscid.load_files([pre + ".*xdmf"], **kw)
            require(len(fs) == 1, "{0} files", len(fs))
            f = fs[0]
        sgn = np.array([-1.0, -1.0, 1.0]) if flip else np.ones(3)
        want_ncs = [-nc[::-1] if s < 0 else nc for nc, s in zip(ncs, sgn)]
        sh = tuple(len(nc) - 1 for nc in ncs)
        amb = ambiguous(sh, 3) or 3 in sh or 1 in sh
        f_times = [g.time for g in f.iter_times()] if case["how"] != "one" and len(ts) > 1 else [f.get_grid().time]
        require(f_times == [float(t) for t in ts], "times {0}, expected {1}", f_times, ts)
        for j in rng(case["sub"]).permutation(len(ts)):
            t = ts[j]
            if len(ts) > 1:
                f.activate_time(int(j))
            g = f.get_grid()
            for c, w in zip("xyz", want_ncs):
                close(g.get_crd_nc(c), w, "nodes along " + c, 3e-6, 1e-4)

            def want(name):
                v = out[t][name]
                if name == "vecb":
                    v = np.moveaxis(v, -1, 0)
                    v = v[:, ::-1, ::-1] if flip else v
                    return v * sgn[:, None, None, None]
                v = v[::-1, ::-1] if flip else v
                v = v * (BBNORM if name == "divB" and case["log"] in ("c", "c3") and case["ftype"] not in ("mp_info", "topo", "iof") else
                         openggcm.DEFAULT_BBNORM if name == "divB" and case["ftype"] not in ("mp_info", "topo", "iof") else 1)
                return v * (-1 if flip and name in c24.NEG else 1)

            for name in out[t]:
                if name == "vecb" and amb:
                    continue
                w = want(name)
                fld = g[name]
                if name == "vecb" and case["sub"] % 2:
                    comp = "xyz"[case["sub"] % 3]
                    got = fld[comp]
                    close(np.asarray(got.data, dtype="f8"), w["xyz".index(comp)], "vecb[{0}] before it is read".format(comp), 1e-6, 1e-30)
                    k = case["sub"] // 7 % 3
                    got = g[name]["{0}, {1}".format(comp, ", ".join("1:" if i == k and sh[k] > 2 else ":" for i in range(3)))]
                    slc = tuple(slice(1, None) if i == k and sh[k] > 2 else slice(None) for i in range(3))
                    close(np.asarray(got.data, dtype="f8"), w["xyz".index(comp)][slc], "vecb sliced with a component", 1e-6, 1e-30)
                    got = g[name][(slice(None), ) + slc] if False else g[name][slc]
                    close(flat_vec(got).astype("f8"), w[(slice(None), ) + slc], "vecb sliced", 1e-6, 1e-30)
                elif name != "vecb" and case["sub"] % 2:
                    k = case["sub"] // 7 % 3
                    slc = tuple(slice(1, None) if i == k and sh[k] > 2 else slice(None) for i in range(3))
                    got = g.get_field(name, slc=slc)
                    close(np.asarray(got.data, dtype="f8"), w[slc], name + " sliced", 1e-6, 1e-30)
                got = flat_vec(fld) if name == "vecb" else np.asarray(fld.data)
                close(got.astype("f8"), w, "{0} at {1}".format(name, t), 1e-6, 1e-30)
                require(fld.time == t, "time of {0} is {1}", name, fld.time)
                if case["ftype"] not in ("mp_info", "topo", "iof"):
                    cs = fld.find_info("crd_system", None)
                    require(cs == ("gse" if flip else known), "crd_system {0}, expected {1}", cs, "gse" if flip else known)
            if case["ftype"] in ("mp_info", "topo", "iof"):
                continue
            for vec in case["flds"]:
                if vec in ("b", "v", "j", "e_cc") and not amb:
                    w = np.array([want(c) for c in GVECS[vec]])
                    close(flat_vec(g[vec]).astype("f8"), w, vec, 1e-6, 1e-30)
                    mag = {"b": "bmag", "v": "speed", "j": "jmag"}.get(vec)
                    if mag:
                        close(np.asarray(g[mag].data, dtype="f8"), np.sqrt((w**2).sum(axis=0)), mag, 1e-5, 1e-30)
                    if vec == "b" and "pp" in out[t]:
                        close(np.asarray(g["beta"].data, dtype="f8"), 40 * 2 * want("pp") / (w**2).sum(axis=0), "beta", 1e-4, 1e-30)
                elif vec in ("b1", "e_ec") and not amb and 4 not in sh:
                    scale = 1.0
                    if vec == "b1":
                        scale = BBNORM if case["log"] in ("c", "c3") else openggcm.DEFAULT_BBNORM
                    src = {t: {n: v * scale for n, v in out[t].items() if n in GVECS[vec]}}
                    old = c24.VECS.get(vec)
                    c24.VECS[vec] = GVECS[vec]
                    try:
                        c24.check_staggered(g, vec, "face" if vec == "b1" else "edge", case["log"] == "c", t, src, ncs, sgn, None, 1e-5, 1e-4)
                    finally:
                        if old is None:
                            del c24.VECS[vec]
                        else:
                            c24.VECS[vec] = old
        bt = np.datetime64(f.find_info("basetime"))
        want_bt = np.datetime64(c24.base_dt(case["tm"])) if case["base_in"] else np.datetime64("1967-01-01T00:00:00")
        require(np.abs((bt - want_bt) / np.timedelta64(1, "ms")) < 1e-3, "basetime {0}, expected {1}", bt, want_bt)


FACETS = [
    Facet("xdmf", cases(), check_xdmf, quick=1200, rule="more than one time step, or a vector"),
    Facet("openggcm", gg_cases(), check_gg, quick=1000, rule="more than one time step, or turned to gse"),
]
