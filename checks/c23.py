"""C23: what is saved is what is loaded (npz, HDF5 + XDMF, ascii)"""
import os

import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, seeds
from vf.fields import ambiguous, flat_vec, grid_specs, spec_arrs, spec_crds, sshape

NAMES = ["psi", "b", "rr", "V", "my field", "v_x", "T-1", "pp", "rho&p", "a<b", "E.x", "c0"]
LO = {"f": -10, "i": -10, "u": 0, "b": -1}
_count = [0]


def fresh(ext):
    _count[0] += 1
    d = os.path.abspath("c23-{0}".format(_count[0] % 4))
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.remove(os.path.join(d, f))
    viscid.unload_all_files()
    return os.path.join(d, "file" + ext)


@st.composite
def fld_specs(draw, spec, dtypes=("f8", "f8", "f4", "i4", "i8", "u2", "bool")):
    fs = {"vec": draw(st.integers(0, 1)) == 0, "center": draw(st.sampled_from(["node", "cell", "cell"])),
          "layout": draw(st.sampled_from(["flat", "interlaced"])), "dtype": draw(st.sampled_from(list(dtypes))),
          "seed": draw(seeds), "nc": draw(st.sampled_from([3, 3, 3, 2]))}
    shape = sshape(dict(spec, center=fs["center"]))
    if fs["vec"] and (ambiguous(shape, fs["nc"]) or fs["nc"] in shape):
        fs["vec"] = False  # the layout could not be told apart
    return fs


@st.composite
def cases(draw, nd=(1, 3), fmt="npz", nflds=(1, 4)):
    spec = draw(grid_specs(nd=nd, n=(2, 6)))
    if fmt == "npz" and len(spec["names"]) == 3:
        spec["names"] = draw(st.sampled_from(["xyz", "xyz", "zyx", "rtp", "yzx"]))
    n = draw(st.integers(*nflds))
    names = draw(st.permutations(NAMES))[:n]
    return {"spec": spec, "flds": [dict(draw(fld_specs(spec)), name=nm) for nm in names],
            "time": draw(st.sampled_from([0.0, 1.5, None, 3600.0, 12345.678, -20.0, 1e-7])), "comp": draw(st.sampled_from([0, 0, 1, 9])),
            "how": draw(st.sampled_from(["list", "pairs", "tuples", "dict", "grid", "one"])), "again": draw(st.booleans()),
            "sys": draw(st.sampled_from([None, "gse", "mhd", "gsm"])), "sub": draw(seeds)}


def build(spec, fs, time=0.0):
    s = dict(spec, center=fs["center"])
    shape = sshape(s)
    kw = {}
    if fs["vec"]:
        data = rarr(fs["seed"], (fs["nc"],) + shape, "f" if fs["dtype"][0] == "f" else "i", lo=LO[fs["dtype"][0]]).astype(fs["dtype"])
        d = data if fs["layout"] == "flat" else np.ascontiguousarray(np.moveaxis(data, 0, -1))
        kw["layout"] = fs["layout"]
    else:
        data = d = rarr(fs["seed"], shape, "f" if fs["dtype"][0] == "f" else "i", lo=LO[fs["dtype"][0]]).astype(fs["dtype"])
    if data.size == 1 or all(n == 1 for n in shape):
        raise Discard("one value")
    return viscid.wrap_field(d, spec_crds(spec), name=fs["name"], fldtype="vector" if fs["vec"] else "scalar",
                             center=fs["center"], time=time, **kw), data


def compare(got, want_fld, data, fs, what, names=None, lowd=False):
    require(got is not None, "{0}: nothing", what)
    require(got.name == fs["name"], "{0}: name {1!r}", what, got.name)
    require(isinstance(got, viscid.field.VectorField if fs["vec"] else viscid.field.ScalarField), "{0}: {1}", what, type(got))
    require(got.iscentered(fs["center"]), "{0}: center {1!r}, not {2!r}", what, got.center, fs["center"])
    require(got.layout == "scalar" if not fs["vec"] else got.layout in ("flat", "interlaced"), "{0}: layout {1}", what, got.layout)
    g = flat_vec(got) if fs["vec"] else np.asarray(got.data)
    require(g.dtype == data.dtype, "{0}: dtype {1}, not {2}", what, g.dtype, data.dtype)
    if lowd:
        require(g.size == data.size, "{0}: shape {1}, not {2}", what, g.shape, data.shape)
        g = g.reshape(data.shape)
    eq_arr(g, data, what + ": data")
    names = names or "".join(want_fld.crds.axes)
    if lowd:
        names = names[:len(want_fld.crds.axes)]
        for ax in "xyz"[len(names):]:
            require(len(got.get_crds_nc([ax])[0]) == 1, "{0}: axis {1}", what, ax)
        require(list(got.crds.axes) == list("xyz"), "{0}: axes {1}", what, got.crds.axes)
    else:
        require(list(got.crds.axes) == list(names), "{0}: axes {1}, not {2}", what, got.crds.axes, names)
    for a, b in zip(names, want_fld.crds.axes):
        for c in ("nc", "cc"):
            eq_arr(np.asarray(getattr(got, "get_crds_" + c)([a])[0]), np.asarray(getattr(want_fld, "get_crds_" + c)([b])[0]), "{0}: {1}{2}".format(what, a, c))


def save(fname, how, flds, **kw):
    if how == "one" or (how == "grid" and len(flds) == 0):
        viscid.save_field(fname, flds[0], **kw)
        return flds[:1]
    if how == "list":
        viscid.save_fields(fname, flds, **kw)
    elif how in ("pairs", "tuples", "dict"):
        names = [f.name for f in flds]
        # what fields are called doesn't matter if they're given other names
        for f in flds:
            f.name = "own"
        if how == "dict":
            arg = viscid.compat.OrderedDict(zip(names, flds))
        else:
            arg = [(list if how == "pairs" else tuple)([n, f]) for n, f in zip(names, flds)]
        viscid.save_fields(fname, arg, **kw)
        require([f.name for f in flds] == ["own"] * len(flds), "saving renamed the fields")
        for n, f in zip(names, flds):
            f.name = n
    else:
        g = viscid.grid.Grid()
        g.set_crds(flds[0].crds)
        g.add_field(*flds)
        viscid.save_grid(fname, g, **kw)
    return flds


def sub_check(case, got, want, fs, what):
    """a selection of what was loaded is the selection of what was saved"""
    r = np.random.RandomState(case["sub"] % 2**31)
    # index slices only: what slices mean is C01
    sl = []
    for n in want.sshape:
        a = int(r.randint(0, n))
        b = int(r.randint(a + 1, n + 1))
        sl.append([slice(a, b), slice(None), slice(None, b), slice(None, None, 2)][r.randint(4)])
    sl = tuple(sl)
    a, b = got[sl], want[sl]
    if not hasattr(b, "data") or not hasattr(b, "crds") or not hasattr(a, "crds"):
        return
    if fs["vec"]:
        if fs["nc"] in b.sshape or 1 in b.sshape:
            return
        require(flat_vec(a).shape == flat_vec(b).shape, "{0}[{1}]: shape {2} {3}", what, sl, a.shape, b.shape)
        eq_arr(flat_vec(a), flat_vec(b), "{0}[{1}]".format(what, sl))
    else:
        eq_arr(np.asarray(a.data), np.asarray(b.data), "{0}[{1}]".format(what, sl))


def check_npz(case):
    spec = case["spec"]
    pairs = [build(spec, fs) for fs in case["flds"]]
    flds = [p[0] for p in pairs]
    fname = fresh(".npz")
    label(case["how"], "{0}d".format(len(spec["names"])), *["{0} {1}".format("vector" if f["vec"] else "scalar", f["center"]) for f in case["flds"]])
    nontrivial(len(flds) > 1 or case["flds"][0]["vec"])
    saved = save(fname, case["how"], flds)
    f = viscid.load_file(fname)
    require(f is not None, "{0} can't be loaded", fname)
    have = set(f.field_dict().keys())
    require(have == set(x.name for x in saved), "fields {0}", have)
    for fld, (_, data), fs in zip(saved, pairs, case["flds"]):
        sub_check(case, f[fs["name"]], fld, fs, "npz " + fs["name"])
        compare(f[fs["name"]], fld, data, fs, "npz " + fs["name"])
    if case["again"]:
        # saving what was loaded gives the same again
        fname2 = fname[:-4] + "-again.npz"
        f.save(fname2)
        f2 = viscid.load_file(fname2)
        for fld, (_, data), fs in zip(saved, pairs, case["flds"]):
            compare(f2[fs["name"]], fld, data, fs, "npz of the npz " + fs["name"])
        label("again")
        # overwrite and reload
        data2 = [(1 * fld, 1 * d, fs) if fs["dtype"] == "bool" else (fld * 2, d * 2, fs) for fld, (_, d), fs in zip(saved, pairs, case["flds"])]
        for x, _, fs in data2:
            x.name = fs["name"]
        save(fname, case["how"], [x for x, _, _ in data2])
        f3 = viscid.load_file(fname, force_reload=True)
        for x, d, fs in data2:
            compare(f3[fs["name"]], x, d, fs, "reloaded npz " + fs["name"])


def check_h5(case):
    spec = case["spec"]
    lowd = len(spec["names"]) < 3
    pairs = [build(spec, fs, time=case["time"]) for fs in case["flds"]]
    flds = [p[0] for p in pairs]
    if case["sys"]:
        for x in flds:
            x.set_info("crd_system", case["sys"])
    fname = fresh(".h5")
    label(case["how"], "{0}d".format(len(spec["names"])), *["{0} {1}".format("vector" if f["vec"] else "scalar", f["center"]) for f in case["flds"]])
    nontrivial(len(flds) > 1 or case["flds"][0]["vec"])
    kw = {"complevel": case["comp"]} if case["comp"] and case["how"] != "one" else {}
    saved = save(fname, case["how"], flds, **kw)
    if case["sub"] % 5 == 0:
        # the pair of files can be moved
        d = os.path.dirname(fname) + "-moved"
        os.makedirs(d, exist_ok=True)
        for x in os.listdir(os.path.dirname(fname)):
            os.replace(os.path.join(os.path.dirname(fname), x), os.path.join(d, x))
        fname = os.path.join(d, os.path.basename(fname))
    raises(lambda: viscid.load_file(fname), "an h5 file without its xdmf", NotImplementedError)
    xname = fname[:-3] + ".xdmf"
    f = viscid.load_file(xname)
    require(f is not None, "{0} can't be loaded", xname)
    have = set(f.field_dict().keys())
    require(have == set(x.name for x in saved), "fields {0}", have)
    for fld, (_, data), fs in zip(saved, pairs, case["flds"]):
        what = "h5 " + fs["name"]
        got = f[fs["name"]]
        if not lowd:
            sub_check(case, got, fld, fs, what)
        compare(got, fld, data, fs, what, lowd=lowd)
        require(got.time == case["time"], "{0}: time {1!r}, not {2!r}", what, got.time, case["time"])
        if case["sys"]:
            require(got.find_info("crd_system", None) == case["sys"], "{0}: crd_system {1!r}", what, got.find_info("crd_system", None))
    if case["again"]:
        # write other data over it
        data2 = [(1 * fld, 1 * d, fs) if fs["dtype"] == "bool" else (fld * 2, d * 2, fs) for fld, (_, d), fs in zip(saved, pairs, case["flds"])]
        for x, _, fs in data2:
            x.name = fs["name"]
        save(fname, case["how"], [x for x, _, _ in data2], **kw)
        f3 = viscid.load_file(xname, force_reload=True)
        for x, d, fs in data2:
            compare(f3[fs["name"]], x, d, fs, "reloaded h5 " + fs["name"], lowd=lowd)
        label("again")


# ------------------------------------------------------- OpenGGCM's basetime
@st.composite
def base_cases(draw):
    return {"spec": draw(grid_specs(nd=(3, 3), n=(3, 5))), "base": draw(st.integers(-10**9, 4 * 10**9)), "tenth": draw(st.integers(0, 9)),
            "time": draw(st.one_of(st.integers(0, 10**6), st.integers(0, 10**9))), "seed": draw(seeds), "ext": draw(st.sampled_from([".3d.{0:06d}", ".3df.{0:06d}", ".py_0.{0:06d}"]))}


def check_base(case):
    spec = case["spec"]
    G = viscid.readers.openggcm
    G.GGCMGrid.mhd_to_gse_on_read = False
    G.GGCMFile.read_log_file = False
    t = case["time"] / 1000.0
    base = np.datetime64(case["base"] * 1000 + 100 * case["tenth"], "ms")
    data = rarr(case["seed"], sshape(spec))
    fld = viscid.wrap_field(data, spec_crds(spec), name="rr", center=spec["center"], time=t)
    if case["seed"] % 2:
        g = viscid.grid.Grid()
        fld.parents.append(g)
        g.basetime = base
    else:
        fld.basetime = base
    fname = fresh(case["ext"].format(case["time"] // 1000 % 10**6) + ".h5")
    nontrivial(case["tenth"] > 0 or case["time"] % 1000 > 0)
    viscid.save_fields(fname, [fld])
    f = viscid.load_file(fname[:-3] + ".xdmf")
    require(isinstance(f, viscid.readers.ggcm_xdmf.GGCMFileXDMF), "loaded by {0}", type(f))
    got = f["rr"]
    eq_arr(np.asarray(got.data), data, "data")
    require(got.time == t, "time {0!r}, not {1!r}", got.time, t)
    require(got.basetime == base, "basetime {0!r}, not {1!r}", got.basetime, base)
    d = (got.time_as_datetime64() - base) / np.timedelta64(1, "us")
    require(abs(d - 1e6 * t) < 1.5, "time {0!r} is {1} us after the basetime, not {2}", got.time_as_datetime64(), d, 1e6 * t)


# -------------------------------------------------------------------- ascii
@st.composite
def asc_cases(draw):
    return {"n": draw(st.integers(1, 7)), "nc": draw(st.integers(0, 4)), "seed": draw(seeds), "ext": draw(st.sampled_from([".txt", ".asc"])),
            "comment": draw(st.booleans()), "sep": draw(st.sampled_from([" ", "   ", "\t"]))}


def check_asc(case):
    n, nc = case["n"], case["nc"]
    dat = rarr(case["seed"], (n, nc + 1))
    dat[:, 0] = np.cumsum(np.abs(dat[:, 0]) + 0.1)
    fname = fresh(case["ext"])
    nontrivial(nc > 1)
    with open(fname, "w") as f:
        if case["comment"]:
            f.write("# x and columns\n")
        for row in dat:
            f.write(case["sep"].join(repr(float(v)) for v in row) + "\n")
    f = viscid.load_file(fname)
    require(f is not None, "can't load {0}", fname)
    for i in range(1, nc + 1):
        got = f["c{0}".format(i)]
        eq_arr(np.asarray(got.data), dat[:, i], "column {0}".format(i))
        eq_arr(np.asarray(got.get_crd("x")), dat[:, 0], "coordinates")
    require(set(f.field_dict().keys()) == set("c{0}".format(i) for i in range(1, nc + 1)), "fields {0}", list(f.field_dict().keys()))


@st.composite
def nda_cases(draw):
    return {"spec": draw(grid_specs(nd=(1, 3), n=(2, 5), centers=("node",))), "nf": draw(st.integers(1, 3)), "seed": draw(seeds),
            "dt": draw(st.sampled_from(["f8", "f4", "i4", "float64"]))}


def check_nda(case):
    spec, nf = case["spec"], case["nf"]
    arrs = spec_arrs(spec)
    fname = fresh(".nda")
    nontrivial(len(arrs) > 1)
    label("{0}d".format(len(arrs)))
    dats = []
    with open(fname, "w") as f:
        f.write("NDim: {0}\nNfields: {1}\n".format(len(arrs), nf))
        for ax, a in zip(spec["names"], arrs):
            f.write("{0} f8\n{1}\n".format(ax, " ".join(repr(float(v)) for v in a)))
        for i in range(nf):
            d = rarr(case["seed"] + i, tuple(len(a) for a in arrs), "i" if case["dt"] == "i4" else "f").astype(case["dt"])
            dats.append(d)
            f.write("fld{0} {1}\n{2}\n".format(i, case["dt"], " ".join(repr(v.item()) for v in d.ravel())))
    f = viscid.load_file(fname)
    for i, d in enumerate(dats):
        got = f["fld{0}".format(i)]
        require(np.asarray(got.data).shape == d.shape, "fld{0}: shape {1}, not {2}", i, np.shape(got.data), d.shape)
        eq_arr(np.asarray(got.data), d, "fld{0}".format(i))
        for ax, a in zip(spec["names"], arrs):
            eq_arr(np.asarray(got.get_crd(ax)), a, "axis " + ax)


FACETS = [
    Facet("npz", cases(), check_npz, quick=300, rule="more than one field, or a vector"),
    Facet("h5", cases(nd=(3, 3), fmt="h5"), check_h5, quick=300, rule="more than one field, or a vector"),
    Facet("h5_1d_2d", cases(nd=(1, 2), fmt="h5"), check_h5, quick=150, rule="more than one field, or a vector"),
    Facet("basetime", base_cases(), check_base, quick=120, rule="fractional seconds"),
    Facet("ascii", asc_cases(), check_asc, quick=100, rule="more than one column"),
    Facet("nda", nda_cases(), check_nda, quick=100, rule="more than one dimension"),
]
