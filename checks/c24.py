"""C24: OpenGGCM's fortran output (fortbin, jrrle) with grid2 and log files, mhd -> gse"""
import datetime
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.readers import ggcm_logfile, openggcm
from vf import ggcm
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds
from vf.fallback import restore, switch
from vf.fields import ambiguous, flat_vec

NEG = {"bx", "by", "ex", "ey", "vx", "vy", "rv1x", "rv1y", "jx", "jy", "xjx", "xjy", "b1x", "b1y", "bx1", "by1", "b2x", "b2y",
       "bx2", "by2", "ex_cc", "ey_cc", "ex_ec", "ey_ec", "eflx", "efly"}
VECS = {"b": ["bx", "by", "bz"], "v": ["vx", "vy", "vz"], "xj": ["xjx", "xjy", "xjz"], "e": ["ex", "ey", "ez"],
        "b1": ["bx1", "by1", "bz1"], "efl": ["eflx", "efly", "eflz"], "b2": ["bx2", "by2", "bz2"]}
_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c24-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(os.path.join(d, "target"))
    viscid.unload_all_files()
    return d


@st.composite
def times(draw):
    return {"t": sorted(draw(st.lists(st.integers(0, 9999), min_size=1, max_size=4, unique=True)) +
                        ([draw(st.integers(10000, 999999))] if draw(st.integers(0, 4)) == 0 else [])),
            "base": [draw(st.integers(1966, 2030)), draw(st.integers(1, 12)), draw(st.integers(1, 28)), draw(st.integers(0, 23)),
                     draw(st.integers(0, 59)), draw(st.integers(0, 59)), draw(st.sampled_from([0, 0, 100, 700]))],
            "off": draw(st.integers(-40, 40))}


def base_dt(tm):
    y, mo, d, h, mi, s, ms = tm["base"]
    return datetime.datetime(y, mo, d, h, mi, s, ms * 1000)


def tstr(tm, t):
    ut = base_dt(tm) + datetime.timedelta(seconds=t, milliseconds=tm["off"])
    return ggcm.timestr(t, ut.strftime("%Y:%m:%d:%H:%M:%S") + ".{0:03d}".format(ut.microsecond // 1000))


@st.composite
def axis(draw, n):
    """cell centers as they'd be in a file (increasing), around 0"""
    r = rng(draw(seeds))
    d = np.round(r.uniform(0.2, 2.0, n), 3) if draw(st.booleans()) else np.full(n, 0.75)
    x = np.cumsum(d)
    return [float(v) for v in np.round(x - x[r.randint(n)], 4)]


@st.composite
def cases(draw, fmt=None):
    n = [draw(st.integers(2, 6)) for _ in range(3)]
    c = {"fmt": draw(st.sampled_from(["fortbin", "jrrle"])), "cc": [draw(axis(k)) for k in n],
         "run": draw(st.sampled_from(["target", "run01", "a.b", "my run", "tst_p", "r-1"])),
         "ftype": draw(st.sampled_from(["3df", "3df", "px_0", "py_0", "pz_0", "py_12", "px_8", "pz_15"])),
         "tm": draw(times()), "endian": draw(st.sampled_from("<>")), "seed": draw(seeds),
         "flds": draw(st.lists(st.sampled_from(["rr", "pp", "resis", "b", "v", "xj", "e", "b1", "efl", "b2", "q_x"]), min_size=1, max_size=6, unique=True)),
         "shuffle": draw(seeds),
         "flip": draw(st.sampled_from(["force", "auto", "auto", "false", "auto_true", True, False])),
         "assume": draw(st.sampled_from([True, True, None, False])), "copy": draw(st.booleans()),
         "up": draw(st.integers(0, 2)), "log": draw(st.sampled_from([None, None, "c", "c3", "off"])),
         "how": draw(st.sampled_from(["glob", "list", "rev", "one"])), "sub": draw(seeds),
         "layout": draw(st.sampled_from(["flat", "interlaced", "default"]))}
    return c


def comp_names(flds):
    out = []
    for f in flds:
        out += VECS.get(f, [f])
    return out


def make(case, d):
    """write all the files, returns {time: {name: (nx, ny, nz) values}} as in the file, and node crds"""
    ccs = [np.array(c, dtype="f4") for c in case["cc"]]
    plane = "xyz".index(case["ftype"][1]) if case["ftype"][0] == "p" else None
    full = tuple(len(c) for c in ccs)
    shape = full if plane is None else full[:plane] + full[plane + 1:]
    names = comp_names(case["flds"])
    names = [names[i] for i in rng(case["shuffle"]).permutation(len(names))]
    out = {}
    fnames = []
    data_dir = os.path.join(d, "target")
    for i, t in enumerate(case["tm"]["t"]):
        r = rng(case["seed"] + 7 * i)
        ts = tstr(case["tm"], t)
        fname = os.path.join(data_dir, "{0}.{1}.{2:06d}".format(case["run"], case["ftype"], t))
        if case["fmt"] == "fortbin":
            fname += ".b"
            flds = [(n, r.uniform(-10, 10, shape).astype("f4")) for n in names]
            ggcm.write_fortbin(fname, flds, t, ts, case["endian"])
            vals = {n: a.astype("f8") for n, a in flds}
        else:
            flds = []
            for n in names:
                size = int(np.prod(shape))
                kind = r.randint(4)
                codes = r.randint(0, 4415, size) if kind else np.full(size, r.randint(4415))
                if kind == 1:
                    codes = np.sort(codes) // 100
                neg = r.rand(size) < [0, 0.5, 0.5, 1][r.randint(4)]
                z2 = round(float(r.uniform(-20, 20)), 5)
                flds.append((n, [int(v) for v in codes], [bool(v) for v in neg], z2 - round(float(r.uniform(1e-3, 37)), 4), z2, shape))
            vals = dict(ggcm.write_jrrle(fname, flds, t, ts))
        fnames.append(fname)
        if plane is not None:
            vals = {n: np.expand_dims(a, plane) for n, a in vals.items()}
        out[t] = vals
    ggcm.write_grid2(os.path.join(d, "target" if case["up"] == 0 else ".", case["run"] + ".grid2"), ccs)
    if case["log"] in ("c", "c3"):
        mt = 1 if case["log"] == "c3" else 2
        ggcm.write_log(os.path.join(d, "target" if case["up"] < 2 else ".", case["run"] + ".log"),
                       [("ggcm_mhd", [("bbnorm0", "1e-09"), ("bbnorm", "30574.0")], ["ggcm"]),
                        ("ggcm_mhd_fld", [("mhd_type", str(mt))], ["float"])])
    ncs = []
    for cc in ccs:
        cc = cc.astype("f8")
        mid = 0.5 * (cc[1:] + cc[:-1])
        ncs.append(np.concatenate([[cc[0] - 0.5 * (cc[1] - cc[0])], mid, [cc[-1] + 0.5 * (cc[-1] - cc[-2])]]))
    return fnames, names, out, ncs, plane


def flips(case):
    req = str(case["flip"]).lower()
    mhd = case["assume"] in (True, None)
    return req in ("true", "force") or (req in ("auto", "auto_true") and mhd) or (req == "auto_true")


def plane_ncs(case, ncs, plane, flip):
    if plane is None:
        return ncs
    loc = float(case["ftype"][3:]) / 10
    if case["flip"] in ("false", ) or (not flip and case["flip"] is not False):
        if plane < 2 and loc != 0.0:
            raise Discard()  # a documented FIXME: which side is it on?
    if flip and plane < 2:
        loc *= -1
    cc = np.array(case["cc"][plane])
    dist = np.abs(cc - loc)
    i = int(np.argmin(dist))
    if np.sum(dist < dist[i] + 1e-4) > 1:
        raise Discard()
    return [nc if k != plane else nc[i:i + 2] for k, nc in enumerate(ncs)]


def num(s):
    try:
        return int(s)
    except ValueError:
        return float(s)


def fc_positions(ncs, k, center, trailing, many=None):
    """per axis positions of the values of component k in the file"""
    pos = []
    for ax in range(3):
        nc = ncs[ax]
        stag = (ax == k) if center == "face" else (ax != k)
        if stag and (len(nc) > 2 if many is None else many[ax]):
            pos.append(nc[1:] if trailing else nc[:-1])
        else:
            pos.append(0.5 * (nc[1:] + nc[:-1]))
    return pos


class settings(object):
    def __init__(self, case):
        self.case = case

    def __enter__(self):
        g, f = openggcm.GGCMGrid, openggcm.GGCMFile
        self.old = (g.mhd_to_gse_on_read, g.copy_on_transform, f.read_log_file, f._already_warned_about_logfile,
                    openggcm.GGCMFileFortran.assume_mhd_crds, g.force_vector_layout)
        g.mhd_to_gse_on_read = self.case["flip"]
        g.copy_on_transform = self.case["copy"]
        f.read_log_file = self.case["log"] != "off"
        f._already_warned_about_logfile = True
        openggcm.GGCMFileFortran.assume_mhd_crds = True
        self.ne = switch(openggcm, self.case.get("sub", self.case.get("seed", 0)) % 4 != 1)
        if self.case.get("layout", "default") != "default":
            g.force_vector_layout = self.case["layout"]

    def __exit__(self, *exc):
        g, f = openggcm.GGCMGrid, openggcm.GGCMFile
        (g.mhd_to_gse_on_read, g.copy_on_transform, f.read_log_file, f._already_warned_about_logfile,
         openggcm.GGCMFileFortran.assume_mhd_crds, g.force_vector_layout) = self.old
        restore(openggcm, self.ne)
        viscid.unload_all_files()


def check_ggcm(case):
    d = fresh()
    fnames, names, out, ncs, plane = make(case, d)
    flip = flips(case)
    ncs = plane_ncs(case, ncs, plane, flip)
    ts = sorted(out)
    nontrivial(len(ts) > 1 or plane is not None)
    label(case["fmt"], case["ftype"][0], "flip" if flip else "as is", case["how"], "steps" if len(ts) > 1 else "one")
    kw = {} if case["assume"] is None else {"assume_mhd_crds": case["assume"]}
    pat = os.path.join(d, "target", "{0}.{1}.*".format(case["run"], case["ftype"]))
    if case["how"] == "glob":
        arg = pat
    elif case["how"] == "one":
        arg = fnames[0]
        ts = ts[:1]
    else:
        arg = fnames if case["how"] == "list" else fnames[::-1]
    with settings(case):
        if isinstance(arg, list):
            fs = viscid.load_files(arg, **kw)
            require(len(fs) == 1, "{0} time steps make {1} files", len(ts), len(fs))
            f = fs[0]
        else:
            f = viscid.load_file(arg, **kw)
        require(f is not None, "nothing loaded from {0}", arg)
        check_loaded(case, f, ts, out, names, ncs, plane, flip)


def check_loaded(case, f, ts, out, names, ncs, plane, flip):
    tol = 1e-6 if case["fmt"] == "fortbin" else 1e-4
    f4tol = 3e-6
    sgn = np.array([-1.0, -1.0, 1.0]) if flip else np.ones(3)
    want_ncs = [-nc[::-1] if s < 0 else nc for nc, s in zip(ncs, sgn)]
    scale = max(np.abs(np.concatenate(ncs)).max(), 1)

    def view(a):
        return a[::-1, ::-1] if flip else a

    def want(t, name):
        return view(out[t][name]) * (-1 if flip and name in NEG else 1)

    grids = list(f.iter_times())
    require(len(grids) == len(ts), "{0} time steps, expected {1}", len(grids), len(ts))
    order = rng(case["sub"]).permutation(len(ts))
    shape = tuple(len(nc) - 1 for nc in ncs)
    for j in order:
        t = ts[j]
        if len(ts) > 1:
            f.activate_time(int(j))
            g = f.get_grid()
        else:
            g = f.get_grid() if j % 2 else grids[0]
        require(g.time == float(t), "time {0} of step {1}, expected {2}", g.time, j, t)
        for ax, (nc, w) in enumerate(zip("xyz", want_ncs)):
            close(g.get_crd_nc(nc), w, "nodes along " + nc, f4tol, f4tol * scale)
        for name in names:
            fld = g[name]
            w = want(t, name)
            require(fld.name == name and fld.center.lower() == "cell", "{0} is {1} at {2}", name, fld.name, fld.center)
            require(tuple(fld.shape) == shape, "shape of {0} is {1}, expected {2}", name, fld.shape, shape)
            require(fld.time == float(t), "time of {0}: {1}", name, fld.time)
            if case["sub"] % 3 == 0:  # sliced before it is read
                slc = [slice(None)] * 3
                k = case["sub"] % 2
                if shape[k] > 2:
                    slc[k] = slice(1, None, 1 + case["sub"] % 5 % 2)
                slc = tuple(slc)
                sub = g.get_field(name, slc=slc) if case["sub"] % 4 < 2 else g[name][slc]
                close(np.asarray(sub.data, dtype="f8"), w[slc], "{0} at {1} sliced".format(name, t), tol, 1e-30)
                close(sub.get_crd("xyz"[k]), (0.5 * (want_ncs[k][1:] + want_ncs[k][:-1]))[slc[k]], "crds of a slice", f4tol, f4tol * scale)
            got = np.asarray(fld.data)
            require(got.dtype == np.dtype("f4"), "dtype of {0} is {1}", name, got.dtype)
            close(got.astype("f8"), w, "{0} at {1}".format(name, t), tol, 1e-30)
            close(np.asarray(g[name].data, dtype="f8"), w, "{0} at {1}, read again".format(name, t), tol, 1e-30)
            cs = fld.find_info("crd_system", None)
            if flip:
                require(cs == "gse", "crd_system {0}", cs)
            elif case["assume"] in (True, None):
                require(cs == "mhd", "crd_system {0}", cs)
        for vec in case["flds"]:
            if vec not in ("b", "v", "xj", "e") or ambiguous(shape, 3) or 3 in shape:
                continue
            v = g[vec]
            w = np.array([want(t, c) for c in VECS[vec]])
            require(v.nr_comps == 3, "{0} has {1} components", vec, v.nr_comps)
            if case["layout"] != "default":
                require(v.layout == case["layout"], "layout of {0} is {1}, not {2}", vec, v.layout, case["layout"])
            close(flat_vec(v).astype("f8"), w, "vector {0}".format(vec), tol, 1e-30)
            for ci, c in enumerate("xyz"):
                close(np.asarray(v[c].data, dtype="f8"), w[ci], "{0}[{1}]".format(vec, c), tol, 1e-30)
            mag = {"b": "bmag", "v": "speed", "xj": "jmag"}.get(vec)
            if mag:
                with np.errstate(all="ignore"):
                    wm = np.sqrt((w**2).sum(axis=0))
                if 1e-15 < wm.min() and wm.max() < 1e15:
                    close(np.asarray(g[mag].data, dtype="f8"), wm, mag, tol * 5, 1e-30)
        if "pp" in names and "rr" in names:
            close(np.asarray(g["T"].data, dtype="f8"), want(t, "pp") / want(t, "rr"), "T", tol * 5, 1e-30)
        for vec, center in (("b1", "face"), ("efl", "edge"), ("b2", "face")):
            # without the class of the grid's own fields in the way
            if vec in case["flds"] and not (ambiguous(shape, 3) or 3 in shape or 4 in shape):
                trailing = case["log"] == "c3"
                check_staggered(g, vec, center, trailing, t, out, ncs, sgn, plane, tol, f4tol * scale)
    # what the time steps share
    bt = grids[-1].find_info("basetime")
    require(np.abs((np.datetime64(bt) - np.datetime64(base_dt(case["tm"]))) / np.timedelta64(1, "ms")) < 1e-3,
            "basetime {0}, expected {1}", bt, base_dt(case["tm"]))


def check_staggered(g, vec, center, trailing, t, out, ncs, sgn, plane, tol, ctol):
    v = g[vec]
    require(v.iscentered(center), "{0} is at {1}", vec, v.center)
    flat = flat_vec(v).astype("f8")
    nodes = [np.asarray(v.get_crd_nc(c), dtype="f8") for c in "xyz"]
    n = flat.shape[1:]
    for a, nd, nc in zip(range(3), nodes, ncs):
        require(len(nd) == n[a] + 1, "{0} nodes for {1} values", len(nd), n[a])
        require(n[a] >= len(nc) - 3 or len(nc) < 4, "{0} of {1} values left", n[a], len(nc) - 1)
    for k in range(3):
        src = out[t][VECS[vec][k]]
        # value -> place, in the file's system, then turned
        pos = [s * p for s, p in zip(sgn, fc_positions(ncs, k, center, trailing))]
        have = fc_positions(nodes, k, center, False, [len(nc) > 2 for nc in ncs])
        idx = []
        for ax in range(3):
            dist = np.abs(have[ax][:, None] - pos[ax][None, :])
            i = np.argmin(dist, axis=1)
            require(dist.min(axis=1).max() <= ctol * 3, "component {0} of {1}: values along {2} are at {3}, the file has {4}",
                    "xyz"[k], vec, "xyz"[ax], have[ax], pos[ax])
            idx.append(i)
        close(flat[k], src[np.ix_(*idx)] * sgn[k], "{0}{1} where it lives".format(vec, "xyz"[k]), tol, 1e-30)


# ------------------------------------------------------------------- iono
@st.composite
def iof_cases(draw):
    return {"fmt": draw(st.sampled_from(["fortbin", "jrrle"])), "n": [draw(st.integers(2, 9)), draw(st.integers(2, 9))], "run": draw(st.sampled_from(["r", "a.b"])),
            "tm": draw(times()), "endian": draw(st.sampled_from("<>")), "seed": draw(seeds), "names": draw(st.lists(st.sampled_from(["pot", "fac_tot", "sigp", "bx", "vx"]), min_size=1, max_size=3, unique=True)),
            "flip": draw(st.sampled_from(["auto", "force", False])), "copy": False, "log": None}


def check_iof(case):
    d = fresh()
    nphi, nth = case["n"]
    shape = (nphi, nth)
    out = {}
    for i, t in enumerate(case["tm"]["t"]):
        r = rng(case["seed"] + i)
        fname = os.path.join(d, "{0}.iof.{1:06d}".format(case["run"], t))
        ts = tstr(case["tm"], t)
        if case["fmt"] == "fortbin":
            flds = [(n, r.uniform(-10, 10, shape).astype("f4")) for n in case["names"]]
            ggcm.write_fortbin(fname + ".b", flds, t, ts, case["endian"])
            out[t] = dict(flds)
        else:
            flds = [(n, [int(v) for v in r.randint(0, 4415, nphi * nth)], [bool(v) for v in r.rand(nphi * nth) < 0.5], -3.0, 2.5, shape) for n in case["names"]]
            out[t] = dict(ggcm.write_jrrle(fname, flds, t, ts))
    nontrivial(len(out) > 1)
    label(case["fmt"])
    with settings(case):
        f = viscid.load_file(os.path.join(d, case["run"] + ".iof.*"))
        for g, t in zip(list(f.iter_times()), sorted(out)):
            require(g.time == t, "time {0}, expected {1}", g.time, t)
            for n in case["names"]:
                fld = g[n]
                require(fld.iscentered("node"), "{0} is at {1}", n, fld.center)
                require(list(fld.crds.axes) == ["phi", "theta"], "axes {0}", fld.crds.axes)
                close(fld.get_crd("phi"), np.linspace(0, 360, nphi), "phi", 1e-6, 1e-5)
                close(fld.get_crd("theta"), np.linspace(0, 180, nth), "theta", 1e-6, 1e-5)
                require(fld.crds.get_units(["phi"])[0] in ("deg", "degree", "degrees"), "units {0}", fld.crds.get_units(["phi"]))
                # not turned, whatever is asked for mhd fields
                close(np.asarray(fld.data, dtype="f8"), np.asarray(out[t][n], dtype="f8"), n, 1e-4, 1e-30)


# --------------------------------------------------------------- wrappers
@st.composite
def wrapper_cases(draw):
    return {"fmt": draw(st.sampled_from(["fortbin", "jrrle"])), "endian": draw(st.sampled_from("<>")), "seed": draw(seeds),
            "shape": draw(st.lists(st.integers(1, 9), min_size=1, max_size=3)), "t": draw(st.integers(0, 10**6)),
            "names": draw(st.lists(st.sampled_from(["rr", "b", "bx", "bx1", "pp", "v", "vx", "x" * 30]), min_size=1, max_size=6, unique=True)),
            "ops": draw(st.lists(st.tuples(st.sampled_from(["read", "read", "read", "all", "reopen", "next"]), st.integers(0, 6)), min_size=1, max_size=9))}


def check_wrapper(case):
    """fields are found by name, in any order, whatever else was read before"""
    from viscid.readers import ggcm_fortbin, ggcm_jrrle
    d = fresh()
    shape = tuple(case["shape"])
    if case["fmt"] == "jrrle" and int(np.prod(shape)) < 2:
        raise Discard()
    fn = os.path.join(d, "run.3df.000001")
    r = rng(case["seed"])
    ts = ggcm.timestr(1.0, "1967:01:01:00:00:01.000")
    size = int(np.prod(shape))
    if case["fmt"] == "fortbin":
        flds = [(n, r.uniform(-10, 10, shape).astype("f4")) for n in case["names"]]
        ggcm.write_fortbin(fn, flds, case["t"], ts, case["endian"])
        vals = dict(flds)
        w = ggcm_fortbin.GGCMFortbinFileWrapper(fn)
        args = ()
    else:
        vals = dict(ggcm.write_jrrle(fn, [(n, [int(v) for v in r.randint(0, 4415, size)], [bool(v) for v in r.rand(size) < 0.5], -4.0, 3.0, shape)
                                          for n in case["names"]], case["t"], ts))
        w = ggcm_jrrle.JrrleFileWrapper(fn)
        args = (len(shape), )
    nontrivial(sum(o == "read" for o, _ in case["ops"]) > 1 and len(vals) > 1)
    w.open()
    try:
        for op, i in case["ops"]:
            name = (case["names"] + ["nope"])[i % (len(case["names"]) + 1)]
            if op == "read":
                if name == "nope":
                    raises(lambda: w.read_field(name, *args), "a field that isn't there", KeyError)
                    continue
                meta, arr = w.read_field(name, *args)
                require(tuple(meta["dims"]) == shape and meta["inttime"] == case["t"], "header {0}", meta)
                require(meta["timestr"].strip() == ts, "time string {0!r}", meta["timestr"])
                close(np.asarray(arr, dtype="f8"), vals[name], name, 1e-4, 1e-30)
            elif op == "all":
                w.inquire_all_fields(reinquire=bool(i % 2))
                require(list(w.fields_seen) == case["names"], "fields {0}, expected {1}", list(w.fields_seen), case["names"])
            elif op == "reopen":
                w.close()
                require(not w.isopen, "still open after close")
                w.open()
    finally:
        w.close()


# ------------------------------------------------------------------- logs
VAL = st.one_of(
    st.integers(-10**6, 10**6).map(lambda v: {"s": str(v), "v": v}),
    st.floats(-1e6, 1e6, allow_nan=False).map(lambda v: {"s": "%g" % v, "v": num("%g" % v)}),
    st.lists(st.integers(-500, 500), min_size=2, max_size=4).map(lambda v: {"s": ", ".join(str(x) for x in v), "v": v}),
    st.lists(st.floats(-1e7, 1e7, allow_nan=False), min_size=2, max_size=4).map(lambda v: {"s": ", ".join("%g" % x for x in v), "v": [num("%g" % x) for x in v]}),
    st.sampled_from(["none", "yes", "mirdip_double", "xdmf_serial"]).map(lambda v: {"s": v, "v": v}),
    st.sampled_from(["1967:01:01:00:00:00.000", "2008:02:26:02:00:00.0", "rr1:pp1:b1"]).map(lambda v: {"s": v, "v": v.split(":")}),
)


@st.composite
def log_cases(draw):
    secs = draw(st.lists(st.sampled_from(ggcm_logfile.GGCMLogFile.watched_classes + ["ggcm_diag", "mrc_vec"]), min_size=1, max_size=5, unique=True))
    return {"secs": [[c, [[k, draw(VAL)] for k in draw(st.lists(st.sampled_from(["l", "h", "sw", "dipoltime", "m", "eps", "x_y"]), max_size=4, unique=True))],
                      draw(st.sampled_from([["a"], ["c3_double"], ["fortran"], ["one", "two"]]))] for c in secs],
            "indent": draw(st.integers(0, 3)) * 3, "noise": draw(st.lists(st.sampled_from(["ggcm_init", "", "key | value", "  0 | 'MHD': 2 procs", "-----+---- type -- no"]), max_size=4)),
            "mhd_type": draw(st.sampled_from([None, 0, 1, 2, 3, 4, 5, 9]))}


def check_log(case):
    d = fresh()
    fn = os.path.join(d, "x.log")
    secs = [[c, [(k, v["s"]) for k, v in ps], ty] for c, ps, ty in case["secs"]]
    want = {}
    for c, ps, ty in case["secs"]:
        if c in ggcm_logfile.GGCMLogFile.watched_classes:
            for k, v in ps:
                want[c + "_" + k] = v["v"]
            want[c + "_type"] = ty[-1]
    if case["mhd_type"] is not None and not any(c == "ggcm_mhd_fld" for c, _, _ in case["secs"]):
        secs.append(["ggcm_mhd_fld", [("mhd_type", str(case["mhd_type"]))], ["float"]])
        want["ggcm_mhd_fld_mhd_type"] = case["mhd_type"]
        want["ggcm_mhd_fld_type"] = "float"
    mt = want.get("ggcm_mhd_fld_mhd_type")
    want["ggcm_mhd_fld_mhd_type_str"] = ggcm.MHD_TYPES[mt] if mt is not None and mt < 6 else "UNKNOWN"
    nontrivial(len(want) > 3)
    ggcm.write_log(fn, secs, case["indent"], case["noise"])
    with ggcm_logfile.GGCMLogFile(fn) as lf:
        got = dict(lf.info)
    require(set(got) == set(want), "parameters {0}, expected {1}", sorted(got), sorted(want))
    for k, w in want.items():
        g = got[k]
        if isinstance(w, list):
            require(len(g) == len(w), "{0} = {1!r}, expected {2!r}", k, g, w)
            for a, b in zip(g, w):
                require(a == b and not isinstance(a, str) or isinstance(b, str) and a == b, "{0} = {1!r}, expected {2!r}", k, g, w)
        else:
            require(type(g) is type(w) and g == w, "{0} = {1!r}, expected {2!r}", k, g, w)


# ------------------------------------------------------------------ groups
@st.composite
def group_cases(draw):
    return {"files": draw(st.lists(st.tuples(st.sampled_from(["run", "run.2", "r"]), st.sampled_from(["3d", "py_0", "px_10"]),
                                             st.sampled_from([None, 0, 1, 20, 100, 99999])), min_size=1, max_size=10, unique=True)),
            "seed": draw(seeds)}


def check_groups(case):
    from viscid.readers import ggcm_xdmf
    names = {}
    for run, ft, t in case["files"]:
        n = "/data/{0}.{1}{2}.xdmf".format(run, ft, "" if t is None else ".{0:06d}".format(t))
        names.setdefault(("/data/" + run, ft), []).append((-1 if t is None else t, n))
    want = set()
    for k, v in names.items():
        if len(v) > 1:
            v = [x for x in v if x[0] >= 0]
        want.add(tuple(n for _, n in sorted(v)))
    nontrivial(len(want) > 1)
    allf = [n for v in names.values() for _, n in v]
    allf = [allf[i] for i in rng(case["seed"]).permutation(len(allf))]
    got = ggcm_xdmf.GGCMFileXDMF.group_fnames(allf)
    require(set(tuple(x) for x in got) == want and len(got) == len(want), "groups {0}, expected {1}", got, want)


FACETS = [
    Facet("fortran", cases(), check_ggcm, quick=1200, rule="more than one time step, or a plane"),
    Facet("ionosphere", iof_cases(), check_iof, quick=300, rule="more than one time step"),
    Facet("by_name", wrapper_cases(), check_wrapper, quick=800, rule="more than one field, read more than once"),
    Facet("logfile", log_cases(), check_log, quick=800, rule="more than three parameters"),
    Facet("groups", group_cases(), check_groups, quick=800, rule="more than one group"),
]
