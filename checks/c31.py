"""C31: work split into chunks, threads and processes gives what doing it in one go gives"""
import copy
import multiprocessing as mp
import os
import pickle
import shutil

import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import multiplot, parallel
from vf.core import Facet, eq_arr, label, nontrivial, rarr, require, seeds
from vf.fields import ambiguous, grid_specs, scalar_field, sshape, vector_field


# ------------------------------------------------------------------ chunks
@st.composite
def chunk_cases(draw):
    if draw(st.integers(0, 9)) == 0:
        # many
        n = draw(st.sampled_from([1000, 40000, 70001, 300000]))
        return {"n": n, "k": draw(st.integers(1, 20)), "size": draw(st.sampled_from([None, n // 3, n // 2 + 1, n])), "kind": draw(st.sampled_from(["array", "range"]))}
    return {"n": draw(st.integers(0, 60)), "k": draw(st.integers(1, 20)), "size": draw(st.one_of(st.none(), st.integers(1, 25))),
            "kind": draw(st.sampled_from(["list", "tuple", "array", "range", "str"]))}


def check_chunks(case):
    n, k, size = case["n"], case["k"], case["size"]
    kw = {} if size is None else {"size": size}
    slcs = parallel.chunk_slices(n, k, **kw)
    nc = len(slcs)
    if size is None:
        require(nc == k, "{0} chunks, not {1}", nc, k)
    elif n:
        # about size elements each
        lens = [b - a for a, b in slcs]
        require(max(lens) <= size and (nc == 1 or max(lens) > size / 2), "chunks of {0} when {1} of {2} were asked for", lens, size, n)
    lens = [b - a for a, b in slcs]
    require(sum(lens) == n and max(lens) - min(lens) <= 1 and lens == sorted(lens, reverse=True), "chunks {0} of {1}", slcs, n)
    at = 0
    for a, b in slcs:
        require(a == at and b >= a, "chunks {0} have gaps or overlap", slcs)
        at = b
    sizes = parallel.chunk_sizes(n, k, **kw)
    require(list(sizes) == lens, "chunk_sizes {0}, slices {1}", sizes, slcs)
    seq = {"list": list(range(n)), "tuple": tuple(range(n)), "array": np.arange(n), "range": range(n), "str": "".join(chr(65 + i) for i in range(n))}[case["kind"]]
    parts = parallel.chunk_list(seq, k, **kw)
    require(len(parts) == nc, "{0} parts, {1} slices", len(parts), nc)
    for p, (a, b) in zip(parts, slcs):
        require(list(p) == list(seq[a:b]), "chunk {0} of {1} is {2}", (a, b), seq, p)
    inter = parallel.chunk_interslices(k)
    require(len(inter) == k, "{0} staggered chunks, not {1}", len(inter), k)
    got = sorted(i for s in inter for i in range(n)[slice(*s)])
    require(got == list(range(n)), "staggered chunks {0} have {1}", inter, got)
    if size is None:
        require([len(range(n)[slice(*s)]) for s in inter] == lens, "sizes of staggered chunks")
    nontrivial(n > k > 1 and n % k)


# --------------------------------------------------------------------- map
class Oops(Exception):
    pass


def work(a, b=0, scale=1, bad=None):
    if bad is not None and a == bad:
        raise Oops("bad")
    return [a * scale, b, np.full((2,), a)]


def nested(a, b=0, scale=1, bad=None):
    # only possible if the processes may have children
    with mp.Pool(1) as p:
        r = p.map(abs, [-a])
    return [r[0] * scale, b, np.full((2,), a)]


@st.composite
def map_cases(draw):
    return {"n": draw(st.integers(0, 12)), "two": draw(st.booleans()), "scale": draw(st.sampled_from([None, 3])),
            "procs": draw(st.sampled_from([1, 1, 2, 3, "2", " AUTO ", 2.0])), "mode": draw(st.sampled_from(["serial", "threads", "procs", "force", "pool", "tpool", "nodaemon", "async", "athreads"])),
            "gen": draw(st.booleans()), "bad": draw(st.one_of(st.none(), st.none(), st.integers(0, 11)))}


def check_map(case):
    n, mode = case["n"], case["mode"]
    procs = 1 if mode == "serial" else case["procs"]
    args = [(i, -i) if case["two"] else (i,) for i in range(n)]
    kw = {"scale": case["scale"]} if case["scale"] else {}
    bad = case["bad"] if case["bad"] is not None and case["bad"] < n else None
    if bad is not None:
        kw["bad"] = bad
    func = nested if mode == "nodaemon" and n and n < 4 and bad is None else work
    it = (a for a in args) if case["gen"] else args
    pkw = {"args_kw": kw} if kw or case["gen"] else {}
    kw0 = dict(kw)
    label(mode)
    pool = None
    done = []
    if mode in ("threads", "athreads", "tpool"):
        # threads can do work that can't be sent to another process, and its effects are seen here
        def func(a, b=0, **kwargs):
            done.append(a)
            return work(a, b, **kwargs)

    def run():
        if mode in ("async", "athreads"):
            p, r = parallel.map_async(procs, func, it, threads=mode == "athreads", **pkw)
            try:
                return r.get(100)
            finally:
                p.join()
        opts = {"serial": {}, "procs": {}, "threads": {"threads": True}, "force": {"force_subprocess": True}, "pool": {"pool": pool}, "tpool": {"pool": pool}, "nodaemon": {"daemonic": False, "force_subprocess": True}}[mode]
        return parallel.map(procs, func, it, **dict(pkw, **opts))

    try:
        if mode == "pool":
            pool = mp.Pool(2)
        elif mode == "tpool":
            # its work is done here
            pool = mp.pool.ThreadPool(2)
        try:
            got = run()
        except Oops:
            require(bad is not None, "the function raised")
            got = None
        if bad is not None:
            require(got is None, "an exception of the function was lost, got {0}", got)
        else:
            check_result(got, n, case)
            require(func is work or func is nested or sorted(done) == list(range(n)), "{0} done in threads, not {1} tasks", done, n)
        if pool is not None and n:
            # and it can be used again
            it = list(args)
            kw.pop("bad", None)
            pkw = {"args_kw": kw}
            kw0 = dict(kw)
            check_result(parallel.map(procs, func, it, pool=pool, **pkw), n, case)
    finally:
        if pool is not None:
            pool.close()
            pool.join()
    require(kw == kw0, "the keyword arguments were changed")
    nontrivial(n > 2 and mode != "serial")


def check_result(got, n, case):
    require(len(got) == n, "{0} results for {1} arguments", len(got), n)
    for i, r in enumerate(got):
        require(r[0] == i * (case["scale"] or 1) and r[1] == (-i if case["two"] else 0) and (r[2] == i).all(), "result {0} is {1}", i, r)


# --------------------------------------------------------------- multiplot
_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c31-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


def plot(tind, grid, first_run=False, first_run_result=None, out=None, extra=None, kwopts=None):
    with open(os.path.join(out, "log"), "a") as fh:
        fh.write("{0} {1!r} {2!r} {3} {4} {5}\n".format(tind, float(grid.time), float(grid["q"].data.sum()), int(first_run), first_run_result, extra))
    return 1000 + tind if first_run else None


@st.composite
def multi_cases(draw):
    n = draw(st.integers(1, 6))
    return {"n": n, "procs": draw(st.sampled_from([1, 1, 2])), "slc": draw(st.sampled_from([":", "::2", "1:", ":3", "-1", "0", "10j:", "::-1", "1:1"])),
            "kwopts": draw(st.booleans()), "sub": draw(st.booleans())}


def check_multi(case):
    d = fresh()
    n = case["n"]
    crds = viscid.arrays2crds([np.linspace(0, 1, 4)] * 3)
    ts = viscid.dataset.DatasetTemporal(name="ts")
    for i in range(n):
        g = viscid.grid.Grid(name="g{0}".format(i), time=5.0 * i)
        g.add_field(viscid.wrap_field(np.full((4, 4, 4), float(i)), crds, name="q", center="node"))
        ts.add(g)
    slc = case["slc"]
    if slc == "10j:":
        idx = [i for i in range(n) if 5.0 * i >= 10.0]
    elif slc in ("-1", "0"):
        idx = [range(n)[int(slc)]]
    else:
        idx = list(range(n))[slice(*[int(x) if x else None for x in slc.split(":")])]
    kw = {"out": d, "extra": 7}
    if case["kwopts"]:
        kw["kwopts"] = {"subplot_params": {"left": 0.1}} if case["sub"] else {}
    try:
        multiplot.make_multiplot(ts, plot_func=plot, nr_procs=case["procs"], time_slice=slc, **kw)
    except ValueError:
        require(not idx, "times {0} were not found", slc)
        return
    require(idx, "no times in {0}, but there was no error", slc)
    lines = [ln.split() for ln in open(os.path.join(d, "log"))]
    if case["procs"] > 1:
        lines = lines[:1] + sorted(lines[1:])
    has = case["kwopts"] and case["sub"]
    want = [[str(j), repr(5.0 * i), repr(64.0 * i), str(int(j == 0 and not has)), "None" if j == 0 or has else "1000", "7"] for j, i in enumerate(idx)]
    if case["procs"] > 1:
        want = want[:1] + sorted(want[1:]) if not has else sorted(want)
        lines = lines if not has else sorted(lines)
    require(lines == want, "plots {0}, expected {1}", lines, want)
    nontrivial(len(idx) > 2)


# ------------------------------------------------- what is sent to a worker
SEEDS = ["point", "mesh", "line", "spline", "plane", "volume", "sphere", "cap", "circle", "patch"]


@st.composite
def send_cases(draw):
    return {"spec": draw(grid_specs(nd=(1, 3), n=(2, 5))), "kind": draw(st.sampled_from(["scalar", "flat", "interlaced"])),
            "part": draw(st.sampled_from(["all", "all", "slice", "loc", "comp", "T", "crds"])), "what": draw(st.sampled_from(["field", "field", "grid", "temporal", "spatial", "seeds", "cotr", "file", "amr"])),
            "how": draw(st.sampled_from([0, 2, pickle.HIGHEST_PROTOCOL, "copy", "proc"])), "seeds": draw(st.sampled_from(SEEDS)), "cache": draw(st.booleans()),
            "seed": draw(seeds), "time": draw(st.sampled_from([0.0, 7.5, -3.0])), "before": draw(st.booleans())}


def same_crds(a, b, msg):
    require(type(a) is type(b), "{0}: {1} instead of {2}", msg, type(a), type(b))
    require(list(a.axes) == list(b.axes), "{0}: axes {1} instead of {2}", msg, a.axes, b.axes)
    for ax in b.axes:
        for c in ("node", "cell"):
            eq_arr(a.get_crd(ax, center=c), b.get_crd(ax, center=c), "{0}: {1} {2}".format(msg, c, ax), dtype=True)
    eq_arr(a.xl_nc, b.xl_nc, msg + ": xl")
    eq_arr(a.xh_nc, b.xh_nc, msg + ": xh")
    require(a.units == b.units, "{0}: units {1} instead of {2}", msg, a.units, b.units)


def same_field(a, b, msg):
    require(type(a) is type(b), "{0}: {1} instead of {2}", msg, type(a), type(b))
    for k in ("name", "pretty_name", "center", "layout", "fldtype", "nr_comps", "time", "shape", "sshape"):
        va, vb = getattr(a, k), getattr(b, k)
        require(va == vb, "{0}: {1} is {2!r}, not {3!r}", msg, k, va, vb)
    eq_arr(a.data, b.data, msg + ": data", dtype=True)
    same_crds(a.crds, b.crds, msg)
    for k in ("some info", "a list"):
        require(a.find_info(k, None) == b.find_info(k, None), "{0}: {1} is {2!r}, not {3!r}", msg, k, a.find_info(k, None), b.find_info(k, None))
    eq_arr(np.asarray(a + a), np.asarray(b + b), msg + ": twice")
    if a.nr_comps:
        eq_arr(getattr(a["y"], "data", a["y"]), getattr(b["y"], "data", b["y"]), msg + ": y component")


def mk_send(case, name="q", off=0):
    spec = case["spec"]
    if case["kind"] == "scalar":
        f = scalar_field(spec, rarr(case["seed"] + off, sshape(spec)), name=name, time=case["time"])
    else:
        if ambiguous(sshape(spec), 3):
            f = scalar_field(spec, rarr(case["seed"] + off, sshape(spec)), name=name, time=case["time"])
        else:
            f = vector_field(spec, rarr(case["seed"] + off, (3,) + sshape(spec)), case["kind"], name=name, time=case["time"])
    f.set_info("some info", 3.5)
    f.set_info("a list", ["a", 1])
    part = case["part"]
    if part == "slice":
        f = f[::2]
    elif part == "loc":
        ax = spec["names"][0]
        x = f.get_crd(ax)
        f = f["{0} = {1}j:".format(ax, float(x[len(x) // 2]))]
    elif part == "comp" and f.nr_comps:
        f = f["z"]
    elif part == "T":
        f = f.T
    return f


def mk_seedgen(case):
    c, k = {"cache": case["cache"]}, case["seeds"]
    p = rarr(case["seed"], (3, 6), lo=-2, hi=2)
    if k == "point":
        return viscid.Point(p, **c)
    elif k == "mesh":
        return viscid.MeshPoints(p.reshape(3, 2, 3), **c)
    elif k == "line":
        return viscid.Line(p[:, 0], p[:, 1], 5, **c)
    elif k == "spline":
        return viscid.Spline(p, 9, **c)
    elif k == "plane":
        return viscid.Plane(p[:, 0], p[:, 1], p[:, 2], 2.0, 3.0, 4, 5, **c)
    elif k == "volume":
        return viscid.Volume(-1 - p[:, 0]**2, 1 + p[:, 1]**2, (3, 1, 5), **c)
    elif k == "sphere":
        return viscid.Sphere(p[:, 0], r=2.0, pole=p[:, 1], ntheta=4, nphi=5, **c)
    elif k == "cap":
        return viscid.SphericalCap(p0=p[:, 0], r=2.0, pole=p[:, 1], angle=30, ntheta=4, nphi=5, **c)
    elif k == "circle":
        return viscid.Circle(p0=p[:, 0], r=2.0, pole=p[:, 1], n=7, **c)
    else:
        return viscid.SphericalPatch(p0=(0, 0, 0), p1=p[:, 1], max_alpha=30, max_beta=20, nalpha=4, nbeta=5, r=2.0, **c)


def echo(x, b=0):
    return x


def send(x, how):
    if how == "copy":
        return copy.deepcopy(x)
    elif how == "proc":
        # or a pool would wait forever for a result that can't be read
        pickle.loads(pickle.dumps(x))
        return parallel.map(2, echo, [(x,), (x,)], force_subprocess=True)[1]
    return pickle.loads(pickle.dumps(x, protocol=how))


def check_send(case):
    what, how = case["what"], case["how"]
    viscid.unload_all_files()
    label(what, how)
    if what == "field":
        f = mk_send(case)
        if not isinstance(f, viscid.field.Field):
            return
        if case["part"] == "crds":
            same_crds(send(f.crds, how), f.crds, "sent coordinates")
        else:
            d0 = np.array(f.data)
            g = send(f, how)
            same_field(g, f, "a sent field")
            require(not np.shares_memory(g.data, f.data), "a sent field shares memory")
            g.data[...] = 0
            eq_arr(f.data, d0, "the field that was sent")
        nontrivial(f.data.size > 3)
    elif what in ("grid", "temporal", "spatial", "file"):
        gs = []
        for i in range(3 if what in ("temporal", "spatial") else 1):
            g = viscid.grid.Grid(name="g{0}".format(i), time=5.0 * i)
            case_i = dict(case, part="all", time=5.0 * i)
            for j, nm in enumerate("qr"):
                g.add_field(mk_send(case_i, nm, 10 * i + j))
            gs.append(g)
        if what == "grid":
            x = gs[0]
        elif what == "file":
            if len(case["spec"]["names"]) < 3 or np.prod(sshape(case["spec"])) == 1:
                return
            d = fresh()
            fn = os.path.join(d, "run.h5")
            viscid.save_fields(fn, [gs[0]["q"], gs[0]["r"]], complevel=0)
            x = viscid.load_file(os.path.join(d, "run.xdmf"))
        else:
            x = viscid.dataset.DatasetTemporal(name="ts") if what == "temporal" else viscid.dataset.Dataset(name="ds")
            for g in gs:
                x.add(g)
        if case["before"]:
            # something was looked at before
            x.get_field("q").data
        y = send(x, how)
        if what == "temporal":
            require(y.nr_times() == 3, "{0} times", y.nr_times())
            pairs = list(zip(y.iter_times(":"), gs))
        elif what == "spatial":
            pairs = [(y.get_child(i), g) for i, g in enumerate(gs)]
        elif what == "file":
            pairs = [(y.get_grid(), x.get_grid())]
        else:
            pairs = [(y, gs[0])]
        for a, b in pairs:
            require(a.time == b.time, "time {0} instead of {1}", a.time, b.time)
            require(a.name == b.name, "name {0} instead of {1}", a.name, b.name)
            for nm in "qr":
                same_field(a[nm], b[nm], "a field of a sent " + what)
        nontrivial()
    elif what == "amr":
        ds = viscid.dataset.Dataset(name="amr")
        for i in range(3):
            g = viscid.grid.Grid(name="p{0}".format(i))
            crds = viscid.arrays2crds([np.linspace(i, i + 1, 3), np.linspace(0, 1, 3), np.linspace(0, 1, 4)])
            g.add_field(viscid.wrap_field(rarr(case["seed"] + i, (2, 2, 3)), crds, name="q", center="cell"))
            ds.add(g)
        x = viscid.amr_grid.dataset_to_amr_grid(ds)[0]
        if case["before"]:
            (x["q"] + 1)
        f, (y, z) = x["q"], send((x["q"], x), how)
        pts = np.array([[0.1, 1.7, 2.9], [0.2, 0.9, 0.4], [0.3, 0.3, 0.8]])
        want = viscid.interp_trilin(f, viscid.Point(pts))
        for g in (y, z["q"], y * 1):
            require(len(g.patches) == 3 and g.name in ("q", f.name), "{0} patches", len(g.patches))
            for a, b in zip(g.patches, f.patches):
                eq_arr(a.data, b.data, "patch of a sent AMR field")
                same_crds(a.crds, b.crds, "patch of a sent AMR field")
            eq_arr(g.skeleton.xl, f.skeleton.xl, "xl of patches")
            eq_arr(g.skeleton.neighbors, f.skeleton.neighbors, "neighbors of patches")
            eq_arr(viscid.interp_trilin(g, viscid.Point(pts)), want, "interpolation of a sent AMR field")
        nontrivial()
    elif what == "seeds":
        s = mk_seedgen(case)
        if case["before"]:
            s.points()
        t = send(s, how)
        require(type(t) is type(s), "{0} instead of {1}", type(t), type(s))
        eq_arr(t.points(), s.points(), "points of sent seeds", dtype=True)
        require(t.nr_points == s.nr_points, "{0} points, not {1}", t.nr_points, s.nr_points)
        if case["seeds"] in ("plane", "volume", "sphere", "cap", "patch", "mesh"):
            eq_arr(t.as_mesh(), s.as_mesh(), "mesh of sent seeds")
        nontrivial()
    else:
        c = viscid.Cotr(np.datetime64("2010-06-21T{0:02d}:00:00".format(case["seed"] % 24)), dip_tilt=[None, 10.0, -20.0][case["seed"] % 3], dip_gsm=[None, 5.0][case["seed"] % 2])
        v = rarr(case["seed"], (3, 4))
        if case["before"]:
            c.transform("gse", "sm", v)
        e = send(c, how)
        for to in ("gsm", "sm", "mhd", "geo"):
            eq_arr(e.transform("gse", to, v), c.transform("gse", to, v), "a sent transformation to " + to)
        require(e.dip_tilt == c.dip_tilt and e.dip_gsm == c.dip_gsm and e.dip_tilt is not None, "tilt {0}, not {1}", e.dip_tilt, c.dip_tilt)
        nontrivial()


FACETS = [
    Facet("send", send_cases(), check_send, quick=300, thorough=20000, rule="more than three values are sent"),
    Facet("chunks", chunk_cases(), check_chunks, quick=1000, rule="chunks of different sizes"),
    Facet("map", map_cases(), check_map, quick=150, thorough=1500, rule="more than two arguments, not in series"),
    Facet("multiplot", multi_cases(), check_multi, quick=60, thorough=600, rule="more than two times"),
]
