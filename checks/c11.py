"""C11: streamlines are field lines, they end where they say, and how they're calculated (threads,
processes, chunks, order of seeds) doesn't matter"""
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.cython import streamline as _sl
from checks.c09 import NAMES, crd_of, to3
from vf import trace
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds
from vf.fields import ambiguous, grid_specs, spec_arrs, sshape, vector_field

METHODS = ["euler", "euler1", "rk2", "rk4", "euler1a", "rk12", "rk45"]
OBOUND = dict(XL=24, XH=40, YL=72, YH=136, ZL=264, ZH=520, R=1032)


@st.composite
def fields(draw, nd=(2, 3)):
    spec = draw(grid_specs(nd=nd, n=(3, 7), kinds=draw(st.sampled_from(["u", "n", "un"]))))
    spec["names"] = draw(st.sampled_from(NAMES[len(spec["n"])]))
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "kind": draw(st.sampled_from(["noise", "smooth", "smooth", "swirl", "holes"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i4"]))}


def mk_field(case):
    spec = case["spec"]
    shp = sshape(spec)
    if ambiguous(shp, 3) or len(shp) == 1:
        raise Discard()
    crd = crd_of(spec)
    X = dict(zip(spec["names"], np.meshgrid(*crd, indexing="ij")))
    L = dict((a, c[-1] - c[0]) for a, c in zip(spec["names"], crd))
    z = np.zeros(shp)
    x, y, w = [(X[a] - X[a].mean()) / L[a] if a in X else z for a in "xyz"]
    r = rng(spec["seed"] + 3)
    kind = case["kind"]
    noise = rarr(spec["seed"] + 1, (3,) + shp, "f", lo=-1, hi=1)
    if kind == "noise":
        d = noise
    elif kind == "swirl":
        d = np.array([-y, x, 0.2 + 0.0 * x]) + 0.05 * noise
    else:
        c = r.uniform(-1, 1, size=(3, 4))
        d = np.array([a[0] + a[1] * x + a[2] * y + a[3] * w for a in c]) + 0.1 * noise
        if kind == "holes":
            d[:, (x**2 + y**2 + w**2) < 0.15] = 0.0
    if case["dtype"] == "i4":
        d = np.round(9 * d)
    d = d.astype(case["dtype"])
    f = vector_field(spec, d, case["layout"])
    d3, crd3 = to3(spec, d, crd, 3)
    for i, a in enumerate("xyz"):
        # fields don't go anywhere along an axis that isn't there
        if a not in spec["names"]:
            d3[i] = 0.0
    return f, d3, crd3


def vfn(d3, crd3, rev=1.0):
    return lambda x: rev * trace.interp(d3, crd3, x)


def mk_seeds(spec, seed, n):
    r = rng(seed + 11)
    arrs = dict(zip(spec["names"], spec_arrs(spec)))
    pts = np.zeros((3, n))
    for i, a in enumerate("xyz"):
        if a in arrs:
            lo, hi = arrs[a][0], arrs[a][-1]
            pts[i] = r.uniform(lo + 0.02 * (hi - lo), hi - 0.02 * (hi - lo), n)
        else:
            pts[i] = r.uniform(-1, 1, n)
    return pts


def min_dx(spec):
    return min(np.diff(a).min() for a in spec_arrs(spec))


@st.composite
def line_cases(draw, **kw):
    c = draw(fields(**kw))
    c["n"] = draw(st.integers(1, 6))
    c["method"] = draw(st.sampled_from(METHODS))
    c["ds"] = draw(st.sampled_from([["frac", 0.5], ["frac", 0.2], ["abs", 0.3], ["abs", 0.1]]))
    c["dir"] = draw(st.sampled_from([3, 3, 1, 2]))
    c["maxit"] = draw(st.sampled_from([1, 7, 60, 60, 200]))
    c["max_length"] = draw(st.sampled_from([None, None, 0.5, 2.0, 6.0]))
    c["ibound"] = draw(st.sampled_from([None, None, 0.7, 2.0]))
    c["obound_r"] = draw(st.sampled_from([None, None, 3.0, 5.0]))
    c["obound"] = draw(st.sampled_from([None, None, 0.25, -0.2]))
    c["err"] = draw(st.sampled_from([None, None, 1e-3, 1e-1]))
    if c["method"] == "rk45":
        # in noise, rk45 steps can be much shorter than h
        c["kind"] = "smooth" if c["kind"] == "noise" else c["kind"]
        c["err"] = min(c["err"], 1e-2) if c["err"] else None
    c["lims"] = draw(st.sampled_from([None, None, [0.3, 1.5], [1.0, 1.0]]))
    return c


def opts(case):
    spec = case["spec"]
    m = min_dx(spec)
    kw = dict(method=case["method"], stream_dir=case["dir"], maxit=case["maxit"])
    how, v = case["ds"]
    if how == "frac":
        kw["ds0_frac"] = v
        ds0 = v * m
    else:
        kw["ds0"] = ds0 = v * m * 2
    small, large = 1e-2 * ds0, 1e2 * ds0
    if case["lims"]:
        if case["spec"]["seed"] % 2:
            kw["smallest_ds_frac"], kw["largest_ds_frac"] = case["lims"]
        else:
            kw["smallest_ds"], kw["largest_ds"] = [ds0 * v for v in case["lims"]]
        small, large = [ds0 * v for v in case["lims"]]
    arrs = dict(zip(spec["names"], spec_arrs(spec)))
    o0 = np.array([arrs[a][0] if a in arrs else -np.inf for a in "xyz"])
    o1 = np.array([arrs[a][-1] if a in arrs else np.inf for a in "xyz"])
    if case["obound"] is not None:
        # closer / further than the grid
        L = np.where(np.isfinite(o1 - o0), o1 - o0, 0.0)
        o0 = np.where(np.isfinite(o0), o0 + case["obound"] * L, -50.0)
        o1 = np.where(np.isfinite(o1), o1 - case["obound"] * L, 50.0)
        kw["obound0"], kw["obound1"] = o0, o1
    for k in ("ibound", "obound_r", "max_length"):
        if case[k] is not None:
            kw[k] = case[k]
    if case["err"] is not None:
        kw["max_error"] = case["err"]
    tol = case["err"] or {"euler1a": 4e-2, "rk12": 1.5e-2, "rk45": 1e-5}.get(case["method"])
    return kw, ds0, small, large, o0, o1, tol


def classify(case, p, o0, o1):
    """where a line that gets to p ends, 0 if it goes on"""
    rsq = float((p**2).sum())
    if case["ibound"] and rsq < case["ibound"]**2:
        return 3 if p[2] >= 0 else 5
    if case["obound_r"] and rsq > case["obound_r"]**2:
        return OBOUND["R"]
    for i, a in enumerate("XYZ"):
        if p[i] < o0[i]:
            return OBOUND[a + "L"]
    for i, a in enumerate("XYZ"):
        if p[i] > o1[i]:
            return OBOUND[a + "H"]
    return 0


def near_bound(case, p, o0, o1, eps):
    r = np.sqrt((p**2).sum())
    return (any(abs(v - w) < eps for v, w in zip(p, o0)) or
            any(abs(v - w) < eps for v, w in zip(p, o1)) or
            any(case[k] and abs(r - case[k]) < eps for k in ("ibound", "obound_r")))


def check_lines(case):
    spec = case["spec"]
    f, d3, crd3 = mk_field(case)
    pts = mk_seeds(spec, spec["seed"], case["n"])
    kw, ds0, small, large, o0, o1, tol = opts(case)
    f4 = case["dtype"] == "f4"
    eps = 2e-5 if f4 else 1e-9
    if f4:
        pts = pts.astype("f4").astype("f8")
    lines, topo = viscid.calc_streamlines(f, viscid.Point(pts), topo_style="generic", wrap=False,
                                          **kw)
    adaptive = case["method"] in trace.ADAPTIVE
    label(case["method"], case["kind"], "{0}d".format(len(spec["n"])), spec["center"])
    require(len(lines) == case["n"] and topo.shape == (case["n"], ), "nr of lines")
    scale = max(np.abs(a).max() for a in spec_arrs(spec)) + 1.0
    for il in range(case["n"]):
        line = np.asarray(lines[il], dtype="f8")
        x0 = pts[:, il]
        require(line.ndim == 2 and line.shape[0] == 3, "shape of a line {0}", line.shape)
        require(np.all(np.isfinite(line)), "line has non finite points")
        at = np.flatnonzero(np.all(line == x0[:, None], axis=0))
        require(len(at) > 0, "line {0} doesn't go through its seed {1}", il, x0)
        nb = line.shape[1] - 1
        if case["dir"] == 1:
            require(at[0] == 0, "forward line doesn't start at its seed")
            at = at[:1]
        elif case["dir"] == 2:
            require(at[-1] == nb, "backward line doesn't end at its seed")
            at = at[-1:]
        elif len(at) > 1:
            continue
        at = at[0]
        flags = 0
        open_end = False
        for sgn, half in ((-1.0, line[:, :at + 1][:, ::-1]), (1.0, line[:, at:])):
            if not case["dir"] & (2 if sgn < 0 else 1):
                continue
            nstep = half.shape[1] - 1
            require(nstep <= case["maxit"], "more than maxit steps: {0}", nstep)
            if nstep > 2:
                nontrivial()
            # -- each step is a step of the integrator
            x, dx = half[:, :-1], np.diff(half, axis=1)
            seg = np.sqrt((dx**2).sum(axis=0))
            vmax = np.abs(d3).max()
            if not f4 and case["dtype"] != "i4":
                require(np.all(seg[:-1] > 0), "line {0} stands still", il)
            if nstep:
                L = np.maximum(seg, 1e-300)
                if adaptive:
                    d, err, vmin, h = trace.step_of_length(vfn(d3, crd3), case["method"], x, L, sgn)
                else:
                    h = np.full(nstep, ds0)
                    d, err, vmin = trace.step(vfn(d3, crd3), case["method"], x, sgn * h)
                trimmed = np.zeros(nstep, dtype=bool)
                trimmed[-1] = case["max_length"] is not None
                ok = (vmin > (1e-2 if f4 else 1e-6) * vmax) & ~trimmed
                dtol = (1e-4 if f4 else 1e-8) * (scale + ds0)
                bad = ok & (np.abs(d - dx).max(axis=0) > dtol)
                if adaptive:
                    for k in np.flatnonzero(bad):
                        d[:, k], err[k], vmin[k], h[k] = trace.step_matching(
                            vfn(d3, crd3), case["method"], x[:, k], dx[:, k], sgn, 0.1 * dtol)
                    ok = (vmin > (1e-2 if f4 else 1e-6) * vmax) & ~trimmed
                    # next to a null, rk45 steps can be very much shorter than h
                    undecided = bad & (seg < 0.1 * ds0)
                    bad = ok & (np.abs(d - dx).max(axis=0) > dtol)
                    ok = ok & ~(undecided & bad)
                    bad = bad & ok
                if np.any(bad):
                    k = int(np.argmax(bad))
                    require(False, "step {0} of line {1}, from {2}: {3} is not a {4} step of the "
                            "field: {5}", k, il, x[:, k], dx[:, k], case["method"], d[:, k])
                if adaptive:
                    good = ok & (seg > 1e-3 * ds0)
                    require(np.all(h[good] <= large * 1.001 + eps * scale),
                            "step longer than largest_ds: {0} {1}", h[good].max(initial=0), large)
                    require(np.all(h[ok] >= min(small, ds0) * 0.999 - 10 * eps * scale),
                            "step shorter than smallest_ds: {0} {1}", h[ok].min(initial=9e9), small)
                    if not f4 and case["method"] != "euler1a":
                        big = good & (h > small * 1.001)
                        require(np.all(err[big] <= tol * 1.01 + 1e-9),
                                "error of a step {0} > max_error {1}",
                                err[big].max(initial=0), tol)
                if trimmed[-1] and ok[:-1].all() and vmin[-1] > 1e-2 * vmax:
                    # the last step may have been cut short
                    if case["method"] not in ("rk45",):
                        c = np.dot(d[:, -1], dx[:, -1]) / max(np.linalg.norm(d[:, -1]) * seg[-1], 1e-300)
                        require(seg[-1] < 1e-4 * ds0 + 10 * eps * scale or c > 1 - 1e-3,
                                "the last segment points the wrong way, cos = {0}", c)
                    if not adaptive:
                        require(seg[-1] <= np.linalg.norm(d[:, -1]) * (1 + 1e-6) + 10 * eps * scale,
                                "the last segment is too long")
            if case["max_length"] is not None:
                total = seg.sum()
                require(total <= case["max_length"] * (1 + 1e-5) + 1e-9,
                        "length {0} > max_length", total)
            # -- it goes on until, and only until, it should end
            for k in range(1, nstep):
                p = half[:, k]
                if classify(case, p, o0, o1) and not near_bound(case, p, o0, o1, eps * scale):
                    require(False, "line goes on after it should have ended, at {0}", p)
            if nstep:
                p = half[:, -1]
                if near_bound(case, p, o0, o1, eps * scale):
                    open_end = True
                    continue
                c = classify(case, p, o0, o1)
            else:
                c = 0
            if c:
                flags |= c
                label("bound")
                continue
            # not at a boundary, so why did it stop
            used = seg.sum()
            vend = np.abs(trace.interp(d3, crd3, half[:, -1:])).max()
            # topology has the reasons of both halves
            why = []
            if nstep == case["maxit"]:
                why.append(12288)
            if case["max_length"] is not None and (
                    adaptive or nstep >= np.floor(case["max_length"] / ds0 * (1 - 1e-5))) and (
                    # rk4's steps are shorter than ds0 where the field turns, and
                    # rk45 may stand still next to a null
                    case["method"] == "rk4" or (case["method"] == "rk45" and vend < 0.1 * vmax) or
                    abs(used - case["max_length"]) < 1e-4 * case["max_length"]):
                why.append(20480)
            d, err, vm = trace.step(vfn(d3, crd3), case["method"], half[:, -1:],
                                    sgn * np.array([ds0]))
            if (not vm[0] > 1e-5 * vmax if not adaptive else
                    case["kind"] == "holes" or vend < 0.9 * vmax):
                why.append(69632)
            got = [c for c in why if int(topo[il]) & c == c]
            require(got, "line {0} ends at {1}, after {2} steps and length {3}, for no reason, "
                    "topology {4}", il, half[:, -1], nstep, used, topo[il])
            label(*got)
            if len(got) > 1:
                open_end = True
            flags |= got[0]
        if not open_end:
            require(int(topo[il]) == flags, "topology {0} != {1}", topo[il], flags)


# ---------------------------------------------------------------- same lines
@st.composite
def same_cases(draw):
    c = draw(line_cases())
    c["n"] = draw(st.integers(1, 9))
    c["maxit"] = draw(st.sampled_from([7, 40]))
    c["procs"] = draw(st.sampled_from([1, 2, 3, 8]))
    c["threads"] = draw(st.sampled_from([True, True, True, False]))
    c["chunk"] = draw(st.sampled_from([1, 2, 5]))
    c["force"] = draw(st.sampled_from([False, False, False, False, True]))
    c["seeds"] = draw(st.sampled_from(["Point", "array", "list", "Volume", "Line", "Plane", "Sphere",
                                       "field"]))
    c["style"] = draw(st.sampled_from(["generic", "msphere"]))
    return c


def ms_topo(flags):
    """END_* flags -> magnetosphere topology"""
    flags = int(flags)
    if flags & 4096:
        return flags
    i = flags & 7
    o = flags & 8
    if i and o:
        return {3: 2, 5: 4, 7: 2}[i]
    if i:
        return 1
    return 8


def check_same(case):
    spec = case["spec"]
    f, d3, crd3 = mk_field(case)
    n = case["n"]
    pts = mk_seeds(spec, spec["seed"], n)
    kw = opts(case)[0]
    kind = case["seeds"]
    arrs = dict(zip(spec["names"], spec_arrs(spec)))
    lo = np.array([arrs[a][0] if a in arrs else -0.5 for a in "xyz"])
    hi = np.array([arrs[a][-1] if a in arrs else 0.5 for a in "xyz"])
    mid, L = 0.5 * (lo + hi), hi - lo
    shape = None
    if kind in ("Point", "array", "list"):
        if n == 3 and kind != "Point":
            n = 4
            pts = mk_seeds(spec, spec["seed"], n)
        s = {"Point": viscid.Point, "array": lambda p: p, "list": lambda p: p.tolist()}[kind](pts)
    elif kind == "Volume":
        s = viscid.Volume(mid - 0.3 * L, mid + 0.35 * L, n=(2, 3, 2))
        shape = (2, 3, 2)
    elif kind == "Line":
        s = viscid.Line(mid - 0.3 * L, mid + 0.35 * L, n=n + 1)
    elif kind == "Plane":
        s = viscid.Plane(mid, [0.1, 0.2, 1.0], [1, 0.3, 0], 0.5, 0.7, nl=2, nm=3)
        shape = None
    elif kind == "Sphere":
        s = viscid.Sphere(mid, r=0.2 * L.min(), ntheta=3, nphi=4)
    else:
        s = viscid.zeros([np.linspace(a, b, 3) for a, b in zip(mid - 0.3 * L, mid + 0.35 * L)],
                         center=["node", "cell"][spec["seed"] % 2])
        shape = tuple(s.shape)
    pts = s.get_points() if hasattr(s, "get_points") else pts
    n = pts.shape[1]
    label(kind, "procs {0}".format(case["procs"]), "threads" if case["threads"] else "processes")
    nontrivial(n > 1)

    base, tb = viscid.calc_streamlines(f, viscid.Point(pts), topo_style="generic", wrap=False, **kw)

    def same(lines, topo, msg, order=None, style="generic"):
        order = range(n) if order is None else order
        if lines is not None:
            require(len(lines) == n, msg + ": nr of lines")
            for k, i in enumerate(order):
                eq_arr(lines[k], base[i], "{0}: line {1}".format(msg, i), dtype=True)
        if topo is not None:
            want = np.array([tb[i] if style == "generic" else ms_topo(tb[i]) for i in order])
            eq_arr(np.asarray(topo).reshape(-1), want, msg + ": topology")

    # any way to run it, any seed object
    run = dict(nr_procs=case["procs"], threads=case["threads"], chunk_factor=case["chunk"],
               force_subprocess=case["force"])
    lines, topo = viscid.calc_streamlines(f, s, topo_style=case["style"], **dict(kw, **run))
    same(lines, topo.data if hasattr(topo, "data") and not isinstance(topo, np.ndarray) else topo,
         str(run), style=case["style"])
    if kind in ("Volume", "Plane", "Sphere", "field"):
        require(isinstance(topo, viscid.field.Field), "topology isn't a field")
        if shape is not None:
            require(tuple(topo.shape) == shape, "shape of the topology {0} != {1}", topo.shape,
                    shape)
    # outputs
    o = 1 + spec["seed"] % 2
    lines, topo = viscid.calc_streamlines(f, s, topo_style="generic", output=o, wrap=False, **kw)
    require((lines is None) == (o == 2) and (topo is None) == (o == 1), "outputs")
    same(lines, topo, "output={0}".format(o))
    # order of seeds
    perm = rng(spec["seed"]).permutation(n)
    lines, topo = viscid.calc_streamlines(f, viscid.Point(pts[:, perm]), topo_style="generic",
                                          wrap=False, **kw)
    same(lines, topo, "seeds in another order", perm)
    # half lines
    if case["dir"] == 3:
        b, t1 = viscid.calc_streamlines(f, viscid.Point(pts), wrap=False, topo_style="generic",
                                        **dict(kw, stream_dir=2))
        a, t2 = viscid.calc_streamlines(f, viscid.Point(pts), wrap=False, topo_style="generic",
                                        **dict(kw, stream_dir=1))
        for i in range(n):
            eq_arr(np.concatenate([b[i], a[i][:, 1:]], axis=1), base[i], "backward + forward")
            require(int(t1[i]) | int(t2[i]) == int(tb[i]), "topology of half lines")
    # against the field
    g = viscid.full_like(f, 0.0)
    g.data[...] = -f.data
    d = {1: 2, 2: 1, 3: 3}[case["dir"]]
    lines, topo = viscid.calc_streamlines(g, viscid.Point(pts), wrap=False, topo_style="generic",
                                          **dict(kw, stream_dir=d))
    for i in range(n):
        eq_arr(lines[i][:, ::-1], base[i], "line of the reversed field")
    eq_arr(topo, tb, "topology of the reversed field")


# ------------------------------------------------------------ straight lines
@st.composite
def straight_cases(draw):
    c = draw(fields(nd=(3, 3)))
    c["dtype"] = draw(st.sampled_from(["f8", "f8", "f4"]))
    c["method"] = draw(st.sampled_from(METHODS))
    c["dir"] = draw(st.sampled_from([1, 2, 3]))
    c["mag"] = draw(st.sampled_from([1.0, 0.25, 3.0]))
    c["len"] = draw(st.floats(0.05, 3.0))
    c["ds"] = draw(st.sampled_from([0.1, 0.25, 0.04]))
    c["by"] = draw(st.sampled_from(["max_length", "max_t", "both"]))
    c["n"] = draw(st.integers(1, 4))
    return c


def check_straight(case):
    """in a constant field, lines are straight and exactly as long as they may be"""
    spec = case["spec"]
    shp = sshape(spec)
    if ambiguous(shp, 3):
        raise Discard()
    r = rng(spec["seed"] + 9)
    b = r.normal(size=3)
    b = case["mag"] * b / np.linalg.norm(b)
    d = (b[:, None, None, None] * np.ones((3,) + shp)).astype(case["dtype"])
    f = vector_field(spec, d, case["layout"])
    pts = mk_seeds(spec, spec["seed"], case["n"]).astype(case["dtype"]).astype("f8")
    length = case["len"]
    kw = {}
    if case["by"] in ("max_length", "both"):
        kw["max_length"] = length
    if case["by"] == "max_t":
        kw["max_t"] = length / case["mag"]
    if case["by"] == "both":
        kw["max_t"] = (0.5 + (spec["seed"] % 3) * 0.4) * length / case["mag"]
        length = min(1.0, 0.5 + (spec["seed"] % 3) * 0.4) * length
    lines, topo = viscid.calc_streamlines(
        f, viscid.Point(pts), obound0=[-99] * 3, obound1=[99] * 3, ds0=case["ds"], wrap=False,
        method=case["method"], stream_dir=case["dir"], topo_style="generic", **kw)
    tol = 2e-4 if case["dtype"] == "f4" else 1e-7
    label(case["by"], case["method"])
    nontrivial(length > 2 * case["ds"])
    for i in range(case["n"]):
        e0 = pts[:, i] - (length * b / case["mag"] if case["dir"] & 2 else 0.0)
        e1 = pts[:, i] + (length * b / case["mag"] if case["dir"] & 1 else 0.0)
        close(lines[i][:, 0], e0, "start of the line", tol, tol)
        close(lines[i][:, -1], e1, "end of the line", tol, tol)
        require(topo[i] in ([20480] if case["by"] == "max_length" else
                            [36864] if case["by"] == "max_t" else [20480, 36864, 20480 | 36864]),
                "topology {0}", topo[i])


FACETS = [
    Facet("lines", line_cases(), check_lines, quick=2400, rule="a line has 3 or more steps"),
    Facet("same", same_cases(), check_same, quick=1000, rule="two or more seeds"),
    Facet("straight", straight_cases(), check_straight, quick=600, rule="longer than two steps"),
]
