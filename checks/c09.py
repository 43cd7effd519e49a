"""C09: interpolation onto points agrees with a reference implementation"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds
from vf.fields import (ambiguous, cc_of, flat_vec, grid_specs, scalar_field, spec_arrs, sshape,
                       vector_field)

NAMES = {1: ["x", "y", "z"], 2: ["xy", "yz", "xz"], 3: ["xyz"]}


@st.composite
def bases(draw, nd=(1, 3)):
    spec = draw(grid_specs(nd=nd, n=(2, 7), kinds=draw(st.sampled_from(["u", "n", "un"]))))
    spec["names"] = draw(st.sampled_from(NAMES[len(spec["n"])]))
    return {"spec": spec, "nc": draw(st.sampled_from([0, 0, 3, 2])),
            "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f8", "f4", "i4", "i8"]))}


def mk(case, kind="f"):
    spec = case["spec"]
    shp = sshape(spec)
    nc = case["nc"]
    if int(np.prod(shp)) == 1:
        raise Discard()
    if case["dtype"][0] == "i":
        kind = "i"
    d = rarr(spec["seed"], ((nc,) if nc else ()) + shp, kind, dtype=case["dtype"])
    if nc:
        if ambiguous(shp, nc) or len(shp) < 3:
            # short vectors get ambiguous when they're made 3d
            if ambiguous(shp + (1,), nc):
                raise Discard()
        return vector_field(spec, d, case["layout"]), d
    return scalar_field(spec, d), d


def crd_of(spec):
    cc = spec["center"] == "cell"
    return [cc_of(a) if cc else a for a in spec_arrs(spec)]


def to3(spec, data, crd, nc):
    """data as (nc or 1, nx, ny, nz), coordinates with None for missing axes"""
    d = data if nc else data[np.newaxis]
    out = []
    for i, a in enumerate("xyz"):
        if a in spec["names"]:
            out.append(crd[spec["names"].index(a)])
        else:
            d = np.expand_dims(d, i + 1)
            out.append(None)
    return d.astype("f8"), out


def ref_linear(d, crd, pts):
    """multilinear with clamping, points (3, n) -> (n, nc)"""
    out = np.zeros((pts.shape[1], d.shape[0]))
    for k in range(pts.shape[1]):
        lo, w = [], []
        for c, x in zip(crd, pts[:, k]):
            if c is None or len(c) == 1:
                lo.append(0)
                w.append(0.0)
                continue
            x = min(max(x, c[0]), c[-1])
            i = min(max(int(np.searchsorted(c, x, side="right")) - 1, 0), len(c) - 2)
            lo.append(i)
            w.append((x - c[i]) / (c[i + 1] - c[i]))
        acc = 0.0
        for b in np.ndindex(2, 2, 2):
            f, ind = 1.0, []
            for ax in range(3):
                f *= w[ax] if b[ax] else 1.0 - w[ax]
                ind.append(min(lo[ax] + b[ax], d.shape[ax + 1] - 1))
            if f != 0.0:
                acc = acc + f * d[:, ind[0], ind[1], ind[2]]
        out[k] = acc
    return out


def ref_nearest(d, crd, pts, tol):
    """-> (n, nc), mask of points that aren't about half way"""
    out = np.zeros((pts.shape[1], d.shape[0]))
    ok = np.ones(pts.shape[1], dtype=bool)
    for k in range(pts.shape[1]):
        ind = []
        for c, x in zip(crd, pts[:, k]):
            if c is None or len(c) == 1:
                ind.append(0)
                continue
            dist = np.abs(c - x)
            i = int(np.argmin(dist))
            if np.sum(dist < dist[i] + tol) > 1:
                ok[k] = False
            ind.append(i)
        out[k] = d[:, ind[0], ind[1], ind[2]]
    return out, ok


def make_points(spec, seed, n, out):
    """points in, on the nodes of, and around the grid"""
    r = rng(seed + 77)
    crd = dict(zip(spec["names"], crd_of(spec)))
    pts = np.zeros((3, n))
    for i, a in enumerate("xyz"):
        if a not in crd:
            pts[i] = r.uniform(-3, 3, n)
            continue
        c = crd[a]
        L = max(c[-1] - c[0], 1.0)
        pts[i] = r.uniform(c[0] - out * L, c[-1] + out * L, n)
        on = r.rand(n) < 0.2
        pts[i][on] = r.choice(c, size=n)[on]
    return pts


@st.composite
def interp_cases(draw):
    c = draw(bases())
    c["n"] = draw(st.integers(1, 12))
    c["out"] = draw(st.sampled_from([0.0, 0.0, 0.3]))
    c["kind"] = draw(st.sampled_from(["linear", "trilin", "trilinear", "nearest", " Nearest",
                                      "fn_trilin", "fn_nearest", "method"]))
    c["seeds"] = draw(st.sampled_from(["array", "array", "list", "Point", "generator"]))
    return c


def run(fld, pts, kind, wrap=False):
    if kind == "fn_trilin":
        return viscid.interp_trilin(fld, pts, wrap=wrap)
    if kind == "fn_nearest":
        return viscid.interp_nearest(fld, pts, wrap=wrap)
    if kind == "method":
        return viscid.interp(fld, pts, kind="linear", method="nearest", wrap=wrap)
    return viscid.interp(fld, pts, kind=kind, wrap=wrap)


def check_interp(case):
    spec = case["spec"]
    f, d = mk(case)
    pts = make_points(spec, spec["seed"], case["n"], case["out"])
    d3, crd = to3(spec, d, crd_of(spec), case["nc"])
    nearest = "nearest" in case["kind"].lower() or case["kind"] == "method"
    s = pts
    if case["seeds"] == "list":
        s = pts.tolist()
    elif case["seeds"] == "Point":
        s = viscid.Point(pts)
    if case["n"] == 3 and case["seeds"] != "Point":
        s = viscid.Point(pts)
    got = run(f, s, case["kind"])
    label(case["kind"], spec["center"], "{0}d".format(len(spec["n"])), case["dtype"],
          "uniform" if f.crds.is_uniform() else "nonuniform")
    nontrivial(len(spec["n"]) > 1)
    require(got.shape == ((case["n"], case["nc"]) if case["nc"] else (case["n"],)), "shape {0}",
            got.shape)
    g = np.asarray(got, dtype="f8").reshape(case["n"], -1)
    f4 = case["dtype"] == "f4"
    if nearest:
        want, ok = ref_nearest(d3, crd, pts, 1e-3 if f4 else 1e-9)
        eq_arr(g[ok], want[ok], "nearest")
    else:
        want = ref_linear(d3, crd, pts)
        tol = 2e-3 if f4 else 1e-9
        close(g, want, "linear", tol, tol)
    # each point stands for itself: any order gives the same values
    p = rng(spec["seed"]).permutation(case["n"])
    if case["n"] != 3:
        g2 = np.asarray(run(f, pts[:, p], case["kind"]), dtype="f8").reshape(case["n"], -1)
        eq_arr(g2, g[p], "points in another order")
    eq_arr(flat_vec(f) if case["nc"] else f.data, d, "data of the field")


# ------------------------------------------------- linear functions, wrapping
@st.composite
def wrap_cases(draw):
    c = draw(bases(nd=(3, 3)))
    c["dtype"] = "f8"
    c["to"] = draw(st.sampled_from(["Volume", "Line", "Plane", "Sphere", "field_node",
                                    "field_cell", "Point"]))
    c["m"] = [draw(st.integers(2, 5)) for _ in range(3)]
    return c


def check_wrap(case):
    """a function that is linear in x, y, z, sampled on a grid and interpolated to seeds"""
    spec = case["spec"]
    crd = crd_of(spec)
    if min(len(c) for c in crd) < 2 or ambiguous(sshape(spec), max(case["nc"], 1)):
        raise Discard()
    r = rng(spec["seed"] + 5)
    nc = max(case["nc"], 1)
    coef = r.uniform(-2, 2, size=(nc, 4))
    X = np.meshgrid(*crd, indexing="ij")

    def fn(x, y, z):
        return np.array([c[0] + c[1] * x + c[2] * y + c[3] * z for c in coef])
    d = fn(*X)
    f = vector_field(spec, d, case["layout"]) if case["nc"] else scalar_field(spec, d[0])
    lo = np.array([c[0] for c in crd])
    hi = np.array([c[-1] for c in crd])
    mid, half = 0.5 * (lo + hi), 0.5 * (hi - lo)
    m = case["m"]
    to = case["to"]
    label(to)
    nontrivial()
    if to == "Volume":
        s = viscid.Volume(mid - 0.9 * half, mid + 0.8 * half, n=m)
    elif to == "Line":
        s = viscid.Line(mid - 0.9 * half, mid + 0.8 * half, n=m[0] + 4)
    elif to == "Plane":
        rad = 0.4 * half.min()
        s = viscid.Plane(p0=mid, pN=r.uniform(-1, 1, 3), pL=r.uniform(-1, 1, 3),
                         len_l=rad, len_m=rad, nl=m[0], nm=m[1])
    elif to == "Sphere":
        s = viscid.Sphere(p0=mid, r=0.5 * half.min(), ntheta=m[0] + 2, nphi=m[1] + 3)
    elif to == "Point":
        s = viscid.Point(make_points(spec, spec["seed"], m[0] + 3, 0.0))
    else:
        arrs = [np.sort(r.uniform(a + 0.05 * (b - a), b, n + 1)) for a, b, n in zip(lo, hi, m)]
        if min(np.diff(a).min() for a in arrs) < 1e-6:
            raise Discard()
        s = viscid.zeros(arrs, center=to.split("_")[1])
    pts = s.get_points()
    want = fn(*pts)
    raw = viscid.interp_trilin(f, s, wrap=False)
    close(np.atleast_2d(raw.T).reshape(want.shape), want, "values", 1e-9, 1e-9)
    if to == "Point" or case["nc"] == 2 and min(s.get_points().shape) < 3:
        return
    w = viscid.interp_trilin(f, s)
    require(isinstance(w, viscid.field.Field), "not wrapped")
    require(w.nr_comps == case["nc"], "nr_comps {0}", w.nr_comps)
    if case["nc"]:
        if w.layout != "interlaced":
            raise Discard()
        got = np.asarray(w.data).reshape(-1, case["nc"]).T
    else:
        got = np.asarray(w.data).reshape(1, -1)
    close(got, want, "wrapped", 1e-9, 1e-9)
    if to == "Volume" or to.startswith("field"):
        for g, a in zip(w.get_crds(), s.get_crds() if to.startswith("field") else
                        [np.linspace(mid[i] - 0.9 * half[i], mid[i] + 0.8 * half[i], m[i])
                         for i in range(3)]):
            close(g, a, "coordinates of the result", 1e-9, 1e-9)


# ------------------------------------------------------ interpolated_slice
@st.composite
def slice_cases(draw):
    c = draw(bases())
    c["dtype"] = draw(st.sampled_from(["f8", "f4"]))
    c["ax"] = draw(st.lists(st.tuples(st.integers(0, 2), st.floats(0.02, 0.98)), min_size=1,
                            max_size=2, unique_by=lambda t: t[0]).map(lambda l: [list(t) for t in l]))
    c["other"] = draw(st.sampled_from([None, "int", "slice"]))
    c["style"] = draw(st.sampled_from(["str", "strj", "tuple"]))
    return c


def check_slice(case):
    spec = case["spec"]
    f, d = mk(case)
    names = list(spec["names"])
    crd = crd_of(spec)
    d3, crd3 = to3(spec, d, crd, case["nc"])
    at = {}
    for i, frac in case["ax"]:
        a = names[i % len(names)]
        c = crd[names.index(a)]
        if len(c) < 2:
            raise Discard()
        at[a] = round(float(c[0] + frac * (c[-1] - c[0])), 4)
    sel, pos = [], {a: c for a, c in zip(names, crd)}
    used_other = False
    for a, c in zip(names, crd):
        if a in at:
            pos[a] = np.array([at[a]])
            sel.append("{0}={1}{2}".format(a, at[a], "j" if case["style"] == "strj" else ".0" if
                                           float(at[a]).is_integer() and "." not in str(at[a]) else "j")
                       if case["style"] != "tuple" else 1j * at[a])
        elif not used_other and case["other"]:
            used_other = True
            if case["other"] == "int":
                sel.append("{0}=1".format(a) if case["style"] != "tuple" else 1)
                if len(c) < 2:
                    raise Discard()
                pos[a] = c[1:2]
            else:
                sel.append("{0}=1:".format(a) if case["style"] != "tuple" else slice(1, None))
                if len(c) < 3:
                    raise Discard()
                pos[a] = c[1:]
        elif case["style"] == "tuple":
            sel.append(slice(None))
    sel = ",".join(sel) if case["style"] != "tuple" else tuple(sel)
    mesh = np.meshgrid(*[pos.get(a, np.zeros(1)) for a in "xyz"], indexing="ij")
    want = ref_linear(d3, crd3, np.array([m.reshape(-1) for m in mesh])).T
    want = want.reshape((want.shape[0],) + mesh[0].shape)
    left = [a for a in names if len(pos[a]) > 1]
    label("{0} axes".format(len(at)), case["other"], "{0}d".format(len(names)))
    before = [np.array(c) for c in f.get_crds()]
    got = f.interpolated_slice(sel)
    tol = 2e-3 if case["dtype"] == "f4" else 1e-9
    shp = tuple(len(pos[a]) for a in left)
    nontrivial(len(shp) > 0)
    for c, b in zip(f.get_crds(), before):
        eq_arr(c, b, "interpolated_slice changed the coordinates of its input")
    if not left:
        if case["nc"]:
            return
        close(np.asarray(got, dtype="f8").reshape(-1), want.reshape(-1), "value", tol, tol)
        return
    if case["nc"] and ambiguous(shp, case["nc"]):
        raise Discard()
    require(list(got.crds.axes) == left, "axes {0} != {1}", got.crds.axes, left)
    close(flat_vec(got) if case["nc"] else got.data,
          want.reshape(((case["nc"],) if case["nc"] else ()) + shp), "values", tol, tol)
    for a in left:
        close(got.get_crd(a), pos[a], "coordinates", 1e-6, 1e-6)


FACETS = [
    Facet("points", interp_cases(), check_interp, quick=2400, rule="2d or 3d"),
    Facet("wrap", wrap_cases(), check_wrap, quick=900, rule="every case"),
    Facet("slice", slice_cases(), check_slice, quick=1200, rule="at least one axis is left"),
]
