"""C06: coordinates and centering: cells lie between their nodes, however a grid is described, and
fields can change centering / dimensions / units without their samples moving"""
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import coordinate
from checks import c05
from vf.core import (Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds)
from vf.fields import (ambiguous, axis_arr, cc_of, flat_vec, grid_specs, scalar_field, spec_arrs,
                       spec_crds, sshape, vector_field)


# ------------------------------------------------------------- coordinates
@st.composite
def crds_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(2, 7), names=draw(st.sampled_from(["xyz", "zxy", "abc"]))))
    return {"spec": spec, "type": draw(st.sampled_from(["auto", "uniform", "uniform_cartesian",
                                                        "nonuniform", "nonuniform_spherical",
                                                        "full"])),
            "reflect": draw(st.sampled_from(["", "", "x", "z", "xz", "a"])),
            "late": draw(st.booleans())}


def make_crds(case):
    """coordinates and the node arrays that they should have"""
    spec = case["spec"]
    arrs = spec_arrs(spec)
    typ = case["type"]
    isu = all(k == "u" for k in spec["k"])
    if typ.startswith("uniform") and not isu:
        raise Discard()
    if typ in ("auto", "full"):
        crds = viscid.arrays2crds(arrs, crd_names=spec["names"])
        require(crds.is_uniform() == all(len(a) == 1 or np.allclose(np.diff(a), a[1] - a[0])
                                         for a in arrs),
                "arrays2crds: is_uniform() is wrong")
        return crds, arrs
    refl = [a for a in case["reflect"] if a in spec["names"]]
    clist = []
    for ax, a in zip(spec["names"], arrs):
        clist.append([ax, [a[0], a[-1], len(a)] if typ.startswith("uniform") else a])
    if case["late"]:
        crds = coordinate.wrap_crds(typ, clist)
        if case["spec"]["seed"] % 2:
            crds.get_crds_cc()
        crds.reflect_axes = refl
    else:
        crds = coordinate.wrap_crds(typ, clist, reflect_axes=refl)
    want = [-a[::-1] if ax in refl else a for ax, a in zip(spec["names"], arrs)]
    return crds, want


def check_crds(case):
    crds, nc = make_crds(case)
    names = case["spec"]["names"]
    nd = len(names)
    cc = [cc_of(a) for a in nc]
    nontrivial(nd > 1)
    label(crds.crdtype, "reflected" if crds.reflect_axes else "straight")
    require(list(crds.axes) == list(names), "axes {0}", crds.axes)
    require(crds.nr_dims == nd == len(crds), "nr_dims")
    kw = dict(rtol=1e-10, atol=1e-10)
    for center, want in (("node", nc), ("none", nc), ("cell", cc)):
        for got, w in zip(crds.get_crds(center=center), want):
            close(got, w, center + " crds", **kw)
        for i, got in enumerate(crds.get_crds(center=center, shaped=True)):
            shp = [1] * nd
            shp[i] = -1
            close(got, want[i].reshape(shp), "shaped crds", **kw)
        n = [len(w) for w in want]
        sfx = {"node": "nc", "none": "", "cell": "cc"}[center]
        for i, ax in enumerate(names):
            close(crds[ax + sfx], want[i], "crds['{0}']".format(ax + sfx), **kw)
            close(crds[ax.upper() + sfx].reshape(-1), want[i], "crds['X']", **kw)
            close(crds.get_crd(i, center=center), want[i], "get_crd(int)", **kw)
        require(crds.get_nr_points(center=center) == int(np.prod(n)), "nr_points {0}: {1}", center,
                crds.get_nr_points(center=center))
        # points
        mesh = np.meshgrid(*want, indexing="ij")
        close(crds.get_points(center=center), np.array([m.reshape(-1) for m in mesh]),
              "get_points", **kw)
        close(crds.points(center=center), np.array([m.reshape(-1) for m in mesh]), "points", **kw)
        if center == "none":
            close(crds.points(), np.array([m.reshape(-1) for m in mesh]), "points()", **kw)
            close(np.array(crds), np.array([m.reshape(-1) for m in mesh]), "array of crds", **kw)
            require(crds.nr_points == mesh[0].size, "nr_points")
            require(list(crds.shape) == n and crds.size == mesh[0].size, "shape {0}", crds.shape)
        if nd == 3 and 1 in n and n.count(1) < 3:
            m = crds.as_mesh(center=center)
            flat = [len_ for len_ in n]
            while len(flat) > 2:
                flat.remove(1)
            close(m, np.array([a.reshape(flat) for a in mesh]), "as_mesh", **kw)
            label("mesh")
        pts = np.array(list(crds.iter_points(center=center))).reshape(-1, nd)
        close(pts.T, np.array([m.reshape(-1) for m in mesh]), "iter_points", **kw)
    for center, want in (("node", nc), ("cell", cc)):
        s = "_nc" if center == "node" else "_cc"
        xl, xh = np.array([w[0] for w in want]), np.array([w[-1] for w in want])
        close(crds.get_xl(center=center), xl, "get_xl " + center, **kw)
        close(crds.get_xh(center=center), xh, "get_xh " + center, **kw)
        close(crds.get_L(center=center), xh - xl, "get_L " + center, **kw)
        close(getattr(crds, "xl" + s), xl, "xl" + s, **kw)
        close(getattr(crds, "xh" + s), xh, "xh" + s, **kw)
        close(getattr(crds, "L" + s), xh - xl, "L" + s, **kw)
        eq_arr(getattr(crds, "shape" + s), [len(w) for w in want], "shape" + s)
        require(getattr(crds, "size" + s) == int(np.prod([len(w) for w in want])), "size" + s)
        dx = crds.get_dx(center=center)
        mdx = crds.get_min_dx(center=center)
        mdx2 = getattr(crds, "min_dx" + s)
        for i, w in enumerate(want):
            if len(w) > 1:
                close(dx[i], np.diff(w), "get_dx " + center, **kw)
                close(mdx[i], np.diff(w).min(), "get_min_dx " + center, **kw)
                close(mdx2[i], np.diff(w).min(), "min_dx" + s, **kw)
        # one axis at a time
        j = case["spec"]["seed"] % nd
        close(crds.get_xl([names[j]], center=center), xl[j:j + 1], "get_xl(ax)", **kw)
        close(crds.get_xh([j], center=center), xh[j:j + 1], "get_xh(int)", **kw)
        # get_clist describes the same grid
        typ = crds.crdtype
        again = coordinate.wrap_crds(typ, crds.get_clist(center=center))
        for got, w in zip(again.get_crds(), want):
            close(got, w, "wrap_crds(get_clist({0}))".format(center), **kw)
    for ignore in (0, 1, 2, 4):
        want = [a for a, w in zip(names, nc) if len(w) > ignore]
        require(list(crds.get_culled_axes(ignore=ignore)) == want, "get_culled_axes({0}) {1}, expected {2}", ignore, crds.get_culled_axes(ignore=ignore), want)
    require(all(a in crds and a + "cc" in crds and a.upper() in crds for a in names) and "other" not in crds, "names in crds")
    for i, a in enumerate(names):
        require(crds.ind(a) == i and crds.ind(i) == i and crds.axis_name(i) == a and crds.axis_name(a) == a, "axis {0}", a)
    full = crds.get_clist(full_arrays=True)
    for (ax, a), n_, w in zip(full, names, nc):
        require(ax == n_, "get_clist axis")
        close(a, w, "get_clist(full)", **kw)
    # faces and edges: the component along axis i, at the position along axis j
    fc, ec = crds.get_crds_fc(), crds.get_crds_ec()
    for i in range(nd):
        for j in range(nd):
            on_face = nc[i][:-1] if i == j else cc[i]
            on_edge = cc[i] if i == j else nc[i][:-1]
            close(fc[i][j], on_face, "face crds", **kw)
            close(ec[i][j], on_edge, "edge crds", **kw)
    r = crds.apply_reflections()
    require(not r.reflect_axes, "apply_reflections left some")
    for got, w in zip(r.get_crds(), nc):
        close(got, w, "apply_reflections", **kw)


# --------------------------------------------------------------- centering
@st.composite
def lazy_cases(draw, **kw):
    spec = draw(grid_specs(nd=(1, 3), n=(3, 6), **kw))
    lay = draw(st.sampled_from([None, None, "flat", "interlaced"]))
    return {"spec": spec, "store": draw(st.one_of(st.none(), c05.stores)), "layout": lay,
            "nc": draw(st.sampled_from([2, 3])), "load": draw(st.booleans())}


def build(case):
    """field, what its data should be (components first)"""
    spec, store = case["spec"], case["store"]
    shp = sshape(spec)
    if case["layout"]:
        if ambiguous(shp, case["nc"]) or len(shp) == 1:
            raise Discard()
        data = rarr(spec["seed"], (case["nc"],) + shp, "uniq")
        if store is None:
            fld = vector_field(spec, data, case["layout"])
        else:
            fld = c05.lazy_vector(spec, data, case["layout"], store)
    else:
        data = rarr(spec["seed"], shp, "uniq")
        fld = scalar_field(spec, data) if store is None else c05.lazy_scalar(spec, data, store)
    if case["load"]:
        fld.resolve()
    return fld, data


def same_data(fld, data, msg):
    got = flat_vec(fld) if fld.nr_comps else np.asarray(fld.data)
    eq_arr(got.astype("f8"), data, msg)


def check_center(case):
    spec = case["spec"]
    fld, data = build(case)
    nc = spec_arrs(spec)
    tol = dict(rtol=1e-9, atol=1e-9)
    nontrivial(len(nc) > 1)
    label(spec["center"], case["layout"], "lazy" if case["store"] else "memory")
    crd = [cc_of(a) if spec["center"] == "cell" else a for a in nc]
    for got, w in zip(fld.get_crds(), crd):
        close(got, w, "get_crds", **tol)
    require(fld.as_centered(spec["center"]) is fld, "as_centered(own center) made a new field")
    require(fld.as_centered(None) is fld, "as_centered(None) made a new field")
    other = "node" if spec["center"] == "cell" else "cell"
    g = fld.as_centered(other) if spec["seed"] % 2 else (
        fld.as_node_centered() if other == "node" else fld.as_cell_centered())
    require(g.iscentered(other), "center is {0}", g.center)
    require(list(g.sshape) == list(fld.sshape), "shape changed {0} {1}", g.sshape, fld.sshape)
    same_data(g, data, "data after change of centering")
    if other == "node":
        for got, w in zip(g.get_crds(), crd):
            close(got, w, "a sample moved, cell -> node", **tol)
    else:
        for got, w, k in zip(g.get_crds(), crd, spec["k"]):
            if k == "u":
                close(got, w, "a sample moved, node -> cell", **tol)
        for got, w in zip(g.get_crds_nc(), crd):
            require(len(got) == len(w) + 1, "nr of nodes")
            close(got[1:-1], 0.5 * (w[1:] + w[:-1]), "cell boundaries", **tol)
            require(np.all(np.diff(got) > 0), "nodes not increasing")
            require(np.all((got[:-1] < w) & (w < got[1:])), "sample outside of its cell")
    # there and back
    b = g.as_centered(spec["center"])
    same_data(b, data, "data, there and back")
    for got, w, k in zip(b.get_crds(), crd, spec["k"]):
        if k == "u":
            close(got, w, "there and back", **tol)
    # what's underneath survives a reload
    if case["store"]:
        g.clear_cache()
        same_data(g, data, "data after a reload")
        fld.clear_cache()
        same_data(fld, data, "source data after a reload")


# ---------------------------------------------------- dimensions and units
@st.composite
def dims_cases(draw):
    c = draw(lazy_cases())
    c["op"] = draw(st.sampled_from(["atleast_3d", "atmost_nd", "adjust", "shell", "rename"]))
    c["a"] = draw(st.integers(0, 3))
    c["s"] = draw(st.sampled_from([2.0, 0.5, 3.0, 100.0]))
    c["one"] = draw(st.lists(st.integers(0, 2), max_size=2))
    return c


def check_dims(case):
    spec = dict(case["spec"])
    spec["n"] = list(spec["n"])
    if case["layout"] is None:
        # some axes with one element
        for i in case["one"]:
            if i < len(spec["n"]) and (case["store"] is None or spec["k"][i] == "n"):
                spec["n"][i] = 2 if spec["center"] == "cell" else 1
    case = dict(case, spec=spec)
    fld, data = build(case)
    nc = dict(zip(spec["names"], spec_arrs(spec)))
    crd = {a: cc_of(v) if spec["center"] == "cell" else v for a, v in nc.items()}
    names = list(spec["names"])
    tol = dict(rtol=1e-9, atol=1e-9)
    off = 1 if fld.nr_comps else 0
    label(case["op"], "lazy" if case["store"] else "memory", case["layout"])
    op = case["op"]
    if fld.size == 1:
        raise Discard()
    if op == "atleast_3d":
        g = fld.atleast_3d()
        require(g.nr_sdims == 3, "nr_sdims {0}", g.nr_sdims)
        nontrivial(len(names) < 3)
        if len(names) == 3:
            require(g is fld, "made a new field")
        require(list(g.crds.axes) == ["x", "y", "z"], "axes {0}", g.crds.axes)
        shp = [len(crd[a]) if a in crd else 1 for a in "xyz"]
        require(g.iscentered(spec["center"]), "center")
        same_data(g, data.reshape(data.shape[:off] + tuple(shp)), "data")
        for a in names:
            close(g.get_crd(a), crd[a], "coordinates", **tol)
            close(g.get_crd_nc(a), nc[a], "node coordinates", **tol)
        for a in "xyz":
            if a not in names:
                close(g.get_crd(a), [0.0], "new axis", **tol)
    elif op == "atmost_nd":
        n = case["a"]
        if n == 0 and not off:
            raise Discard()
        g = fld.atmost_nd(n)
        shp = list(sshape(spec))
        # length one axes go first, then the last ones, at 0.0
        drop = {}
        for i, a in enumerate(names):
            if shp[i] == 1:
                drop[a] = 0
            if len(names) - len(drop) <= n:
                break
        for a in names[::-1]:
            if len(names) - len(drop) <= n:
                break
            if a not in drop:
                d = np.abs(crd[a])
                if np.sum(d < d.min() + 1e-6) > 1:
                    raise Discard()
                drop[a] = int(np.argmin(d))
        left = [a for a in names if a not in drop]
        if not drop:
            require(g is fld, "atmost_nd made a new field")
        sl = tuple([slice(None)] * off + [drop.get(a, slice(None)) for a in names])
        want = data[sl]
        nontrivial(bool(drop))
        if want.size == 1:
            close(np.asarray(g, dtype="f8").reshape(-1), want.reshape(-1), "value")
            return
        if not left:
            raise Discard()
        require(list(g.crds.axes) == left, "axes {0} != {1}", g.crds.axes, left)
        if off and ambiguous([len(crd[a]) for a in left], case["nc"]):
            raise Discard()
        same_data(g, want, "data")
        for a in left:
            close(g.get_crd(a), crd[a], "coordinates", **tol)
    elif op in ("adjust", "rename"):
        s = case["s"]
        j = case["a"] % len(names)
        before = list(fld.crds.axes)
        fns = {names[j]: (lambda x: s * x + 3.0), "nope": 5.0}
        how = case["a"] % 3
        if how == 0:
            g = fld.adjust_crds(s)
            want = {a: s * v for a, v in nc.items()}
        elif how == 1:
            g = fld.adjust_crds(fns)
            want = dict(nc)
            want[names[j]] = s * want[names[j]] + 3.0
        else:
            g = fld.adjust_crds({names[j]: s})
            want = dict(nc)
            want[names[j]] = s * want[names[j]]
        new = list(names)
        if op == "rename":
            ren = {names[j]: "q", "nope": "r"}
            if len(names) > 1 and case["a"] > 1:
                ren = {names[0]: names[1], names[1]: names[0]}
            new = [ren.get(a, a) for a in names]
            g = fld.adjust_crds(s if how == 0 else fns if how == 1 else {names[j]: s},
                                name_map=ren)
        nontrivial()
        require(list(g.crds.axes) == new, "axes {0} != {1}", g.crds.axes, new)
        require(list(fld.crds.axes) == before, "adjust_crds changed the names of its input")
        for a, b in zip(names, new):
            close(g.get_crd_nc(b), want[a], "adjusted coordinates", **tol)
            close(fld.get_crd_nc(a), nc[a], "coordinates of the original", **tol)
        same_data(g, data, "data")
        require(g.iscentered(spec["center"]), "center")
    elif op == "shell":
        fld.time = 12.5
        g = fld.shell_copy(force=bool(case["a"] % 2))
        nontrivial()
        if case["load"] and not case["a"] % 2:
            require(g is fld, "shell_copy made a copy of a loaded field")
        elif case["a"] % 2:
            require(g is not fld and not g.is_loaded, "shell_copy is loaded")
        same_data(g, data, "data")
        require(g.name == fld.name and g.time == 12.5 and g.center == fld.center, "attributes")
        for a in names:
            close(g.get_crd_nc(a), nc[a], "coordinates", **tol)
    require(list(fld.crds.axes) == names, "the original changed")
    same_data(fld, data, "data of the original")


# ------------------------------------------------------------ construction
@st.composite
def make_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(2, 6)))
    return {"spec": spec, "nc": draw(st.sampled_from([0, 0, 2, 3, 4])),
            "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "how": draw(st.sampled_from(["full", "like", "arrays2field", "dat2field", "ints",
                                         "mfield", "components", "wrap_field", "mesh"])),
            "dtype": draw(st.sampled_from(["f8", "f4", "i4"])),
            "val": draw(st.sampled_from([0.0, 1.0, -3.0, 7.0])),
            "to": draw(st.sampled_from([None, "node", "cell"]))}


def check_make(case):
    spec, nc, how, lay = case["spec"], case["nc"], case["how"], case["layout"]
    arrs = spec_arrs(spec)
    shp = sshape(spec)
    names = list(spec["names"])
    tol = dict(rtol=1e-9, atol=1e-9)
    vec = nc > 0
    if vec and (ambiguous(shp, nc) or len(shp) == 1 and how != "full"):
        raise Discard()
    dshape = shp if not vec else ((nc,) + shp if lay == "flat" else shp + (nc,))
    label(how, lay if vec else "scalar", spec["center"])
    nontrivial(len(shp) > 1)
    crd = [cc_of(a) if spec["center"] == "cell" else a for a in arrs]
    v = case["val"]

    def common(f, center=spec["center"], crds=crd, axes=names):
        require(list(f.crds.axes) == list(axes), "axes {0}", f.crds.axes)
        require(f.iscentered(center), "center {0}", f.center)
        require(f.nr_comps == nc, "nr_comps {0} != {1}", f.nr_comps, nc)
        if vec:
            require(f.layout == lay, "layout {0} != {1}", f.layout, lay)
        for g, w in zip(f.get_crds(), crds):
            close(g, w, "coordinates", **tol)
        require(list(f.data.shape) == list(f.shape), "shape")

    if how == "full":
        make = {0.0: viscid.zeros, 1.0: viscid.ones}.get(v)
        src = arrs if spec["seed"] % 2 else spec_crds(spec)
        kw = dict(dtype=case["dtype"], center=spec["center"], layout=lay, nr_comps=nc, name="q")
        f = make(src, **kw) if make else viscid.full(src, v, **kw)
        common(f)
        eq_arr(f.data, np.full(dshape, v, dtype=case["dtype"]), "full", dtype=True)
        require(f.name == "q", "name")
        e = viscid.empty(src, **kw)
        common(e)
    elif how == "ints":
        f = viscid.full(list(spec["n"]), v, center=spec["center"], layout=lay, nr_comps=nc)
        w = [np.arange(n, dtype="f8") for n in spec["n"]]
        common(f, crds=[cc_of(a) if spec["center"] == "cell" else a for a in w])
        eq_arr(f.data, np.full(dshape, v), "full")
    elif how == "like":
        d = rarr(spec["seed"], dshape, "uniq", dtype=case["dtype"])
        base = viscid.wrap_field(d.copy(), spec_crds(spec), name="b", time=3.0,
                                 fldtype="vector" if vec else "scalar", center=spec["center"])
        for f, w in ((viscid.full_like(base, v), v), (viscid.zeros_like(base), 0.0),
                     (viscid.ones_like(base), 1.0), (viscid.empty_like(base), None)):
            common(f)
            require(f.time == 3.0, "time")
            require(f.dtype == base.dtype, "dtype {0}", f.dtype)
            if w is not None:
                eq_arr(f.data, np.full(dshape, w, dtype=case["dtype"]), "like", dtype=True)
        f.data[...] = 5
        eq_arr(base.data, d, "_like shares memory with the original")
    elif how in ("arrays2field", "dat2field"):
        d = rarr(spec["seed"], dshape, "uniq")
        if how == "arrays2field":
            # the first / last axis may look like components with either centering
            n_ = list(spec["n"])
            cand = [d.shape[:-1], d.shape[1:]]
            if vec and sum(list(c) in (n_, [m - 1 for m in n_]) for c in cand) > 1:
                raise Discard()
            f = viscid.arrays2field(arrs, d, name="q", center=case["to"],
                                    crd_names=spec["names"])
            own = spec["center"]
            nodes = crd
        else:
            f = viscid.dat2field(d, name="q", fldtype="vector" if vec else "scalar", layout=lay,
                                 center=case["to"])
            own = "node"
            nodes = [np.arange(n, dtype="f8") for n in shp]
        common(f, center=case["to"] or own,
               crds=nodes if (case["to"] or own) == own or own == "cell" else
               [a if np.allclose(np.diff(a), a[1:2] - a[:1]) and len(a) > 1 else g
                for a, g in zip(nodes, f.get_crds())],
               axes="xyz"[:len(shp)])
        eq_arr(f.data, d, "data")
        require(f.name == "q", "name")
    elif how == "mfield":
        if vec:
            raise Discard()
        w, slc = [], []
        for i, n in enumerate(spec["n"]):
            lo = float(spec["seed"] % 5 - 2 + i)
            hi = lo + 0.5 * n
            slc.append(slice(lo, hi, n * 1j))
            w.append(np.linspace(lo, hi, n))
        slc = slc[0] if len(slc) == 1 else tuple(slc)
        fac = viscid.field.mfield_cell if spec["center"] == "cell" else viscid.mfield
        if len(w) == 1:
            raise Discard()
        f = fac[slc]
        common(f, crds=[cc_of(a) if spec["center"] == "cell" else a for a in w])
        eq_arr(f.data, np.zeros(dshape), "mfield")
    elif how == "components":
        if not vec:
            raise Discard()
        lst = [scalar_field(spec, rarr(spec["seed"] + i, shp, "uniq"), name="c%d" % i, time=2.0)
               for i in range(nc)]
        f = viscid.scalar_fields_to_vector(lst, name="q")
        if lay == "interlaced":
            f = f.as_layout("interlaced")
        common(f)
        for i in range(nc):
            eq_arr(flat_vec(f)[i], lst[i].data, "component {0}".format(i))
        require(f.time == 2.0, "time")
        comps = f.component_fields()
        views = f.component_views()
        require(len(comps) == nc, "nr of components")
        for i, c in enumerate(comps):
            eq_arr(c.data, lst[i].data, "component_fields")
            eq_arr(views[i], lst[i].data, "component_views")
            for g, w in zip(c.get_crds(), crd):
                close(g, w, "component coordinates", **tol)
            if i < 3:
                eq_arr(f["xyz"[i]].data, lst[i].data, "f['x']")
    elif how == "wrap_field":
        d = rarr(spec["seed"], dshape, "uniq")
        f = viscid.wrap_field(d, spec_crds(spec), name="q", time=4.0,
                              fldtype="vector" if vec else "scalar", center=spec["center"])
        common(f)
        eq_arr(f.data, d, "data")
        s = f.wrap_field(rarr(spec["seed"] + 1, shp, "uniq"), name="r")
        require(s.nr_comps == 0 and s.name == "r" and s.center == f.center, "wrap_field method")
        eq_arr(s.data, rarr(spec["seed"] + 1, shp, "uniq"), "wrap_field method")
    elif how == "mesh":
        d = rarr(spec["seed"], dshape, "uniq")
        f = viscid.wrap_field(d, spec_crds(spec), name="q",
                              fldtype="vector" if vec else "scalar", center=spec["center"])
        m = np.meshgrid(*crd, indexing="ij")
        for g, w in zip(f.meshgrid(), m):
            close(g, w, "meshgrid", **tol)
        for g, w in zip(f.meshgrid_flat(), m):
            close(g, w.reshape(-1), "meshgrid_flat", **tol)
        close(f.get_points(), np.array([w.reshape(-1) for w in m]), "get_points", **tol)
        # without the axes of one point, and of some axes
        thin = [i for i in range(len(m)) if m[i].shape[i] == 1]
        if len(thin) < len(m):
            pm = [np.squeeze(w) for i, w in enumerate(m) if i not in thin]
            got = f.meshgrid(prune=True)
            require(len(got) == len(pm), "{0} pruned coordinates, expected {1}", len(got), len(pm))
            for g, w in zip(got, pm):
                close(g, w, "pruned meshgrid", **tol)
            for g, w in zip(f.meshgrid_flat(prune=True), pm):
                close(g, w.reshape(-1), "pruned meshgrid_flat", **tol)
        sub = [i for i in range(len(names)) if spec["seed"] >> i & 1]
        if sub:
            sx = [names[i] for i in sub] if spec["seed"] & 64 else sub
            sm = np.meshgrid(*[crd[i] for i in sub], indexing="ij")
            for prune in (False, True):
                got = f.meshgrid(axes=sx, prune=prune)
                wm = [w for w, i in zip(sm, sub) if not (prune and i in thin)]
                require(len(got) == len(wm), "{0} coordinates of {1}, expected {2}", len(got), sx, len(wm))
                for g, w in zip(got, wm):
                    close(np.squeeze(g), np.squeeze(w), "meshgrid of some axes", **tol)
            for which, want in (("get_crds", crd), ("get_crds_nc", arrs), ("get_crds_cc", [cc_of(a) for a in arrs])):
                got = getattr(f, which)(axes=sx)
                require(len(got) == len(sub), "{0} of {1}: {2} arrays", which, sx, len(got))
                for g, i in zip(got, sub):
                    close(g, want[i], which, **tol)
                for g, i in zip(getattr(f, which)(axes=sx, shaped=True), sub):
                    require(g.shape == tuple(len(want[j]) if j == i else 1 for j in range(len(names))), "shaped {0}: {1}", which, g.shape)
        require(f.nr_points == int(np.prod(shp)), "nr_points")
        for g, w in zip(f.get_crds(shaped=True), np.meshgrid(*crd, indexing="ij", sparse=True)):
            close(g, w, "shaped", **tol)
        for i, a in enumerate(names):
            close(f.get_crd(a), crd[i], "get_crd", **tol)
            close(f.get_crd(i), crd[i], "get_crd(int)", **tol)
            close(f.get_crd_nc(a), arrs[i], "get_crd_nc", **tol)
            close(f.get_crd_cc(a), cc_of(arrs[i]), "get_crd_cc", **tol)
        close(f.xl, [c[0] for c in arrs], "xl", **tol)
        close(f.xh, [c[-1] for c in arrs], "xh", **tol)
        it = list(f.iter_points())
        require(len(it) == f.nr_points, "iter_points")


# --------------------------------------------------------------- extend_arr
@st.composite
def extend_cases(draw):
    return {"n": draw(st.integers(2, 7)), "k": draw(st.sampled_from("un")), "seed": draw(seeds),
            "lo": draw(st.integers(0, 4)), "hi": draw(st.integers(0, 4)),
            "frac": draw(st.sampled_from([1.0, 0.5, 2.0])), "full": draw(st.booleans()),
            "pair": draw(st.booleans())}


def check_extend(case):
    x = axis_arr(case["k"], case["n"], case["seed"])
    lo, hi = case["lo"], case["hi"]
    if not case["pair"]:
        hi = lo
    n = (lo, hi) if case["pair"] else lo
    nontrivial(lo + hi > 0)
    if case["full"]:
        y = viscid.extend_arr(x, n=n, cell_fraction=case["frac"])
        require(len(y) == len(x) + lo + hi, "length")
        eq_arr(y[lo:lo + len(x)], x, "the middle")
        dl, dh = case["frac"] * (x[1] - x[0]), case["frac"] * (x[-1] - x[-2])
        close(y[:lo], x[0] - dl * np.arange(lo, 0, -1), "low end")
        close(y[lo + len(x):], x[-1] + dh * np.arange(1, hi + 1), "high end")
    else:
        if case["k"] != "u":
            raise Discard()
        a = viscid.extend_arr(np.array([x[0], x[-1], len(x)]), n=n, full_arr=False)
        y = np.linspace(a[0], a[1], int(a[2]))
        close(y, viscid.extend_arr(x, n=n), "linspace form", 1e-9, 1e-9)


FACETS = [
    Facet("crds", crds_cases(), check_crds, quick=1200, rule="more than one axis"),
    Facet("center", lazy_cases(), check_center, quick=1500, rule="more than one axis"),
    Facet("dims", dims_cases(), check_dims, quick=2000,
          rule="an axis was added, removed, scaled or renamed, or the field was copied"),
    Facet("make", make_cases(), check_make, quick=1500, rule="more than one axis"),
    Facet("extend", extend_cases(), check_extend, quick=800, rule="something is added"),
]
