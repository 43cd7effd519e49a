"""C13: derivatives of fields are central differences on the grid"""
import numpy as np
from hypothesis import strategies as st

import viscid
from checks.c09 import NAMES, crd_of
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds
from vf.fields import ambiguous, flat_vec, grid_specs, scalar_field, spec_arrs, sshape, vector_field

BACKENDS = ["numexpr", "numpy", None]


@st.composite
def bases(draw, n=(4, 8)):
    spec = draw(grid_specs(nd=(3, 3), n=n, kinds=draw(st.sampled_from(["u", "n", "un"]))))
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
            "kind": draw(st.sampled_from(["noise", "linear", "smooth"]))}


def mesh(spec):
    return np.meshgrid(*crd_of(spec), indexing="ij")


def data_of(case, nc, off=0):
    spec = case["spec"]
    shp = sshape(spec)
    r = rng(spec["seed"] + 5 + off)
    out = []
    X = mesh(spec)
    for i in range(max(nc, 1)):
        if case["kind"] == "noise":
            d = rarr(spec["seed"] + i + 10 * off, shp)
        else:
            c = r.uniform(-2, 2, 4)
            d = c[0] + sum(a * x for a, x in zip(c[1:], X))
            if case["kind"] == "smooth":
                d = np.sin(0.5 * d) + 0.2 * X[i % 3] * X[(i + 1) % 3]
        out.append(d)
    d = np.array(out) if nc else out[0]
    if case["dtype"][0] == "i":
        d = np.round(5 * d)
    return d.astype(case["dtype"])


def ddx(d, x, ax, bnd):
    """derivative along ax, one sided at the ends if bnd, else only the inner points"""
    d = np.asarray(d, dtype="f8")
    x = np.asarray(x, dtype="f8")
    n = d.shape[ax]
    sh = [1] * d.ndim
    sh[ax] = -1
    ip = np.clip(np.arange(n) + 1, 0, n - 1)
    im = np.clip(np.arange(n) - 1, 0, n - 1)
    g = (np.take(d, ip, axis=ax) - np.take(d, im, axis=ax)) / (x[ip] - x[im]).reshape(sh)
    if not bnd:
        g = g[(slice(1, -1), ) * 3]
    return g


def mkv(case, off=0):
    if ambiguous(sshape(case["spec"]), 3) or min(sshape(case["spec"])) < 3:
        raise Discard()
    d = data_of(case, 3, off)
    return vector_field(case["spec"], d, case["layout"]), d


@st.composite
def diff_cases(draw):
    c = draw(bases())
    c["op"] = draw(st.sampled_from(["grad", "div", "curl", "conv", "conv_b", "conv_s"]))
    c["bnd"] = draw(st.booleans())
    c["backend"] = draw(st.sampled_from(BACKENDS))
    return c


def same_grid(case, g, bnd, msg):
    spec = case["spec"]
    require(g.center.lower() == spec["center"], "{0}: center {1}", msg, g.center)
    for ax, want in zip("xyz", crd_of(spec)):
        want = want if bnd else want[1:-1]
        close(g.get_crd(ax), want, msg + ": coordinates " + ax, 1e-6, 1e-6)


def check_diff(case):
    spec = case["spec"]
    shp = sshape(spec)
    if min(shp) < 3 or ambiguous(shp, 3):
        raise Discard()
    crd = crd_of(spec)
    bnd, op = case["bnd"], case["op"]
    if not bnd and (min(shp) < 4 or ambiguous([n - 2 for n in shp], 3)):
        raise Discard()
    f4 = case["dtype"] == "f4"
    rt, at = (2e-3, 2e-3) if f4 else (1e-9, 1e-9)
    kw = {"preferred": case["backend"]}
    label(op, case["backend"], spec["center"], case["layout"], "bnd" if bnd else "inner", case["kind"])
    nontrivial(case["kind"] != "linear")

    def D(d, ax):
        return ddx(d, crd[ax], ax, bnd)

    if op == "grad":
        d = data_of(case, 0)
        f = scalar_field(spec, d)
        g = viscid.grad(f, bnd=bnd, **kw)
        want = np.array([D(d, i) for i in range(3)])
    elif op in ("div", "curl"):
        f, d = mkv(case)
        g = getattr(viscid, op)(f, bnd=bnd, **kw)
        if op == "div":
            want = sum(D(d[i], i) for i in range(3))
        else:
            want = np.array([D(d[2], 1) - D(d[1], 2), D(d[0], 2) - D(d[2], 0), D(d[1], 0) - D(d[0], 1)])
    else:
        a, da = mkv(case)
        f = a
        inner = (slice(None), ) + (slice(None) if bnd else slice(1, -1), ) * 3
        da8 = da.astype("f8")[inner]
        if op == "conv":
            g = viscid.convective_deriv(a, bnd=bnd)
            want = np.array([sum(da8[i] * D(da[j], i) for i in range(3)) for j in range(3)])
        elif op == "conv_b":
            b, db = mkv(case, 1)
            g = viscid.convective_deriv(a, b, bnd=bnd)
            want = np.array([sum(da8[i] * D(db[j], i) for i in range(3)) for j in range(3)])
        else:
            db = data_of(case, 0, 1)
            g = viscid.convective_deriv(a, scalar_field(spec, db), bnd=bnd)
            want = sum(da8[i] * D(db, i) for i in range(3))
        d = da
    got = flat_vec(g) if want.ndim == 4 else np.asarray(g.data)
    close(got.astype("f8"), want, op, rt, at * max(1.0, np.abs(want).max()))
    same_grid(case, g, bnd, op)
    # input isn't changed
    eq_arr(flat_vec(f) if np.ndim(d) == 4 else f.data, d, op + ": changed its argument")


# ---------------------------------------------------------------- identities
@st.composite
def ident_cases(draw):
    c = draw(bases(n=(6, 9)))
    c["which"] = draw(st.sampled_from(["curl grad", "div curl", "div grad2", "linear", "const"]))
    c["backend"] = draw(st.sampled_from(BACKENDS))
    c["dtype"] = "f8"
    return c


def check_ident(case):
    spec = case["spec"]
    kw = {"preferred": case["backend"]}
    w = case["which"]
    label(w, case["backend"], spec["center"])
    v, d = mkv(case)
    if min(sshape(spec)) < 5 or ambiguous([n - 2 for n in sshape(spec)], 3):
        raise Discard()
    nontrivial(case["kind"] != "linear")
    if w == "curl grad":
        s = scalar_field(spec, d[0])
        g = viscid.grad(s, bnd=False, **kw)
        c = viscid.curl(g, bnd=False, **kw)
        close(flat_vec(c), np.zeros((3, ) + tuple(c.sshape)), "curl of a gradient", 0,
              1e-8 * max(1.0, np.abs(flat_vec(g)).max()))
    elif w == "div curl":
        g = viscid.curl(v, bnd=False, **kw)
        c = viscid.div(g, bnd=False, **kw)
        close(c.data, np.zeros(c.sshape), "divergence of a curl", 0,
              1e-8 * max(1.0, np.abs(flat_vec(g)).max()))
    elif w == "div grad2":
        # product rule is exact for a linear factor at equal spacing; use linearity in the argument
        s = scalar_field(spec, d[0])
        t = scalar_field(spec, d[1])
        a = viscid.grad(2.0 * s - 3.0 * t, **kw)
        b = 2.0 * viscid.grad(s, **kw) - 3.0 * viscid.grad(t, **kw)
        close(flat_vec(a), flat_vec(b), "gradient isn't linear", 1e-8, 1e-8)
    elif w == "linear":
        X = mesh(spec)
        r = rng(spec["seed"] + 77)
        J = r.uniform(-2, 2, (3, 3))
        d = np.array([sum(J[i, j] * X[j] for j in range(3)) for i in range(3)]) + 1.5
        v = vector_field(spec, d, case["layout"])
        close(viscid.div(v, **kw).data, np.trace(J) * np.ones(sshape(spec)), "div of a linear field",
              1e-9, 1e-9)
        want = np.array([J[2, 1] - J[1, 2], J[0, 2] - J[2, 0], J[1, 0] - J[0, 1]])
        close(flat_vec(viscid.curl(v, **kw)), want[:, None, None, None] * np.ones((3,) + sshape(spec)),
              "curl of a linear field", 1e-9, 1e-9)
        for i in range(3):
            close(flat_vec(viscid.grad(v["xyz"[i]], **kw)),
                  J[i][:, None, None, None] * np.ones((3,) + sshape(spec)),
                  "grad of a linear field", 1e-9, 1e-9)
    else:
        v = vector_field(spec, np.ones_like(d) * np.array([1., -2., 3.])[:, None, None, None],
                         case["layout"])
        close(viscid.div(v, **kw).data, np.zeros(sshape(spec)), "div of a constant")
        close(flat_vec(viscid.curl(v, **kw)), np.zeros_like(d), "curl of a constant")


# -------------------------------------------------------------------- at points
@st.composite
def point_cases(draw):
    c = draw(bases(n=(5, 8)))
    c["spec"]["center"] = "cell"
    c["dtype"] = draw(st.sampled_from(["f8", "f8", "i4"]))
    c["at"] = draw(st.lists(st.integers(0, 10**6), min_size=3, max_size=3))
    c["how"] = draw(st.sampled_from(["ind", "crd", "point", "point_dx"]))
    return c


def check_points(case):
    spec = case["spec"]
    v, d = mkv(case)
    shp = sshape(spec)
    if min(shp) < 4:
        raise Discard()
    crd = crd_of(spec)
    how = case["how"]
    label(how, case["kind"])
    nontrivial(case["kind"] != "linear")
    i = [1 + a % (n - 2) for a, n in zip(case["at"], shp)]
    if how == "ind":
        J = np.array([[(d[k][tuple(np.add(i, e))] - d[k][tuple(np.subtract(i, e))]) /
                       (crd[a][i[a] + 1] - crd[a][i[a] - 1])
                       for a, e in enumerate(np.eye(3, dtype=int))] for k in range(3)])
        close(viscid.jacobian_at_ind(v, *i), J, "jacobian_at_ind", 1e-9, 1e-9)
        got_eig = viscid.jacobian_eig_at_ind(v, *i)
    else:
        from vf import trace
        r = rng(spec["seed"] + 31)
        if how == "crd":
            p = np.array([crd[a][i[a]] for a in range(3)])
        else:
            p = np.array([crd[a][i[a]] + r.uniform(-0.3, 0.3) * np.diff(crd[a]).min() for a in range(3)])
        if how == "point_dx":
            dx = [float(r.uniform(0.1, 1.0) * np.diff(c).min()) for c in crd]
            kw = dict(zip(("dx", "dy", "dz"), dx))
        else:
            kw = {}
            dx = [c[j + 1] - c[j] for c, j in
                  zip(crd, [int(np.argmin(np.abs(c - q))) for c, q in zip(crd, p)])]
        cols = []
        for a, e in enumerate(np.eye(3)):
            q = np.array([p + e * dx[a], p - e * dx[a]]).T
            f = trace.interp(d.astype("f8"), crd, q)
            cols.append((f[:, 0] - f[:, 1]) / (2 * dx[a]))
        J = np.array(cols).T
        args = p.tolist() if case["at"][0] % 2 else list(p)
        close(viscid.jacobian_at_point(v, *args, **kw), J, "jacobian_at_point", 1e-8, 1e-8)
        close(viscid.div_at_point(v, *args, **kw), np.trace(J), "div_at_point", 1e-8, 1e-8)
        close(viscid.curl_at_point(v, *args, **kw),
              [J[2, 1] - J[1, 2], J[0, 2] - J[2, 0], J[1, 0] - J[0, 1]], "curl_at_point", 1e-8, 1e-8)
        got_eig = viscid.jacobian_eig_at_point(v, *args, **kw)
    ev, vec = got_eig
    close(np.dot(J, vec), vec * ev, "eigen vectors of the jacobian", 1e-6, 1e-6)
    close(np.sort_complex(ev), np.sort_complex(np.linalg.eigvals(J)), "eigen values", 1e-6, 1e-6)


# ---------------------------------------------------------------- boundaries
@st.composite
def ext_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(draw(st.sampled_from([1, 2, 3])), 6), kinds=draw(st.sampled_from(["u", "n", "un"]))))
    return {"spec": spec, "nc": draw(st.sampled_from([0, 3, 2])),
            "dx": [draw(st.sampled_from([0, 0.5, 3])), draw(st.sampled_from([0, 0.25, 2]))],
            "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "nl": draw(st.integers(0, 3)), "nh": draw(st.integers(0, 3)),
            "order": draw(st.sampled_from([0, 1])), "crd_order": draw(st.sampled_from([0, 1])),
            "axes": draw(st.lists(st.booleans(), min_size=3, max_size=3)),
            "by": draw(st.sampled_from(["all", "names", "str", "inds"])),
            "what": draw(st.sampled_from(["field", "array"]))}


def ext1(a, ax, nl, nh, order, dx=0):
    a = np.moveaxis(np.asarray(a, dtype="f8"), ax, 0)
    lo, hi = a[0], a[-1]
    dl, dh = ((a[0] - a[1], a[-1] - a[-2]) if order and len(a) > 1 else (0 * lo, 0 * hi))
    if len(a) == 1 and order:
        dl, dh = dl - dx, dh + dx
    low = [lo + dl * (k + 1) for k in range(nl)][::-1]
    high = [hi + dh * (k + 1) for k in range(nh)]
    return np.moveaxis(np.array(low + list(a) + high), 0, ax)


def check_ext(case):
    spec = case["spec"]
    shp = sshape(spec)
    nc = case["nc"]
    if nc and ambiguous(shp, nc) or np.prod(shp) < 2 or spec["center"] == "cell" and min(spec["n"]) < 2:
        raise Discard()
    nd = len(shp)
    dx, crd_dx = case.get("dx", [0, 0])
    # constant steps are for linear extrapolation
    dx, crd_dx = dx if case["order"] else 0, crd_dx if case["crd_order"] else 0
    d = rarr(spec["seed"], ((nc, ) if nc else ()) + shp)
    nl, nh = case["nl"], case["nh"]
    sel = [i for i in range(nd) if case["axes"][i] or case["by"] == "all"]
    if not sel:
        raise Discard()
    names = spec["names"]
    if nc and ambiguous([n + (nl + nh if i in sel else 0) for i, n in enumerate(shp)], nc):
        raise Discard()
    kw = dict(nl=nl, nh=nh, order=case["order"], invarient_dx=dx)
    if case["by"] != "all":
        kw["axes"] = {"names": [names[i] for i in sel], "str": "".join(names[i] for i in sel),
                      "inds": sel}[case["by"]]
    label(case["what"], case["by"], "order {0}".format(case["order"]))
    nontrivial(nl + nh > 0)
    comps = d if nc else d[None]

    def check_data(got):
        got = got if nc else got[None]
        want_shape = tuple(n + (nl + nh if i in sel else 0) for i, n in enumerate(shp))
        require(got.shape[1:] == want_shape, "shape {0} != {1}", got.shape, want_shape)
        core = tuple(slice(nl, nl + n) if i in sel else slice(None) for i, n in enumerate(shp))
        for k in range(len(comps)):
            for ax in sel:
                c = list(core)
                c[ax] = slice(None)
                close(got[k][tuple(c)], ext1(comps[k], ax, nl, nh, case["order"], dx),
                      "extended along " + names[ax], 1e-9, 1e-9)

    if case["what"] == "array":
        if case["by"] in ("names", "str"):
            kw["axes"] = sel
        arr = np.moveaxis(d, 0, -1) if nc and case["layout"] == "interlaced" else d
        if nc:
            kw["nr_comp"] = nd if case["layout"] == "interlaced" else 0
        got = viscid.extend_boundaries_ndarr(arr, **kw)
        if nc and case["layout"] == "interlaced":
            got = np.moveaxis(got, -1, 0)
        check_data(got)
        return
    kw["crd_order"], kw["crd_invarient_dx"] = case["crd_order"], crd_dx
    f = vector_field(spec, d, case["layout"]) if nc else scalar_field(spec, d)
    g = viscid.extend_boundaries(f, **kw)
    check_data(flat_vec(g) if nc else np.asarray(g.data))
    require(g.center == f.center and g.layout == f.layout, "center / layout changed")
    for i, a in enumerate(names):
        c = crd_of(spec)[i]
        want = ext1(c, 0, nl, nh, case["crd_order"], crd_dx) if i in sel else c
        close(g.get_crd(a), want, "coordinates of the extended field", 1e-9, 1e-9)
    eq_arr(flat_vec(f) if nc else f.data, d, "field was changed")


# ------------------------------------------------------------- planar fields
@st.composite
def planar_cases(draw):
    spec = draw(grid_specs(nd=(2, 2), n=(4, 8), kinds=draw(st.sampled_from(["u", "n", "un"]))))
    spec["names"] = draw(st.sampled_from(NAMES[2]))
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "op": draw(st.sampled_from(["grad", "div", "curl"])),
            "backend": draw(st.sampled_from(BACKENDS))}


def check_planar(case):
    """2D fields that were made 3D: nothing changes along the new axis"""
    spec = case["spec"]
    shp = sshape(spec)
    if ambiguous(shp, 3):
        raise Discard()
    op = case["op"]
    label(op, case["backend"], spec["names"])
    nontrivial()
    kw = {"preferred": case["backend"]}
    crd = dict(zip(spec["names"], crd_of(spec)))
    new = [i for i, a in enumerate("xyz") if a not in spec["names"]][0]
    shp3 = list(shp)
    shp3.insert(new, 1)
    d = rarr(spec["seed"], (3, ) + shp)
    d3 = d.reshape([3] + shp3)

    def D(a, i):
        return np.zeros_like(a) if i == new else ddx(a, crd["xyz"[i]], i, True)

    if op == "grad":
        f = scalar_field(spec, d[0]).atleast_3d()
        want = np.array([D(d3[0], i) for i in range(3)])
    else:
        f = vector_field(spec, d, case["layout"]).atleast_3d()
        if op == "div":
            want = sum(D(d3[i], i) for i in range(3))
        else:
            want = np.array([D(d3[2], 1) - D(d3[1], 2), D(d3[0], 2) - D(d3[2], 0),
                             D(d3[1], 0) - D(d3[0], 1)])
    g = getattr(viscid, op)(f, **kw)
    got = flat_vec(g) if want.ndim == 4 else np.asarray(g.data)
    close(got, want, op, 1e-9, 1e-9)
    for a, c in crd.items():
        close(g.get_crd(a), c, "coordinates", 1e-9, 1e-9)


FACETS = [
    Facet("planar", planar_cases(), check_planar, quick=400, rule="always"),
    Facet("diff", diff_cases(), check_diff, quick=1500, rule="the field isn't linear"),
    Facet("ident", ident_cases(), check_ident, quick=500, rule="the field isn't linear"),
    Facet("points", point_cases(), check_points, quick=800, rule="the field isn't linear"),
    Facet("extend", ext_cases(), check_ext, quick=1200, rule="extended by at least one"),
]
