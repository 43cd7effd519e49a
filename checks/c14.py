"""C14: calculations on fields are their formula on the data, with any backend"""
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import calculator
from viscid.calculator import plasma
from checks.c09 import NAMES, crd_of
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds
from vf.fallback import numexpr
from vf.fields import ambiguous, flat_vec, grid_specs, scalar_field, spec_arrs, sshape, vector_field

ONE = ["neg", "abs_val", "abs_max", "abs_min"]
TWO = ["add", "diff", "mul", "relative_diff", "abs_diff"]
VEC1 = ["magnitude", "normalize"]
VEC2 = ["dot", "cross", "project", "project_vector"]


@st.composite
def alg_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(2, 6), kinds=("u", "n")))
    spec["names"] = draw(st.sampled_from(NAMES[len(spec["n"])]))
    c = {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
         "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
         "op": draw(st.sampled_from(ONE + TWO + VEC1 * 2 + VEC2 * 2 + ["scale", "axpby"] * 2)),
         "backend": draw(st.sampled_from(["numexpr", "numpy", None, "native"])),
         "only": draw(st.booleans()),
         "nc": draw(st.sampled_from([0, 3])),
         "a": draw(st.sampled_from([2, -1.5, 0.25, 3])), "b": draw(st.sampled_from([1, -2, 0.5]))}
    if c["backend"] == "native":
        c["op"] = "magnitude"
    return c


def check_alg(case):
    spec = case["spec"]
    shp = sshape(spec)
    op = case["op"]
    vec = op in VEC1 + VEC2 or case["nc"]
    if ambiguous(shp, 3) and vec:
        raise Discard()
    if case["backend"] == "native" and len(shp) != 3:
        raise Discard()
    if int(np.prod(shp)) == 1:
        raise Discard()

    def mk(off):
        d = rarr(spec["seed"] + off, ((3, ) if vec else ()) + shp, dtype=case["dtype"])
        d[np.abs(d) < 0.1] = 1 if case["dtype"] == "i4" else 0.1
        f = vector_field(spec, d, case["layout"]) if vec else scalar_field(spec, d)
        return f, d

    f, d = mk(0)
    g, e = mk(1)
    d8, e8 = d.astype("f8"), e.astype("f8")
    kw = {}
    if op != "project_vector":
        kw["preferred"] = case["backend"]
        if case["backend"] is not None:
            kw["only"] = case["only"]
    fn = getattr(calculator.calc, op)
    label(op, case["backend"], case["layout"], case["dtype"], "vec" if vec else "scalar")
    nontrivial()
    a, b = case["a"], case["b"]
    with np.errstate(all="ignore"):
        if op in ONE:
            got = fn(f, **kw)
            want = {"neg": -d8, "abs_val": np.abs(d8), "abs_max": np.abs(d8).max(),
                    "abs_min": np.abs(d8).min()}[op]
        elif op in TWO:
            got = fn(f, g, **kw)
            want = {"add": d8 + e8, "diff": d8 - e8, "mul": d8 * e8, "relative_diff": (d8 - e8) / d8,
                    "abs_diff": np.abs(d8 - e8)}[op]
        elif op == "scale":
            got = fn(a, f, **kw)
            want = a * d8
        elif op == "axpby":
            got = fn(a, f, b, g, **kw)
            want = a * d8 + b * e8
        else:
            mag = np.sqrt((d8**2).sum(axis=0))
            mage = np.sqrt((e8**2).sum(axis=0))
            dt = (d8 * e8).sum(axis=0)
            got = fn(f, **kw) if op in VEC1 else fn(f, g, **kw)
            want = {"magnitude": mag, "normalize": d8 / mag, "dot": dt, "project": dt / mage,
                    "project_vector": dt / mage**2 * e8,
                    "cross": np.cross(d8, e8, axis=0)}[op]
    tol = 1e-4 if case["dtype"] == "f4" else 1e-11
    scale = tol * max(1.0, np.abs(want).max())
    if op in ("abs_max", "abs_min"):
        close(got, want, op, tol, tol)
    else:
        require(isinstance(got, viscid.field.Field), "{0} isn't a field: {1}", op, type(got))
        if op == "relative_diff":
            # documentation and code disagree about the sign
            close(np.abs(flat_vec(got) if want.ndim > len(shp) else got.data), np.abs(want), op, tol,
                  scale)
        else:
            close(flat_vec(got) if want.ndim > len(shp) else np.asarray(got.data), want, op, tol, scale)
        require(got.center == f.center, "{0}: center {1}", op, got.center)
        if case["dtype"] != "i4":
            require(np.asarray(got.data).dtype == np.dtype(case["dtype"]), "{0}: dtype {1} from {2}", op,
                    got.dtype, case["dtype"])
        for name, c in zip(spec["names"], crd_of(spec)):
            close(got.get_crd(name), c, op + ": coordinates")
        if want.ndim > len(shp):
            require(got.nr_comps == 3, "{0}: {1} components", op, got.nr_comps)
        else:
            require(got.nr_comps == 0, "{0}: not a scalar", op)
    eq_arr(flat_vec(f) if vec else f.data, d, op + " changed its argument")
    eq_arr(flat_vec(g) if vec else g.data, e, op + " changed its argument")


# ------------------------------------------------------------- flux function
@st.composite
def psi_cases(draw):
    spec = draw(grid_specs(nd=(2, 2), n=(3, 9), kinds=draw(st.sampled_from(["u", "n", "un"]))))
    spec["names"] = draw(st.sampled_from(NAMES[2]))
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"])), "rev": draw(st.booleans()),
            "dim": draw(st.sampled_from(["2d", "3d1", "3d2", "3d1new"])),
            "kind": draw(st.sampled_from(["linear", "noise", "smooth"])), "perm": draw(st.sampled_from([False, False, True]))}


def check_psi(case):
    """B = grad(psi) x e_sym: psi grows with the flux between two points"""
    spec = case["spec"]
    shp = sshape(spec)
    if ambiguous(shp, 3):
        raise Discard()
    crd = crd_of(spec)
    Y, Z = np.meshgrid(*crd, indexing="ij")
    r = rng(spec["seed"] + 3)
    c = r.uniform(-2, 2, 6)
    names = spec["names"]
    iy, iz = ["xyz".index(a) for a in names]
    want = None
    if case["kind"] == "linear":
        # psi is a quadratic form, the trapezoidal rule is exact for its derivatives
        want = c[0] * Y + c[1] * Z + c[2] * Y * Z + c[3] * Y**2 + c[4] * Z**2
        hz = c[0] + c[2] * Z + 2 * c[3] * Y
        hy = -(c[1] + c[2] * Y + 2 * c[4] * Z)
    elif case["kind"] == "smooth":
        hz, hy = np.sin(Y + 0.3 * Z), 0.3 * np.sin(Y - Z)
    else:
        hz, hy = rarr(spec["seed"], shp), rarr(spec["seed"] + 1, shp)
    d = rarr(spec["seed"] + 2, (3, ) + shp)
    d[iy], d[iz] = hy, hz
    if case["dtype"] == "i4":
        d = np.round(d)
        want = None
    d = d.astype(case["dtype"])
    if case["dim"] == "2d":
        B = vector_field(spec, d, case["layout"])
    elif case["dim"] == "3d1new":
        B = vector_field(spec, d, case["layout"]).atleast_3d()
    else:
        new = [i for i in range(3) if i not in (iy, iz)][0]
        k = 1 if case["dim"] == "3d1" else 2
        if min(shp) <= 2:
            raise Discard()
        arrs = list(spec_arrs(spec))
        nn = k + (1 if spec["center"] == "cell" else 0)
        if nn == 1:
            raise Discard()
        arrs.insert(new, np.linspace(0., 1., nn))
        dd = np.repeat(np.expand_dims(d, 1 + new), k, axis=1 + new)
        if case["layout"] == "interlaced":
            dd = np.ascontiguousarray(np.moveaxis(dd, 0, -1))
        B = viscid.wrap_field(dd, viscid.arrays2crds(arrs, crd_names="xyz"), fldtype="vector",
                              center=spec["center"], layout=case["layout"], name="b")
    label(case["kind"], case["dim"], "rev" if case["rev"] else "fwd", names)
    nontrivial()
    if case.get("perm"):
        # the same field with its axes in another order
        label("other order of axes")
        B = B.spatial_transpose(*list(B.crds.axes)[::-1])
    psi = viscid.calc_psi(B, rev=case["rev"])
    if case.get("perm"):
        psi = psi.spatial_transpose(*(list(names) + [a for a in psi.crds.axes if a not in names]))
    got = np.asarray(psi.data).astype("f8")
    require(got.size == Y.size, "psi has shape {0}", got.shape)
    if case["dim"] == "3d2":
        require(sorted(psi.crds.axes) == ["x", "y", "z"], "psi of a 3D field has axes {0}", psi.crds.axes)
    got = got.reshape(shp)
    for a, x in zip(names, crd):
        close(psi.get_crd(a), x, "coordinates of psi")
    d8 = d.astype("f8")
    tol = 2e-3 if case["dtype"] == "f4" else 1e-9
    if want is not None:
        close(got - got[0, 0], want - want[0, 0], "psi of a field with a known flux function", tol,
              tol * max(1.0, np.abs(want).max()))
    # flux through each segment of the edge it starts at, and across
    e = -1 if case["rev"] else 0
    sc = tol * max(1.0, np.abs(got).max())
    close(np.diff(got, axis=1), -np.diff(crd[1])[None, :] * 0.5 * (d8[iy][:, 1:] + d8[iy][:, :-1]),
          "flux in direction " + names[1], tol, sc)
    close(np.diff(got[:, e]), np.diff(crd[0]) * 0.5 * (d8[iz][1:, e] + d8[iz][:-1, e]),
          "flux in direction " + names[0], tol, sc)
    require(abs(got[e, e]) <= sc, "psi doesn't start at 0")


@st.composite
def beta_cases(draw):
    spec = draw(grid_specs(nd=(1, 3), n=(3, 6), kinds=("u", "n")))
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f4", "i4"])),
            "scale": draw(st.sampled_from([None, 1.0, 40.0, 0.5])), "ne": draw(st.booleans())}


def check_beta(case):
    spec = case["spec"]
    shp = sshape(spec)
    if ambiguous(shp, 3):
        raise Discard()
    nontrivial()
    d = rarr(spec["seed"], (3, ) + shp, dtype=case["dtype"])
    if case["dtype"] == "i4":
        d[d == 0] = 1
    p = rarr(spec["seed"] + 1, shp, lo=0.1, dtype=case["dtype"])
    kw = {} if case["scale"] is None else {"scale": case["scale"]}
    with numexpr(plasma, case.get("ne", True)):
        got = viscid.calc_beta(scalar_field(spec, p), vector_field(spec, d, case["layout"]), **kw)
    want = (case["scale"] or 1.0) * 2 * p.astype("f8") / (d.astype("f8")**2).sum(axis=0)
    close(np.asarray(got.data, dtype="f8"), want, "beta", 1e-4 if case["dtype"] == "f4" else 1e-11, 1e-12)
    require(got.center == spec["center"] and got.nr_comps == 0, "beta isn't like p")


FACETS = [
    Facet("algebra", alg_cases(), check_alg, quick=2500, rule="always"),
    Facet("psi", psi_cases(), check_psi, quick=800, rule="always"),
    Facet("beta", beta_cases(), check_beta, quick=200, rule="always"),
]
