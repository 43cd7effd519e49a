"""C15: face and edge centered fields"""
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.calculator import ecfc
from vf import trace
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds
from vf.fields import ambiguous, flat_vec, grid_specs, spec_arrs, sshape


@st.composite
def bases(draw, n=(5, 8), flat_axis=True):
    spec = draw(grid_specs(nd=(3, 3), n=n, kinds=draw(st.sampled_from(["u", "n", "un"]))))
    spec["center"] = "cell"
    if flat_axis and draw(st.integers(0, 3)) == 0:
        spec["n"][draw(st.integers(0, 2))] = 2
    return {"spec": spec, "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4"])),
            "center": draw(st.sampled_from(["face", "edge"])),
            "numpy": draw(st.booleans())}


def mk(case, d, arrs=None):
    arrs = spec_arrs(case["spec"]) if arrs is None else arrs
    dat = np.array(d)
    if case["layout"] == "interlaced":
        dat = np.ascontiguousarray(np.moveaxis(dat, 0, -1))
    return viscid.wrap_field(dat, viscid.arrays2crds(arrs), name="b", fldtype="vector",
                             center=case["center"], layout=case["layout"])


def lohi(d, ax, n):
    """values at the lower / upper side of the cells that have both"""
    if n == 1:
        return d, d
    lo = [slice(None)] * 3
    hi = [slice(None)] * 3
    lo[ax], hi[ax] = slice(None, -1), slice(1, None)
    return d[tuple(lo)], d[tuple(hi)]


def cut(d, shp, skip=()):
    return d[tuple(slice(None) if n == 1 or i in skip else slice(None, -1)
                   for i, n in enumerate(shp))]


def to_cc(d, center):
    """reference: average of leading staggered components (3, ...) to cells"""
    shp = d.shape[1:]
    out = []
    for k in range(3):
        c = d[k].astype("f8")
        axes = [k] if center == "face" else [i for i in range(3) if i != k]
        for ax in range(3):
            if ax in axes:
                c = 0.5 * sum(lohi(c, ax, shp[ax]))
            elif shp[ax] > 1:
                c = lohi(c, ax, shp[ax])[0]
        out.append(c)
    return np.array(out)


def div_ref(d, arrs):
    shp = d.shape[1:]
    out = 0.0
    for k in range(3):
        c = cut(d[k].astype("f8"), shp, skip=(k, ))
        if shp[k] == 1:
            continue
        lo, hi = lohi(c, k, shp[k])
        sh = [1] * 3
        sh[k] = -1
        out = out + (hi - lo) / np.diff(arrs[k])[:-1].reshape(sh)
    return out


def cc(a):
    return 0.5 * (a[1:] + a[:-1])


def inner_crd(a):
    return cc(a) if len(a) == 2 else cc(a)[:-1]


def check_result(case, got, want, arrs, bnd, msg):
    f4 = case["dtype"] == "f4"
    tol = 1e-4 if f4 else 1e-11
    require(got.iscentered("cell"), "{0}: center {1}", msg, got.center)
    shp = [len(a) - 1 for a in arrs]
    d = flat_vec(got) if want.ndim == 4 else np.asarray(got.data)
    sl = (Ellipsis, ) + (slice(1, -1), ) * 3
    if bnd:
        close(d[sl].astype("f8"), want, msg + " (bnd)", tol, tol * max(1, np.abs(want).max()))
        edge = np.pad(d[sl], ((0, 0), ) * (d.ndim - 3) + ((1, 1), ) * 3, mode="edge")
        # next to the faces of the grid values are held
        for ax in range(3):
            c = [slice(1, -1)] * 3
            c[ax] = slice(None)
            c = (Ellipsis, ) + tuple(c)
            close(d[c], edge[c], msg + ": boundary values", 1e-6, 1e-12)
    else:
        close(d.astype("f8"), want, msg, tol, tol * max(1, np.abs(want).max()))
    for a, arr in zip("xyz", arrs):
        x = np.asarray(got.get_crd(a))
        x = x[1:-1] if bnd else x
        close(x, inner_crd(arr), msg + ": coordinates", 1e-9, 1e-9)


@st.composite
def cc_cases(draw):
    c = draw(bases())
    c["op"] = draw(st.sampled_from(["cc", "cc", "div", "as"]))
    c["bnd"] = draw(st.booleans())
    return c


def skip_amb(shp):
    s = [n for n in shp]
    if len(set(s + [3])) == 1 or shp[0] == 3 or shp[2] == 3:
        raise Discard()
    inner = [n - 1 if n > 1 else n for n in shp]
    for t in (inner, [n + 2 for n in inner]):
        if ambiguous(t, 3) and 1 not in t:
            raise Discard()


def check_cc(case):
    spec = case["spec"]
    shp = sshape(spec)
    skip_amb(shp)
    if shp.count(1) > 1:
        raise Discard()
    arrs = spec_arrs(spec)
    op = case["op"]
    if op == "div":
        case["center"] = "face"
    if case["layout"] == "interlaced" and shp[2] == 1:
        case["layout"] = "flat"
    d = rarr(spec["seed"], (3, ) + shp, dtype=case["dtype"])
    f = mk(case, d)
    label(op, case["center"], case["layout"], "planar" if 1 in shp else "3d")
    nontrivial()
    kw = {"force_numpy": case["numpy"], "bnd": case["bnd"]}
    if op == "div":
        got = viscid.div_fc(f, **kw) if case["numpy"] else viscid.div(f, bnd=case["bnd"])
        want = div_ref(d, arrs)
    else:
        want = to_cc(d, case["center"])
        if op == "as":
            got = f.as_cell_centered()
            case["bnd"] = True
        else:
            got = (viscid.fc2cc if case["center"] == "face" else viscid.ec2cc)(f, **kw)
    if np.ndim(want) == 0:
        raise Discard()
    check_result(case, got, np.asarray(want), arrs, case["bnd"], op)
    eq_arr(flat_vec(f), d, op + " changed the field")


# --------------------------------------------------------------- no monopoles
@st.composite
def mono_cases(draw):
    c = draw(bases(n=(4, 7), flat_axis=False))
    c["center"] = "face"
    return c


def check_mono(case):
    """curl of an edge centered potential has no divergence, cell by cell"""
    spec = case["spec"]
    shp = sshape(spec)
    skip_amb(shp)
    arrs = spec_arrs(spec)
    A = rarr(spec["seed"], (3, ) + tuple(n + 1 for n in shp))

    def d(c, ax):
        sh = [1] * 3
        sh[ax] = -1
        out = np.diff(c, axis=ax) / np.diff(arrs[ax]).reshape(sh)
        return out[tuple(slice(0, n) for n in shp)]

    b = np.array([d(A[2], 1) - d(A[1], 2), d(A[0], 2) - d(A[2], 0), d(A[1], 0) - d(A[0], 1)])
    # differences at the last cell need the next face, which isn't used by div_fc(bnd=False)
    f = mk(case, b)
    nontrivial()
    g = viscid.div_fc(f, force_numpy=case["numpy"], bnd=False)
    sl = (slice(0, -1), ) * 3
    close(np.asarray(g.data), np.zeros(tuple(n - 1 for n in shp)), "div of curl", 0, 1e-9 * np.abs(b).max())


# ----------------------------------------------------------- leading/trailing
@st.composite
def stag_cases(draw):
    c = draw(bases())
    c["stag"] = draw(st.sampled_from([0, 1]))
    c["flip"] = draw(st.sampled_from([False, True]))
    c["op"] = draw(st.sampled_from(["prep", "cc", "div"]))
    return c


def check_stag(case):
    """fields as simulations write them: faces below or above the cells, before or after x and y were
    reversed; what comes out is judged by the place the values came from"""
    spec = case["spec"]
    shp = sshape(spec)
    skip_amb(shp)
    skip_amb([n - 1 if n > 1 else n for n in shp])
    if shp.count(1) > 1:
        raise Discard()
    if case["layout"] == "interlaced" and shp[2] == 1:
        case["layout"] = "flat"
    if case["op"] == "div":
        case["center"] = "face"
    arrs = spec_arrs(spec)
    face = case["center"] == "face"
    flip = case["flip"]

    # true values at all faces / edges
    val = [rarr(spec["seed"] + k, tuple(n + 1 for n in shp)) for k in range(3)]

    def staggered(k, ax):
        return (ax == k) == face

    data = []
    for k in range(3):
        sl = []
        for ax in range(3):
            n = shp[ax]
            if staggered(k, ax) and n > 1:
                # in simulation coordinates
                first = 0 if case["stag"] == 0 else 1
                if flip and ax < 2:
                    first = 1 - first       # cells are counted from the other side
                sl.append(slice(first, first + n))
            else:
                sl.append(slice(0, n))
        data.append(val[k][tuple(sl)])
    d = np.array(data).astype(case["dtype"])
    f = mk(case, d)
    f.set_info(ecfc.PREPROCESSED_KEY, False)
    f.set_info(ecfc.STAGGER_KEY, [[ecfc.STAGGER_LEADING] * 3, [ecfc.STAGGER_TRAILING] * 3][case["stag"]])
    if flip:
        f.set_info(ecfc.FLIP_KEY, [True, True, False])
    label(case["op"], case["center"], "flip" if flip else "", "stag{0}".format(case["stag"]),
          "planar" if 1 in shp else "3d")
    nontrivial()
    # leading staggered, without the first cell
    lead = np.array([v[tuple(slice(1, n) if n > 1 else slice(0, 1) for n in shp)] for v in val])
    lead = lead.astype(case["dtype"])
    arrs1 = [a[1:] if len(a) > 2 else a for a in arrs]
    if case["op"] == "prep":
        g = viscid.make_ecfc_field_leading(f)
        eq_arr(flat_vec(g), lead, "leading staggered field")
        for a, arr in zip("xyz", arrs1):
            close(g.get_crd_nc(a), arr, "coordinates", 1e-12, 1e-12)
        require(g.center.lower() == case["center"], "center")
        g2 = viscid.make_ecfc_field_leading(g)
        eq_arr(flat_vec(g2), lead, "not idempotent")
    elif case["op"] == "cc":
        fn = viscid.fc2cc if face else viscid.ec2cc
        want = to_cc(lead, case["center"])
        if np.asarray(want).size == 0:
            raise Discard()
        for bnd in (True, False):
            check_result(case, fn(f, force_numpy=case["numpy"], bnd=bnd), want, arrs1, bnd, "cc")
    else:
        want = div_ref(lead, arrs1)
        if np.ndim(want) == 0 or want.size == 0:
            raise Discard()
        for bnd in (True, False):
            check_result(case, viscid.div_fc(f, force_numpy=case["numpy"], bnd=bnd), want, arrs1, bnd,
                         "div")


# ------------------------------------------------------------------- interp
@st.composite
def int_cases(draw):
    c = draw(bases(flat_axis=False))
    c["pts"] = draw(st.integers(1, 6))
    c["kind"] = draw(st.sampled_from(["linear", "nearest"]))
    return c


def check_interp(case):
    """each component lives at its own place"""
    spec = case["spec"]
    shp = sshape(spec)
    skip_amb(shp)
    arrs = spec_arrs(spec)
    d = rarr(spec["seed"], (3, ) + shp, dtype=case["dtype"])
    f = mk(case, d)
    r = rng(spec["seed"] + 4)
    pts = np.array([r.uniform(a[0] - 0.5, a[-1] + 0.5, case["pts"]) for a in arrs])
    face = case["center"] == "face"
    want = []
    label(case["center"], case["kind"])
    nontrivial()
    for k in range(3):
        crd = [a[:-1] if (ax == k) == face else cc(a) for ax, a in enumerate(arrs)]
        if case["kind"] == "linear":
            want.append(trace.interp(d[k:k + 1].astype("f8"), crd, pts)[0])
        else:
            ind = []
            for c, x in zip(crd, pts):
                dist = np.abs(c[:, None] - x[None, :])
                s = np.sort(dist, axis=0)
                if len(c) > 1 and np.any(s[1] - s[0] < 1e-6):
                    raise Discard()
                ind.append(np.argmin(dist, axis=0))
            want.append(d[k][tuple(ind)].astype("f8"))
    got = viscid.interp(f, pts, kind=case["kind"], wrap=False)
    close(np.asarray(got, dtype="f8"), np.array(want).T, "interpolated " + case["center"],
          1e-4 if case["dtype"] == "f4" else 1e-9, 1e-4 if case["dtype"] == "f4" else 1e-9)


FACETS = [
    Facet("cells", cc_cases(), check_cc, quick=1200, rule="always"),
    Facet("mono", mono_cases(), check_mono, quick=200, rule="always"),
    Facet("stagger", stag_cases(), check_stag, quick=1200, rule="always"),
    Facet("interp", int_cases(), check_interp, quick=500, rule="always"),
]
