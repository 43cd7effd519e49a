"""C21: spherical coordinates, map fields and great circles"""
import numpy as np
from hypothesis import strategies as st

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds

P = np.pi


# ------------------------------------------------------------------ points
@st.composite
def pt_cases(draw):
    return {"n": draw(st.sampled_from([0, 1, 2, 3, 5])), "seed": draw(seeds), "kind": draw(st.sampled_from(["f8", "int", "list", "f4"])),
            "deg": draw(st.booleans()), "r": draw(st.sampled_from([1.0, 2.0, 0.5])),
            "ax": draw(st.sampled_from([["phi", "theta"], ["theta", "phi"], ["lon", "lat"], ["lat", "lon"], ["phi", "lat"]])),
            "hemi": draw(st.sampled_from(["north", "south", "N", " s"]))}


def check_pts(case):
    n = case["n"]
    shape = (3, n) if n else (3,)
    r = rng(case["seed"])
    deg = case["deg"]
    if case["kind"] == "int":
        x = np.round(rarr(case["seed"], shape, "f", -4, 4)).astype("i8")
    else:
        x = rarr(case["seed"], shape, "f", -4, 4)
        if case["kind"] == "f4":
            x = x.astype("f4")
    rad = np.sqrt(np.sum(np.asarray(x, dtype="f8")**2, axis=0))
    if np.any(rad < 0.1):
        raise Discard("origin")
    arg = x.tolist() if case["kind"] == "list" else x
    keep = np.array(x)
    tol = 2e-5 if case["kind"] == "f4" else 1e-7
    label(case["kind"], "deg" if deg else "rad", "single" if n == 0 else "many")
    nontrivial(True)
    u = 180 / P if deg else 1.0
    xf = np.asarray(x, dtype="f8")
    s = viscid.cart2sph(arg, deg=deg)
    require(np.shape(s) == shape, "cart2sph: shape {0}", np.shape(s))
    close(s[0], rad, "r", tol, tol)
    th = np.arccos(np.clip(xf[2] / rad, -1, 1))
    ph = np.arctan2(xf[1], xf[0])
    close(s[1], th * u, "theta", 0, 1e2 * tol * u if case["kind"] == "f4" else 1e-7 * u)
    off = np.hypot(xf[0], xf[1]) > 1e-3
    close(np.where(off, np.exp(1j * np.asarray(s[2], dtype="f8") / u), 1), np.where(off, np.exp(1j * ph), 1), "phi", 0, 10 * tol)
    back = viscid.sph2cart(s, deg=deg)
    require(np.shape(back) == shape, "sph2cart: shape {0}", np.shape(back))
    close(back, xf, "sph2cart of cart2sph", 0, 1e3 * tol if case["kind"] == "f4" else 1e-6)
    eq_arr(np.asarray(x), keep, "argument changed")
    # latitude and longitude
    ll = viscid.cart2latlon(arg, deg=deg)
    require(np.shape(ll) == ((2, n) if n else (2,)), "cart2latlon: shape {0}", np.shape(ll))
    close(ll[0], (P / 2 - th) * u, "latitude", 0, 1e2 * tol * u)
    xyz = viscid.latlon2cart(ll, r=case["r"], deg=deg)
    require(np.shape(xyz) == shape, "latlon2cart: shape {0}", np.shape(xyz))
    close(xyz, case["r"] * xf / rad, "latlon2cart of cart2latlon", 0, 1e2 * tol)
    # integers in degrees
    if case["kind"] == "int" and deg:
        ang = np.stack([r.integers(0, 181, size=max(n, 1)) if hasattr(r, "integers") else r.randint(0, 181, size=max(n, 1)) for _ in range(3)])
        ang = ang.astype("i8")
        ang[0] = 2
        c = viscid.sph2cart(ang, deg=True)
        a = np.deg2rad(ang.astype("f8"))
        close(c, 2 * np.array([np.sin(a[1]) * np.cos(a[2]), np.sin(a[1]) * np.sin(a[2]), np.cos(a[1])]), "sph2cart of integers", 0, 1e-9)
        l2 = np.stack([90 - ang[1], ang[2] - 180])
        close(viscid.latlon2cart(l2, r=2.0), c, "latlon2cart of integers", 0, 1e-9)
    # 1D transforms
    unit = "deg" if deg else "rad"
    for f, g in [(viscid.theta2lat, viscid.lat2theta)]:
        t = th * u
        close(f(t, unit=unit), (P / 2) * u - t, "theta2lat", 0, 1e-12)
        close(g(f(t, unit=unit), unit=unit), t, "lat2theta of theta2lat", 0, 1e-9)
    eq_arr(np.asarray(viscid.phi2lon(ph * u, unit=unit)), np.asarray(ph * u), "phi2lon")
    eq_arr(np.asarray(viscid.lon2phi(ph * u, unit=unit)), np.asarray(ph * u), "lon2phi")
    big = np.append(np.atleast_1d(th * u), P * u * 1.1)
    raises(lambda: viscid.theta2lat(big, unit=unit), "theta beyond pi", ValueError)
    raises(lambda: viscid.lat2theta(big, unit=unit), "latitude beyond pi / 2", ValueError)
    # points for polar plots
    k = max(n, 1)
    T, F = np.atleast_1d(th), np.atleast_1d(ph)
    vals = {"phi": F, "lon": F, "theta": T, "lat": P / 2 - T}
    p2 = np.array([vals[a] for a in case["ax"]]) * u
    isint = case["kind"] == "int" and deg
    if isint:
        p2 = np.round(p2).astype("i8")
    keep = p2.copy()
    axes = list(case["ax"])
    q = viscid.pts2polar_mapfield(p2, axes, pts_unit=unit, hemisphere=case["hemi"])
    eq_arr(p2, keep, "pts2polar_mapfield changed its points")
    require(axes == case["ax"], "pts2polar_mapfield changed its axes")
    pv = dict(zip(case["ax"], np.asarray(p2, dtype="f8") / u))
    lon = pv.get("lon", pv.get("phi"))
    col = pv["theta"] if "theta" in pv else P / 2 - pv["lat"]
    require(q.shape == (2, k), "pts2polar_mapfield: shape {0}", q.shape)
    close(q[0], lon, "longitude for polar plots", 0, 1e-9)
    close(q[1], col if case["hemi"].strip().lower().startswith("n") else P - col, "distance from the pole", 0, 1e-9)


# ------------------------------------------------------------------ great circles
comp = st.one_of(st.sampled_from([0., 0., 1., -1., 2.]), st.floats(-3, 3).map(lambda x: round(x, 3)))
vec = st.tuples(comp, comp, comp).filter(lambda v: np.linalg.norm(v) > 0.3).map(list)


@st.composite
def gc_cases(draw):
    return {"p1": draw(vec), "p2": draw(vec), "rel": draw(st.sampled_from(["any", "any", "any", "same", "opposite", "close"])),
            "origin": draw(st.sampled_from([[0, 0, 0], [1.0, -2.0, 0.5], [1, 2, 3]])), "n": draw(st.sampled_from([2, 3, 32])),
            "f": draw(st.sampled_from([1.0, 1.0, 2.0])), "int": draw(st.booleans())}


def check_gc(case):
    o = np.array(case["origin"], dtype="f8")
    p1 = np.array(case["p1"])
    p2 = np.array(case["p2"])
    if case["rel"] == "same":
        p2 = p1 * case["f"]
    elif case["rel"] == "opposite":
        p2 = -p1 * case["f"]
    elif case["rel"] == "close":
        p2 = p1 + 0.01 * p2
    if case["int"]:
        p1, p2 = np.round(p1).astype("i8"), np.round(p2).astype("i8")
        if not p1.any() or not p2.any():
            raise Discard("center")
        if all(isinstance(v, int) for v in case["origin"]):
            a1, a2 = p1 + np.array(case["origin"]), p2 + np.array(case["origin"])
        else:
            a1, a2 = p1 + o, p2 + o
    else:
        a1, a2 = p1 + o, p2 + o
    p1, p2 = np.asarray(p1, dtype="f8"), np.asarray(p2, dtype="f8")
    r1, r2 = np.linalg.norm(p1), np.linalg.norm(p2)
    if min(r1, r2) < 0.05:
        raise Discard("center")
    label(case["rel"])
    nontrivial(case["rel"] == "any")
    n = case["n"]
    k1, k2 = np.array(a1), np.array(a2)
    c = viscid.great_circle(a1, a2, origin=case["origin"], n=n)
    eq_arr(np.asarray(a1), k1, "p1 changed")
    eq_arr(np.asarray(a2), k2, "p2 changed")
    require(c.shape == (3, n), "shape {0}", c.shape)
    q = c - o[:, None]
    close(q[:, 0], p1, "first point", 0, 1e-6)
    close(q[:, -1], p2, "last point", 0, 1e-6)
    rr = np.linalg.norm(q, axis=0)
    close(rr, np.linspace(r1, r2, n), "radius", 0, 1e-6)
    # in one plane with the center, along the shorter arc, with even steps
    u = q / rr
    ang = np.arctan2(np.linalg.norm(np.cross(p1, p2)), np.dot(p1, p2))
    d = np.arctan2(np.linalg.norm(np.cross(u[:, :-1].T, u[:, 1:].T), axis=1), np.sum(u[:, :-1] * u[:, 1:], axis=0))
    close(d, np.full(n - 1, ang / (n - 1)), "angle of the steps", 0, 1e-6)
    s = np.linalg.svd(q)[1]
    require(n < 3 or s[2] < 1e-6 * s[0], "not in a plane: {0}", s)


# ------------------------------------------------------------------ fields
@st.composite
def fld_cases(draw):
    ax = draw(st.sampled_from([["phi", "theta"], ["theta", "phi"], ["lon", "lat"], ["lat", "lon"], ["phi", "lat"], ["theta", "lon"]]))
    return {"ax": ax, "n": [draw(st.integers(3, 11)), draw(st.integers(3, 11))], "uni": draw(st.booleans()), "seed": draw(seeds),
            "center": draw(st.sampled_from(["node", "cell"])), "unit": draw(st.sampled_from(["deg", "rad"])),
            "tunit": draw(st.sampled_from(["", "deg", "rad"])), "nc": draw(st.sampled_from([0, 0, 3])),
            "layout": draw(st.sampled_from(["flat", "interlaced"])), "to": draw(st.sampled_from(["map", "sphere"])),
            "order": draw(st.booleans()), "range": draw(st.sampled_from(["full", "north", "part", "south"])),
            "hemi": draw(st.sampled_from(["north", "south", "N"])), "blat": draw(st.sampled_from([None, 41.0, 22.0, 61.0, 89.0, -52.0])),
            "periodic": draw(st.booleans()), "sph": draw(st.booleans()), "lo": draw(st.sampled_from([0, 0, -1, 0.25]))}


def mk(case):
    """field and, for each axis, its nodes as (theta or phi in rad)"""
    r = rng(case["seed"])
    crds, nodes = [], {}
    for ax, n in zip(case["ax"], case["n"]):
        if ax in ("phi", "lon"):
            lo, hi = (0, 2 * P) if case["range"] != "part" else (0.3, 2.9)
            if case["periodic"] and case["center"] == "node" and case["range"] != "part":
                hi = 2 * P * (1 - 1.0 / n)
            if case["range"] != "part":
                # e.g. from -180 to 180 degrees
                lo, hi = lo + P * case.get("lo", 0), hi + P * case.get("lo", 0)
        else:
            lo, hi = {"full": (0, P), "north": (0, P / 2), "south": (P / 2, P), "part": (0.41, 2.13)}[case["range"]]
            if ax == "lat":
                lo, hi = P / 2 - hi, P / 2 - lo
        a = np.linspace(lo, hi, n)
        if not case["uni"]:
            a[1:-1] += r.uniform(-0.3, 0.3, size=n - 2) * (a[1] - a[0])
        nodes[ax] = a
        b = a if case["unit"] == "rad" else np.rad2deg(a)
        crds.append([ax, [b[0], b[-1], n] if case["uni"] else b])
    t = ("uniform" if case["uni"] else "nonuniform") + ("_spherical" if case["sph"] else "_cartesian")
    crds = viscid.wrap_crds(t, crds, units=case["unit"])
    shp = [n - (case["center"] == "cell") for n in case["n"]]
    if case["nc"]:
        if [case["nc"]] + shp == shp + [case["nc"]] or 1 in shp or shp[0] == 3 or shp[1] == 3:
            raise Discard("ambiguous layout")
        full = shp + [3] if case["layout"] == "interlaced" else [3] + shp
    else:
        full = shp
    d = rarr(case["seed"] + 1, tuple(full), "uniq")
    kw = {"layout": case["layout"], "fldtype": "vector"} if case["nc"] else {"fldtype": "scalar"}
    f = viscid.wrap_field(np.array(d), crds, name="f", center=case["center"], **kw)
    pts = {}
    for ax in case["ax"]:
        a = nodes[ax]
        pts[ax] = a if case["center"] == "node" else 0.5 * (a[1:] + a[:-1])
    return f, d, pts


def table(f, unit, axes=None):
    """{(theta, phi) rounded: value} of a field"""
    out = {}
    axes = list(f.crds.axes)
    c = f.get_crds()
    dat = np.asarray(f.data)
    if f.nr_comps:
        dat = np.moveaxis(dat, f.nr_comp, -1)
    k = P / 180 if unit == "deg" else 1.0
    for i in range(dat.shape[0]):
        for j in range(dat.shape[1]):
            v = dict(zip(axes, (c[0][i] * k, c[1][j] * k)))
            th = v["theta"] if "theta" in v else P / 2 - v["lat"]
            ph = v["phi"] if "phi" in v else v["lon"]
            out[round(th, 6) + 0.0, round(ph, 6) + 0.0] = np.ravel(dat[i, j]).tolist()
    return out


def same_table(a, b, what):
    """tables of the same points up to roundoff"""
    require(len(a) == len(b), "{0}: {1} points, not {2}", what, len(a), len(b))
    ka, kb = sorted(a), sorted(b)
    close(np.array(ka), np.array(kb), what + ": points", 0, 1e-5)
    for p, q in zip(ka, kb):
        require(a[p] == b[q], "{0}: {1} at {2}, not {3}", what, a[p], p, b[q])


def want_table(case, d, pts):
    ax = case["ax"]
    dd = np.moveaxis(d, 0, -1) if case["nc"] and case["layout"] == "flat" else d
    out = {}
    for i, a in enumerate(pts[ax[0]]):
        for j, b in enumerate(pts[ax[1]]):
            v = {ax[0]: a, ax[1]: b}
            th = v["theta"] if "theta" in v else P / 2 - v["lat"]
            ph = v["phi"] if "phi" in v else v["lon"]
            out[round(th, 6) + 0.0, round(ph, 6) + 0.0] = np.ravel(dd[i, j]).tolist()
    return out


def check_fld(case):
    f, d, pts = mk(case)
    want = want_table(case, d, pts)
    fn, names = (viscid.as_mapfield, ["lon", "lat"]) if case["to"] == "map" else (viscid.as_spherefield, ["phi", "theta"])
    order = names if case["order"] else names[::-1]
    label("->".join(["".join(x[0] for x in case["ax"]), case["to"]]), case["unit"] + ">" + case["tunit"], case["center"])
    nontrivial(list(order) != case["ax"])
    kw = {"units": case["tunit"]} if case["tunit"] else {}
    g = fn(f, order=tuple(order), **kw)
    eq_arr(np.asarray(f.data), d, "the field changed")
    require(list(f.crds.axes) == case["ax"], "the field's axes changed")
    require(list(g.crds.axes) == list(order), "axes {0}", g.crds.axes)
    require(g.center == f.center and g.nr_comps == f.nr_comps, "kind of field")
    unit = case["tunit"] or case["unit"]
    for a in order:
        require(g.crds.get_unit(a) == unit, "unit {0} of {1}, not {2}", g.crds.get_unit(a), a, unit)
    same_table(table(g, unit), want, "as_" + case["to"] + "field")
    for a in order:
        require(np.all(np.diff(g.get_crd(a)) > 0), "{0} must increase", a)
    # and back again
    other = viscid.as_spherefield if case["to"] == "map" else viscid.as_mapfield
    on = {"lon": "phi", "lat": "theta", "phi": "lon", "theta": "lat"}
    h = other(g, order=tuple(on[a] for a in order), units=case["unit"])
    same_table(table(h, case["unit"]), want, "there and back")


def check_polar(case):
    f, d, pts = mk(case)
    want = want_table(case, d, pts)
    north = case["hemi"].lower().startswith("n")
    theta = np.unique([k[0] for k in want])
    nodes_span = {"full": P, "north": P / 2, "south": P / 2, "part": 1.7}[case["range"]]
    bl = case["blat"]
    if bl is None:
        # spheres are cut at 40 degrees, hemispheres are shown in full
        lim = 40.0 if nodes_span > 1.05 * P / 2 else 90.0
    else:
        lim = abs(bl)
    col = theta if north else P - theta
    lim = np.deg2rad(lim)
    if np.any(np.abs(col - lim) < 1e-4):
        raise Discard("on the edge")
    keep = {k: v for k, v in want.items() if (k[0] if north else P - k[0]) < lim}
    label("north" if north else "south", case["range"], case["center"])
    nontrivial(len(keep) > 0)
    kw = {} if bl is None else {"bounding_lat": bl}
    if not keep:
        # nothing there: an error or nothing
        try:
            viscid.as_polar_mapfield(f, hemisphere=case["hemi"], **kw)
        except Exception:
            pass
        return
    ncol = len(set(k[0] for k in keep))
    if ncol < 2:
        raise Discard("one ring")
    periodic = case["periodic"] and case["range"] != "part"
    g = viscid.as_polar_mapfield(f, hemisphere=case["hemi"], make_periodic=periodic, **kw)
    eq_arr(np.asarray(f.data), d, "the field changed")
    require(list(g.crds.axes) == ["lon", "lat"], "axes {0}", g.crds.axes)
    lon, co = g.get_crds()
    dat = np.asarray(g.data)
    if g.nr_comps:
        dat = np.moveaxis(dat, g.nr_comp, -1)
    require(dat.shape[:2] == (len(lon), len(co)), "shape {0} of {1} x {2} points", dat.shape, len(lon), len(co))
    if periodic and case["center"] == "node":
        close(lon[-1] - lon[0], 2 * P, "the seam", 0, 1e-6)
        eq_arr(dat[-1], dat[0], "data on the seam")
        dat, lon = dat[:-1], lon[:-1]
    got = {}
    for i, a in enumerate(lon):
        for j, b in enumerate(co):
            got[round(b if north else P - b, 6) + 0.0, round(a, 6) + 0.0] = np.ravel(dat[i, j]).tolist()
    same_table(got, keep, "as_polar_mapfield")


FACETS = [Facet("points", pt_cases(), check_pts, 700, 12000, "always"),
          Facet("circles", gc_cases(), check_gc, 700, 12000, "points that aren't on one line with the center"),
          Facet("fields", fld_cases(), check_fld, 600, 10000, "other axes or another order"),
          Facet("polar", fld_cases(), check_polar, 600, 10000, "some of the data is within bounding_lat")]
KNOWN = []
