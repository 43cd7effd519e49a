"""C19: dipole fields, masks and mapping along dipole field lines"""
import numpy as np
from hypothesis import strategies as st

import viscid
from viscid import dipole
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds
from vf.fallback import numexpr
from vf.fields import axis_arr

comp = st.one_of(st.sampled_from([0., 0., 1., -1.]), st.floats(-3, 3).map(lambda x: round(x, 3)))
vec = st.tuples(comp, comp, comp).filter(lambda v: np.linalg.norm(v) > 0.1).map(list)
T0 = "2010-06-23T00:00:00"


def dip(pts, m):
    """pts (..., 3)"""
    r2 = np.sum(pts**2, axis=-1)[..., None]
    return (3 * pts * np.sum(pts * m, axis=-1)[..., None] / r2 - m) / r2**1.5


def comp_points(fld, i):
    """where component i of fld lives, reconstructed from nothing but the nodes"""
    nc = [np.asarray(a, dtype="f8") for a in fld.crds.get_crds_nc()]
    cc = [0.5 * (a[1:] + a[:-1]) for a in nc]
    c = fld.center.lower()
    if c == "node":
        ax = nc
    elif c == "cell":
        ax = cc
    elif c == "face":
        ax = [nc[j][:-1] if j == i else cc[j] for j in range(3)]
        ax = [a[:n] for a, n in zip(ax, fld.sshape)]
    else:
        ax = [cc[j] if j == i else nc[j][:-1] for j in range(3)]
        ax = [a[:n] for a, n in zip(ax, fld.sshape)]
    return np.stack(np.meshgrid(*ax, indexing="ij"), axis=-1)


def either(check):
    def f(case):
        with numexpr(dipole, case["seed"] % 4 != 1):
            check(case)
    return f


@st.composite
def fld_cases(draw):
    # grids that avoid the origin by more than the roundoff
    return {"n": [draw(st.integers(2, 6)) for _ in range(3)], "k": draw(st.sampled_from(["u", "n"])), "seed": draw(seeds),
            "center": draw(st.sampled_from(["node", "cell", "face", "edge"])), "dtype": draw(st.sampled_from(["f8", "f8", "f4"])),
            "layout": draw(st.sampled_from(["interlaced", "flat"])), "m": draw(vec), "mint": draw(st.booleans()),
            "strength": draw(st.sampled_from([None, None, 2.0, 30574.0])), "time": draw(st.integers(0, 4)) == 0,
            "crd": draw(st.sampled_from(["gse", "mhd", "sm", "gsm"])), "mask": draw(st.sampled_from([None, "field", "field"])),
            "rmin": draw(st.sampled_from([0.0, 1.0, 2.0, 3.5])), "rmax": draw(st.sampled_from([None, 3.0, 5.0]))}


def moment(case):
    """(what's given, its value)"""
    if case["time"]:
        m = viscid.Cotr(T0).get_dipole_moment(case["crd"])
        arg = T0
    else:
        m = np.array(case["m"])
        if case["mint"]:
            m = np.round(m)
            if not np.any(m):
                m = np.array([0, 0, -1.0])
            arg = [int(x) for x in m]
        else:
            arg = case["m"]
    if case["strength"] is not None:
        m = m * (case["strength"] / np.linalg.norm(m))
    return arg, m


@either
def check_field(case):
    arrs = [axis_arr(case["k"], n, case["seed"] + i, lo=-1.5) for i, n in enumerate(case["n"])]
    shp = [n if case["center"] == "node" else n - 1 for n in case["n"]]
    shp = shp + [3] if case["layout"] == "interlaced" else [3] + shp
    f = viscid.wrap_field(np.zeros(shp, dtype=case["dtype"]), viscid.arrays2crds(arrs), name="b", fldtype="vector",
                          center=case["center"], layout=case["layout"])
    s = list(f.sshape)
    if [3] + s == s + [3]:
        raise Discard("ambiguous layout")
    if min(f.sshape) < 1 or np.prod(f.sshape) == 1:
        raise Discard("fields of one value are numbers")
    f.set_info("crd_system", case["crd"])
    arg, m = moment(case)
    tol = 1e-9 if case["dtype"] == "f8" else 2e-4
    label(case["center"], case["dtype"], case["layout"], "mask" if case["mask"] else "all")
    nontrivial(case["center"] != "cell" or case["mask"] is not None)
    pts = [comp_points(f, i) for i in range(3)]
    r2 = min(np.min(np.sum(p**2, axis=-1)) for p in pts)
    if r2 < 0.01:
        raise Discard("too close to the dipole")
    want = np.stack([dip(p, m)[..., i] for i, p in enumerate(pts)], axis=-1)
    scale = np.stack([np.linalg.norm(m) / np.sum(p**2, axis=-1)**1.5 for p in pts], axis=-1)
    # masks
    rmin, rmax = case["rmin"], case["rmax"]
    rr = np.stack([np.sqrt(np.sum(p**2, axis=-1)) for p in pts], axis=-1)
    inside = rr >= rmin
    if rmax is not None:
        inside &= rr < rmax
    sure = np.abs(rr - rmin) > 1e-5
    if rmax is not None:
        sure &= np.abs(rr - rmax) > 1e-5
    mask = viscid.make_spherical_mask(f, rmin=rmin, rmax=rmax)
    if case["center"] in ("node", "cell"):
        require(mask.nr_comps == 0 and mask.center.lower() == case["center"], "mask {0}", mask)
        got = np.asarray(mask.data).astype(bool)
        ok = sure[..., 0]
        eq_arr(np.where(ok, got, True), np.where(ok, inside[..., 0], True), "spherical mask")
        sm = viscid.make_spherical_mask(f["x"], rmin=rmin, rmax=rmax)
        eq_arr(np.asarray(sm.data), got, "spherical mask of a scalar")
    else:
        require(mask.center == f.center and mask.nr_comps == 3, "mask {0}", mask)
        got = np.stack([np.asarray(mask[c].data).astype(bool) for c in "xyz"], axis=-1)
        eq_arr(np.where(sure, got, True), np.where(sure, inside, True), "spherical mask")
    if case["mask"]:
        old = rarr(case["seed"] + 7, tuple(f.sshape) + (3,), "f", -1, 1).astype(case["dtype"])
        f.data[...] = np.moveaxis(old, -1, 0) if case["layout"] == "flat" else old
        r = viscid.fill_dipole(f, m=arg, strength=case["strength"], mask=mask)
        g3 = got if got.ndim == 4 else np.repeat(got[..., None], 3, axis=-1)
        want = np.where(g3, want, old)
    else:
        r = viscid.fill_dipole(f, m=arg, strength=case["strength"])
    require(r is f, "fill_dipole returns its field")
    require(f.data.dtype == np.dtype(case["dtype"]), "dtype {0}", f.data.dtype)
    have = np.moveaxis(f.data, 0, -1) if case["layout"] == "flat" else np.asarray(f.data)
    require(have.shape == want.shape, "shape {0}", have.shape)
    close((have - want) / np.maximum(scale, 1e-6), np.zeros(want.shape), "dipole field", 0, tol)
    # a weighted sum inside of the region
    other = f.wrap(np.asarray(rarr(case["seed"] + 9, f.data.shape, "f", -1, 1), dtype=case["dtype"]))
    out = f.wrap(np.full(f.data.shape, 7.0, dtype=case["dtype"]))
    viscid.set_in_region(f, other, 2.0, -0.5, mask=mask, out=out)
    w = np.asarray(f.data) * 2.0 - 0.5 * np.asarray(other.data)
    g3 = got if got.ndim == 4 else np.repeat(got[..., None], 3, axis=-1)
    if case["layout"] == "flat":
        g3 = np.moveaxis(g3, -1, 0)
    w = np.where(g3, w, 7.0)
    close(np.asarray(out.data), w, "set_in_region", tol, tol)
    res = viscid.set_in_region(f, other, 2.0, -0.5)
    close(np.asarray(res.data), np.asarray(f.data) * 2.0 - 0.5 * np.asarray(other.data), "set_in_region without a mask", tol, tol)


# ------------------------------------------------------------------ make_dipole and calc_dip
@st.composite
def make_cases(draw):
    return {"n": [draw(st.integers(2, 6)) for _ in range(3)], "seed": draw(seeds), "m": draw(vec), "mint": draw(st.booleans()),
            "strength": draw(st.sampled_from([None, None, 2.0])), "time": False, "dtype": draw(st.sampled_from(["f8", "f4"])),
            "center": draw(st.sampled_from(["node", "cell"])), "crd": draw(st.sampled_from(["gse", "mhd"])),
            "nonuniform": draw(st.booleans()), "twod": draw(st.booleans()), "npts": draw(st.sampled_from([0, 1, 3, 5])),
            "ptype": draw(st.sampled_from(["f8", "f4", "int", "list"])), "usetime": draw(st.booleans())}


@either
def check_make(case):
    r = rng(case["seed"])
    l = [round(-1.9 + r.uniform(-1, 1), 2) for _ in range(3)]
    h = [round(2.7 + r.uniform(-1, 1), 2) for _ in range(3)]
    arg, m = moment(case)
    label(case["center"], case["crd"], "twod" if case["twod"] else "3d")
    nontrivial(True)
    tol = 1e-9 if case["dtype"] == "f8" else 2e-4
    n = case["n"]
    b = viscid.make_dipole(m=arg, strength=case["strength"], l=l, h=h, n=n, center=case["center"], dtype=case["dtype"],
                           twod=case["twod"], nonuniform=case["nonuniform"], crd_system=case["crd"])
    sh = list(n)
    if case["twod"]:
        sh[1] = 2 if case["center"] == "node" else 1
    if [3] + sh == sh + [3] or np.prod(sh) == 1:
        raise Discard("ambiguous layout")
    require(list(b.sshape) == sh, "shape {0}, not {1}", b.sshape, sh)
    require(b.data.dtype == np.dtype(case["dtype"]), "dtype")
    p = comp_points(b, 0)
    close([b.crds.get_nc("x")[0], b.crds.get_nc("x")[-1]], [l[0], h[0]], "limits", 1e-5, 1e-5)
    if np.min(np.sum(p**2, axis=-1)) < 0.01:
        raise Discard("too close to the dipole")
    want = dip(p, m)
    scale = np.linalg.norm(m) / np.sum(p**2, axis=-1)[..., None]**1.5
    close((b.data - want) / scale, np.zeros(want.shape), "make_dipole", 0, tol)
    require(viscid.as_crd_system(b) == case["crd"], "crd_system")
    mc = viscid.as_cotr(b).get_dipole_moment(case["crd"], strength=np.linalg.norm(m))
    close(mc, m, "moment of the field's cotr", 0, 1e-6 * np.linalg.norm(m))
    # points
    k = case["npts"]
    shape = (k, 3) if k else (3,)
    if case["ptype"] == "int":
        pts = rarr(case["seed"] + 3, shape, "i", 1, 4).astype("i8")
    else:
        pts = rarr(case["seed"] + 3, shape, "f", 0.5, 4)
        if case["ptype"] == "f4":
            pts = pts.astype("f4")
    parg = pts.tolist() if case["ptype"] == "list" else pts
    keep = np.array(pts)
    kw = {}
    if case["usetime"]:
        m = viscid.Cotr(T0).get_dipole_moment(case["crd"])
        if case["strength"] is not None:
            m = m * (case["strength"] / np.linalg.norm(m))
        arg = T0
        kw["crd_system"] = case["crd"]
    got = viscid.calc_dip(parg, m=arg, strength=case["strength"], **kw)
    eq_arr(np.asarray(pts), keep, "calc_dip changed its argument")
    require(np.shape(got) == shape, "calc_dip: shape {0}", np.shape(got))
    want = dip(np.asarray(pts, dtype="f8"), m)
    scale = np.linalg.norm(m) / np.sum(np.asarray(pts, dtype="f8")**2, axis=-1)[..., None]**1.5
    close((got - want) / scale, np.zeros(want.shape), "calc_dip", 0, 1e-4 if case["ptype"] == "f4" else 1e-9)


# ------------------------------------------------------------------ mapping
@st.composite
def map_cases(draw):
    return {"npts": draw(st.sampled_from([0, 1, 2, 6])), "seed": draw(seeds), "ptype": draw(st.sampled_from(["f8", "int", "list"])),
            "r": draw(st.sampled_from([1.0, 0.5, 1.5, 3.0])), "cotr": draw(st.sampled_from([None, "time", "tilt"])),
            "crd": draw(st.sampled_from(["gse", "mhd", "sm", "gsm"])), "tilt": draw(st.floats(-40, 40).map(lambda x: round(x, 2))),
            "kind": draw(st.sampled_from(["linear", "nearest"])), "sph": draw(st.sampled_from(["", "tp", "pt", "ll"])),
            "fill": draw(st.booleans()), "uni": draw(st.booleans())}


@either
def check_map(case):
    k = case["npts"]
    shape = (3, k) if k else (3,)
    r = rng(case["seed"])
    if case["ptype"] == "int":
        pts = r.integers(-4, 5, size=shape).astype("i8") if hasattr(r, "integers") else r.randint(-4, 5, size=shape)
    else:
        pts = rarr(case["seed"], shape, "f", -4, 4)
    crd = case["crd"]
    ct = {None: viscid.Cotr(dip_tilt=0.0, dip_gsm=0.0), "time": viscid.Cotr(T0),
          "tilt": viscid.Cotr(dip_tilt=case["tilt"], dip_gsm=10.0)}[case["cotr"]]
    carg = None if case["cotr"] is None else (T0 if case["cotr"] == "time" else ct)
    sm = ct.transform(crd, "sm", np.asarray(pts, dtype="f8").reshape(3, -1))
    rad = np.linalg.norm(sm, axis=0)
    if np.any(rad < 0.3) or np.any(np.hypot(sm[0], sm[1]) < 0.1):
        raise Discard("too close to the center or the axis")
    lat = np.arcsin(sm[2] / rad)
    if np.any(np.abs(lat) < 1e-3):
        raise Discard("no hemisphere")
    L = rad / np.cos(lat)**2
    rm = case["r"]
    label(crd, str(case["cotr"]), "single" if k == 0 else "many")
    parg = pts.tolist() if case["ptype"] == "list" else pts
    keep = np.array(pts)
    got = viscid.xyz2lsrlp(parg, cotr=carg, crd_system=crd)
    require(got.shape == (4, max(k, 1)), "xyz2lsrlp: shape {0}", got.shape)
    close(got[0], L, "L shell", 1e-9, 1e-12)
    close(got[1], rad, "radius", 1e-9, 1e-12)
    close(got[2], lat, "latitude", 0, 1e-9)
    dphi = got[3] - np.arctan2(sm[1], sm[0])
    close(np.exp(1j * dphi), np.ones(len(L)), "longitude", 0, 1e-9)
    m = viscid.dipole_map(parg, r=rm, cotr=carg, crd_system=crd)
    require(m.shape == (3, max(k, 1)), "dipole_map: shape {0}", m.shape)
    eq_arr(np.asarray(pts), keep, "dipole_map changed its argument")
    if np.any(np.abs(L - rm) < 1e-3):
        raise Discard("at the top of a line")
    there = L > rm
    nontrivial(np.any(there))
    lam = np.where(there, np.sign(lat) * np.arccos(np.sqrt(np.minimum(rm / L, 1.0))), np.nan)
    phi = np.arctan2(sm[1], sm[0])
    want_sm = rm * np.array([np.cos(lam) * np.cos(phi), np.cos(lam) * np.sin(phi), np.sin(lam)])
    want = ct.transform("sm", crd, want_sm)
    require(np.array_equal(np.isnan(m).any(axis=0), ~there), "points are mapped iff their line reaches r")
    close(m[:, there], want[:, there], "dipole_map", 0, 1e-7)
    s = viscid.dipole_map(parg, r=rm, cotr=carg, crd_system=crd, as_spherical=True)
    close(s[0], np.full(len(L), rm), "mapped radius", 0, 1e-9)
    close(s[1][there], 90 - np.rad2deg(lam[there]), "mapped theta", 0, 1e-6)
    require(np.all((s[2] >= 0) & (s[2] <= 360)), "phi in 0 .. 360")
    close(np.exp(1j * (np.deg2rad(s[2]) - phi)), np.ones(len(L)), "mapped phi", 0, 1e-9)
    # the lines are the ones of the field: B has no component across surfaces of constant L and phi
    moment_sm = np.array([0, 0, -1.0])
    B = dip(sm.T, moment_sm)
    e = 1e-5
    Lf = lambda x: (x[:, 0]**2 + x[:, 1]**2 + x[:, 2]**2)**1.5 / (x[:, 0]**2 + x[:, 1]**2)
    bh = B / np.linalg.norm(B, axis=1)[:, None]
    close((Lf(sm.T + e * bh) - Lf(sm.T - e * bh)) / (2 * e) / L, np.zeros(len(L)), "reference L shells follow the field", 0, 1e-3)
    # going back
    if np.any(there):
        tp = np.asarray(pts, dtype="f8").reshape(3, -1)[:, there]
        for j in range(tp.shape[1]):
            back = viscid.dipole_map(m[:, there][:, j], r=rad[there][j], cotr=carg, crd_system=crd)
            # roundoff grows next to the top of a line
            close(back[:, 0], tp[:, j], "there and back", 0, 1e-5)
    # values on the mapped points
    good = there & (np.abs(lam) < 1.4) if True else there
    if case["sph"] == "":
        ax = [np.linspace(-3.1, 3.1, 5)] * 3
        f = viscid.zeros(ax, center="node")
        X, Y, Z = np.meshgrid(*ax, indexing="ij")
        f.data[...] = 1 + 2 * X - Y + 0.5 * Z
        f.set_info("crd_system", crd)
        v = viscid.dipole_map_value(f, parg, r=rm, cotr=carg, fillna=-5.0 if case["fill"] else None)
        require(np.shape(v) == (max(k, 1),), "dipole_map_value: shape {0}", np.shape(v))
        w = 1 + 2 * want[0] - want[1] + 0.5 * want[2]
        close(np.asarray(v)[there], w[there], "dipole_map_value", 0, 1e-6)
        if case["fill"]:
            close(np.asarray(v)[~there], np.full(np.sum(~there), -5.0), "fillna", 0, 0)
    else:
        th, ph = np.linspace(0, 180, 19), np.linspace(0, 360, 37)
        def sphere(crds, names):
            if case["uni"]:
                cl = [[nm, [c[0], c[-1], len(c)]] for nm, c in zip(names, crds)]
            else:
                cl = [[nm, c] for nm, c in zip(names, crds)]
            t = "uniform_spherical" if case["uni"] else "nonuniform_spherical"
            return viscid.zeros(viscid.wrap_crds(t, cl, units="deg"), center="node")

        if case["sph"] == "ll":
            f = sphere([ph, th - 90.0], ["lon", "lat"])
            P, T = np.meshgrid(ph, 180 - th, indexing="ij")
        elif case["sph"] == "tp":
            f = sphere([th, ph], ["theta", "phi"])
            T, P = np.meshgrid(th, ph, indexing="ij")
        else:
            f = sphere([ph, th], ["phi", "theta"])
            P, T = np.meshgrid(ph, th, indexing="ij")
        f.data[...] = 2.0 * T - 0.5 * P
        v = viscid.dipole_map_value(f, parg, r=rm, cotr=carg, crd_system=crd)
        w = 2.0 * s[1] - 0.5 * s[2]
        close(np.asarray(v)[there], w[there], "dipole_map_value on a sphere", 0, 1e-6)


# ------------------------------------------------------------------- masks
@st.composite
def mask_cases(draw):
    return {"lo": [draw(st.integers(-5, 0)) for _ in range(3)], "n": [draw(st.integers(2, 7)) for _ in range(3)], "center": draw(st.sampled_from(["node", "cell", "face", "edge"])),
            "layout": draw(st.sampled_from(["interlaced", "flat"])), "r2": [draw(st.integers(0, 30)) for _ in range(2)], "rmax": draw(st.booleans()), "comps": draw(st.booleans()),
            "off": [draw(st.integers(0, 1)) for _ in range(3)]}


def check_mask(case):
    """on grids of whole numbers the origin is in the sphere of any radius, and surely in one of no least radius"""
    crds = viscid.arrays2crds([2.0 * np.arange(l, l + n + 1) + o for l, n, o in zip(case["lo"], case["n"], case["off"])])
    shp = list(crds.shape_nc if case["center"] == "node" else crds.shape_cc)
    if case["comps"] or case["center"] in ("face", "edge"):
        if [3] + shp == shp + [3]:
            raise Discard("ambiguous layout")
        f = viscid.wrap_field(np.zeros(shp + [3] if case["layout"] == "interlaced" else [3] + shp), crds, name="b", fldtype="vector", center=case["center"], layout=case["layout"])
    else:
        f = viscid.wrap_field(np.zeros(shp), crds, name="s", center=case["center"])
    # square roots of halves are never those of sums of squares
    rmin, rmax = sorted(np.sqrt(4 * k + 0.5) for k in case["r2"])
    if case["r2"][0] % 3 == 0:
        rmin = 0.0
    kw = {"rmin": rmin}
    if case["rmax"]:
        kw["rmax"] = rmax
    mask = viscid.make_spherical_mask(f, **kw)
    if case["center"] in ("face", "edge"):
        pts = [np.meshgrid(*[np.ravel(f.get_crds_vector(shaped=False)[d][c]) for d in range(3)], indexing="ij") for c in range(3)]
        got = [np.asarray(mask[c].data).astype(bool) for c in "xyz"]
    else:
        pts = [np.meshgrid(*f.get_crds(), indexing="ij")]
        got = [np.asarray(mask.data).astype(bool)]
    for p, g in zip(pts, got):
        rr = np.sqrt(sum(c**2 for c in p))
        want = rr >= rmin
        if case["rmax"]:
            want &= rr < rmax
        eq_arr(g, want, "spherical mask")
    nontrivial(any(g.any() and not g.all() for g in got))


FACETS = [Facet("field", fld_cases(), check_field, 700, 12000, "not cell centered or masked"),
          Facet("make", make_cases(), check_make, 500, 8000, "always"),
          Facet("mapping", map_cases(), check_map, 700, 12000, "a point's line reaches the radius"),
          Facet("masks", mask_cases(), check_mask, 300, 4000, "some are in and some out")]
KNOWN = []
