"""C18: geocentric coordinate transformations"""
import datetime as pydt

import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

import viscid
from viscid import cotr as ct
from vf.core import Facet, close, eq_arr, label, nontrivial, raises, rarr, require, seeds

SYS = ["gei", "geo", "gse", "gsm", "sm", "mag", "mhd"]
IGRF = [(1950, -30554.00, -2250.00, 5815.00), (1955, -30500.00, -2215.00, 5820.00),
        (1960, -30421.00, -2169.00, 5791.00), (1965, -30334.00, -2119.00, 5776.00),
        (1970, -30220.00, -2068.00, 5737.00), (1975, -30100.00, -2013.00, 5675.00),
        (1980, -29992.00, -1956.00, 5604.00), (1985, -29873.00, -1905.00, 5500.00),
        (1990, -29775.00, -1848.00, 5406.00), (1995, -29692.00, -1784.00, 5306.00),
        (2000, -29619.40, -1728.20, 5186.10), (2005, -29554.63, -1669.05, 5077.99),
        (2010, -29496.57, -1586.42, 4944.26), (2015, -29442.00, -1501.00, 4797.10)]
IG = np.array(IGRF)
NAMES = {"gei": ["gei", "GEI", " gei "], "gse": ["gse", "GSE", "Gse "]}


def lrot(deg, axis):
    """<deg, axis> of Hapgood (1992)"""
    t = np.deg2rad(deg)
    c, s = np.cos(t), np.sin(t)
    i, j = {"x": (1, 2), "y": (0, 2), "z": (0, 1)}[axis]
    m = np.eye(3)
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = s, -s
    return m


def reference(t, notilt1967=True, tilt=None, gsm=None):
    """matrices from gse to all systems"""
    day = pydt.datetime(t.year, t.month, t.day)
    mjd = (day - pydt.datetime(1858, 11, 17)).days
    d = t - day
    ut = (d.seconds + d.microseconds * 1e-6) / 3600
    t0 = (mjd - 51544.5) / 36525.0
    T1 = lrot(100.461 + 36000.770 * t0 + 15.04107 * ut, "z")
    M = np.deg2rad(357.528 + 35999.050 * t0 + 0.04107 * ut)
    lam = 280.460 + 36000.772 * t0 + 0.04107 * ut + (1.915 - 0.0048 * t0) * np.sin(M) + 0.020 * np.sin(2 * M)
    T2 = lrot(lam, "z").dot(lrot(23.439 - 0.013 * t0, "x"))
    y0 = pydt.datetime(t.year, 1, 1)
    year = t.year + (t - y0).total_seconds() / (pydt.datetime(t.year + 1, 1, 1) - y0).total_seconds()
    g10, g11, h11 = [np.interp(year, IG[:, 0], IG[:, k]) for k in (1, 2, 3)]
    north = -np.array([g11, h11, g10])
    north /= np.linalg.norm(north)
    lon = np.arctan2(north[1], north[0])
    # Hapgood (1992): phi = 90 - arcsin((g11 cos + h11 sin) / g10)
    phi = np.pi / 2 - np.arcsin((g11 * np.cos(lon) + h11 * np.sin(lon)) / g10)
    Q = np.array([np.cos(phi) * np.cos(lon), np.cos(phi) * np.sin(lon), np.sin(phi)])
    T5 = lrot(np.rad2deg(phi) - 90, "y").dot(lrot(np.rad2deg(lon), "z"))
    eye = np.eye(3)
    # is it the 1st of january 1967, OpenGGCM's time without any tilt
    no = notilt1967 and t.year == 1967 and t.month == 1 and t.day == 1 and t.hour < 4
    if no:
        T1 = T2 = T5 = eye
        Qe = np.array([0., 0., 1.])
    else:
        Qe = T2.dot(T1.T).dot(Q)
    psi = np.rad2deg(np.arctan2(Qe[1], Qe[2]))
    mu = np.rad2deg(np.arctan2(Qe[0], np.hypot(Qe[1], Qe[2])))
    if tilt is not None or gsm is not None:
        mu, psi = tilt or 0.0, gsm or 0.0
    T3 = lrot(-psi, "x")
    T4 = lrot(-mu, "y")
    gei = T2.T
    geo = T1.dot(gei)
    out = {"gse": eye, "gei": gei, "geo": geo, "gsm": T3, "sm": T4.dot(T3), "mag": T5.dot(geo),
           "mhd": np.diag([-1., -1., 1.])}
    return out, dict(mu=mu, psi=psi, lon=np.rad2deg(lon), phi=np.rad2deg(phi), mjd=mjd, ut=ut, no=no, Qe=Qe)


@st.composite
def times(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        d = pydt.datetime(1967, 1, 1) + pydt.timedelta(hours=draw(st.sampled_from([0, 1, 3, 48, 24 * 30, -48, 365 * 24])))
    elif k == 1:
        d = pydt.datetime(draw(st.integers(1900, 2099)), draw(st.sampled_from([1, 2, 3, 12])), draw(st.sampled_from([1, 28])),
                          draw(st.sampled_from([0, 23])))
    else:
        d = pydt.datetime(draw(st.integers(1945, 2030)), draw(st.integers(1, 12)), draw(st.integers(1, 28)),
                          draw(st.integers(0, 23)), draw(st.integers(0, 59)), draw(st.integers(0, 59)),
                          draw(st.sampled_from([0, 0, 500000, 123456])))
    return d.isoformat()


@st.composite
def cases(draw):
    manual = draw(st.sampled_from([None, None, None, None, None, None, "tilt", "gsm", "both"]))
    ang = st.one_of(st.sampled_from([0.0, 30.0, -15.0]), st.floats(-60, 60).map(lambda x: round(x, 3)))
    return {"t": draw(times()), "how": draw(st.sampled_from(["str", "dt", "dt64", "dt64ns"])),
            "rdim": draw(st.sampled_from([3, 3, 4])), "notilt": draw(st.booleans()),
            "tilt": draw(ang) if manual in ("tilt", "both") else None, "gsm": draw(ang) if manual in ("gsm", "both") else None,
            "warm": draw(st.permutations(SYS)), "npts": draw(st.sampled_from([0, 0, 1, 3, 4, 5])),
            "vkind": draw(st.sampled_from(["f8", "f4", "int", "list"])), "seed": draw(seeds),
            "a": draw(st.sampled_from(SYS)), "b": draw(st.sampled_from(SYS)), "c": draw(st.sampled_from(SYS)),
            "strength": draw(st.sampled_from([1.0, 2.5, 30574.0]))}


def make(case):
    t = pydt.datetime.fromisoformat(case["t"])
    arg = {"str": case["t"], "dt": t, "dt64": np.datetime64(case["t"]),
           "dt64ns": np.datetime64(case["t"], "ns")}[case["how"]]
    kw = {}
    for k, n in [("tilt", "dip_tilt"), ("gsm", "dip_gsm")]:
        if case[k] is not None:
            kw[n] = case[k]
    c = ct.Cotr(arg, rdim=case["rdim"], notilt1967=case["notilt"], **kw)
    return t, arg, c, kw


def check_cotr(case):
    t, arg, c, kw = make(case)
    rd = case["rdim"]
    ref, aux = reference(t, case["notilt"], case["tilt"], case["gsm"])
    a, b, d = case["a"], case["b"], case["c"]
    manual = bool(kw)
    bad = {"mag"} if manual and not aux["no"] else set()
    label(a + ">" + b, "manual" if manual else "time", "notilt" if aux["no"] else "tilt", "rdim%d" % rd)
    nontrivial(a != b)
    # warm the caches in some order
    for s in case["warm"][:3]:
        if s not in bad:
            c.get_transform_matrix(s, "gse")
    if a in bad or b in bad:
        if a != b:
            raises(lambda: c.get_transform_matrix(a, b), "mag with angles by hand", RuntimeError)
        return
    M = np.asarray(c.get_transform_matrix(a.upper(), " " + b))
    require(M.shape == (rd, rd), "shape {0}", M.shape)
    if rd == 4:
        eq_arr(M[3], np.array([0, 0, 0, 1.0]), "last row")
        eq_arr(M[:, 3], np.array([0, 0, 0, 1.0]), "last column")
    M3 = M[:3, :3]
    want = ref[b].dot(ref[a].T)
    # the only freedom is how to count decimal years for the secular variation
    loose = 0 if (manual or aux["no"]) and "mag" not in (a, b) else 1.5e-5
    close(M3, want, "{0} -> {1}".format(a, b), 0, 1e-9 + loose)
    close(M3.dot(M3.T), np.eye(3), "orthonormal", 0, 1e-12)
    close(np.linalg.det(M3), 1.0, "det", 0, 1e-12)
    close(np.asarray(c.get_transform_matrix(b, a)), M.T, "inverse", 0, 1e-14)
    if d not in bad:
        close(np.dot(c.get_transform_matrix(d, b), c.get_transform_matrix(a, d)), M, "composition through " + d, 0, 1e-12)
    close(np.asarray(c.get_transform_matrix(a, a)), np.eye(rd), "identity", 0, 0)
    # vectors
    n = case["npts"]
    if case["vkind"] == "int":
        v = rarr(case["seed"], (3, n) if n else (3,), "i", -5, 5).astype("i8")
    else:
        v = rarr(case["seed"], (3, n) if n else (3,), "f", -5, 5)
    if case["vkind"] == "f4":
        v = v.astype("f4")
    arg_v = v.tolist() if case["vkind"] == "list" else v
    keep = np.array(v)
    got = c.transform(a, b, arg_v)
    eq_arr(np.asarray(v), keep, "transform changed its argument")
    require(np.shape(got) == np.shape(v), "shape {0} of transformed {1}", np.shape(got), np.shape(v))
    close(got, M3.dot(np.asarray(v, dtype="f8")), "transformed vectors", 0, 1e-10)
    close(c.transform(b, a, got), np.asarray(v, dtype="f8"), "there and back", 0, 1e-10)
    if case["rdim"] == 3 and not kw:
        close(viscid.cotr_transform(arg, a, b, arg_v, notilt1967=case["notilt"]), got, "cotr_transform", 0, 1e-14)
    # axis and angle
    w = c.get_rotation_wxyz(a, b) if rd == 3 else ct.get_rotation_wxyz(M3)
    if not np.allclose(M3, np.eye(3), atol=1e-5):
        require(np.all(np.isfinite(w)), "get_rotation_wxyz: {0}", w)
        close(Rotation.from_rotvec(np.deg2rad(w[0]) * np.asarray(w[1:])).as_matrix(), M3, "get_rotation_wxyz", 0, 1e-6)
    else:
        require(not (abs(w[0]) > 1e-2), "get_rotation_wxyz of (almost) no rotation: {0}", w)


def check_dip(case):
    t, arg, c, kw = make(case)
    ref, aux = reference(t, case["notilt"], case["tilt"], case["gsm"])
    manual = bool(kw)
    S = case["strength"]
    label("manual" if manual else "time", "notilt" if aux["no"] else "tilt")
    nontrivial(not aux["no"] or manual)
    tol = 0 if manual or aux["no"] else 1e-3
    close(c.dip_tilt, aux["mu"], "dip_tilt", 0, 1e-9 + tol)
    close(c.dip_gsm, aux["psi"], "dip_gsm", 0, 1e-9 + 3 * tol)
    eq_arr(np.array(c.get_dipole_angles()), np.array([c.dip_tilt, c.dip_gsm]), "get_dipole_angles")
    require(c.mjd == aux["mjd"], "mjd {0}, not {1}", c.mjd, aux["mjd"])
    close(c.ut, aux["ut"], "ut", 0, 1e-9)
    if not aux["no"]:
        close(c.dip_geolat, aux["phi"], "dipole latitude", 0, 1e-3)
        dl = (c.dip_geolon - aux["lon"] + 180) % 360 - 180
        close(dl, 0.0, "dipole longitude", 0, 1e-3)
    # the moment points to the south
    mu, psi = np.deg2rad(c.dip_tilt), np.deg2rad(c.dip_gsm)
    want = -S * np.array([np.sin(mu), np.cos(mu) * np.sin(psi), np.cos(mu) * np.cos(psi)])
    m = c.get_dipole_moment("gse", strength=S)
    close(m, want, "dipole moment in gse", 0, 1e-10 * S)
    close(c.get_dipole_moment("sm", strength=S), [0, 0, -S], "in sm", 0, 1e-10 * S)
    mm = c.get_dipole_moment("mhd", strength=S)
    close(mm, want * [-1, -1, 1], "in mhd", 0, 1e-10 * S)
    gs = c.get_dipole_moment("gsm", strength=S)
    close(gs[1], 0.0, "y in gsm", 0, 1e-10 * S)
    require(gs[2] <= 1e-10 * S, "gsm z must be along the dipole")
    if manual:
        close(viscid.get_dipole_moment_ang(c.dip_tilt, c.dip_gsm, crd_system="gse", strength=S), want, "moment of angles",
              0, 1e-10 * S)
    else:
        if not aux["no"]:
            close(m, -S * aux["Qe"], "direction of the geographic dipole", 0, 3e-5 * S)
            # sun: +x of gse, earth's axis leans by 23.4 degrees
            z = c.transform("geo", "gse", [0, 0, 1])
            require(abs(np.arccos(z[2]) * 180 / np.pi - 23.44) < 0.03, "obliquity {0}", z)
        close(viscid.get_dipole_moment(arg, "gse", strength=S, notilt1967=case["notilt"]), m, "get_dipole_moment", 0, 1e-12 * S)
        eq_arr(np.array(viscid.get_dipole_angles(arg, notilt1967=case["notilt"])), np.array([c.dip_tilt, c.dip_gsm]),
               "get_dipole_angles of a time")
    # and back
    for crd, mom in [("gse", m), ("mhd", mm)]:
        c2 = viscid.dipole_moment2cotr(mom, crd_system=crd)
        close(c2.get_dipole_moment(crd, strength=S), mom, "dipole_moment2cotr from " + crd, 0, 1e-9 * S)
        if abs(c.dip_tilt) < 89 and abs(c.dip_gsm) < 89:
            close(c2.get_transform_matrix("sm", "gse"), np.asarray(c.get_transform_matrix("sm", "gse"))[:3, :3],
                  "sm axes of dipole_moment2cotr", 0, 1e-9)
    raises(lambda: viscid.dipole_moment2cotr(m, crd_system="geo"), "bad system", ValueError)


# ------------------------------------------------------------------ finding transformations and systems
@st.composite
def as_cases(draw):
    return {"t": draw(times()), "sys": draw(st.sampled_from(SYS)), "where": draw(st.sampled_from(
        ["field", "grid", "str", "none", "cotr", "time", "dipoletime", "dataset"])), "default": draw(st.sampled_from(SYS)),
        "tilt": draw(st.sampled_from([0.0, 10.0, -20.0]))}


class Thing(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


def check_as(case):
    t, s = case["t"], case["sys"]
    w = case["where"]
    label(w)
    nontrivial(w not in ("none", "str"))
    fld = viscid.zeros([np.arange(3.), np.arange(3.), np.arange(3.)], center="node")
    want = ct.Cotr(t, dip_tilt=case["tilt"])
    mats = [("sm", "gse"), ("gsm", "gse"), ("geo", "gse")]

    def same(c, ref, what):
        for p in mats:
            close(c.get_transform_matrix(*p), ref.get_transform_matrix(*p), what, 0, 1e-14)

    require(viscid.as_crd_system(" " + s.upper()) == s, "as_crd_system of a string")
    same(viscid.as_cotr(None), ct.Cotr(dip_tilt=0.0, dip_gsm=0.0), "as_cotr(None)")
    if w in ("field", "grid", "dataset"):
        owner = fld
        if w in ("grid", "dataset"):
            g = viscid.grid.Grid("g")
            g.add_field(fld)
            owner = g
            fld.parents = getattr(fld, "parents", [])
        if w == "dataset":
            from viscid.dataset import Dataset
            ds = Dataset(g)
            owner = ds
        owner.set_info("crd_system", s.upper())
        owner.set_info("cotr", want)
        target = fld if w == "field" else g if w == "grid" else ds
        require(viscid.as_crd_system(target, "gsm" if s == "gse" else "gse") == s, "as_crd_system")
        same(viscid.as_cotr(target, "2001-01-01"), want, "as_cotr of " + w)
        if w == "field":
            # slices, and results of arithmetic, know it too
            require(viscid.as_crd_system(fld["x=1:"]) == s, "as_crd_system of a slice")
            require(viscid.as_crd_system(fld * 2) == s, "as_crd_system of a result")
            same(viscid.as_cotr(fld["x=1:"] + 1), want, "as_cotr of a slice")
    elif w == "dipoletime":
        fld.set_info("dipoletime", t)
        same(viscid.as_cotr(fld), ct.Cotr(t), "as_cotr of a dipole time")
    elif w == "cotr":
        require(viscid.as_cotr(want) is want, "as_cotr of a Cotr")
        require(viscid.as_cotr(Thing(__cotr__=want)) is want, "as_cotr of a thing with one")
        require(viscid.as_crd_system(Thing(__crd_system__=s.upper())) == s, "as_crd_system of a thing with one")
    elif w == "time":
        for x in (t, np.datetime64(t), pydt.datetime.fromisoformat(t)):
            same(viscid.as_cotr(x), ct.Cotr(t), "as_cotr of a time")
    # the fallbacks
    empty = viscid.zeros([np.arange(3.), np.arange(3.)], center="node")
    raises(lambda: viscid.as_cotr(empty), "as_cotr of nothing", TypeError)
    same(viscid.as_cotr(empty, None), viscid.as_cotr(None), "as_cotr with default None")
    same(viscid.as_cotr(empty, t), ct.Cotr(t), "as_cotr with a time as default")
    raises(lambda: viscid.as_crd_system(empty), "as_crd_system of nothing", TypeError)
    require(viscid.as_crd_system(empty, case["default"].upper()) == case["default"], "as_crd_system with a default")
    # no transformations from the earth to the sun
    c = ct.Cotr(t)
    for h in ("hae", "hee", "heeq"):
        raises(lambda: c.transform(h, s, [1, 0, 0]), "from the sun", NotImplementedError)
        raises(lambda: c.transform(s, h, [1, 0, 0]), "to the sun", NotImplementedError)
        close(c.transform(h, h, [1, 2, 3]), [1, 2, 3], h + " to itself", 0, 0)
    raises(lambda: c.transform("xyz", s, [1, 0, 0]), "unknown system", ValueError)


# ------------------------------------------------------------------ parts
@st.composite
def part_cases(draw):
    ang = st.one_of(st.sampled_from([0, 0.0, 90, 180.0, 360.0]), st.floats(-400, 400).map(lambda x: round(x, 3)))
    return {"ang": draw(ang), "axis": draw(st.sampled_from(["x", "y", "z", "X", " y", "Z ", 0, 1, 2])), "rdim": draw(st.sampled_from([2, 3, 3, 4])), "seed": draw(seeds),
            "nd": draw(st.sampled_from([1, 2, 3, 4])), "to": draw(st.sampled_from([2, 3, 4])), "n": draw(st.sampled_from([0, 1, 3, 5])), "tilt": draw(st.sampled_from([None, 0.0, 12.5, -30.0])),
            "gsm": draw(st.sampled_from([None, 0.0, 25.0, -8.0])), "crd": draw(st.sampled_from(["gse", "mhd", "gsm", "sm", None])), "bare": draw(st.booleans()), "vdim": draw(st.sampled_from([2, 3, 4])),
            "int": draw(st.booleans()), "h": draw(st.sampled_from([("hee", "hae"), ("hae", "hee"), ("heeq", "hae"), ("hae", "heeq")]))}


def check_parts(case):
    rd, ax = case["rdim"], case["axis"]
    label("axis {0}".format(ax), "rdim%d" % rd)
    nontrivial(case["ang"] % 360 != 0)
    full = np.eye(4)
    full[:3, :3] = lrot(case["ang"], "xyz"[ax] if isinstance(ax, int) else ax.lower().strip())
    got = ct.make_rotation(case["ang"], ax, rdim=rd)
    require(got.shape == (rd, rd), "shape {0}", got.shape)
    close(got, full[:rd, :rd], "make_rotation", 0, 1e-12)
    raises(lambda: ct.make_rotation(30.0, "w"), "axis w", ValueError)
    raises(lambda: ct.make_rotation(30.0, 3), "axis 3", ValueError)
    raises(lambda: ct.make_rotation(30.0, "x", rdim=5), "rdim 5", ValueError)
    # translations
    v = rarr(case["seed"], (3,), "i" if case["int"] else "f", -5, 5)
    T, iT = ct.make_translation(v.tolist())
    p = rarr(case["seed"] + 1, (3, 4), "f", -5, 5)
    p4 = ct.as_nvec(p)
    eq_arr(p4, np.concatenate([p, np.ones((1, 4))]), "as_nvec")
    close(T.dot(p4)[:3], p + v.reshape(3, 1), "translated", 0, 1e-12)
    close(iT.dot(p4)[:3], p - v.reshape(3, 1), "translated back", 0, 1e-12)
    eq_arr(T.dot(p4)[3], np.ones(4), "last component")
    # more dimensions
    shp = (case["nd"], case["n"]) if case["n"] else (case["nd"],)
    a = rarr(case["seed"], shp, "i" if case["int"] else "f", -5, 5)
    if case["int"]:
        a = a.astype("i8")
    keep = a.copy()
    got = ct.as_nvec(a if case["bare"] else a.tolist(), ndim=case["to"])
    want = np.zeros((max(case["to"], case["nd"]),) + shp[1:])
    want[3:4] = 1
    want[:case["nd"]] = a
    eq_arr(got, want, "as_nvec to {0}".format(case["to"]))
    require(got.dtype.kind == a.dtype.kind, "as_nvec of {0} gives {1}", a.dtype, got.dtype)
    eq_arr(a, keep, "as_nvec changed its argument")
    close(ct.as_nvec([1.0, 2.0], ndim=4, init_vals=(7, 7, 3, 4)), [1, 2, 3, 4], "initial values", 0, 0)
    # vectors with fewer and more components
    c = ct.Cotr(dip_tilt=case["tilt"] or 0.0, dip_gsm=case["gsm"] or 0.0, rdim=max(3, rd))
    M = lrot(-(case["tilt"] or 0.0), "y").dot(lrot(-(case["gsm"] or 0.0), "x"))
    w = rarr(case["seed"] + 2, (case["vdim"], case["n"]) if case["n"] else (case["vdim"],), "f", -3, 3)
    if case["vdim"] <= max(3, rd):
        w3 = np.zeros((3,) + w.shape[1:])
        w3[:min(3, len(w))] = w[:3]
        got = c.transform("gse", "sm", w)
        require(got.shape == (max(3, len(w)),) + w.shape[1:], "shape {0} of transformed {1}", got.shape, w.shape)
        close(got[:3], M.dot(w3), "transformed", 0, 1e-12)
        if len(w) == 4:
            eq_arr(got[3], w[3], "4th component")
    # moments of angles
    kw = {k: case[n] for k, n in (("dip_tilt", "tilt"), ("dip_gsm", "gsm")) if case[n] is not None}
    if case["crd"]:
        kw["crd_system"] = case["crd"]
    ref = {"sm": np.array([0, 0, -1.0]), "gsm": lrot(-(case["tilt"] or 0.0), "y").T.dot([0, 0, -1.0])}
    ref["gse"] = ref[None] = M.T.dot([0, 0, -1.0])
    ref["mhd"] = ref["gse"] * [-1, -1, 1]
    close(viscid.get_dipole_moment_ang(strength=2.0, **kw), 2 * ref[case["crd"]], "moment of angles", 0, 1e-12)
    default = np.linalg.norm(viscid.get_dipole_moment_ang(**kw))
    close(viscid.get_dipole_moment_ang(**kw), default * ref[case["crd"]], "moment of angles of default strength", 1e-12)
    close(default, np.linalg.norm(ct.Cotr().get_dipole_moment()), "default strength", 1e-12)
    close(default, np.linalg.norm(viscid.get_dipole_moment("2000-01-01")), "default strength", 1e-12)
    raises(lambda: c.get_transform_matrix(*case["h"]), "around the sun", NotImplementedError)
    raises(lambda: c.get_transform_matrix("hee", "heeq"), "unknown transformation", ValueError)


FACETS = [Facet("parts", part_cases(), check_parts, 300, 4000, "a rotation"),
          Facet("matrices", cases(), check_cotr, 1500, 30000, "two different systems"),
          Facet("dipole", cases(), check_dip, 1000, 20000, "with a tilt"),
          Facet("lookup", as_cases(), check_as, 300, 4000, "an object that knows its system or time")]
KNOWN = []
