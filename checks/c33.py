"""C33: minimum variance directions, paraboloids and magnetopause properties are those of the data"""
import os
import shutil

import numpy as np
from hypothesis import strategies as st

import viscid
from viscid.calculator import mpause
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds

_count = [0]


def fresh():
    _count[0] += 1
    d = os.path.abspath("c33-{0}".format(_count[0] % 4))
    if os.path.isdir(d):
        shutil.rmtree(os.path.abspath(d))
    os.makedirs(d)
    viscid.unload_all_files()
    return d


def rotm(seed):
    q, r = np.linalg.qr(rng(seed).normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    return q if np.linalg.det(q) > 0 else -q


# -------------------------------------------------------- minimum variance
@st.composite
def series_cases(draw):
    return {"n": draw(st.integers(1, 60)), "amp": [draw(st.sampled_from([0.0, 0.1, 1.0, 3.0, 10.0])) for _ in range(3)], "seed": draw(seeds), "bad": draw(st.integers(0, 4)),
            "mean": draw(st.sampled_from([0.0, 5.0, 50.0, 3e4])), "even": draw(st.integers(0, 3)), "rot": draw(st.booleans()), "f4": draw(st.sampled_from([False, True, "i4", "i2"]))}


def make_series(case):
    r = rng(case["seed"])
    arr = r.normal(size=(case["n"], 3)) * case["amp"]
    if not case.get("even", 1):
        # the same variance in two or three directions, or nearly so
        k = (case["n"] + 5) // 6
        arr = np.concatenate([np.diag(case["amp"]), -np.diag(case["amp"])] * k)
        if case["amp"][0]:
            arr[:, 1] *= case["amp"][0] / (case["amp"][1] or 1.0)
    if case["rot"]:
        arr = arr.dot(rotm(case["seed"] + 1).T)
    arr = arr + case["mean"] * r.uniform(-1, 1, size=3)
    if case["f4"] in ("i4", "i2"):
        return np.round(20 * arr).astype(case["f4"])
    arr = arr.astype("f4" if case["f4"] else "f8")
    for k in range(case["bad"]):
        arr[r.randint(len(arr)), r.randint(3)] = [np.nan, np.inf, -np.inf][k % 3]
    return arr


def judge(evals, evecs, arr, msg):
    """the directions of minimum, intermediate and maximum variance of the finite samples"""
    good = arr[np.isfinite(arr).all(axis=1)].astype("f8")
    evals, evecs = np.asarray(evals), np.asarray(evecs)
    require(evals.shape == (3,) and evecs.shape == (3, 3), "{0}: shapes {1} {2}", msg, evals.shape, evecs.shape)
    if len(good) < 3:
        require(np.isnan(evals).all() and np.isnan(evecs).all(), "{0}: {1} samples gave {2}", msg, len(good), evals)
        return None
    m = np.cov(good.T, bias=True)
    tol = 1e-11 * (np.ptp(good, axis=0).max()**2 + 1e-4 * np.abs(good).max()**2 + 1e-30)
    ref = np.linalg.eigvalsh(m)
    close(np.abs(evals), ref, msg + ": eigenvalues", rtol=1e-7, atol=tol)
    for k in range(3):
        v = evecs[:, k]
        close(np.linalg.norm(v), 1.0, msg + ": length of a direction", rtol=1e-9)
        # variance along it
        close(np.var(good.dot(v)), ref[k], msg + ": variance along direction {0}".format(k), rtol=1e-6, atol=3 * tol)
        for j in range(k):
            close(evecs[:, j].dot(v), 0.0, msg + ": angle between directions {0} and {1}".format(j, k), atol=1e-7)
        close(m.dot(v), evals[k] * v, msg + ": direction {0}".format(k), rtol=1e-6, atol=3 * tol)
    return ref


def check_series(case):
    arr = make_series(case)
    keep = arr.copy()
    evals, evecs = viscid.minvar_series(arr, warn_finite=False)
    eq_arr(arr, keep, "samples after the analysis")
    ref = judge(evals, evecs, arr, "minvar_series")
    nontrivial(ref is not None and ref[0] > 0 and ref[2] > 1.2 * ref[1] > 1.4 * ref[0])


@st.composite
def line_cases(draw):
    return {"seed": draw(seeds), "layout": draw(st.sampled_from(["flat", "interlaced"])), "center": draw(st.sampled_from(["cell", "node"])), "nan": draw(st.booleans()),
            "shape": [draw(st.integers(4, 9)) for _ in range(3)], "n": draw(st.integers(3, 50)), "how": draw(st.sampled_from(["points", "around", "lmn", "lmn_around"])),
            "l": draw(st.sampled_from([0.3, 1.0, 2.0])), "basis": draw(st.sampled_from([None, [0, 0, 1], [0, 0, -2.0], [1, 0.5, 0.2], [0, 1, 0]])), "axis": draw(st.sampled_from([None, None, 0, 1, 2])),
            "lst": draw(st.booleans())}


def check_line(case):
    r = rng(case["seed"])
    crds = viscid.arrays2crds([np.linspace(-1.5 - i, 2.0 + i, n + (case["center"] == "cell")) for i, n in enumerate(case["shape"])])
    arr = r.normal(size=case["shape"] + [3]) * [1.0, 2.0, 4.0]
    if case["axis"] is not None:
        # no variance along one axis
        arr[..., case["axis"]] = 0.75
    if case["nan"]:
        arr[tuple(r.randint(0, n) for n in case["shape"])] = np.nan
    fld = viscid.wrap_field(arr if case["layout"] == "interlaced" else np.ascontiguousarray(np.moveaxis(arr, -1, 0)), crds, name="b", fldtype="vector", center=case["center"],
                            layout=viscid.field.LAYOUT_INTERLACED if case["layout"] == "interlaced" else viscid.field.LAYOUT_FLAT)
    if set(case["shape"]) & {3}:
        raise Discard()
    lo, hi = np.array([-0.9, -1.3, -2.0]), np.array([1.1, 2.0, 2.3])
    how = case["how"]
    label(how)
    if how in ("points", "lmn"):
        p1, p2 = r.uniform(lo, hi), r.uniform(lo, hi)
    else:
        p0, pd = r.uniform(lo + 0.8, hi - 0.8), r.normal(size=3)
        u = pd / np.linalg.norm(pd)
        p1, p2 = p0 - 0.5 * case["l"] * u, p0 + 0.5 * case["l"] * u
    conv = list if case["lst"] else np.array
    pts = p1[:, None] + (p2 - p1)[:, None] * np.linspace(0, 1, case["n"])[None, :]
    smp = np.asarray(viscid.interp_trilin(fld, viscid.Point(pts)))
    if smp.shape != (case["n"], 3):
        smp = smp.T
    require(smp.shape == (case["n"], 3), "shape of samples {0}", smp.shape)
    kw = {"n": case["n"]}
    if how == "points":
        evals, evecs = viscid.minvar(fld, conv(p1), conv(p2), **kw)
    elif how == "around":
        evals, evecs = viscid.minvar_around(fld, conv(p0), l=case["l"], path_dir=conv(pd), **kw)
    if how in ("points", "around"):
        judge(evals, evecs, smp, how)
        nontrivial(case["n"] > 5)
        return
    if how == "lmn":
        lmn = viscid.find_minvar_lmn(fld, conv(p1), conv(p2), l_basis=case["basis"], **kw)
    else:
        lmn = viscid.find_minvar_lmn_around(fld, conv(p0), l=case["l"], path_dir=conv(pd), l_basis=case["basis"], **kw)
    good = smp[np.isfinite(smp).all(axis=1)]
    if len(good) < 3:
        raise Discard()
    evals, evecs = np.linalg.eigh(np.cov(good.T, bias=True))
    if evals[1] - evals[0] < 1e-4 * evals[2] or evals[2] - evals[1] < 1e-4 * evals[2]:
        raise Discard()
    close(lmn.T.dot(lmn), np.eye(3), "lmn is orthonormal", atol=1e-8)
    require(np.linalg.det(lmn) > 0, "lmn isn't right handed: {0}", lmn)
    close(abs(np.dot(lmn[:, 2], evecs[:, 0])), 1.0, "normal direction", atol=1e-6)
    n_dir = lmn[:, 2]
    if case["basis"] is None:
        want = evecs[:, 2]
        close(abs(np.dot(lmn[:, 0], want)), 1.0, "l direction", atol=1e-6)
    else:
        want = np.array(case["basis"], dtype="f8")
        want = want / np.linalg.norm(want)
        want = want - want.dot(n_dir) * n_dir
        if np.linalg.norm(want) > 1e-3:
            close(lmn[:, 0], want / np.linalg.norm(want), "l direction", atol=1e-6)
        elif np.linalg.norm(want) < 1e-9:
            label("parallel")
            close(abs(np.dot(lmn[:, 0], evecs[:, 2])), 1.0, "l direction when the basis is parallel to the normal", atol=1e-6)
    nontrivial(case["n"] > 5)


# ------------------------------------------------------------- paraboloids
@st.composite
def parab_cases(draw):
    return {"x0": draw(st.floats(5.0, 12.0)), "y0": draw(st.floats(-1.5, 1.5)), "z0": draw(st.floats(-1.5, 1.5)), "k": [draw(st.floats(0.05, 0.4)) for _ in range(2)],
            "a": [draw(st.sampled_from([-1.0, 1.0, -2.5, 0.7])), draw(st.floats(0.5, 4.0)), draw(st.floats(0.5, 4.0))], "n": [draw(st.integers(5, 14)) for _ in range(2)],
            "seed": draw(seeds), "center": draw(st.sampled_from(["cell", "node"])), "noise": draw(st.sampled_from([0.0, 0.0, 0.05])), "keep": draw(st.booleans())}


def check_parab(case):
    r = rng(case["seed"])
    par = (case["x0"], case["y0"], case["z0"]) + tuple(case["a"])
    y, z = r.uniform(-5, 5, size=(2, 7, 3))
    x = mpause.paraboloid(y, z, *par)
    want = case["x0"] + case["a"][0] * ((y - case["y0"])**2 / case["a"][1]**2 + (z - case["z0"])**2 / case["a"][2]**2)
    close(x, want, "paraboloid", rtol=1e-12)
    nrm = mpause.paraboloid_normal(y, z, *par)
    close(np.linalg.norm(nrm, axis=0), np.ones_like(y), "length of normals")
    raw = mpause.paraboloid_normal(y, z, *par, normalize=False)
    close(raw / np.linalg.norm(raw, axis=0), nrm, "normals that aren't normalized")
    # perpendicular to what lies in the surface
    h = 1e-5
    for dy, dz in ((h, 0), (0, h), (h, -h)):
        t = np.array([mpause.paraboloid(y + dy, z + dz, *par) - mpause.paraboloid(y - dy, z - dz, *par), np.full_like(y, 2 * dy), np.full_like(y, 2 * dz)])
        t = t / np.linalg.norm(t, axis=0)
        close((nrm * t).sum(axis=0), np.zeros_like(y), "normals and the surface", atol=1e-6)
    # the fit finds the surface that was there
    k = [-abs(v) for v in case["k"]]
    off = case["center"] == "cell"
    crds = viscid.arrays2crds([np.linspace(-5.0, 5.0, case["n"][0] + off), np.linspace(-4.0, 4.5, case["n"][1] + off)], crd_names="yz")
    fld = viscid.zeros(crds, center=case["center"], name="x")
    Y, Z = np.meshgrid(fld.get_crd("y"), fld.get_crd("z"), indexing="ij")
    fld.data[...] = case["x0"] + k[0] * (Y - case["y0"])**2 + k[1] * (Z - case["z0"])**2
    clean = fld.data.copy()
    fld.data[...] += case["noise"] * r.normal(size=fld.shape)
    try:
        # from not too far away: the surface of a fit is a local minimum
        p0 = (case["x0"] + 1.0, 0.6 * case["y0"] + 0.11, 0.6 * case["z0"] - 0.13, -1.0, 1.3 / abs(k[0])**0.5, 0.8 / abs(k[1])**0.5)
        p = viscid.fit_paraboloid(fld, p0=p0)
    except RuntimeError as exc:
        # says that it did not converge
        if "Optimal parameters not found" in str(exc):
            raise Discard()
        raise
    require(len(p) == 2, "length of the fit {0}", len(p))
    fit = mpause.paraboloid(Y, Z, *p[0])
    tol = 1e-5 + 2 * case["noise"]
    close(fit, clean, "surface of the fit", rtol=0, atol=tol)
    A = np.stack([np.ones(Y.size), Y.ravel(), Y.ravel()**2, Z.ravel(), Z.ravel()**2], axis=1)
    sol = np.linalg.lstsq(A, fld.data.ravel(), rcond=None)[0]
    best = A.dot(sol).reshape(Y.shape)
    close(fit, best, "surface of the fit, by least squares", rtol=0, atol=1e-4)
    close([p[0]["y0"], p[0]["z0"]], [-sol[1] / (2 * sol[2]), -sol[3] / (2 * sol[4])], "nose of the fit", rtol=1e-2, atol=1e-3)
    nontrivial(case["noise"] > 0)


# ------------------------------------------------------------ magnetopause
@st.composite
def mp_cases(draw):
    return {"seed": draw(seeds), "n": [draw(st.integers(16, 40)), draw(st.integers(4, 7)), draw(st.integers(4, 7))], "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "thr": draw(st.sampled_from([[0.1, 0.1], [0.3, 0.1], [0.05, 0.5]])), "mask": draw(st.sampled_from([1e-4, 1e-4, 0.2, None])), "uniform": draw(st.booleans()),
            "width": draw(st.floats(0.2, 0.8)), "far": draw(st.booleans()), "shock": draw(st.sampled_from([0, 0, 2.0, 8.0])), "e": draw(st.booleans()), "slc": draw(st.sampled_from([None, None, "x=6j:10j, y=-2.5j:2.5j", "x=7j:, z=-2j:"])),
            "cache": draw(st.sampled_from([False, True, "force", "default"])), "fit": draw(st.sampled_from(["mp_xloc", "pp_max_xloc"])), "one": draw(st.booleans())}


def mk_fields(case, with_time=True):
    r = rng(case["seed"])
    nx, ny, nz = case["n"]
    x = np.linspace(5.0, 12.0, nx + 1)
    if not case["uniform"]:
        x = 5.0 + 7.0 * np.linspace(0, 1, nx + 1)**1.2
    crds = viscid.arrays2crds([x, np.linspace(-4, 4, ny + 1), np.linspace(-3.6, 3.6, nz + 1)])
    xc, yc, zc = [0.5 * (c[1:] + c[:-1]) for c in (crds.get_nc(0), crds.get_nc(1), crds.get_nc(2))]
    X, Y, Z = np.meshgrid(xc, yc, zc, indexing="ij")
    w = case["width"]
    xmp = 9.0 + 0.3 * r.uniform(-1, 1, size=(1, ny, nz)) - 0.05 * (Y[:1]**2 + Z[:1]**2)
    if case["far"]:
        # in some places it is at the end of the box
        xmp[0, 0, :] = 5.05
        xmp[0, -1, :] = 11.9
    t = (X - xmp) / w
    bz = -10.0 * np.tanh(t) + 0.02 * r.normal(size=X.shape)
    by = 2.0 + r.normal(size=X.shape) * 0.3
    bx = 0.5 * r.normal(size=X.shape)
    jy = 3.0 / np.cosh(t)**2 + 0.01 * r.uniform(-1, 1, size=X.shape)
    if case["shock"]:
        # a current of the other sign upstream
        jy -= case["shock"] / np.cosh((X - 11.0) / 0.3)**2
    pp = 5.0 / np.cosh((X - xmp + 0.5 * w) / w)**2 + r.uniform(0, 0.3, size=X.shape)
    B = np.stack([bx, by, bz], axis=-1)
    J = np.stack([r.normal(size=X.shape), jy, r.normal(size=X.shape)], axis=-1)
    E = r.normal(size=B.shape)
    time = 0.0

    def vec(a, name):
        flat = case["layout"] == "flat"
        f = viscid.wrap_field(np.ascontiguousarray(np.moveaxis(a, -1, 0)) if flat else a, crds, name=name, fldtype="vector", center="cell",
                              layout=viscid.field.LAYOUT_FLAT if flat else viscid.field.LAYOUT_INTERLACED, time=time)
        f.set_info("crd_system", "gse")
        return f
    p = viscid.wrap_field(pp, crds, name="pp", center="cell", time=time)
    p.set_info("crd_system", "gse")
    return p, vec(B, "b"), vec(J, "j"), vec(E, "e"), (xc, yc, zc), pp, B, J, E


def ref_edges(jy, xc, thr_sphere, thr_sheath, mask):
    """-> sheath edge, sphere edge, indices"""
    nx, ny, nz = jy.shape
    sh, sp = np.full((ny, nz), np.nan), np.full((ny, nz), np.nan)
    ish, isp = np.zeros((ny, nz), dtype=int), np.zeros((ny, nz), dtype=int)
    sure = np.ones((ny, nz), dtype=bool)
    for i in range(ny):
        for k in range(nz):
            col = jy[:, i, k]
            ok = np.ones(nx, dtype=bool) if mask is None else col >= mask
            if not ok.any():
                sure[i, k] = False
                continue
            m = np.abs(col[ok]).max()
            a = np.flatnonzero(ok & (col > thr_sphere * m))
            b = np.flatnonzero(ok & (col > thr_sheath * m))
            if not len(a) or not len(b):
                sure[i, k] = False
                continue
            isp[i, k], ish[i, k] = a[0], b[-1]
            if a[0] > 0:
                sp[i, k] = xc[a[0]]
            if b[-1] < nx - 1:
                sh[i, k] = xc[b[-1]]
    return sh, sp, ish, isp, sure


def check_edges(case):
    p, b, j, e, (xc, yc, zc), pp, B, J, E = mk_fields(case)
    keep = j.data.copy()
    kw = {"maskval": case["mask"]}
    if case["one"]:
        jf = j[":, {0}, {1}".format(2, 1)] if case["layout"] != "never" else j
        sh, sp, ish, isp, sure = ref_edges(J[:, 2:3, 1:2, 1], xc, case["thr"][0], case["thr"][1], case["mask"])
        sh, sp, ish, isp, sure = [v[0, 0] for v in (sh, sp, ish, isp, sure)]
    else:
        jf = j
        sh, sp, ish, isp, sure = ref_edges(J[..., 1], xc, case["thr"][0], case["thr"][1], case["mask"])
    g = viscid.find_mp_edges(jf, case["thr"][0], case["thr"][1], **kw)
    eq_arr(j.data, keep, "currents afterwards")
    for got, want, msg in zip(g, (sh, sp, sh - sp, ish, isp), ("sheath edge", "sphere edge", "width", "sheath index", "sphere index")):
        got = np.asarray(got)
        require(got.size == np.size(want), "{0} has shape {1}, not {2}", msg, got.shape, np.shape(want))
        got = got.reshape(np.shape(want))
        close(np.where(sure, got, 0), np.where(sure, want, 0), msg, rtol=1e-12)
        if not case["one"] and hasattr(g[0], "crds"):
            eq_arr(np.asarray(g[0].get_crd("y")), yc, "y of the edges")
    nontrivial(np.isfinite(sh).all() and np.isfinite(sp).all())


def check_info(case):
    d = fresh()
    p, b, j, e, (xc, yc, zc), pp, B, J, E = mk_fields(case)
    for f in (p, b, j, e):
        f.set_info("_viscid_dirname", d)
        f.set_info("run", "r1")
    kw = {} if case["cache"] == "default" else {"cache": case["cache"]}
    slc = case["slc"]
    sl = [slice(None)] * 3
    if slc:
        kw["slc"] = slc
        # the same cells as slicing takes
        pb = p[slc]
        for i, (ax, c) in enumerate(zip("xyz", (xc, yc, zc))):
            cc = pb.get_crd_cc(ax)
            k = int(np.argmin(np.abs(c - cc[0])))
            sl[i] = slice(k, k + len(cc))
        if min(pb.shape) < 4:
            raise Discard()
    else:
        kw["slc"] = "x=4j:13j"
    sl = tuple(sl)
    pp, B, J, E = pp[sl], B[sl], J[sl], E[sl]
    xc, yc, zc = xc[sl[0]], yc[sl[1]], zc[sl[2]]
    nx = len(xc)
    jy = J[..., 1]
    ok = jy >= 1e-4
    bsq = (B**2).sum(axis=-1)
    if not ok.any(axis=0).all():
        raise Discard()
    label("cache " + str(case["cache"]))
    try:
        info = viscid.get_mp_info(p, b, j, e if case["e"] else None, fit=case["fit"], **kw)
    except RuntimeError as exc:
        if "Optimal parameters not found" in str(exc):
            raise Discard()
        raise
    except ValueError as exc:
        if "nan" in str(exc).lower() or "inf" in str(exc).lower():
            raise Discard()
        raise
    want = {"mp_xloc": xc[np.argmin(np.where(ok, bsq, np.inf), axis=0)], "pp_max": pp.max(axis=0), "pp_max_xloc": xc[pp.argmax(axis=0)]}
    epar = (E * B).sum(axis=-1) / np.sqrt(bsq)
    want["epar_max"] = epar.max(axis=0) if case["e"] else np.full(pp.shape[1:], np.nan)
    want["epar_max_xloc"] = xc[epar.argmax(axis=0)] if case["e"] else None
    sh, sp, ish, isp, sure = ref_edges(jy, xc, 0.1, 0.1, 1e-4)
    want["mp_sheath_edge"], want["mp_sphere_edge"], want["mp_width"] = sh, sp, sh - sp
    shear = np.full(sh.shape, np.nan)
    for i in range(sh.shape[0]):
        for k in range(sh.shape[1]):
            if ish[i, k] + 6 < nx and isp[i, k] - 6 >= 0:
                u, v = B[ish[i, k] + 6, i, k], B[isp[i, k] - 6, i, k]
                shear[i, k] = np.degrees(np.arccos(np.clip(u.dot(v) / np.linalg.norm(u) / np.linalg.norm(v), -1, 1)))
    want["mp_shear"] = shear

    def verify(info, msg):
        for nm, w in want.items():
            if w is None:
                continue
            got = info[nm]
            require(got.name == nm or nm in ("epar_max_xloc",), "name of {0} is {1} {2}", nm, got.name, msg)
            arr = np.ma.filled(np.ma.asarray(got.data), np.nan) if np.ma.isMaskedArray(got.data) else np.asarray(got)
            require(arr.size == w.size, "{0} has shape {1}, expected {2} {3}", nm, arr.shape, w.shape, msg)
            close(arr.reshape(w.shape), w, "{0} {1}".format(nm, msg), rtol=1e-5, atol=1e-4 if nm == "mp_shear" else 1e-6)
            close(got.get_crd("y"), yc, "y of {0} {1}".format(nm, msg), rtol=1e-6)
            close(got.get_crd("z"), zc, "z of {0} {1}".format(nm, msg), rtol=1e-6)
        # the fit is the best one
        par = info["paraboloid"]
        f = want[case["fit"]]
        Y, Z = np.meshgrid(yc, zc, indexing="ij")
        A = np.stack([np.ones(Y.size), Y.ravel(), Y.ravel()**2, Z.ravel(), Z.ravel()**2], axis=1)
        best = np.linalg.lstsq(A, f.ravel(), rcond=None)
        if len(yc) > 4 and len(zc) > 4:
            res = ((mpause.paraboloid(Y, Z, *par[0]) - f)**2).sum()
            rb = ((A.dot(best[0]).reshape(Y.shape) - f)**2).sum()
            # curvatures of the other sign can't be reached from where the fit starts
            if best[0][2] < -0.01 and best[0][4] < -0.01:
                require(res <= rb * 1.001 + 1e-6, "the fit has residual {0}, {1} is possible {2}", res, rb, msg)

    verify(info, "")
    fn = os.path.join(d, "r1.mpause.000000")
    if case["cache"]:
        require(os.path.isfile(fn + ".xdmf") and os.path.isfile(fn + ".h5"), "nothing was saved")
        viscid.unload_all_files()
        verify(viscid.get_mp_info(p, b, j, e if case["e"] else None, fit=case["fit"], slc=kw["slc"]), "from the cache")
        # other data with a cache: only force looks at it
        b2, B2 = 2.0 * b, None
        b2.set_info("crd_system", "gse")
        pf = 3.0 * p
        for f in (pf, b2):
            f.set_info("_viscid_dirname", d)
            f.set_info("run", "r1")
        viscid.unload_all_files()
        verify(viscid.get_mp_info(pf, b2, j, e if case["e"] else None, fit=case["fit"], slc=kw["slc"]), "from the cache again")
        viscid.unload_all_files()
        want["pp_max"] = 3.0 * want["pp_max"]
        verify(viscid.get_mp_info(pf, b2, j, e if case["e"] else None, fit=case["fit"], slc=kw["slc"], cache="force"), "forced")
        viscid.unload_all_files()
        verify(viscid.get_mp_info(p, b, j, e if case["e"] else None, fit=case["fit"], slc=kw["slc"]), "from the new cache")
    else:
        require(not os.listdir(d), "files {0} were made", os.listdir(d))
    nontrivial(np.isfinite(shear).any())


# ------------------------------------------------- magnetopause of patches
@st.composite
def amr_cases(draw):
    return {"seed": draw(seeds), "nx": draw(st.integers(28, 44)), "ny": draw(st.integers(9, 14)), "nz": draw(st.integers(9, 14)),
            "cuts": [draw(st.integers(1, 3)), draw(st.integers(1, 2)), draw(st.integers(1, 2))], "width": draw(st.floats(0.4, 0.8)),
            "nose": draw(st.floats(8.5, 10.5)), "curv": draw(st.floats(0.02, 0.06)), "cache": draw(st.sampled_from([True, False, "force"])),
            "slc": draw(st.sampled_from(["default", "x=6.5j:11.2j, y=-2.4j:2.7j, z=-3j:2j", "y=-3.1j:2.9j, z=-3.3j:3.5j", "x=6.1j:"])), "run": draw(st.booleans())}


def check_amr(case):
    d = fresh()
    ns = [case["nx"], case["ny"], case["nz"]]
    ncs = [np.linspace(a, b, n + 1) for a, b, n in zip((5.0, -5.0, -4.5), (12.0, 5.0, 4.5), ns)]
    w, nose, curv = case["width"], case["nose"], case["curv"]
    ds = viscid.dataset.Dataset()
    parts = []
    for n, k in zip(ns, case["cuts"]):
        c = [0] + [n * (i + 1) // k for i in range(k)]
        parts.append(list(zip(c[:-1], c[1:])))
    for q, box in enumerate([(a, b, c) for a in parts[0] for b in parts[1] for c in parts[2]]):
        crds = viscid.arrays2crds([x[a:b + 1] for x, (a, b) in zip(ncs, box)])
        X, Y, Z = np.meshgrid(*[0.5 * (x[1:] + x[:-1]) for x in crds.get_crds_nc()], indexing="ij")
        t = (X - (nose - curv * (Y**2 + Z**2))) / w
        g = viscid.grid.Grid(name="p{0}".format(q), time=2.0)
        g.set_crds(crds)
        g.set_info("crd_system", "gse")
        g.set_info("_viscid_dirname", d)
        if case["run"]:
            g.set_info("run", "r7")
        for nm, v in (("pp", 5 / np.cosh(t)**2 + 0.1), ("b", np.stack([0 * t, 0.2 + 0 * t, -10 * np.tanh(t)])), ("j", np.stack([0 * t, 3 / np.cosh(t)**2, 0 * t]))):
            g.add_field(viscid.wrap_field(v, crds, name=nm, center="cell", fldtype="scalar" if v.ndim == 3 else "vector", layout="flat", time=2.0))
        ds.add(g)
    amr, is_amr = viscid.amr_grid.dataset_to_amr_grid(ds)
    if not is_amr:
        raise Discard()
    kw = {} if case["slc"] == "default" else {"slc": case["slc"]}
    lims = {"x": (5.0, 12.0), "y": (-5.0, 5.0), "z": (-4.5, 4.5)}
    if case["slc"] == "default":
        lims.update(x=(5.5, 11.0), y=(-4.0, 4.0), z=(-3.6, 3.6))
    else:
        for part in case["slc"].split(","):
            a, r = part.strip().split("=")
            lo, hi = r.split(":")
            lims[a] = (float(lo[:-1]) if lo else lims[a][0], float(hi[:-1]) if hi else lims[a][1])
    nontrivial(np.prod(case["cuts"]) > 2)
    label("cache " + str(case["cache"]), case["slc"])
    dx = [(x[-1] - x[0]) / n for x, n in zip(ncs, ns)]
    fn = os.path.join(d, "r7.mpause.000002.xdmf")
    for again in (False, True):
        try:
            info = viscid.get_mp_info(amr["pp"], amr["b"], amr["j"], None, cache=case["cache"], **kw)
        except RuntimeError as exc:
            if "Optimal parameters not found" in str(exc):
                raise Discard()
            raise
        for nm in ("mp_xloc", "pp_max_xloc"):
            f = info[nm]
            yc, zc = f.get_crd_cc("y"), f.get_crd_cc("z")
            for a, c, h in (("y", yc, dx[1]), ("z", zc, dx[2])):
                n = int(np.ceil((lims[a][1] - lims[a][0]) / h - 1e-9))
                require(abs(len(c) - n) <= 1, "{0} cells along {1}, expected {2}", len(c), a, n)
                require(lims[a][0] - 1e-6 < c[0] < lims[a][0] + h and lims[a][1] - h < c[-1] < lims[a][1] + 1e-6, "{0} of the box is from {1} to {2}, expected {3}", a, c[0], c[-1], lims[a])
            Y, Z = np.meshgrid(yc, zc, indexing="ij")
            # values beyond the outermost centers aren't known
            ok = (np.abs(Y) < 5 - dx[1]) & (np.abs(Z) < 4.5 - dx[2])
            want = nose - curv * (Y**2 + Z**2)
            ok &= (want > lims["x"][0] + 2 * dx[0]) & (want < lims["x"][1] - 2 * dx[0])
            # curvature moves the averages of the corners
            tol = 1.6 * dx[0] + curv * (dx[1]**2 + dx[2]**2)
            got = np.asarray(f.data, dtype="f8").reshape(want.shape)
            require(np.all(np.abs(got - want)[ok] < tol), "{0} is off by {1}, more than {2} ({3})", nm, np.abs(got - want)[ok].max() if ok.any() else 0, tol, "again" if again else "first")
        if case["cache"] and case["run"]:
            require(os.path.isfile(fn), "no {0} among {1}", fn, os.listdir(d))
        else:
            require(not os.listdir(d), "files {0} were made", os.listdir(d))
        viscid.unload_all_files()


FACETS = [
    Facet("series", series_cases(), check_series, quick=600, rule="three different variances"),
    Facet("lines", line_cases(), check_line, quick=400, rule="more than five samples"),
    Facet("paraboloid", parab_cases(), check_parab, quick=150, rule="noise on the surface"),
    Facet("edges", mp_cases(), check_edges, quick=200, rule="edges are inside everywhere"),
    Facet("info", mp_cases(), check_info, quick=100, rule="the shear is known somewhere"),
    Facet("amr", amr_cases(), check_amr, quick=40, rule="more than two patches"),
]
