"""C16: seed generators"""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

import viscid
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, rarr, require, rng, seeds

coord = st.one_of(st.sampled_from([0., 0., 1., -2.]), st.floats(-5, 5).map(lambda x: round(x, 3)))
point = st.tuples(coord, coord, coord).map(list)
unitc = st.one_of(st.sampled_from([0., 0., 1., -1.]), st.floats(-2, 2).map(lambda x: round(x, 3)))
vec = st.tuples(unitc, unitc, unitc).filter(lambda v: max(abs(x) for x in v) >= 0.3).map(list)
ncnt = st.integers(1, 6)


def form(x, how):
    return {"list": list(x), "tuple": tuple(x), "array": np.array(x)}[how]


def minrot(b):
    """shortest rotation of z to b; None for -z"""
    b = np.asarray(b, dtype="f8") / np.linalg.norm(b)
    c = np.cross([0, 0, 1.], b)
    s = np.linalg.norm(c)
    if s < 1e-6:
        return np.eye(3) if b[2] > 0 else None
    return Rotation.from_rotvec(c / s * np.arctan2(s, b[2])).as_matrix()


def grid(*axes):
    return np.array([m.ravel() for m in np.meshgrid(*axes, indexing="ij")])


def common(s, want, msg, uv=True, tol=1e-9):
    """what every seed generator does; want is the reference (3, n)"""
    n = want.shape[1]
    pts = s.get_points()
    require(np.shape(pts) == want.shape, "{0}: shape {1} for {2} points", msg, np.shape(pts), n)
    close(np.asarray(pts, dtype="f8"), want, msg, tol, tol)
    require(s.nr_points == n and s.get_nr_points() == n, "{0}: nr_points {1}", msg, s.nr_points)
    close(np.array(list(s.iter_points()), dtype="f8").T, pts, msg + ": iter_points", 1e-12, 1e-12)
    close(np.asarray(s.points()), pts, msg + ": points()", 1e-12, 1e-12)
    close(np.array(s), pts, msg + ": as an array", 1e-12, 1e-12)
    close(np.asarray(s.get_points()), pts, msg + ": second call", 1e-12, 1e-12)
    require(viscid.to_seeds(s) is s, "to_seeds")
    if uv:
        require(int(np.prod(s.uv_shape)) == n, "{0}: uv_shape {1}", msg, s.uv_shape)
        mesh = s.as_mesh(fill_holes=False)
        close(mesh, np.asarray(pts).reshape([3] + list(s.uv_shape)), msg + ": mesh", 1e-12, 1e-12)


def local_field(s, n, msg, shape):
    """values wrapped on the seeds keep the order of the points"""
    v = np.arange(n, dtype="f8") + 0.5
    f = s.wrap_field(v.reshape(shape), name="v")
    require(f.nr_comps == 0 and f.name == "v" and tuple(f.shape) == tuple(shape), "{0}: wrapped {1}", msg,
            f.shape)
    eq_arr(np.asarray(f.data).ravel(), v, msg + ": wrapped values")
    if 3 in shape or 1 in shape:
        return f.crds
    w = np.arange(3 * n, dtype="f8").reshape(tuple(shape) + (3, ))
    f = s.wrap_field(w, name="w", fldtype="vector", layout="interlaced")
    eq_arr(np.asarray(f["y"].data).ravel(), w.reshape(-1, 3)[:, 1], msg + ": wrapped vectors")
    return f.crds


# --------------------------------------------------------- lines, planes, ...
@st.composite
def flat_cases(draw):
    how = draw(st.sampled_from(["list", "tuple", "array"]))
    kind = draw(st.sampled_from(["line", "plane", "plane", "volume", "volume", "point", "mesh", "spline"]))
    c = {"kind": kind, "how": how, "cache": draw(st.booleans()), "seed": draw(seeds),
         "p0": draw(point), "p1": draw(point), "n": [draw(ncnt) for _ in range(3)]}
    if kind == "plane":
        c.update(N=draw(vec), L=draw(vec), vectors=draw(st.booleans()),
                 ll=draw(st.sampled_from([2.0, 0.5, 3, [-1.0, 4.0], [2, 5]])),
                 lm=draw(st.sampled_from([2.0, 0.5, 3, [-1.0, 4.0], [2, 5]])))
    elif kind == "point":
        c["form"] = draw(st.sampled_from(["3xN", "Nx3", "3xNxM", "NxMx3", "one", "list3xN", "listNx3"]))
    elif kind == "spline":
        c["knots"] = draw(st.integers(2, 9))
        c["k"] = draw(st.sampled_from([None, 1, 2, 3]))
        c["ns"] = draw(st.sampled_from([-5, -1, 4, 11]))
    elif kind == "mesh":
        c["rect"] = draw(st.sampled_from([None, "xy", "yx"]))
    if kind == "volume" and draw(st.booleans()):
        c["n"][draw(st.integers(0, 2))] = 1
    return c


def check_flat(case):
    k = case["kind"]
    label(k)
    p0, p1 = np.array(case["p0"]), np.array(case["p1"])
    n = case["n"]
    F = lambda x: form(x, case["how"])
    kw = {"cache": case["cache"]}
    if k == "line":
        nontrivial(n[0] > 1)
        s = viscid.Line(F(p0), F(p1), n[0], **kw)
        t = np.linspace(0, 1, n[0])
        want = p0[:, None] + (p1 - p0)[:, None] * t[None, :]
        common(s, want, "line")
        close(s.uv_to_3d(np.array([t, np.zeros_like(t)])), want, "line: uv_to_3d", 1e-9, 1e-9)
        require(tuple(s.local_shape) == (n[0], ), "line: local shape")
        if n[0] > 1 and np.linalg.norm(p1 - p0) > 1e-2:
            crds = local_field(s, n[0], "line", (n[0], ))
            close(crds.get_crds_nc()[0], t * np.linalg.norm(p1 - p0), "line: distance along it", 1e-9, 1e-9)
    elif k == "plane":
        N, L = np.array(case["N"]), np.array(case["L"])
        if np.linalg.norm(np.cross(N, L)) < 1e-2:
            raise Discard()
        nontrivial(n[0] * n[1] > 1)
        off = 0 if case["vectors"] else p0
        args = [F(p0), F(N + off), F(L + off)]
        keep = [np.array(a) for a in args]
        s = viscid.Plane(*args, len_l=case["ll"], len_m=case["lm"], nl=n[0], nm=n[1],
                         NL_are_vectors=case["vectors"], **kw)
        Nh = N / np.linalg.norm(N)
        Lh = L - np.dot(L, Nh) * Nh
        Lh = Lh / np.linalg.norm(Lh)
        R = np.array([Lh, np.cross(Nh, Lh), Nh]).T
        ax = []
        for ln, m in ((case["ll"], n[0]), (case["lm"], n[1])):
            lim = ln if isinstance(ln, list) else [-0.5 * ln, 0.5 * ln]
            ax.append(np.linspace(lim[0], lim[1], m))
        uv = grid(*ax)
        lmn = np.concatenate([uv, np.zeros((1, uv.shape[1]))])
        want = p0[:, None] + np.dot(R, lmn)
        common(s, want, "plane")
        for a, b in zip(args, keep):
            eq_arr(np.array(a), b, "Plane changed its arguments")
        require(tuple(s.uv_shape) == (n[0], n[1]), "plane: uv_shape")
        close(s.get_rotation(), R, "plane: rotation", 1e-9, 1e-9)
        close(s.to_local(want), lmn, "plane: to_local", 1e-9, 1e-9)
        close(s.to_3d(lmn), want, "plane: to_3d", 1e-9, 1e-9)
        close(s.uv_to_3d(uv), want, "plane: uv_to_3d", 1e-9, 1e-9)
        if n[0] > 1 and n[1] > 1:
            close(s.uv_extent, [[a[0], a[-1]] for a in ax], "plane: extent", 1e-9, 1e-9)
            crds = local_field(s, n[0] * n[1], "plane", (n[0], n[1], 1))
            close(grid(*[crds.get_crd(c) for c in "xyz"]), lmn, "plane: local coordinates", 1e-9, 1e-9)
            ids = np.arange(n[0] * n[1])
            verts, arr = s.wrap_mesh(ids)
            close(verts.reshape(3, -1)[:, arr.ravel()], verts.reshape(3, -1), "plane: mesh")
            eq_arr(arr.ravel(), ids, "plane: mesh values")
    elif k == "volume":
        xl, xh = np.minimum(p0, p1), np.maximum(p0, p1)
        if np.any((xh - xl < 1e-2) & (np.array(n) > 1)):
            raise Discard()
        nontrivial(np.prod(n) > 1)
        s = viscid.Volume(F(xl), F(xh), F(n), **kw)
        ax = [np.linspace(a, b, m) for a, b, m in zip(xl, xh, n)]
        want = grid(*ax)
        common(s, want, "volume", uv=1 in n)
        require(tuple(s.local_shape) == tuple(n), "volume: local shape")
        crds = local_field(s, int(np.prod(n)), "volume", tuple(n))
        close(grid(*[crds.get_crd(c) for c in "xyz"]), want, "volume: local coordinates", 1e-9, 1e-9)
        close(s.to_local(want), want, "volume: to_local")
        if 1 in n:
            i = n.index(1)
            uvax = ax[:i] + ax[i + 1:]
            close(s.uv_to_3d(grid(*uvax)), want, "volume: uv_to_3d", 1e-9, 1e-9)
            verts, arr = s.wrap_mesh(np.arange(int(np.prod(n))))
            close(verts.reshape(3, -1), want, "volume: mesh", 1e-9, 1e-9)
            eq_arr(arr.ravel(), np.arange(int(np.prod(n))), "volume: mesh values")
    elif k == "point":
        a, b = n[0], n[1]
        fm = case["form"]
        if fm in ("Nx3", "listNx3") and a == 3 or (fm == "NxMx3" and a == 3):
            raise Discard()
        nontrivial()
        label(fm)
        if fm == "one":
            want = rarr(case["seed"], (3, 1))
            arg = want[:, 0]
        elif "M" in fm:
            want = rarr(case["seed"], (3, a * b))
            arg = want.reshape(3, a, b)
        else:
            want = rarr(case["seed"], (3, a))
            arg = want
        if fm.endswith("x3"):
            arg = np.moveaxis(arg, 0, -1)
        keep = arg.copy()
        if "list" in fm:
            arg = arg.tolist()
        if fm == "NxMx3":
            # the order of more than one dimension isn't documented, only that all points are there
            s = viscid.Point(arg, **kw)
            got = s.get_points()
            key = lambda p: np.array(sorted(map(tuple, p.T.tolist())))
            close(key(got), key(want), "points", 0, 0)
            return
        s = viscid.Point(arg, **kw)
        common(s, want, "points", uv=False)
        eq_arr(np.array(arg), keep, "Point changed its argument")
        t = viscid.to_seeds(arg)
        close(t.get_points(), want, "to_seeds", 0, 0)
    elif k == "mesh":
        nontrivial(n[0] * n[1] > 1)
        if case["rect"]:
            u, v = np.sort(rarr(case["seed"], (n[0], ))), np.sort(rarr(case["seed"] + 1, (n[1], )))
            U, V = np.meshgrid(u, v, indexing="ij")
            xy = [U, V] if case["rect"] == "xy" else [V, U]
            pts = np.array(xy + [U + 2 * V])
            s = viscid.RectilinearMeshPoints(pts.copy(), mesh_axes=case["rect"], **kw)
            ax = (u, v)
        else:
            pts = rarr(case["seed"], (3, n[0], n[1]))
            s = viscid.MeshPoints(pts.copy(), **kw)
            ax = (np.arange(n[0]), np.arange(n[1]))
        common(s, pts.reshape(3, -1), "mesh")
        require(tuple(s.local_shape) == (n[0], n[1]), "mesh: local shape {0}", s.local_shape)
        if case["rect"] is None or (min(np.diff(ax[0]), default=1) > 1e-6 and min(np.diff(ax[1]), default=1) > 1e-6):
            crds = local_field(s, n[0] * n[1], "mesh", (n[0], n[1]))
            for c, x in zip("xy", ax):
                close(crds.get_crd(c), x, "mesh: local coordinates")
        verts, arr = s.wrap_mesh(np.arange(n[0] * n[1]))
        close(verts, pts, "mesh: vertices")
        eq_arr(arr, np.arange(n[0] * n[1]).reshape(n[0], n[1]), "mesh: values")
    elif k == "spline":
        from scipy import interpolate
        nk = case["knots"]
        kk = case["k"]
        if kk is not None and nk <= kk:
            raise Discard()
        knots = np.cumsum(rarr(case["seed"], (3, nk), lo=0.2, hi=1.0), axis=1)
        opts = None if kk is None else {"k": kk}
        nontrivial()
        label("k{0}".format(kk), "knots{0}".format(nk))
        s = viscid.Spline(knots.copy(), n=case["ns"], splprep_kw=opts, **kw)
        ns = case["ns"] if case["ns"] > 0 else -case["ns"] * nk
        tck, _ = interpolate.splprep(knots, k=kk if kk else min(nk - 1, 5))
        t = np.linspace(0, 1, ns)
        want = np.array(interpolate.splev(t, tck))
        if kk is None and nk > 6:
            s.get_points()
            require(s.get_points().shape == (3, ns), "spline: shape")
            return
        common(s, want, "spline")
        if kk is not None:
            require(opts == {"k": kk}, "Spline changed its arguments")
        x = s.as_local_coordinates().get_crds_nc()[0]
        close(np.diff(x), np.linalg.norm(np.diff(want, axis=1), axis=0), "spline: distances", 1e-9, 1e-9)


# ----------------------------------------------------------------- on spheres
@st.composite
def sphere_cases(draw):
    kind = draw(st.sampled_from(["sphere", "sphere", "sphere", "cap", "circle", "patch"]))
    c = {"kind": kind, "p0": draw(point), "pole": draw(vec), "r": draw(st.sampled_from([0.0, 1.0, 2.5])),
         "roll": draw(st.sampled_from([0.0, 0.0, 30.0, -90.0, 200.0])), "vec": draw(st.booleans()),
         "nt": draw(st.integers(1, 6)), "np": draw(st.integers(1, 7)), "theta_phi": draw(st.booleans()),
         "how": draw(st.sampled_from(["list", "tuple", "array"])),
         "tl": draw(st.sampled_from([[0, 180], [0, 180], [0, 90], [90, 180], [30, 120], [0, 30.5], [170, 180]])),
         "pl": draw(st.sampled_from([[0, 360], [0, 360], [-180, 180], [0, 90], [45, 200]])),
         "te": draw(st.sampled_from(["auto", "auto", True, False, [True, False], [False, True]])),
         "pe": draw(st.sampled_from(["auto", "auto", True, False])),
         "crd": draw(st.sampled_from([None, None, "gse", "mhd", "fgse"])),
         "angle": draw(st.sampled_from([[0, 90], [10, 40], [0, 180], [20.5, 30], [90, 91]])),
         "alpha": draw(st.sampled_from([45, 30, 10.0])), "beta": draw(st.sampled_from([45, 20, 1.5])),
         "fill": draw(st.booleans())}
    return c


def thetas(lim, n, ends):
    a, b = np.deg2rad(lim)
    if all(ends):
        return np.linspace(a, b, n)
    if not any(ends):
        e = np.linspace(a, b, n + 1)
        return 0.5 * (e[1:] + e[:-1])
    e = np.linspace(a, b, n + 1)
    return e[:-1] if ends[0] else e[1:]


def check_sphere(case):
    k = case["kind"]
    p0, pole = np.array(case["p0"]), np.array(case["pole"])
    F = lambda x: form(x, case["how"])
    r = case["r"] or np.linalg.norm(pole)
    roll = case["roll"]
    arg = F(pole) if case["vec"] else F(pole + p0)
    keep = np.array(arg)
    label(k, "r" if case["r"] else "r0")
    if k == "patch":
        s = viscid.SphericalPatch(F(p0), arg, max_alpha=case["alpha"], max_beta=case["beta"], nalpha=case["nt"],
                                  nbeta=case["np"], roll=roll, r=case["r"], p1_is_vector=case["vec"])
        a = np.linspace(-1, 1, case["nt"]) * np.deg2rad(case["alpha"])
        b = np.linspace(-1, 1, case["np"]) * np.deg2rad(case["beta"])
        nontrivial(case["nt"] * case["np"] > 1)
        g = grid(a, b)
        loc = r * np.array([np.sin(g[0]), np.sin(g[1]), np.sqrt(np.maximum(0, 1 - np.sin(g[0])**2 - np.sin(g[1])**2))])
        pts = s.get_points()
        eq_arr(np.array(arg), keep, "seeds changed their arguments")
        close(np.linalg.norm(pts - p0[:, None], axis=0), np.full(pts.shape[1], r), "patch: not on the sphere", 1e-9, 1e-9)
        R = minrot(pole)
        if R is None:
            return
        R = np.dot(R, Rotation.from_euler("z", np.deg2rad(roll)).as_matrix())
        want = p0[:, None] + np.dot(R, loc)
        # the third component is the root of what is left: rounding counts where that is 0
        tol = 1e-9 if np.all(np.abs(1 - np.sin(g[0])**2 - np.sin(g[1])**2) > 1e-9) else 1e-7 * (1 + r)
        common(s, want, "patch", tol=tol)
        require(tuple(s.uv_shape) == (case["nt"], case["np"]), "patch: uv_shape")
        close(s.uv_to_3d(g), want, "patch: uv_to_3d", tol, tol)
        if case["nt"] > 1 and case["np"] > 1:
            crds = local_field(s, want.shape[1], "patch", s.uv_shape)
            close(grid(*[crds.get_crd(c) for c in "xy"]), g, "patch: local coordinates", 1e-9, 1e-9)
        return
    kw = dict(p0=F(p0), r=case["r"], pole=arg, roll=roll, pole_is_vector=case["vec"], fill_holes=True)
    crd = case["crd"]
    if crd == "fgse":
        f = viscid.zeros([2, 2, 2])
        f.set_info("crd_system", "gse")
        kw["crd_system"] = f
    elif crd:
        kw["crd_system"] = crd
    if crd in ("gse", "fgse"):
        roll = roll - 180.0
    nt, nphi = case["nt"], case["np"]
    tl, pl, te, pe = case["tl"], case["pl"], case["te"], case["pe"]
    tp = case["theta_phi"]
    inc = lambda t: t in (0, 180)
    if k == "sphere":
        s = viscid.Sphere(ntheta=nt, nphi=nphi, thetalim=tl, philim=pl, theta_endpoint=te, phi_endpoint=pe,
                          theta_phi=tp, **kw)
        ends = [not inc(t) for t in tl] if te == "auto" else te if isinstance(te, list) else [te] * 2
    elif k == "cap":
        tl = case["angle"]
        kw2 = {} if te == "auto" else {"theta_endpoint": te}
        s = viscid.SphericalCap(angle0=tl[0], angle=tl[1], ntheta=nt, nphi=nphi, philim=pl, phi_endpoint=pe,
                                theta_phi=tp, **kw2, **kw)
        ends = [True, False] if te == "auto" else te if isinstance(te, list) else [te] * 2
    else:
        tl, nt = [90, 90], 1
        e = None if pe == "auto" else pe
        s = viscid.Circle(n=nphi, endpoint=e, philim=pl, theta_phi=tp, **kw)
        ends = [True, False]
        require(s.n == nphi, "circle: n")
    nontrivial(nt * nphi > 1)
    label("te{0}".format(te) if k != "circle" else "", "fill" if case["fill"] else "nofill")
    whole = abs(pl[1] - pl[0] - 360) < 1e-9
    if pe == "auto":
        pe = not whole
    th = thetas(tl, nt, ends)
    ph = np.linspace(np.deg2rad(pl[0]), np.deg2rad(pl[1]), nphi, endpoint=pe)
    if tp:
        g = grid(th, ph)
        T, P = g
    else:
        g = grid(ph, th)
        P, T = g
    loc = r * np.array([np.sin(T) * np.cos(P), np.sin(T) * np.sin(P), np.cos(T)])
    pts = s.get_points()
    eq_arr(np.array(arg), keep, "seeds changed their arguments")
    d = pts - p0[:, None]
    n = nt * nphi
    close(np.linalg.norm(d, axis=0), np.full(n, r), k + ": not on the sphere", 1e-9, 1e-9)
    close(np.dot(pole / np.linalg.norm(pole), d) / r, np.cos(T), k + ": angle from the pole", 1e-7, 1e-7)
    R = minrot(pole)
    if R is not None:
        R = np.dot(R, Rotation.from_euler("z", np.deg2rad(roll)).as_matrix())
        common(s, p0[:, None] + np.dot(R, loc), k)
    else:
        # the x axis isn't defined
        common(s, pts, k)
        close(np.dot(d.T, d), np.dot(loc.T, loc), k + ": angles between points", 1e-6, 1e-6)
    require(tuple(s.uv_shape) == ((nt, nphi) if tp else (nphi, nt)), "{0}: uv_shape {1}", k, s.uv_shape)
    close(s.uv_to_3d(g), pts, k + ": uv_to_3d", 1e-9, 1e-9)
    if nt > 1 and nphi > 1 or k == "circle":
        crds = local_field(s, n, k, s.uv_shape)
        close(grid(*[crds.get_crd(c) for c in (("theta", "phi") if tp else ("phi", "theta"))]), g,
              k + ": local coordinates", 1e-9, 1e-9)
    # closed meshes
    if nphi < 3 and whole or n == 1:
        return
    vals = rarr(7, (n, ), kind="uniq")
    verts, arr = s.wrap_mesh(vals, fill_holes=case["fill"])
    require(verts.shape[1:] == arr.shape, "{0}: mesh {1} with values {2}", k, verts.shape, arr.shape)
    V, A = verts.reshape(3, -1), arr.ravel()
    dist = np.linalg.norm(V[:, :, None] - pts[:, None, :], axis=0)
    near = dist < 1e-9 * max(1, r + np.abs(p0).max())
    require(np.all(near.any(axis=0)), "{0}: seeds missing in the mesh", k)
    ring = {+1: vals[np.isclose(T, T.min())], -1: vals[np.isclose(T, T.max())]}
    for i in range(V.shape[1]):
        if near[i].any():
            # the values at poles and at duplicates are those of any seed there
            ok = np.any(np.abs(vals[near[i]] - A[i]) < 1e-9)
            require(ok, "{0}: value {1} at a vertex that is seed {2}", k, A[i], np.nonzero(near[i])[0])
        else:
            up = np.dot(V[:, i] - p0, pole) / np.linalg.norm(pole) / r
            require(case["fill"] and abs(abs(up) - 1) < 1e-9, "{0}: vertex that isn't a seed or pole", k)
            close(A[i], ring[1 if up > 0 else -1].mean(), k + ": value at the pole", 1e-9, 1e-9)
    if case["fill"] and whole and min(verts.shape[1:]) > 1:
        # closed in phi
        if tp:
            close(verts[:, :, 0], verts[:, :, -1], k + ": seam", 1e-9, 1e-9)
        else:
            close(verts[:, 0], verts[:, -1], k + ": seam", 1e-9, 1e-9)
    if case["fill"] and not (not tp and k == "never") and nphi > 2 and min(verts.shape[1:]) > 1 and k != "circle" \
            and abs(ph[1] - ph[0]) < 2.5:
        du, dv = np.diff(verts, axis=1)[:, :, :-1], np.diff(verts, axis=2)[:, :-1, :]
        nrm = np.cross(du, dv, axis=0)
        cen = 0.25 * (verts[:, 1:, 1:] + verts[:, :-1, 1:] + verts[:, 1:, :-1] + verts[:, :-1, :-1]) - p0[:, None, None]
        out = (nrm * cen).sum(axis=0)
        require(np.all(out > -1e-9 * r**3), "{0}: normals of the mesh point inside", k)
    # all of the sphere and no holes
    if k == "sphere" and case["fill"] and whole and tl == [0, 180] and case["te"] == "auto":
        up = np.dot(pole / np.linalg.norm(pole), V - p0[:, None]) / r
        require(abs(up.max() - 1) < 1e-9 and abs(up.min() + 1) < 1e-9, "holes at the poles")


FACETS = [
    Facet("flat", flat_cases(), check_flat, quick=1800, rule="more than one point"),
    Facet("sphere", sphere_cases(), check_sphere, quick=2000, rule="more than one point"),
]
