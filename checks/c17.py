"""C17: rotations"""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial.transform import Rotation

import viscid
from viscid import rotation as rt
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, rarr, require, rng, seeds

ORDERS = ["zyx", "yxz", "xzy", "xyz", "yzx", "zxy", "zyz", "zxz", "yzy", "yxy", "xzx", "xyx"]

special = st.builds(lambda k, s, e: k * s + e, st.integers(-12, 12), st.sampled_from([15., 30., 45., 90.]),
                    st.sampled_from([0., 0., 0., 1e-9, -1e-7, 1e-5, -1e-3, 0.1]))
angles_deg = st.one_of(special, st.integers(-400, 400).map(float),
                       st.floats(-360, 360, allow_nan=False).map(lambda x: round(x, 6)))
comp = st.one_of(st.sampled_from([0., 0., 1., -1., 2., 0.5, 1e-3, -1e-7]),
                 st.floats(-3, 3, allow_nan=False).map(lambda x: round(x, 4)))
vec = st.tuples(comp, comp, comp).filter(lambda v: max(abs(x) for x in v) >= 0.5).map(list)


def orthonormal(R, msg, tol=1e-10):
    R = np.asarray(R)
    require(R.shape[-2:] == (3, 3), "{0}: shape {1}", msg, R.shape)
    close(np.einsum("...ji,...jk->...ik", R, R), np.broadcast_to(np.eye(3), R.shape), msg + ": R^T R", 0, tol)
    close(np.linalg.det(R), np.ones(R.shape[:-2]), msg + ": det", 0, tol)


def stack(x, how):
    """the forms an argument can be given in"""
    if how == "list":
        return np.asarray(x).tolist()
    return np.array(x, dtype="f4" if how == "f4" else "f8")


# ------------------------------------------------------------------ euler
@st.composite
def eul_cases(draw):
    n = draw(st.sampled_from([0, 0, 1, 2, 5]))
    a = [[draw(angles_deg) for _ in range(3)] for _ in range(max(n, 1))]
    return {"angles": a if n else a[0], "axes": draw(st.sampled_from(ORDERS)), "unit": draw(st.sampled_from(["deg", "rad"])),
            "how": draw(st.sampled_from(["list", "f8"])), "kind": draw(st.sampled_from(["rot", "dcm"])),
            "order": draw(st.sampled_from(["angle", "eul"])), "upper": draw(st.booleans())}


def check_euler(case):
    axes = case["axes"]
    ang = np.array(case["angles"])
    rad = np.deg2rad(ang)
    arg = stack(ang if case["unit"] == "deg" else rad, case["how"])
    keep = np.array(arg)
    name = case["order"] + "2" + case["kind"]
    label(name, axes, "stack" if ang.ndim == 2 else "single")
    nontrivial(np.any(np.abs(ang) > 1e-6))
    got = getattr(rt, name)(arg, axes, unit=case["unit"])
    eq_arr(np.array(arg), keep, name + " changed its argument")
    # vectors (rot) or axes (dcm) turn; first axis first (angle) or last axis first (eul)
    sgn = -1 if case["kind"] == "dcm" else 1
    seq = axes if case["order"] == "angle" else axes[::-1]
    aa = rad if case["order"] == "angle" else rad[..., ::-1]
    want = Rotation.from_euler(seq, sgn * aa).as_matrix()
    require(got.shape == want.shape, "{0}: shape {1}", name, got.shape)
    close(got, want, name, 0, 1e-12)
    orthonormal(got, name)
    back_name = case["kind"] + "2" + case["order"]
    x = getattr(rt, back_name)(got, axes, unit=case["unit"])
    require(np.shape(x) == ang.shape, "{0}: shape {1}", back_name, np.shape(x))
    # roundoff grows near gimbal lock
    m = np.abs(np.sin(rad[..., 1]) if axes[0] == axes[2] else np.cos(rad[..., 1]))
    tol = 1e-12 + 1e-14 / max(1e-10, float(np.min(m))) if np.min(m) > 3e-11 else 1e-9
    tol = max(tol, 2e-4) if 1e-11 < np.min(m) < 1e-9 else tol
    if np.min(m) < 1e-9:
        tol = max(tol, 1e-9)
        if np.any((m > 3e-11) & (m < 1e-8)):
            tol = 2e-4
    again = getattr(rt, name)(x, axes, unit=case["unit"])
    close(again, want, "{0} of {1}".format(name, back_name), 0, tol)
    # the first axis for rotations around one axis only
    for k in range(3):
        e = np.zeros(3)
        e[k] = rad.reshape(-1, 3)[0, k]
        one = getattr(rt, name)(e, axes)
        el = getattr(rt, "e_" + case["kind"])(e[k], axes[k].upper() if case["upper"] else axes[k])
        close(el, one, "e_" + case["kind"], 0, 1e-14)
        close(getattr(rt, "e_" + case["kind"])([np.rad2deg(e[k])], "xyz".index(axes[k]), unit="deg")[0], one,
              "e_" + case["kind"] + " in degrees", 0, 1e-13)


# ------------------------------------------------------------------ quaternions
@st.composite
def quat_cases(draw):
    n = draw(st.sampled_from([0, 0, 1, 3]))
    m = draw(st.sampled_from([0, 0, 1])) if n == 0 else draw(st.sampled_from([0, n]))
    ints = draw(st.integers(0, 4)) == 0
    c = st.integers(-3, 3) if ints else comp

    def qs(k):
        out = []
        for _ in range(max(k, 1)):
            q = [draw(c) for _ in range(4)]
            if max(abs(x) for x in q) < 0.4:
                q[draw(st.integers(0, 3))] = 1
            out.append(q)
        return out if k else out[0]

    return {"p": qs(n), "q": qs(m), "ints": ints, "unit": draw(st.booleans()),
            "how": draw(st.sampled_from(["list", "f8", "f4"])), "seed": draw(seeds),
            "nvec": draw(st.sampled_from([0, 0, 1, 3])), "kind": draw(st.sampled_from(["rot", "dcm"]))}


def qmat(q):
    """rotation matrices of (unnormalized) scalar first quaternions"""
    q = np.asarray(q, dtype="f8")
    return Rotation.from_quat(np.roll(q.reshape(-1, 4), -1, axis=1)).as_matrix().reshape(q.shape[:-1] + (3, 3))


def check_quat(case):
    p, q = np.array(case["p"]), np.array(case["q"])
    if case["unit"] and not case["ints"]:
        p = p / np.linalg.norm(p, axis=-1)[..., None]
        q = q / np.linalg.norm(q, axis=-1)[..., None]
    if case["how"] == "list":
        ap, aq = p.tolist(), q.tolist()
    elif case["ints"]:
        ap, aq = p.copy(), q.copy()
    else:
        ap, aq = p.astype(case["how"]), q.astype(case["how"])
    p, q = np.array(ap, dtype="f8"), np.array(aq, dtype="f8")
    k0 = np.array(ap)
    label("int" if case["ints"] else case["how"], "stack" if p.ndim == 2 else "single", case["kind"])
    nontrivial()
    fwd, back = getattr(rt, "quat2" + case["kind"]), getattr(rt, case["kind"] + "2quat")
    R = fwd(ap)
    want = qmat(p)
    if case["kind"] == "dcm":
        want = np.swapaxes(want, -1, -2)
    tol = 1e-6 if case["how"] == "f4" else 1e-11
    require(R.shape == want.shape, "quat2{0}: shape {1}", case["kind"], R.shape)
    # quaternions within 1e-5 of unit length aren't normalized again
    close(R, want, "quat2" + case["kind"], 0, max(tol, 5e-5 if not case["unit"] and np.any(
        (np.abs(np.linalg.norm(p, axis=-1) - 1) < 1.1e-5) & (np.linalg.norm(p, axis=-1) != 1)) else tol))
    eq_arr(np.array(ap), k0, "quat2{0} changed its argument".format(case["kind"]))
    q2 = back(want)
    require(q2.shape == p.shape, "{0}2quat: shape {1}", case["kind"], q2.shape)
    close(np.linalg.norm(q2, axis=-1), np.ones(p.shape[:-1]), "norm of quaternions", 0, 1e-12)
    close(fwd(q2), want, "quaternion of matrix", 0, 1e-10)
    pn = p / np.linalg.norm(p, axis=-1)[..., None]
    close(np.abs((q2 * pn).sum(axis=-1)), np.ones(p.shape[:-1]), "quaternion is +- the original", 0, 1e-10)
    # axis and angle
    w, ax = rt.quat2wxyz(ap)
    close(rt.wxyz2rot(w, ax), qmat(p), "quat2wxyz", 0, max(tol, 1e-7))
    xa = rt.quat2axang(ap, unit="deg")
    close(xa[..., :3], ax, "quat2axang", 0, 1e-12)
    close(np.deg2rad(xa[..., 3]), w, "quat2axang", 0, 1e-12)
    require(np.all(np.asarray(w) >= 0) and np.all(np.asarray(w) <= 2 * np.pi + 1e-9), "angle {0}", w)
    # products
    if p.shape[:-1] and q.shape[:-1] and p.shape != q.shape:
        return
    both = rt.quatmul(ap, aq)
    a, b = np.broadcast_arrays(p, q)
    ham = np.empty(a.shape)
    ham[..., 0] = a[..., 0] * b[..., 0] - (a[..., 1:] * b[..., 1:]).sum(axis=-1)
    ham[..., 1:] = (a[..., :1] * b[..., 1:] + b[..., :1] * a[..., 1:] + np.cross(a[..., 1:], b[..., 1:]))
    require(both.shape == ham.shape, "quatmul: shape {0} vs {1}", both.shape, ham.shape)
    close(both, ham, "quatmul", 1e-11, 1e-11)
    A, B = qmat(p), qmat(q)
    AB = rt.rotmul(A, B)
    close(AB, np.matmul(A, B), "rotmul", 0, 1e-12)
    nv = case["nvec"]
    n = max([len(z) if z.ndim == 2 else 1 for z in (p, q)])
    if nv not in (0, 1) and n not in (1, nv):
        return
    v = rarr(case["seed"], (nv, 3) if nv else (3, ))
    want = np.einsum("...ij,...j->...i", np.matmul(A, B), v)
    gr, gq = rt.rotate(v, A, B), rt.quat_rotate(v, ap, aq)
    require(np.shape(gr) == want.shape, "rotate: shape {0} vs {1}", np.shape(gr), want.shape)
    close(gr, want, "rotate", 1e-10, 1e-10)
    close(gq, want, "quat_rotate", 1e-6 if case["how"] == "f4" else 1e-10, 1e-6 if case["how"] == "f4" else 1e-10)


# ------------------------------------------------------------------ axis, angle
@st.composite
def ax_cases(draw):
    n = draw(st.sampled_from([0, 0, 1, 3]))
    na = draw(st.sampled_from([n, 0, 1]))
    nv = draw(st.sampled_from([n, 0]))
    return {"w": [draw(angles_deg) for _ in range(na)] if na else draw(angles_deg),
            "v": [draw(vec) for _ in range(nv)] if nv else draw(vec),
            "unit": draw(st.sampled_from(["deg", "rad"])), "quick": draw(st.booleans())}


def check_ax(case):
    w, v = np.array(case["w"]), np.array(case["v"], dtype="f8")
    rad = np.deg2rad(w)
    arg = w if case["unit"] == "deg" else rad
    u = v / np.linalg.norm(v, axis=-1)[..., None]
    want = Rotation.from_rotvec((rad[..., None] * u).reshape(-1, 3)).as_matrix()
    single = w.ndim == 0 and v.ndim == 1
    want = want[0] if single else want
    label("w{0}".format(w.ndim), "v{0}".format(v.ndim), case["unit"], "quick" if case["quick"] else "slow")
    nontrivial(np.any(np.abs(rad) > 1e-5))
    v0 = v.copy()
    R = rt.wxyz2rot(arg, v, unit=case["unit"])
    require(R.shape == want.shape, "wxyz2rot: shape {0} vs {1}", R.shape, want.shape)
    close(R, want, "wxyz2rot", 0, 1e-12)
    q = rt.wxyz2quat(arg, v, unit=case["unit"])
    require(q.shape == want.shape[:-2] + (4, ), "wxyz2quat: shape {0}", q.shape)
    close(qmat(q), want, "wxyz2quat", 0, 1e-12)
    eq_arr(v, v0, "argument changed")
    ang, ax = rt.rot2wxyz(R, unit=case["unit"], quick=case["quick"])
    require(np.shape(ang) == want.shape[:-2] and np.shape(ax) == want.shape[:-2] + (3, ), "rot2wxyz: shapes")
    a = np.deg2rad(ang) if case["unit"] == "deg" else np.asarray(ang)
    require(np.all(a >= 0) and np.all(a <= np.pi + 1e-9), "rot2wxyz: angle {0}", ang)
    close(np.linalg.norm(ax, axis=-1), np.ones(want.shape[:-2]), "rot2wxyz: axis", 0, 1e-10)
    close(rt.wxyz2rot(a, ax), want, "rot2wxyz", 0, 3e-7)
    axang = rt.rot2axang(R, unit=case["unit"], quick=case["quick"])
    close(axang[..., 3], ang, "rot2axang")
    close(rt.axang2rot(axang, unit=case["unit"]), want, "rot2axang", 0, 3e-7)
    close(qmat(rt.axang2quat(axang, unit=case["unit"])), want, "axang2quat", 0, 3e-7)


# ------------------------------------------------------------------ a to b
@st.composite
def a2b_cases(draw):
    n = draw(st.sampled_from([0, 0, 2]))
    a = [draw(vec) for _ in range(max(n, 1))]
    b = []
    for x in a:
        k = draw(st.sampled_from(["any", "any", "same", "opposite", "near", "nearopp"]))
        if k == "any":
            b.append(draw(vec))
        else:
            s = draw(st.sampled_from([1., 2., 0.3])) * (-1 if "opp" in k else 1)
            e = draw(st.sampled_from([1e-4, 1e-7, 1e-10])) if "near" in k else 0
            b.append([s * t + e * i for i, t in enumerate(x)])
    return {"a": a if n else a[0], "b": b if n else b[0], "roll": draw(angles_deg),
            "rolled": draw(st.booleans()), "unit": draw(st.sampled_from(["deg", "rad"])),
            "new_x": draw(st.one_of(st.none(), vec, st.just("anti"), st.just("para"))),
            "list": draw(st.booleans())}


def check_a2b(case):
    a, b = np.array(case["a"], dtype="f8"), np.array(case["b"], dtype="f8")
    ua, ub = [x / np.linalg.norm(x, axis=-1)[..., None] for x in (a, b)]
    aa, bb = (a.tolist(), b.tolist()) if case["list"] else (a.copy(), b.copy())
    R = rt.a2b_rot(aa, bb)
    # known finding: double arrays are normalized in place (see KNOWN)
    for x, y, u in ((aa, a, ua), (bb, b, ub)):
        require(np.array_equal(x, y) or not case["list"] and np.allclose(x, u, atol=1e-12),
                "a2b_rot changed its argument: {0} -> {1}", y, x)
    aa, bb = (a.tolist(), b.tolist()) if case["list"] else (a.copy(), b.copy())
    label("stack" if a.ndim == 2 else "single")
    nontrivial()
    orthonormal(R, "a2b_rot")
    require(R.shape == a.shape[:-1] + (3, 3), "a2b_rot: shape {0}", R.shape)
    close(np.einsum("...ij,...j->...i", R, ua), ub, "a2b_rot doesn't turn a to b", 0, 5e-8)
    # the shortest way
    true = np.arctan2(np.linalg.norm(np.cross(ua, ub), axis=-1), (ua * ub).sum(axis=-1))
    ang = np.arccos(np.clip((np.trace(R, axis1=-2, axis2=-1) - 1) / 2, -1, 1))
    close(ang, true, "angle of a2b_rot", 0, 1e-7)
    got = rt.angle_between(aa, bb, unit=case["unit"])
    for x, y in ((aa, a), (bb, b)):
        eq_arr(np.array(x), y, "angle_between changed its argument")
    require(np.shape(got) == true.shape, "angle_between: shape {0}", np.shape(got))
    close(np.deg2rad(got) if case["unit"] == "deg" else got, true, "angle_between", 0, 1e-7)
    if case["rolled"]:
        roll = case["roll"] if case["unit"] == "deg" else np.deg2rad(case["roll"])
        got = rt.a2b_rot(aa, bb, roll=roll, unit=case["unit"])
        want = np.matmul(Rotation.from_rotvec((np.deg2rad(case["roll"]) * ub).reshape(-1, 3)).as_matrix().reshape(R.shape), R)
        close(got, want, "a2b_rot with roll", 0, 1e-9)
    nx = case["new_x"]
    if nx is not None and a.ndim == 1:
        z = np.array([0., 0., 1.])
        R0 = rt.a2b_rot(z, b.copy())
        if isinstance(nx, str):
            nx = R0[:, 0] * (-1 if nx == "anti" else 2)
        nx = np.array(nx, dtype="f8")
        proj = nx - np.dot(nx, ub) * ub
        if np.linalg.norm(proj) < 1e-3:
            return
        label("new_x")
        arg = nx.copy()
        R1 = rt.a2b_rot(z, b.copy(), unit=case["unit"], new_x=arg)
        eq_arr(arg, nx, "a2b_rot changed new_x")
        orthonormal(R1, "a2b_rot with new_x")
        close(R1[:, 2], ub, "a2b_rot with new_x doesn't turn a to b", 0, 5e-8)
        close(R1[:, 0], proj / np.linalg.norm(proj), "x axis isn't along new_x", 0, 1e-7)


def check_inplace(case):
    a, b = np.array(case["a"], dtype="f8"), np.array(case["b"], dtype="f8")
    aa, bb = a.copy(), b.copy()
    rt.a2b_rot(aa, bb)
    eq_arr(aa, a, "a2b_rot changed its argument")
    eq_arr(bb, b, "a2b_rot changed its argument")


# replayed only: the repository's own self test relies on it
KNOWN = [Facet("a2b_inplace", None, check_inplace)]

FACETS = [
    Facet("euler", eul_cases(), check_euler, quick=1500, rule="some angle above 1e-6 degrees"),
    Facet("quat", quat_cases(), check_quat, quick=1200, rule="always"),
    Facet("axang", ax_cases(), check_ax, quick=1200, rule="some angle above 1e-5"),
    Facet("a2b", a2b_cases(), check_a2b, quick=1200, rule="always"),
]
