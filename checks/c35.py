"""C35: lines are resampled, integrated along, joined and colored as given"""
import copy
import fnmatch

import numpy as np
from hypothesis import strategies as st
from scipy.interpolate import CubicSpline

import viscid
from viscid import vutil
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, raises, require, rng, seeds


# ---------------------------------------------------------------- resample
@st.composite
def res_cases(draw):
    return {"ns": draw(st.lists(st.integers(2, 12), min_size=1, max_size=4)), "factor": draw(st.sampled_from([1, 2, 3, 0.5, 0.25, 1.5, 2.7, 10, 0.1])), "kind": draw(st.sampled_from(["default", "linear", "nearest", "cubic", "previous"])),
            "seed": draw(seeds), "dim": draw(st.sampled_from([3, 3, 2, 4])), "tup": draw(st.booleans()), "f4": draw(st.booleans())}


def check_res(case):
    r = rng(case["seed"])
    ns = case["ns"]
    if case["kind"] == "cubic":
        ns = [n + 3 for n in ns]
    lines = [r.normal(size=(case["dim"], n)).astype("f4" if case["f4"] else "f8") for n in ns]
    keep = [ln.copy() for ln in lines]
    arg = tuple(lines) if case["tup"] else list(lines)
    f = case["factor"]
    kw = {} if case["kind"] == "default" else {"kind": case["kind"]}
    out = viscid.resample_lines(arg, factor=f, **kw)
    require(len(out) == len(lines), "{0} lines of {1}", len(out), len(lines))
    require(all(a is b for a, b in zip(arg, lines)), "the given list was changed")
    for ln, k, o in zip(lines, keep, out):
        eq_arr(ln, k, "line afterwards")
        n = k.shape[1]
        m = n if f == 1 else int(np.ceil(f * (n - 1))) + 1
        require(o.shape == (case["dim"], m), "{0} points resampled by {1} have shape {2}", n, f, o.shape)
        require(o.dtype == k.dtype, "dtype {0}", o.dtype)
        s0, s1 = np.linspace(0, 1, n), np.linspace(0, 1, m)
        if m > 1 and case["kind"] not in ("nearest", "previous"):
            close(o[:, [0, -1]], k[:, [0, -1]], "ends", rtol=1e-5, atol=1e-5)
        # (the others may go either way at the points)
        if f == int(f) and case["kind"] not in ("nearest", "previous"):
            close(o[:, ::int(f)], k, "points that were there", rtol=1e-4, atol=1e-5)
        if case["kind"] in ("default", "linear"):
            close(o, np.array([np.interp(s1, s0, c) for c in k.astype("f8")]), "linear", rtol=1e-4, atol=1e-5)
        elif case["kind"] == "cubic" and f != 1:
            close(o, CubicSpline(s0, k.astype("f8"), axis=1)(s1), "cubic", rtol=1e-3, atol=1e-3)
    for bad in (0, -1.0):
        raises(lambda: viscid.resample_lines(list(lines), factor=bad), "factor {0}".format(bad), ValueError)
    nontrivial(len(ns) > 1 and f != 1)


# --------------------------------------------------- integrals, projections
@st.composite
def int_cases(draw):
    return {"ns": draw(st.lists(st.integers(2, 9), min_size=1, max_size=4)), "vec": draw(st.sampled_from(["flat", "interlaced", None])), "center": draw(st.sampled_from(["cell", "node"])), "red": draw(st.sampled_from(["default", "dot", "mag", " Norm ", "magnitude", "DOT"])),
            "seed": draw(seeds), "kind": draw(st.sampled_from(["default", "trilin", "nearest"])), "one": draw(st.booleans()), "mask": draw(st.sampled_from([None, None, "neg", "none"])), "shape": [draw(st.integers(4, 7)) for _ in range(3)],
            "linear": draw(st.booleans()), "f4": draw(st.booleans())}


def mkfld(case, r):
    off = case["center"] == "cell"
    crds = viscid.arrays2crds([np.linspace(-1.5 - 0.2 * i, 1.6 + 0.1 * i, n + off) for i, n in enumerate(case["shape"])])
    pts = [0.5 * (crds.get_nc(i)[1:] + crds.get_nc(i)[:-1]) if off else crds.get_nc(i) for i in range(3)]
    X = np.stack(np.meshgrid(*pts, indexing="ij"), axis=-1)
    A, b = r.normal(size=(3, 3)), r.normal(size=3)
    arr = X.dot(A.T) + b if case["linear"] else r.normal(size=X.shape)
    dt = "f4" if case["f4"] else "f8"
    if not case["vec"]:
        f = viscid.wrap_field(np.ascontiguousarray(arr[..., 0].astype(dt)), crds, name="s", center=case["center"])
    elif case["vec"] == "flat":
        f = viscid.wrap_field(np.ascontiguousarray(np.moveaxis(arr, -1, 0).astype(dt)), crds, name="v", fldtype="vector", center=case["center"], layout=viscid.field.LAYOUT_FLAT)
    else:
        f = viscid.wrap_field(arr.astype(dt), crds, name="v", fldtype="vector", center=case["center"], layout=viscid.field.LAYOUT_INTERLACED)
    return f, A, b


def on_verts(fld, verts, case):
    """values on vertices, point by point"""
    fn = viscid.interp_nearest if case["kind"] == "nearest" else viscid.interp_trilin
    out = []
    for k in range(verts.shape[1]):
        v = np.asarray(fn(fld, np.ascontiguousarray(verts[:, k:k + 1].repeat(2, axis=1))))
        out.append(v[0] if case["vec"] else v.reshape(-1)[0])
    return np.array(out)


def check_int(case):
    r = rng(case["seed"])
    fld, A, b = mkfld(case, r)
    lines = [r.uniform(-0.9, 0.9, size=(3, n)) for n in case["ns"]]
    keep = [ln.copy() for ln in lines]
    kw = {} if case["kind"] == "default" else {"interp_kind": case["kind"]}
    red = case["red"]
    if red != "default":
        kw["reduction"] = red
    if case["mask"]:
        kw["mask_func"] = {"neg": lambda v: v < 0, "none": lambda v: v > 1e9}[case["mask"]]
    if case["one"]:
        got = np.array([viscid.integrate_along_line(ln, fld, **kw) for ln in lines])
    else:
        got = viscid.integrate_along_lines(lines, fld, **kw)
    for ln, k in zip(lines, keep):
        eq_arr(ln, k, "line afterwards")
    require(got.shape == (len(lines),), "shape of the integrals {0}", got.shape)
    label("{0} {1}".format(case["vec"], red.strip().lower()))
    tol = 1e-4 if case["f4"] else 1e-9
    want = []
    for ln in lines:
        v = on_verts(fld, ln, case).astype("f8")
        if case["linear"] and case["kind"] != "nearest":
            ref = ln.T.dot(A.T) + b
            close(v, ref if case["vec"] else ref[:, 0], "values on the line", atol=1e-4 if case["f4"] else 1e-9)
        ds = ln[:, 1:] - ln[:, :-1]
        L = np.linalg.norm(ds, axis=0)
        if not case["vec"]:
            want.append((0.5 * (v[1:] + v[:-1]) * L).sum())
        elif red.strip().lower() in ("default", "dot"):
            comp = 0.5 * (v[1:] + v[:-1]) * (ds / L).T
            if case["mask"] == "neg":
                if (comp < 0).all():
                    # nothing to add up
                    comp = comp * np.nan
                comp = np.where(comp < 0, 0, comp)
            want.append((comp.sum(axis=1) * L).sum())
        else:
            m = np.linalg.norm(v, axis=1)
            want.append((0.5 * (m[1:] + m[:-1]) * L).sum())
    want = np.array(want)
    got = np.where(np.isnan(want), want, got)
    close(got, want, "integrals", rtol=tol * 10, atol=tol * 10)
    if case["vec"]:
        raises(lambda: viscid.integrate_along_lines(lines, fld, reduction="nope"), "unknown reduction", ValueError)
    nontrivial(len(lines) > 1 and len(set(case["ns"])) > 1)


@st.composite
def proj_cases(draw):
    return {"n": draw(st.integers(3, 12)), "vec": draw(st.sampled_from(["flat", "interlaced"])), "center": draw(st.sampled_from(["cell", "node"])), "seed": draw(seeds), "kind": draw(st.sampled_from(["default", "trilin", "nearest"])),
            "shape": [draw(st.integers(4, 7)) for _ in range(3)], "linear": draw(st.booleans()), "f4": draw(st.booleans()), "line": draw(st.sampled_from(["straight", "random", "arc"]))}


def check_proj(case):
    r = rng(case["seed"])
    fld, A, b = mkfld(case, r)
    n = case["n"]
    if case["line"] == "straight":
        p0, p1 = r.uniform(-0.9, 0.9, size=(2, 3))
        line = p0[:, None] + (p1 - p0)[:, None] * np.sort(np.append(r.uniform(0, 1, size=n - 2), [0, 1]))
    elif case["line"] == "arc":
        t = np.linspace(0, r.uniform(0.5, 3), n)
        line = 0.8 * np.array([np.cos(t), np.sin(t), 0.3 * t])
    else:
        line = r.uniform(-0.9, 0.9, size=(3, n))
    kw = {} if case["kind"] == "default" else {"interp_kind": case["kind"]}
    got = np.asarray(viscid.project_along_line(line, fld, **kw))
    require(got.size == n, "{0} values for {1} points", got.shape, n)
    got = got.reshape(-1)
    v = on_verts(fld, line, case).astype("f8")
    tol = 1e-4 if case["f4"] else 1e-9
    t = line[:, 2:] - line[:, :-2]
    t = t / np.linalg.norm(t, axis=0)
    close(got[1:-1], (v[1:-1] * t.T).sum(axis=1), "projection inside", atol=tol)
    if case["line"] == "straight":
        u = (line[:, -1] - line[:, 0]) / np.linalg.norm(line[:, -1] - line[:, 0])
        close(got, v.dot(u), "projection on a straight line", atol=tol)
    # a vector may be no longer than it was
    require((np.abs(got) <= np.linalg.norm(v, axis=1) * (1 + 1e-5) + tol).all(), "projections {0} of vectors of length {1}", got, np.linalg.norm(v, axis=1))
    back = np.asarray(viscid.project_along_line(np.ascontiguousarray(line[:, ::-1]), fld, **kw)).reshape(-1)
    close(back[::-1], -got, "projection the other way", atol=tol)
    if case["line"] == "arc" and n > 5:
        # ends are as good as the next ones are
        for e, s in ((0, 1), (-1, -2)):
            u = line[:, e] - line[:, s]
            u = -u / np.linalg.norm(u) if e == 0 else u / np.linalg.norm(u)
            h = 3.2 / n
            require(abs(got[e] - v[e].dot(u)) <= 2 * h * np.linalg.norm(v[e]) + tol, "projection at an end is {0}, expected {1}", got[e], v[e].dot(u))
    nontrivial(case["line"] != "straight")


# ------------------------------------------------------------ prepare_lines
COLORS = [("#ff0000", (255, 0, 0, 255)), ("#01fE80", (1, 254, 128, 255)), ("k", (0, 0, 0, 255)), ("white", (255, 255, 255, 255)), ("#0f8", (0, 255, 136, 255)), ("#10203040", (16, 32, 48, 64)), ("#1234", (17, 34, 51, 68)), ("navy", (0, 0, 128, 255))]


@st.composite
def prep_cases(draw):
    nl = draw(st.integers(1, 5))
    return {"ns": [draw(st.integers(1, 8)) for _ in range(nl)], "rows": draw(st.sampled_from([3, 3, 3, 4, 6])), "dt": draw(st.sampled_from(["f8", "f4", "i4"])), "seed": draw(seeds), "con": draw(st.booleans()),
            "sc": draw(st.sampled_from(["none", "hex1", "hexn", "hexarr", "rgb", "rgbl", "rgbn", "rgbT", "rgbverts", "rgbvertsT", "vals", "lvals", "lists", "field", "fieldl", "fieldi", "num"])), "cols": [draw(st.integers(0, 7)) for _ in range(nl)],
            "alpha": draw(st.booleans()), "bytes": draw(st.booleans()), "form": draw(st.sampled_from(["array", "list", "tuple"])), "other": draw(st.sampled_from([None, "verts", "lines", "both", "none"]))}


def check_prep(case):
    r = rng(case["seed"])
    ns, sc = case["ns"], case["sc"]
    nl, N = len(ns), sum(ns)
    if case["rows"] > 3:
        sc = "rows"
    # 3 or 4 lines or vertices could be colors
    nc = 4 if case["alpha"] else 3
    if sc in ("rgb", "rgbl", "rgbn", "rgbT", "rgbverts", "rgbvertsT", "lvals", "vals", "lists", "rows") and ({nl, N} & {1, 3, 4} or nl == N):
        raise Discard()
    if sc in ("lists", "fieldi") and set(ns) & {3, 4} or N == 1 and sc.startswith("field"):
        raise Discard()
    xyz = [r.uniform(-1, 1, size=(3, n)) if case["dt"] != "i4" else r.randint(-5, 6, size=(3, n)) for n in ns]
    rows = case["rows"]
    extra = r.uniform(0.01, 0.99, size=(rows - 3, N))
    if rows == 6:
        extra = np.round(extra * 255) if case["bytes"] else extra
    at = np.cumsum([0] + ns)
    lines = [np.concatenate([x, extra[:, a:b]], axis=0).astype("f8" if rows > 3 else case["dt"]) for x, a, b in zip(xyz, at[:-1], at[1:])]
    scal, want, colors = None, None, False
    per = lambda v: np.repeat(v, ns, axis=0)
    conv = {"array": np.array, "list": lambda a: [list(x) if np.ndim(x) else x for x in np.asarray(a).tolist()], "tuple": lambda a: tuple(tuple(x) if np.ndim(x) else x for x in np.asarray(a).tolist())}[case["form"]]
    rgb = lambda n: (r.randint(0, 256, size=(n, nc)) if case["bytes"] else np.clip(np.round(r.uniform(-0.2, 1.2, size=(n, nc)), 1 if case["con"] else 9), 0, 1))

    def as8(c):
        if case["bytes"] and c.max() <= 1:
            raise Discard()
        return c if case["bytes"] else np.round(255 * c)
    if sc == "rows":
        want = extra[0] if rows == 4 else as8(extra.T).T
        colors = rows == 6
    elif sc in ("hex1", "hexn", "hexarr"):
        cols = [COLORS[k] for k in case["cols"]]
        if sc == "hex1":
            scal = cols[0][0]
            cols = cols[:1] * nl
        else:
            scal = [c[0] for c in cols]
            scal = np.array(scal) if sc == "hexarr" else tuple(scal) if case["form"] == "tuple" else scal
        want = per(np.array([c[1] for c in cols])).T
        colors = "hex"
    elif sc in ("rgb", "rgbl"):
        c = rgb(1)[0]
        scal = conv(c)
        want, colors = np.repeat(as8(c)[:, None], N, axis=1), True
    elif sc in ("rgbn", "rgbT"):
        c = rgb(nl)
        scal = np.ascontiguousarray(c.T) if sc == "rgbT" else conv(c)
        want, colors = per(as8(c)).T, True
    elif sc in ("rgbverts", "rgbvertsT"):
        c = rgb(N)
        scal = np.ascontiguousarray(c.T) if sc == "rgbvertsT" else conv(c)
        want, colors = as8(c).T, True
    elif sc == "vals":
        want = r.normal(size=N)
        scal = conv(want)
    elif sc == "lvals":
        v = r.normal(size=nl)
        scal, want = conv(v), per(v)
    elif sc == "lists":
        want = r.normal(size=N)
        scal = [want[a:b] for a, b in zip(at[:-1], at[1:])]
        scal = tuple(scal) if case["form"] == "tuple" else scal
    elif sc == "num":
        scal, want = np.array([2.5]), np.full(N, 2.5)
    elif sc == "field":
        want = r.normal(size=N)
        scal = viscid.arrays2field([np.arange(1.0 * N)], want, center="node")
    elif sc == "fieldl":
        if nl < 2:
            raise Discard()
        v = r.normal(size=nl)
        scal, want = viscid.arrays2field([np.arange(1.0 * nl)], v, center="node"), per(v)
    elif sc == "fieldi":
        c = [np.linspace(-7, 7, 9 + i) for i in range(3)]
        a = r.normal(size=4)
        X = np.meshgrid(*c, indexing="ij")
        scal = viscid.arrays2field(c, a[0] + a[1] * X[0] + a[2] * X[1] + a[3] * X[2], center="node")
        p = np.concatenate(xyz, axis=1)
        want = a[0] + a[1:].dot(p)
    label(sc)
    keep, skeep = [ln.copy() for ln in lines], copy.deepcopy(scal) if isinstance(scal, (list, tuple, np.ndarray)) else None
    other = None
    if case["other"]:
        other = {}
        if case["other"] in ("verts", "both"):
            other["v"] = r.normal(size=N)
        if case["other"] in ("lines", "both") and nl != N:
            other["l"] = r.normal(size=(nl, 1) if case["con"] else (1, nl))
        if case["other"] == "none":
            other["n"] = None
        ok = {k: None if v is None else v.copy() for k, v in other.items()}
    verts, got, con, oth = vutil.prepare_lines(lines, scal, do_connections=case["con"], other=other)
    for a, b in zip(lines, keep):
        eq_arr(a, b, "line afterwards")
    if skeep is not None:
        require(type(skeep) == type(scal) and repr(skeep) == repr(scal), "the given scalars were changed from {0} to {1}", skeep, scal)
    close(verts, np.concatenate(xyz, axis=1), "vertices", rtol=1e-6)
    require(verts.dtype.kind == "f", "dtype of vertices is {0}", verts.dtype)
    if want is None:
        require(got is None, "scalars {0} were made", got)
    elif colors:
        got = np.asarray(got)
        require(got.dtype == np.uint8, "dtype of colors is {0}", got.dtype)
        if colors == "hex" and got.shape[0] == 3:
            require((want[3] == 255).all(), "the alpha channel is missing: {0}", got)
            want = want[:3]
        require(got.shape == want.shape, "shape of colors {0}, expected {1}", got.shape, want.shape)
        eq_arr(got, want.astype("u1"), "colors")
    else:
        require(np.shape(got) == (N,), "shape of scalars {0}, expected {1}", np.shape(got), N)
        close(np.asarray(got), want, "scalars", rtol=1e-5, atol=1e-6)
    if case["con"]:
        ref = [(a + k, a + k + 1) for a, n in zip(at[:-1], ns) for k in range(n - 1)]
        require(np.asarray(con).reshape(-1, 2).tolist() == [list(x) for x in ref], "connections {0}, expected {1}", con, ref)
        require(con.dtype.kind == "i", "dtype of connections {0}", con.dtype)
    else:
        require(con is None, "connections were made")
    if other:
        require(set(oth) == set(ok), "others {0}", set(oth))
        if "v" in ok:
            close(np.asarray(oth["v"]).reshape(-1), ok["v"], "values of vertices")
        if "l" in ok:
            close(np.asarray(oth["l"]).reshape(-1), per(ok["l"].reshape(-1)), "values of lines")
        if "n" in ok:
            require(oth["n"] is None, "nothing became {0}", oth["n"])
    nontrivial(nl > 1 and want is not None)


# ------------------------------------------------------------------- paths
NAMES = ["a", "b", "ab", "abc", "b1", "c", "[x", "a?"]


@st.composite
def tree_(draw, depth=3):
    out = {}
    for k in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
        out[k] = draw(tree_(depth=depth - 1)) if depth and draw(st.booleans()) else draw(st.sampled_from([1, 2.5, "abc", None, "b"]))
    return out


@st.composite
def path_cases(draw):
    return {"t": draw(tree_()), "p": draw(st.lists(st.sampled_from(["a", "b", "*", "a*", "?", "[ab]", "b?", "ab", "c", "*b*", "nope"]), min_size=1, max_size=4)), "lead": draw(st.sampled_from(["", "/"])), "trail": draw(st.sampled_from(["", "/"]))}


def check_path(case):
    t = case["t"]
    loc = case["lead"] + "/".join(case["p"]) + case["trail"]
    keep = copy.deepcopy(t)
    want = [(t, [])]
    for s in case["p"]:
        nxt = []
        for v, path in want:
            if isinstance(v, dict):
                # the name itself before it is a pattern
                nxt += [(v[k], path + [k]) for k in ([s] if s in v else [k for k in v if fnmatch.fnmatchcase(k, s)])]
        want = nxt
    if not want:
        raises(lambda: vutil.resolve_path(t, loc), "path {0}".format(loc), KeyError)
        raises(lambda: vutil.find_item(t, loc), "path {0}".format(loc), KeyError)
        return
    vals, paths = vutil.resolve_path(t, loc)
    require([p.strip("/") for p in paths] == ["/".join(p) for _, p in want], "{0} is {1}, expected {2}", loc, paths, want)
    require(len(vals) == len(want) and all(a is b[0] for a, b in zip(vals, want)), "values at {0} are {1}, expected {2}", loc, vals, want)
    items = vutil.find_items(t, loc)
    require(all(a is b for a, b in zip(items, vals)) and len(items) == len(vals), "find_items {0}", items)
    v, p = vutil.resolve_path(t, loc, first=True)
    require((p.strip("/"), v) in [("/".join(b), a) for a, b in want], "the first at {0} is {1}", loc, (v, p))
    require(vutil.find_item(t, loc) is v, "find_item")
    require(t == keep, "the tree was changed")
    nontrivial(len(want) > 1)


FACETS = [
    Facet("resample", res_cases(), check_res, quick=400, rule="several lines and other numbers of points"),
    Facet("integrals", int_cases(), check_int, quick=300, rule="lines of different lengths"),
    Facet("project", proj_cases(), check_proj, quick=300, rule="lines with curvature"),
    Facet("prepare", prep_cases(), check_prep, quick=800, rule="several lines with values or colors"),
    Facet("paths", path_cases(), check_path, quick=600, rule="several matches"),
]
