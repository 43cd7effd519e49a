"""C22: nulls, clusters and separators are where the field has them"""
import itertools

import numpy as np
import scipy.linalg
from hypothesis import strategies as st

import viscid
from viscid.calculator import cluster, separator, topology
from viscid.cython import null_tools, streamline
from vf.core import Discard, Facet, close, eq_arr, label, nontrivial, require, rng, seeds


def mkfield(arr, nodes, layout, center, dtype="f8", cdt="f8"):
    crds = viscid.arrays2crds([np.asarray(c, dtype=cdt) for c in nodes])
    arr = arr.astype(dtype)
    if layout == "flat":
        arr, lay = np.ascontiguousarray(np.moveaxis(arr, -1, 0)), viscid.field.LAYOUT_FLAT
    else:
        lay = viscid.field.LAYOUT_INTERLACED
    return viscid.wrap_field(arr, crds, name="b", fldtype="vector", center=center, layout=lay)


def mknodes(r, n, uniform):
    out = []
    for i, k in enumerate(n):
        c = np.linspace(-1.0 - 0.3 * i, 2.0 + 0.2 * i, k)
        if not uniform:
            c[1:-1] += 0.3 * (c[1] - c[0]) * r.uniform(-1, 1, size=k - 2)
        out.append(c)
    return out


# ----------------------------------------------------- nulls of linear fields
@st.composite
def linear_cases(draw):
    return {"n": [draw(st.sampled_from([4, 5, 6, 8, 9])) for _ in range(3)], "seed": draw(seeds), "uniform": draw(st.booleans()), "layout": draw(st.sampled_from(["flat", "interlaced"])),
            "center": draw(st.sampled_from(["node", "cell"])), "kind": draw(st.sampled_from(["general", "diag", "perm", "spiral", "o", "sheared"])), "out": draw(st.sampled_from([None, None, None, 0, 1, 2])),
            "f4": draw(st.sampled_from([None, None, "data", "both"])), "slc": draw(st.sampled_from([None, None, ":, 1:", "::-1, :, 1:", ":, :, :-1", "::2"])), "ibound": draw(st.sampled_from([0.0, 0.0, 0.5, 1.0]))}


def mkjac(r, kind):
    s = r.choice([-1.0, 1.0], size=3)
    if kind == "diag":
        return np.diag(s * r.uniform(0.5, 3, size=3))
    if kind == "perm":
        return np.diag(s * r.uniform(0.5, 3, size=3))[r.permutation(3)]
    if kind in ("spiral", "o"):
        m = np.zeros((3, 3))
        m[0, 1], m[1, 0], m[2, 2] = 2.0, -1.0 - r.uniform(), s[0]
        m[0, 0] = m[1, 1] = -0.5 * s[0]
        if kind == "o":
            m[2, 2] = 0
            m[0, 0] = m[1, 1] = 0
        q, _ = np.linalg.qr(r.normal(size=(3, 3)))
        return q.dot(m).dot(q.T)
    if kind == "sheared":
        m = np.diag(s * r.uniform(0.5, 3, size=3))
        m[0, 1] = r.uniform(-2, 2)
        return m
    return r.normal(size=(3, 3))


def check_linear(case):
    r = rng(case["seed"])
    off = case["center"] == "cell"
    nodes = mknodes(r, [k + off for k in case["n"]], case["uniform"])
    pts = [0.5 * (c[1:] + c[:-1]) if off else c for c in nodes]
    J = mkjac(r, case["kind"])
    cell = [r.randint(0, k - 1) for k in case["n"]]
    r0 = np.array([p[i] + r.uniform(0.05, 0.95) * (p[i + 1] - p[i]) for p, i in zip(pts, cell)])
    if case["out"] is not None:
        r0[case["out"]] = 7.0
    X = np.stack(np.meshgrid(*pts, indexing="ij"), axis=-1)
    B = (X - r0).dot(J.T)
    fld = mkfield(B, nodes, case["layout"], case["center"], "f4" if case["f4"] else "f8", "f4" if case["f4"] == "both" else "f8")
    if case["slc"]:
        fld = fld[case["slc"]]
    if min(fld.sshape) < 3 or sorted(fld.sshape)[0] == 3:
        # 3 might be the number of components
        raise Discard()
    crd = [np.asarray(c, dtype="f8") for c in fld.get_crds("xyz")]
    want = []
    for c, v in zip(crd, r0):
        lo, hi = np.minimum(c[1:], c[:-1]), np.maximum(c[1:], c[:-1])
        want += [np.flatnonzero((lo < v) & (v < hi))]
        if (np.abs(c - v) < 1e-3).any():
            raise Discard()
    want = [int(w[0]) for w in want] if all(len(w) == 1 for w in want) else None
    if want is not None and sum(c[i]**2 for c, i in zip(crd, want)) < case["ibound"]**2:
        want = None
    keep = np.array(fld.data)
    kw = {"ibound": case["ibound"]} if case["ibound"] else {}
    if case["kind"] == "o":
        # a line of them
        d = np.linalg.svd(J)[2][2]
        label("line")
        inds, loc = viscid.find_nulls(fld, **kw)
        for k in range(inds.shape[1]):
            # each is on the line, as far as roundoff can tell
            i = inds[:, k]
            lo = np.array([min(c[j], c[j + 1]) for c, j in zip(crd, i)])
            hi = np.array([max(c[j], c[j + 1]) for c, j in zip(crd, i)])
            with np.errstate(all="ignore"):
                t = np.array([(lo - 1e-3 - r0) / d, (hi + 1e-3 - r0) / d])
            require(t.min(axis=0).max() <= t.max(axis=0).min(), "null at {0} is not on the line of nulls", i)
        return
    inds, loc = viscid.find_nulls(fld, **kw)
    eq_arr(np.asarray(fld.data), keep, "field after looking for nulls")
    require(inds.shape[0] == 3 and loc.shape == inds.shape, "shapes {0} {1}", inds.shape, loc.shape)
    got = sorted(map(tuple, np.asarray(inds).T.tolist()))
    require(got == ([tuple(want)] if want is not None else []), "nulls in {0}, expected {1}", got, want)
    for k in range(inds.shape[1]):
        close(loc[:, k], [c[i] for c, i in zip(crd, inds[:, k])], "location", rtol=1e-6)
    ev = np.linalg.eigvals(J)
    if np.abs(ev.real).min() > 1e-2 and (np.abs(ev.imag) > 1e-2).sum() in (0, 2) and (np.abs(ev.imag[np.abs(ev.imag) <= 1e-2]) < 1e-12).all() and case["f4"] is None:
        res = null_tools.find_classified_nulls(fld, **kw)
        rl = ev[np.abs(ev.imag) < 1e-12].real
        typ = None
        if len(rl) == 1:
            typ = "A" if rl[0] > 0 else "B"
        elif (rl > 0).sum() in (1, 2):
            typ = "A" if (rl > 0).sum() == 1 else "B"
        for t in "OAB":
            require(res[t][0].shape[0] == 3 and res[t][1].shape == res[t][0].shape, "shapes of {0}", t)
            if typ is not None:
                g = sorted(map(tuple, np.asarray(res[t][0]).T.tolist()))
                require(g == (got if t == typ else []), "{0} nulls {1}, expected {2} to be {3}", t, g, got, typ)
    nontrivial(want is not None)


# ----------------------------------------------- nulls of trilinear fields
@st.composite
def tri_cases(draw):
    return {"n": [draw(st.sampled_from([2, 4, 5])) for _ in range(3)], "seed": draw(seeds), "layout": draw(st.sampled_from(["flat", "interlaced"])), "mean": draw(st.sampled_from([0.0, 0.3])),
            "ints": draw(st.booleans()), "ibound": draw(st.sampled_from([0.0, 0.0, 1.0]))}


def tri_roots(f):
    """all the zeros of a trilinear field on the unit cell, f has shape (2, 2, 2, 3) -> real roots, all roots"""
    c = f.copy()
    for ax in range(3):
        lo, hi = np.take(c, 0, axis=ax), np.take(c, 1, axis=ax)
        c = np.stack([lo, hi - lo], axis=ax)
    # for each x, a linear system in the monomials y^j z^k, j < 3, k < 2
    M = np.zeros((2, 6, 6))
    for comp in range(3):
        for sh in range(2):
            for i, j, k in itertools.product(range(2), repeat=3):
                M[i, comp * 2 + sh, (j + sh) * 2 + k] = c[i, j, k, comp]
    w, v = scipy.linalg.eig(M[0], -M[1])
    out = []
    for val, vec in zip(w, v.T):
        if not np.isfinite(val) or abs(val) > 1e6:
            continue
        # vec = [1, z, y, yz, y2, y2z]
        if abs(vec[0]) < 1e-9 * np.abs(vec).max():
            continue
        out.append([val, vec[2] / vec[0], vec[1] / vec[0]])
    return np.array(out).reshape(-1, 3)


def check_tri(case):
    r = rng(case["seed"])
    n = case["n"]
    nodes = [np.linspace(-1.0, 2.0 + i, k) for i, k in enumerate(n)]
    arr = r.normal(size=n + [3]) + case["mean"]
    fld = mkfield(arr, nodes, case["layout"], "node")
    inds, loc = viscid.find_nulls(fld, ibound=case["ibound"])
    got = set(map(tuple, np.asarray(inds).T.tolist()))
    require(len(got) == inds.shape[1], "nulls {0} are repeated", inds)
    some = 0
    for cell in itertools.product(*[range(k - 1) for k in n]):
        f = arr[tuple(slice(i, i + 2) for i in cell)]
        rts = tri_roots(f)
        inside, sure = 0, True
        for q in rts:
            im = np.abs(q.imag).max()
            if 1e-9 < im < 1e-2:
                sure = False
            if im >= 1e-2:
                continue
            q = q.real
            if ((q > -1e-3) & (q < 1 + 1e-3)).all():
                if ((q > 1e-3) & (q < 1 - 1e-3)).all():
                    inside += 1
                else:
                    sure = False
        if not sure:
            continue
        if sum(c[i]**2 for c, i in zip(nodes, cell)) < case["ibound"]**2:
            require(cell not in got, "null in cell {0}, which is within {1} of the origin", cell, case["ibound"])
            continue
        # pairs of nulls in one cell are beyond the method
        if inside == 1:
            some += 1
            require(cell in got, "the null in cell {0} wasn't found: {1}", cell, rts)
        elif inside == 0:
            require(cell not in got, "no null in cell {0}, all roots are {1}", cell, rts)
    nontrivial(some > 0)


# ---------------------------------------------------------------- clusters
@st.composite
def cluster_cases(draw):
    n = [draw(st.integers(2, 12)) for _ in range(2)]
    m = draw(st.integers(1, 14))
    pos = [st.integers(0, k - 1) for k in n]
    if draw(st.booleans()):
        # clusters over the edges and corners
        m = draw(st.integers(1, 6))
        pos = [st.sampled_from(sorted(set([0, 1, k - 2, k - 1]))) if k > 4 else p for k, p in zip(n, pos)]
    return {"n": n, "pts": [[draw(pos[0]), draw(pos[1])] for _ in range(m)], "diag": draw(st.booleans()),
            "per": [draw(st.sampled_from([False, False, "0", True, "1", "+", " + "])) for _ in range(2)], "multiple": draw(st.sampled_from([True, True, True, False])), "seed": draw(seeds),
            "uniform": draw(st.booleans()), "lst": draw(st.booleans())}


def check_cluster(case):
    r = rng(case["seed"])
    n = case["n"]
    xs = []
    for i, k in enumerate(n):
        c = np.linspace(-1.0 - i, 3.0 + 2 * i, k)
        if not case["uniform"]:
            c[1:-1] += 0.3 * (c[1] - c[0]) * r.uniform(-1, 1, size=k - 2)
        xs.append(c)
    pts = [list(p) for p in dict.fromkeys(map(tuple, case["pts"]))]
    per = [p not in (False, "0") for p in case["per"]]
    L = [xs[i][-1] - xs[i][0] + ((xs[i][-1] - xs[i][-2]) if str(case["per"][i]).strip() == "+" else 0) if per[i] else 0.0 for i in range(2)]
    # overlapped: the first and last are the same place, that they're next to each other is all that's judged
    ix, iy = [p[0] for p in pts], [p[1] for p in pts]
    conv = list if case["lst"] else np.array
    label("per {0}{1}".format(*map(int, per)))
    if not case["multiple"]:
        got = viscid.find_clusters(conv(ix), conv(iy), xs[0], xs[1], multiple=False, periodic=(False, False), diagonals=case["diag"])
        close(got, np.array([[xs[0][ix].mean()], [xs[1][iy].mean()]]), "mean of all points", rtol=1e-9)
        return
    # connected components, unwrapped
    def neighbors(a, b):
        """the shift that brings b next to a"""
        for s in itertools.product(*[(0, 1, -1) if per[i] else (0,) for i in range(2)]):
            d = [b[i] + s[i] * n[i] - a[i] for i in range(2)]
            if max(map(abs, d)) <= 1 and (case["diag"] or sum(map(abs, d)) <= 1):
                yield s
    comps, seen = [], {}
    for k in range(len(pts)):
        if k in seen:
            continue
        seen[k] = (0, 0)
        todo, comp = [k], [k]
        while todo:
            a = todo.pop()
            for b in range(len(pts)):
                if b == a:
                    continue
                for s in neighbors(pts[a], pts[b]):
                    t = tuple(seen[a][i] + s[i] for i in range(2))
                    if b in seen:
                        if seen[b] != t:
                            # goes around
                            raise Discard()
                    else:
                        seen[b] = t
                        todo.append(b)
                        comp.append(b)
        comps.append(comp)
    for i in range(2):
        if per[i] and "+" not in str(case["per"][i]):
            # the first place is the last
            for a in pts:
                for b in pts:
                    if (a[i], b[i]) in ((n[i] - 1, 1), (0, n[i] - 2)) or (a[i], b[i]) == (0, n[i] - 1) and False:
                        raise Discard()
    want = np.array([[np.mean([xs[i][pts[k][i]] + seen[k][i] * L[i] for k in comp]) for i in range(2)] for comp in comps])
    got = viscid.find_clusters(conv(ix), conv(iy), xs[0], xs[1], periodic=tuple(case["per"]), diagonals=case["diag"])
    require(got.shape == (2, len(comps)), "{0} clusters, expected {1}: {2}", got.shape, len(comps), comps)
    left = list(range(len(comps)))
    for g in got.T:
        best = None
        for k in left:
            d = [(g[i] - want[k, i]) for i in range(2)]
            d = [d[i] - L[i] * np.round(d[i] / L[i]) if L[i] else d[i] for i in range(2)]
            if np.abs(d).max() < 1e-9:
                best = k
        require(best is not None, "cluster at {0}, expected {1}", g, want[left])
        left.remove(best)
        for i in range(2):
            # without overlap, a period is longer than the coordinates are
            dx = L[i] - (xs[i][-1] - xs[i][0]) if per[i] else 0
            require(xs[i][0] - dx - 1e-9 <= g[i] <= xs[i][-1] + dx + 1e-9, "cluster at {0} is outside of {1}", g, xs[i])
    nontrivial(len(pts) > len(comps) > 1)


# ---------------------------------------------------------------- separators
@st.composite
def bitor_cases(draw):
    return {"n": [draw(st.integers(8, 40)) for _ in range(2)], "c": [draw(st.floats(0.2, 0.8)) for _ in range(2)], "ang": draw(st.floats(0, 6.3)), "skew": draw(st.sampled_from([0.0, 0.3, -0.4])),
            "noise": draw(st.booleans()), "mask": draw(st.sampled_from(["default", "default", 0, 15])), "sep": draw(st.booleans()), "depth": draw(st.sampled_from([None, 1, 2, 3])), "seed": draw(seeds),
            "per": draw(st.sampled_from(["00", "00", (False, False), "+0"])), "multi": draw(st.booleans())}


def check_bitor(case):
    r = rng(case["seed"])
    n = case["n"]
    xs = [np.linspace(-1.0, 2.0, n[0]), np.linspace(0.0, 5.0, n[1])]
    c = [xs[i][0] + case["c"][i] * (xs[i][-1] - xs[i][0]) for i in range(2)]
    X, Y = np.meshgrid((xs[0] - c[0]) / (xs[0][1] - xs[0][0]), (xs[1] - c[1]) / (xs[1][1] - xs[1][0]), indexing="ij")
    a1, a2 = case["ang"], case["ang"] + np.pi / 2 + case["skew"]
    s1, s2 = X * np.sin(a1) - Y * np.cos(a1) > 0, X * np.sin(a2) - Y * np.cos(a2) > 0
    vals = 2**r.permutation(4)
    topo = vals[s1 * 2 + s2].astype(int)
    kw = {}
    if case["mask"] != "default":
        kw["mask_limit"] = case["mask"]
    if case["noise"] and case["mask"] != 0:
        topo |= 16 * r.randint(0, 4, size=topo.shape)
    if case["per"] == "+0":
        # the seam has all of them too, use another picture
        raise Discard()
    if case["sep"]:
        # also just two of them
        kw["sep_val"] = 15
    if case["depth"]:
        kw["min_depth"] = case["depth"]
    fld = viscid.arrays2field(xs, topo, name="topo", center="node")
    if not case["multi"]:
        kw["multiple"] = False
    pts = viscid.topology_bitor_clusters(fld, periodic=case["per"], **kw)
    eq_arr(np.asarray(fld.data), topo, "topology afterwards")
    require(pts.shape == (2, 1), "{0} separators, expected one at {1}", pts, c)
    # all four lie within a few cells
    tol = 2.0 + 1.5 * (case["depth"] or 1) + 3 * abs(case["skew"])
    for i in range(2):
        require(abs(pts[i, 0] - c[i]) <= tol * (xs[i][1] - xs[i][0]), "separator at {0}, expected {1}", pts[:, 0], c)
    nontrivial(min(n) > 12)


@st.composite
def or_cases(draw):
    return {"n": [draw(st.integers(3, 14)) for _ in range(2)], "seed": draw(seeds), "bits": draw(st.sampled_from([1, 1, 2])), "few": draw(st.booleans()),
            "min": draw(st.integers(1, 4)), "max": draw(st.integers(1, 8)), "mask": draw(st.sampled_from([None, 0, 15, 7, 3])), "sep": draw(st.sampled_from([15, 15, 7, 3])),
            "per": draw(st.sampled_from(["00", "00", "10", "01", "11"])), "bnds": draw(st.sampled_from([(), (), ("0-",), ("0+",), ("1-",), ("1+", "1-"), ("0-", "0+")])),
            "center": draw(st.sampled_from(["node", "cell"])), "high": draw(st.booleans()), "uniform": draw(st.booleans()), "multi": draw(st.booleans())}


def check_or(case):
    """each point of the n-th picture has the bits of the (n + 1) x (n + 1) points around it, and of what is next to those"""
    r = rng(case["seed"])
    n = case["n"]
    if case["few"]:
        # patches of the same topology
        topo = np.repeat(np.repeat(1 << r.randint(0, 4, size=(3, 3)), 5, axis=0), 5, axis=1)[:n[0], :n[1]]
    else:
        topo = 1 << r.randint(0, 4, size=n)
        for _ in range(case["bits"] - 1):
            topo |= 1 << r.randint(0, 4, size=n)
    topo = topo.astype(int)
    if case["high"]:
        topo = topo | 16 * r.randint(0, 3, size=n)
    xs = []
    for i in range(2):
        c = np.linspace(-1.0, 2.0 + i, n[i] + (case["center"] == "cell"))
        if not case["uniform"]:
            c[1:-1] += 0.3 * (c[1] - c[0]) * r.uniform(-1, 1, size=len(c) - 2)
        xs.append(c)
    fld = viscid.arrays2field(xs, topo, name="topo", center=case["center"])
    x, y = [np.array(c) if case["center"] == "node" else 0.5 * (c[1:] + c[:-1]) for c in xs]
    mask = 15 if case["mask"] is None else case["mask"]
    a = [[int(v) & mask if mask else int(v) for v in row] for row in topo]
    per = [p == "1" for p in case["per"]]
    found = []
    for it in range(case["max"]):
        nx, ny = len(a), len(a[0])
        if nx < 2 or ny < 2:
            raise Discard("nothing left")
        if per[0]:
            for j in range(ny):
                a[0][j] = a[-1][j] = a[0][j] | a[-1][j]
        if per[1]:
            for i in range(nx):
                a[i][0] = a[i][-1] = a[i][0] | a[i][-1]
        a = [[a[i][j] | a[i + 1][j] | a[i][j + 1] | a[i + 1][j + 1] for j in range(ny - 1)] for i in range(nx - 1)]
        x, y = 0.5 * (x[1:] + x[:-1]), 0.5 * (y[1:] + y[:-1])
        for b in case["bnds"]:
            k = 0 if b[1] == "-" else -1
            if b[0] == "0":
                v = 0
                for e in a[k]:
                    v |= e
                a[k] = [v] * len(a[k])
            else:
                v = 0
                for row in a:
                    v |= row[k]
                for row in a:
                    row[k] = v
        found = [(i, j) for i in range(len(a)) for j in range(len(a[0])) if a[i][j] == case["sep"]]
        if it + 1 >= case["min"] and found:
            break
    if (per[0] and len(x) < 2) or (per[1] and len(y) < 2):
        raise Discard("nothing left")
    want = viscid.find_clusters([p[0] for p in found], [p[1] for p in found], x, y, multiple=case["multi"], periodic=case["per"]) if found else np.zeros((2, 0))
    kw = {} if case["mask"] is None else {"mask_limit": mask}
    if case["sep"] != 15:
        kw["sep_val"] = case["sep"]
    got = viscid.topology_bitor_clusters(fld, min_depth=case["min"], max_depth=case["max"], multiple=case["multi"], periodic=case["per"], pt_bnds=case["bnds"], **kw)
    eq_arr(np.asarray(fld.data), topo, "topology afterwards")
    require(np.asarray(got).size == want.size, "{0} separators, expected {1}", got, want)
    if want.size:
        order = lambda p: np.asarray(p)[:, np.lexsort(np.round(np.asarray(p), 9))]
        close(order(got), order(want), "separators", 0, 1e-9)
    nontrivial(len(found) > 0 and it > 0)


@st.composite
def sep_cases(draw):
    return {"p": [draw(st.floats(-0.55, 0.55)) for _ in range(2)], "tilt": draw(st.floats(0, 6.3)), "n": [draw(st.integers(6, 16)) for _ in range(2)], "guide": draw(st.sampled_from([0.0, 0.05])),
            "which": draw(st.sampled_from(["bisect", "bisect", "bitor"])), "depth": draw(st.integers(3, 7)), "L": draw(st.floats(0.5, 0.8)), "W": draw(st.floats(0.5, 0.8)), "uv": draw(st.booleans()),
            "seedtype": draw(st.sampled_from(["plane", "plane", "volume", "sphere", "sphere"])),
            "pole": draw(st.sampled_from([[1, 0, 0], [0, 0, 1], [0.3, 1.0, 0.2], [1.0, 1.0, 1.0]])), "half": draw(st.booleans()), "tp": draw(st.booleans()), "roll": draw(st.floats(0, 360))}


def check_sep(case):
    """an X line in a box: lines leave through left or right and top or bottom"""
    # nothing starts exactly on a separatrix
    px, py = case["p"] = [round(v, 3) + 0.000314159 for v in case["p"]]
    nodes = [np.linspace(-2.0, 2.0, 7), np.linspace(-2.0, 2.0, 8), np.linspace(-2.0, 2.0, 6)]
    X = np.stack(np.meshgrid(*nodes, indexing="ij"), axis=-1)
    B = np.stack([X[..., 0] - px, -(X[..., 1] - py), np.full(X.shape[:3], case["guide"])], axis=-1)
    fld = mkfield(B, nodes, "interlaced", "node")
    flags = [streamline.END_OBOUND_XL, streamline.END_OBOUND_XH, streamline.END_OBOUND_YL, streamline.END_OBOUND_YH]
    allv = int(np.bitwise_or.reduce(flags))
    opts = {"ibound": 0.0, "topo_style": "generic", "max_length": 1e4, "ds0": 0.05}
    if case["seedtype"] == "sphere":
        return check_sphere(case, fld, allv, opts)
    if case["seedtype"] == "volume":
        seed = viscid.Volume([-0.9, -0.8, 0.1], [0.9, 1.0, 0.1], (case["n"][0], case["n"][1], 1))
        ext = np.array([1.8, 1.8])
    else:
        seed = viscid.Plane((0, 0, 0.1), (0, 0, 1), (1, 0, 0), len_l=(-0.9, 0.9), len_m=(-0.8, 1.0), nl=case["n"][0], nm=case["n"][1])
        ext = np.array([1.8, 1.8])
    if case["which"] == "bisect":
        pts = viscid.get_sep_pts_bisect(fld, seed, trace_opts=opts, max_depth=case["depth"], make_3d=not case["uv"], perimeter_check=lambda a: int(np.bitwise_or.reduce(np.asarray(a).astype(int))) & allv == allv)
        tol = 1.5 * ext / 2**case["depth"] + 1e-6
    else:
        pts = viscid.get_sep_pts_bitor(fld, seed, trace_opts=opts, make_3d=not case["uv"], sep_val=allv, mask_limit=allv)
        tol = 2.5 * ext / (np.array(case["n"]) - 1)
    label(case["which"])
    require(pts.shape[0] == (2 if case["uv"] else 3) and pts.shape[1] >= 1, "separators {0}", pts)
    if not case["uv"]:
        close(pts[2], np.full(pts.shape[1], 0.1), "z of the separator", atol=1e-6)
    for k in range(pts.shape[1]):
        for i in range(2):
            require(abs(pts[i, k] - case["p"][i]) <= tol[i], "separator at {0}, expected {1} within {2}", pts[:, k], case["p"], tol)
    nontrivial(case["depth"] > 4)


def check_sphere(case, fld, allv, opts):
    """the X line goes through a sphere twice"""
    r = 0.8
    nt, nphi = 10 + case["n"][0], 20 + 2 * case["n"][1]
    p0 = np.array(case["p"] + [0.1])
    # not quite centered on it
    p0[0] += 0.00123
    kw = {"thetalim": (20, 160), "philim": (10, 300)} if case["half"] else {}
    seed = viscid.Sphere(p0, r=r, pole=case["pole"], ntheta=nt, nphi=nphi, theta_phi=case["tp"], roll=case["roll"], **kw)
    want = [np.array([case["p"][0], case["p"][1], p0[2] + s * np.sqrt(r**2 - 0.00123**2)]) for s in (-1, 1)]
    tol = 2.5 * r * max(np.pi / nt, 2 * np.pi / nphi)
    label("half" if case["half"] else "sphere")
    found = [False, False]
    all3 = np.asarray(seed.get_points())
    if case["half"]:
        # without any separator, ever larger places are looked at as one
        if any(np.linalg.norm(all3 - w[:, None], axis=0).min() > 0.25 * tol for w in want):
            raise Discard()
    pts = viscid.get_sep_pts_bitor(fld, seed, trace_opts=opts, sep_val=allv, mask_limit=allv)
    for q in pts.T:
        d = [np.linalg.norm(q - w) for w in want]
        require(min(d) <= tol, "separator at {0}, expected one of {1} within {2}", q, want, tol)
        found[int(np.argmin(d))] = True
    for f, w in zip(found, want):
        # it's done once there are any, both look the same only if they're a quarter turn from the pole
        if case["pole"] == [1, 0, 0] and not case["half"]:
            require(f, "the separator at {0} wasn't found: {1}", w, pts)
    require(any(found), "no separator was found, expected {0}", want)
    nontrivial()


# ------------------------------------------------------------------ colors
@st.composite
def color_cases(draw):
    return {"vals": draw(st.lists(st.sampled_from([1, 2, 4, 8, 0, 3, 15, 16, 7]), min_size=1, max_size=12)), "style": draw(st.sampled_from(["msphere", "generic", "dict", None])),
            "bad": draw(st.sampled_from([None, [0.1, 0.2, 0.3]])), "form": draw(st.sampled_from(["int", "list", "array", "field", "np"]))}


def check_color(case):
    table = {streamline.TOPOLOGY_MS_CLOSED: (0.0, 0.8, 0.0), streamline.TOPOLOGY_MS_OPEN_NORTH: (0.0, 0.0, 0.7), streamline.TOPOLOGY_MS_OPEN_SOUTH: (0.7, 0.0, 0.0), streamline.TOPOLOGY_MS_SW: (0.7, 0.7, 0.7)}
    style = case["style"]
    kw = {}
    if style == "dict":
        table = {1: (0.5, 0.25, 0.0), 15: (1.0, 1.0, 0.5)}
        kw["topo_style"] = table
    elif style == "generic":
        table = {}
        kw["topo_style"] = "generic"
    elif style:
        kw["topo_style"] = style
    bad = tuple(case["bad"] or (0.0, 0.0, 0.0))
    if case["bad"]:
        kw["bad_color"] = bad
    vals = case["vals"]
    want = np.array([table.get(v, bad) for v in vals])
    form = case["form"]
    if form in ("int", "np"):
        got = topology.topology2color(vals[0] if form == "int" else np.int64(vals[0]), **kw)
        require(tuple(got) == tuple(want[0]), "color of {0} is {1}, not {2}", vals[0], got, want[0])
        return
    arg = {"list": lambda: vals, "array": lambda: np.array(vals), "field": lambda: viscid.arrays2field([np.arange(1.0 * len(vals))], np.array(vals), center="node")}[form]()
    if form == "field" and len(vals) < 2:
        raise Discard()
    got = viscid.topology2color(arg, **kw)
    eq_arr(got, want, "colors of {0}".format(vals))
    nontrivial(len(set(vals)) > 2)


FACETS = [
    Facet("linear", linear_cases(), check_linear, quick=600, rule="the null is in the box"),
    Facet("trilinear", tri_cases(), check_tri, quick=200, rule="some cells have one null"),
    Facet("clusters", cluster_cases(), check_cluster, quick=1000, rule="several clusters, some of several points"),
    Facet("bitor", bitor_cases(), check_bitor, quick=300, rule="more than 12 points either way"),
    Facet("neighborhoods", or_cases(), check_or, quick=500, rule="found after several steps"),
    Facet("separators", sep_cases(), check_sep, quick=60, thorough=600, rule="deep bisection"),
    Facet("colors", color_cases(), check_color, quick=200, rule="several values"),
]
